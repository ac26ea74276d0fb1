package main

import (
	"fmt"
	"strings"

	"xbnfsim/gram"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

// Kind is one property's simulation: how scenarios are drawn and how one is
// executed and judged.
type Kind struct {
	Prop string
	Gen  func(r *gram.Rand, idx int) *Scn
	Run  func(scn *Scn, dec *simrt.Decider, res *Result)
	Rule string // how cases are made and what makes one non-trivial
}

var kinds = map[string]*Kind{}

func register(k *Kind) { kinds[k.Prop] = k }

func init() {
	register(&Kind{Prop: "C01", Gen: genC01, Run: runC01,
		Rule: "A case is a generated grammar (1-6 rules, 1-3 roots or more, or the JSON/arithmetic samples) and a text; it is built and parsed under the canonical and several simulator-chosen visiting orders of every unordered collection. Non-trivial: at least one collection with two or more entries was visited in a non-canonical order and the text is not empty; distinct by grammar, text and the orders drawn."})
	register(&Kind{Prop: "C02", Gen: genStream("C02"), Run: runC02,
		Rule: "A case is a generated grammar, a text derived from it (possibly mutated), a stream kind (library's own or a caller's, reading ahead or not, arriving in bursts or not) and one visiting order; the whole parse is compared with the reference evaluator. Non-trivial: the reference saw give-back (a partial match undone, a longer alternative winning, an option skipped) or consumed at least two characters; distinct by grammar, text, stream kind and schedule."})
	register(&Kind{Prop: "C03", Gen: genC03, Run: runC03,
		Rule: "A case is a session of rule evaluations with put-back on one caller-owned stream, each evaluation compared with the reference and with the stream's own record of what left it. Non-trivial: at least one evaluation took characters; distinct by grammar, text, operation list and stream kind."})
	register(&Kind{Prop: "C04", Gen: genC04, Run: runC04,
		Rule: "A case is a grammar and a text parsed at every truncation point and under a list of delivery faults (replaced, dropped, repeated characters, bursts, stalls), each compared with the reference and with a whole delivery of the same text. Non-trivial: at least one faulted delivery was parsed; distinct by grammar, text and fault list."})
	register(&Kind{Prop: "C08", Gen: genC08, Run: runC08,
		Rule: "A case is a parse of a multi-line text with observer tasks reading positions of the same stream at simulator-chosen points, or a history of stream operations; every node's and every looked-up position is compared with the true line and column. Non-trivial: a position behind a line break was checked, or observers ran; distinct by grammar, text, history and interleaving."})
	register(&Kind{Prop: "C15", Gen: genC15, Run: runC15,
		Rule: "A case is a grammar rich in parts that can match nothing and a text, parsed, evaluated per rule and scanned within a step budget derived from the reference evaluator's work, alone and next to a stalled parse. Non-trivial: the grammar has a nullable part or a stream stalled; distinct by grammar, text and jobs."})
	register(&Kind{Prop: "C16", Gen: genC16, Run: runC16,
		Rule: "A case is an embedded scan (alone or concurrent with others on one grammar) compared with the reference partition. Non-trivial: the scan found a match and free text, or several scans interleaved; distinct by grammar, sample, rule and interleaving."})
}

func grammarText(scn *Scn) string {
	if scn.GText != "" {
		return scn.GText
	}
	if scn.G != nil {
		return scn.G.Text()
	}
	return ""
}

// rootsOf is the reference root list.
func rootsOf(g *gram.Grammar) []string { return g.Roots() }

// ---- C01

func genC01(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, N: 4 + r.N(5)}
	o := base(r, scn, 40, func(o *gram.Options) {
		o.MultiRoot = 2 + r.N(4)
		if r.P(70) {
			o.Rules = 2 + r.N(5)
			o.Alpha = o.Alpha[:2]
		}
	})
	if scaled(r, scn, idx, 250) {
		scn.N = 2
		return scn
	}
	if r.P(40) {
		// other uses of the grammar before and after the parse
		for i, n := 0, 1+r.N(5); i < n; i++ {
			j := randomJob(r, scn, o, false)
			if r.P(10) {
				j.Op = "validate"
			}
			scn.Jobs = append(scn.Jobs, j)
		}
	}
	return scn
}

func runC01(scn *Scn, dec *simrt.Decider, res *Result) {
	e, ok := modelParse(res, scn.G, rootsOf(scn.G), scn.Text)
	if !ok {
		res.Skip = "model limit"
		return
	}
	budget := budgetFor(e.steps, len(e.t))
	visits, moved := simrt.MapVisits, simrt.MapShuffled
	jobs := scn.Jobs
	firstJobs := make([]string, len(jobs))
retry:
	first := ""
	for k := 0; k <= scn.N; k++ {
		d := dec
		if k == 0 {
			d = nil
		}
		var outs [2]string
		jobOuts := make([]string, len(jobs))
		allow := 2 * budget
		if k > 0 {
			allow *= 2 // what fitted once fits in any order
		}
		fate, _ := solo(res, d, allow, func() {
			g, err := grammarOf(scn)
			if err != nil {
				outs[0] = "BUILD " + err.Error()
				return
			}
			n := 1
			if k%3 == 0 {
				n = 2
			}
			// the jobs run before, after or around the parse
			at := k % (len(jobs) + 1)
			for i, j := range jobs {
				if i >= at {
					jobOuts[i] = runJob(g, j).Out
				}
			}
			defer func() {
				for i, j := range jobs {
					if i < at {
						jobOuts[i] = runJob(g, j).Out
					}
				}
			}()
			for i := 0; i < n; i++ {
				ast, err := g.EvalRaw(NewSimStream(scn.Text, StreamCfg{}))
				outs[i] = parseOut(ast, err, true)
			}
		})
		if fate != "" && k == 0 && len(jobs) > 0 {
			jobs = nil // too expensive, or not the parse's failure
			goto retry
		}
		if fate != "" {
			res.fail("fate", "order %d: %s", k, fate)
			return
		}
		if outs[1] != "" && outs[0] != outs[1] {
			res.fail("repeat", "second parse on the same grammar differs:\n%s\nvs\n%s", outs[0], outs[1])
			return
		}
		for i, o := range jobOuts {
			if k == 0 {
				firstJobs[i] = o
			} else if o != firstJobs[i] {
				res.fail("order", "job %+v: order %d gives\n%s\ncanonical order gives\n%s", jobs[i], k, o, firstJobs[i])
				return
			}
		}
		if k == 0 {
			first = outs[0]
			if strings.HasPrefix(first, "BUILD") {
				res.fail("build", "%s", first)
				return
			}
			if msg := againstModel(first, e, true); msg != "" {
				res.fail("reference", "canonical order: %s", msg)
				return
			}
		} else if outs[0] != first {
			res.fail("order", "visiting order %d gives\n%s\ncanonical order gives\n%s", k, outs[0], first)
			return
		}
	}
	m := simrt.MapShuffled - moved
	res.fault("visiting order changed", m)
	_ = visits
	if m > 0 && scn.Text != "" {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, res.Hash, dec.Recording()[simrt.StreamMap])
	}
	if e.kind == gram.Ambiguous {
		res.probe("ambiguous text")
	}
}

// againstModel compares a real whole-parse outcome with the reference. pos
// tells that out carries positions (which the comparison then ignores by
// being told the tree separately).
func againstModel(out string, e expect, pos bool) string {
	real := out
	if pos {
		real = stripPos(out)
	}
	if e.kind == gram.OK {
		if want := e.out(false); real != want {
			return fmt.Sprintf("got\n%s\nreference\n%s", real, want)
		}
		return ""
	}
	if !strings.HasPrefix(out, "ERR ") {
		return fmt.Sprintf("got\n%s\nreference: %s", real, e.kind)
	}
	if e.kind == gram.Ambiguous && !strings.Contains(strings.ToLower(out), "ambigu") {
		return fmt.Sprintf("got %q, reference: ambiguous roots", out)
	}
	return ""
}

// stripPos removes " @l:c" marks from a dump.
func stripPos(s string) string {
	var b strings.Builder
	inq := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inq {
			if c == '\\' && i+1 < len(s) {
				b.WriteByte(c)
				i++
				c = s[i]
			} else if c == '"' {
				inq = false
			}
			b.WriteByte(c)
			continue
		}
		if c == '"' {
			inq = true
		}
		if c == ' ' && i+1 < len(s) && s[i+1] == '@' {
			i++
			for i+1 < len(s) && s[i+1] != ' ' && s[i+1] != ')' {
				i++
			}
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// ---- C02

func genStream(prop string) func(r *gram.Rand, idx int) *Scn {
	return func(r *gram.Rand, idx int) *Scn {
		scn := &Scn{Point: -1}
		base(r, scn, 60, nil)
		scaled(r, scn, idx, 1000)
		scn.Stream = streamCfg(r)
		if prop == "C02" && r.P(30) {
			scn.N = 1 + r.N(2)
		}
		return scn
	}
}

func countDelivery(res *Result, s *SimStream) {
	if s == nil {
		return
	}
	res.fault("delayed delivery waits", int64(s.Waits))
	res.fault("stream read ahead", int64(s.Over))
}

func runC02(scn *Scn, dec *simrt.Decider, res *Result) {
	e, ok := modelParse(res, scn.G, rootsOf(scn.G), scn.Text)
	if !ok {
		res.Skip = "model limit"
		return
	}
	var out, basic string
	var st *SimStream
	fate, _ := solo(res, dec, 2*budgetFor(e.steps, len(e.t)), func() {
		g, err := grammarOf(scn)
		if err != nil {
			out = "BUILD " + err.Error()
			return
		}
		st = NewSimStream(scn.Text, scn.Stream)
		var ast *xbnf.AST
		switch scn.N {
		case 1:
			ast, err = g.Eval(st, xbnf.LevelRaw)
		default:
			ast, err = g.EvalRaw(st)
		}
		out = parseOut(ast, err, false)
		if scn.N == 2 && err == nil && e.kind == gram.OK {
			// simplifying leaves what was matched in place
			ast, err := g.Eval(NewSimStream(scn.Text, scn.Stream), xbnf.LevelBasic)
			if err != nil {
				basic = "ERR " + err.Error()
			} else if got, want := solid(ast.Text()), solid(e.leaves()); got != want {
				basic = fmt.Sprintf("accepted with the text %q, simplified to %q", want, got)
			}
		}
	})
	if fate != "" {
		res.fail("fate", "%s", fate)
		return
	}
	if strings.HasPrefix(out, "BUILD") {
		res.fail("build", "%s", out)
		return
	}
	if basic != "" {
		res.fail("simplified", "%s", basic)
		return
	}
	countDelivery(res, st)
	if msg := againstModel(out, e, false); msg != "" {
		res.fail("tree", "%s", msg)
		return
	}
	if e.kind == gram.OK && st.cur != len(st.text) {
		res.fail("cover", "accepted with the stream at %d of %d", st.cur, len(st.text))
		return
	}
	res.probe("outcome " + e.kind)
	if gaveBack(res) || len(e.t) >= 2 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Stream, res.Hash)
	}
}

// solid drops what a printed text may add or leave out.
func solid(t []rune) string {
	var out []rune
	for _, c := range t {
		if !xbnf.IsWhiteSpace(c) && c != gram.EOFChar {
			out = append(out, c)
		}
	}
	return string(out)
}

func (e expect) leaves() []rune {
	var out []rune
	var walk func(n *gram.MNode)
	walk = func(n *gram.MNode) {
		if len(n.Kids) == 0 {
			out = append(out, n.Chars...)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	for _, n := range e.nodes {
		walk(n)
	}
	return out
}

func gaveBack(res *Result) bool {
	for k := range res.Probes {
		switch k {
		case "sequence gives back after a partial match", "longer alternative wins", "option empty", "longer root wins", "repetition below minimum gives back":
			return true
		}
	}
	return false
}

// ---- C03

func genC03(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1}
	o := base(r, scn, 40, nil)
	n := 1 + r.N(8)
	s := ""
	flags := []int{gram.SuggestNotSkip, gram.SuggestSkip, gram.SuggestSkip, gram.NotSkip}
	for i := 0; i < n; i++ {
		op := Op{Op: "eval", S: pickRule(r, scn.G), A: flags[r.N(4)]}
		scn.Ops = append(scn.Ops, op)
		if r.P(65) {
			t := gram.DeriveFrom(r, scn.G, o, scn.G.Lookup(op.S))
			if r.P(20) {
				t = gram.Mutate(r, o, t, 1)
			}
			s += t
		}
	}
	if r.P(70) {
		scn.Text = s
	}
	if t := []rune(scn.Text); len(t) > 50 {
		scn.Text = string(t[:50])
	}
	if scaled(r, scn, idx, 1000) {
		scn.Ops = nil
		for i, n := 0, 1+r.N(3); i < n; i++ {
			scn.Ops = append(scn.Ops, Op{Op: []string{"eval", "eval", "evalrule"}[r.N(3)], S: pickRule(r, scn.G), A: flags[r.N(4)]})
		}
	}
	scn.Stream = StreamCfg{Own: true, Overread: r.P(40), Chunked: r.P(25)}
	if r.P(30) {
		scn.Ops = append(scn.Ops, Op{Op: "evalrule", S: pickRule(r, scn.G)})
	}
	return scn
}

func runC03(scn *Scn, dec *simrt.Decider, res *Result) {
	m := gram.NewModel(scn.G, scn.Text, 4*modelMax)
	// reference session
	type ref struct {
		r gram.Res
		p int
	}
	var refs []ref
	ok := m.Try(func() {
		p := 0
		for _, op := range scn.Ops {
			x := m.G.Lookup(op.S)
			if x == nil {
				continue
			}
			if op.Op == "evalrule" {
				refs = append(refs, ref{m.Eval(x, op.S, 0, gram.SuggestSkip), 0})
				continue
			}
			r := m.Eval(x, op.S, p, op.A)
			refs = append(refs, ref{r, p})
			if r.Node != nil {
				p += r.Used
			}
		}
	})
	res.addModel(m)
	if !ok {
		res.Skip = "model limit"
		return
	}
	took := 0
	var st *SimStream
	fate, _ := solo(res, dec, budgetFor(m.Steps, len(m.T)), func() {
		g, err := grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
			return
		}
		st = NewSimStream(scn.Text, scn.Stream)
		i := -1
		for _, op := range scn.Ops {
			x := m.G.Lookup(op.S)
			if x == nil {
				continue
			}
			i++
			rf := refs[i]
			c0 := st.cur
			var er *xbnf.EvalResult
			taken := []rune(nil)
			if op.Op == "evalrule" {
				er = g.EvalRule(op.S, scn.Text)
				c0 = 0
				if er == nil {
					res.fail("nil", "EvalRule(%s) returned nil", op.S)
					return
				}
				if len(er.CharsRead) > len(st.text) || string(er.CharsRead) != string(st.text[:len(er.CharsRead)]) {
					res.fail("read", "EvalRule(%s): read %q is not what the sample starts with", op.S, string(er.CharsRead))
					return
				}
				taken = er.CharsRead
			} else {
				rule := g.GetRule(op.S)
				if rule == nil {
					res.fail("norule", "rule %s is missing", op.S)
					return
				}
				er = rule.Eval(g, st, op.A)
				if er == nil {
					res.fail("nil", "Eval(%s) returned nil", op.S)
					return
				}
				taken = st.text[c0:st.cur]
			}
			what := fmt.Sprintf("step %d: %s(flag %d) at %d of %q", i, op.S, op.A, c0, scn.Text)
			if string(er.CharsRead) != string(taken) {
				res.fail("read", "%s: reports reading %q, %q left the stream", what, string(er.CharsRead), string(taken))
				return
			}
			nu := len(er.CharsUnused)
			if nu > len(taken) || string(er.CharsUnused) != string(taken[len(taken)-nu:]) {
				res.fail("unused", "%s: gives back %q, which is not the end of what it read (%q)", what, string(er.CharsUnused), string(taken))
				return
			}
			if er.Node == nil && nu != len(taken) {
				res.fail("unmatched", "%s: no match, but only %q of %q is given back", what, string(er.CharsUnused), string(taken))
				return
			}
			got, want := dumpTree(er.Node, false), dumpOne(rf.r.Node, m.T)
			if got != want {
				res.fail("tree", "%s:\n%s\nreference\n%s", what, got, want)
				return
			}
			if er.Node != nil {
				if used := len(taken) - nu; used != rf.r.Used {
					res.fail("used", "%s: used %d characters, reference %d", what, used, rf.r.Used)
					return
				}
				if er.Sticky != rf.r.Sticky {
					res.fail("sticky", "%s: sticky %v, reference %v", what, er.Sticky, rf.r.Sticky)
					return
				}
			}
			if nu > 0 {
				res.probe("put back")
			}
			took += len(taken)
			if op.Op == "eval" {
				st.Unread(nu)
			}
		}
	})
	if fate != "" {
		res.fail("fate", "%s", fate)
		return
	}
	countDelivery(res, st)
	if took > 0 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Ops, scn.Stream)
	}
}

func dumpOne(n *gram.MNode, t []rune) string {
	var b strings.Builder
	n.Dump(&b, t, false)
	return b.String()
}

// ---- C04

func genC04(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1}
	o := base(r, scn, 26, func(o *gram.Options) { o.EOF = o.EOF || r.P(20); o.Blocks = o.Blocks || r.P(20) })
	scn.Stream = streamCfg(r)
	scaled(r, scn, idx, 150)
	n := len([]rune(scn.Text))
	for i, k := 0, 2+r.N(6); i < k; i++ {
		d := Damage{At: r.N(n + 1)}
		switch r.N(3) {
		case 0:
			d.Kind = "replace"
			d.C = []rune{'a', ' ', '\n', 0xFFFD, 0, '"', '(', '1', 'é'}[r.N(9)]
			if r.P(50) {
				d.C = o.Alpha[r.N(len(o.Alpha))]
			}
		case 1:
			d.Kind, d.N = "drop", 1+r.N(4)
		case 2:
			d.Kind, d.N = "dup", 1+r.N(4)
		}
		scn.Damage = append(scn.Damage, d)
	}
	return scn
}

func runC04(scn *Scn, dec *simrt.Decider, res *Result) {
	n := len([]rune(scn.Text))
	total := n + 1 + len(scn.Damage)
	at := int(scn.Seed % uint64(n+1)) // one more cut of a long text
	for pt := 0; pt < total; pt++ {
		if scn.Point >= 0 {
			if pt != scn.Point {
				continue
			}
		} else if scn.Scale && pt > 1 && pt < n-3 && pt != at && pt != n/2 {
			continue
		}
		var text string
		var what string
		if pt <= n {
			text = applyDamage(scn.Text, []Damage{{Kind: "cut", At: pt}})
			what = fmt.Sprintf("cut at %d", pt)
		} else {
			d := scn.Damage[pt-n-1]
			text = applyDamage(scn.Text, []Damage{d})
			what = fmt.Sprintf("%s at %d", d.Kind, d.At)
		}
		e, ok := modelParse(res, scn.G, rootsOf(scn.G), text)
		if !ok {
			res.Skip = "model limit"
			continue
		}
		var out, whole string
		var st *SimStream
		budget := budgetFor(e.steps, len(e.t))
		fate, t := solo(res, dec, budget, func() {
			g, err := grammarOf(scn)
			if err != nil {
				out = "BUILD " + err.Error()
				return
			}
			st = NewSimStream(text, scn.Stream)
			ast, err := g.EvalRaw(st)
			out = parseOut(ast, err, true)
		})
		if fate != "" {
			res.fail("fate", "%s (text %q): %s\n%s", what, text, fate, t.Stack)
			return
		}
		if strings.HasPrefix(out, "BUILD") {
			res.fail("build", "%s", out)
			return
		}
		countDelivery(res, st)
		if pt < n {
			res.fault("stream cut off", 1)
		} else if pt > n {
			res.fault("stream damage: "+scn.Damage[pt-n-1].Kind, 1)
		}
		if msg := againstModel(out, e, true); msg != "" {
			res.fail("reference", "%s (text %q): %s", what, text, msg)
			return
		}
		fate, _ = solo(res, nil, budget, func() {
			g, err := grammarOf(scn)
			if err != nil {
				whole = "BUILD " + err.Error()
				return
			}
			ast, err := g.EvalRaw(xbnf.NewCharstreamFromString(text))
			whole = parseOut(ast, err, true)
		})
		if fate != "" {
			res.fail("fate", "%s, delivered whole (text %q): %s", what, text, fate)
			return
		}
		a, b := out, whole
		if scn.Stream.Overread {
			a, b = verdictOnly(out), verdictOnly(whole)
		}
		if a != b {
			res.fail("delivery", "%s (text %q): delivered in pieces\n%s\ndelivered whole\n%s", what, text, out, whole)
			return
		}
		res.probe("outcome " + e.kind)
	}
	res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Damage, scn.Stream)
	if res.Subruns > 0 {
		res.Skip = ""
	}
}

// ---- C08

func genC08(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	if r.P(25) {
		scn.Kind = "ops"
		n := 1 + r.N(30)
		if r.N(100) == 0 {
			return longOps(r, scn)
		}
		t := []rune{}
		for i := 0; i < n; i++ {
			t = append(t, []rune{'a', 'b', '\n', '\n', ' ', '\t', 'é', '\r'}[r.N(8)])
		}
		scn.Text = string(t)
		for i, k := 0, 2+r.N(24); i < k; i++ {
			op := Op{Op: []string{"next", "next", "peek", "match", "skip", "pos", "lookup", "cursor", "matchno"}[r.N(9)], A: r.N(n + 3), B: 1 + r.N(4)}
			if k := len(scn.Ops); k > 0 && r.P(30) {
				op.A = scn.Ops[r.N(k)].A // asked again
			}
			scn.Ops = append(scn.Ops, op)
		}
		return scn
	}
	scn.Kind = "parse"
	base(r, scn, 50, func(o *gram.Options) { o.Spaces = o.Spaces || r.P(50) })
	if scaled(r, scn, idx, 500) && r.P(50) {
		scn.Stream = StreamCfg{Own: r.P(20)}
		return scn
	}
	// strew line breaks
	if r.P(70) {
		t := []rune(scn.Text)
		var out []rune
		for _, c := range t {
			if r.P(12) {
				out = append(out, []rune{'\n', ' ', '\n', '\t'}[r.N(4)])
			}
			out = append(out, c)
		}
		scn.Text = string(out)
	}
	scn.Stream = StreamCfg{Own: r.P(20)}
	scn.Stream.Overread = scn.Stream.Own && r.P(40)
	if !scn.Stream.Own && !scn.Scale {
		scn.N = r.N(3)
	}
	if r.P(25) && len(scn.Text) < 800 {
		scn.Jobs = append(scn.Jobs, Job{Op: "embed", Rule: pickRule(r, scn.G), Text: scn.Text})
	}
	return scn
}

// longOps is a history on a text with many lines or long ones.
func longOps(r *gram.Rand, scn *Scn) *Scn {
	scn.Scale = true
	n := gram.Size(r, 60, 70000)
	pct := []int{0, 1, 10, 50, 100}[r.N(5)]
	t := make([]rune, n)
	for i := range t {
		t[i] = []rune{'a', 'a', ' ', 'é'}[r.N(4)]
		if r.P(pct) {
			t[i] = '\n'
		}
	}
	if pct == 0 {
		for k := r.N(4); k > 0; k-- {
			t[gram.Size(r, 1, n)-1] = '\n'
		}
	}
	scn.Text = string(t)
	for i, k := 0, 4+r.N(30); i < k; i++ {
		op := Op{Op: []string{"next", "match", "match", "skip", "pos", "lookup", "cursor", "matchno", "pos"}[r.N(9)], A: r.N(n + 3), B: gram.Size(r, 1, n)}
		if r.P(40) {
			op.B = 1 + n/k
		}
		scn.Ops = append(scn.Ops, op)
	}
	return scn
}

func runC08(scn *Scn, dec *simrt.Decider, res *Result) {
	if scn.Kind == "ops" {
		runC08ops(scn, dec, res)
		return
	}
	e, ok := modelParse(res, scn.G, rootsOf(scn.G), scn.Text)
	if !ok {
		res.Skip = "model limit"
		return
	}
	allPos = false
	defer func() { allPos = true }()
	budget := budgetFor(e.steps, len(e.t)) + 200_000
	dec.Canon[simrt.StreamMap] = true
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: scn.Gap}, dec)
	var out string
	var g *xbnf.Grammar
	fate, _ := solo(nil, nil, budget+extra, func() {
		var err error
		g, err = grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
		}
	})
	if fate != "" {
		res.fail("fate", "%s", fate)
	}
	if res.Class != "" {
		return
	}
	st := NewSimStream(scn.Text, scn.Stream)
	done := false
	s.Spawn("parser", func() {
		ast, err := g.EvalRaw(st)
		out = parseOut(ast, err, true)
		done = true
	})
	seen := int64(0)
	for i := 0; i < scn.N; i++ {
		s.Spawn(fmt.Sprint("observer", i), func() {
			for k := 0; k < 40 && !done; k++ {
				c1 := st.inner.Cursor()
				p := st.inner.Position()
				c2 := st.inner.Cursor()
				okp := false
				for c := c1; c <= c2; c++ {
					if posIs(p, st.text, c) {
						okp = true
					}
				}
				if !okp {
					res.fail("observer", "observer: Position %s with the cursor between %d and %d of %q", p.String(), c1, c2, scn.Text)
					return
				}
				for i := 0; i < c1 && i < len(st.text); i += 1 + k%5 {
					if l := st.inner.PositionLookup(i); !posIs(l, st.text, i) {
						res.fail("observer", "observer: PositionLookup(%d) = %s in %q", i, l.String(), scn.Text)
						return
					}
				}
				seen++
				simrt.Yield()
			}
		})
	}
	s.Run()
	res.absorb(s)
	for _, t := range s.Tasks() {
		if f := taskFate(s, t); f != "" {
			res.fail("fate", "%s: %s", t.Name, f)
			return
		}
	}
	if s.Deadlock != "" {
		res.fail("fate", "%s", s.Deadlock)
	}
	if res.Class != "" {
		return
	}
	res.fault("concurrent position observations", seen)
	if msg := againstModel(out, e, true); msg == "" && e.kind == gram.OK {
		if want := e.out(true); want != out {
			res.fail("position", "got\n%s\ntrue positions\n%s", out, want)
			return
		}
	} else if msg != "" {
		// the tree itself is another property's business
		res.probe("tree differs from reference")
		if o, w := posMap(out), posMap(e.out(true)); o != w && e.kind == gram.OK {
			_ = w
		}
	}
	for _, j := range scn.Jobs {
		x := scn.G.Lookup(j.Rule)
		if x == nil {
			continue
		}
		m := gram.NewModel(scn.G, j.Text, 4*modelMax)
		var want []*gram.MNode
		if !m.Try(func() { want = m.Embed(j.Rule) }) {
			continue
		}
		var got string
		fate, _ := solo(res, nil, budgetFor(m.Steps, len(m.T)), func() {
			er := g.EvalEmbed(j.Rule, j.Text)
			if er.Node != nil {
				got = dumpMatches(er.Node.ChildNodes)
			}
		})
		if fate != "" {
			res.fail("fate", "embedded scan: %s", fate)
			return
		}
		var ws []*gram.MNode
		for _, n := range want {
			if n.Type != "text" {
				ws = append(ws, n)
			}
		}
		if w := gram.DumpAll(ws, m.T, true); got != w && stripPos(got) == stripPos(w) {
			res.fail("position", "embedded scan of %q with %s: got\n%s\ntrue positions\n%s", j.Text, j.Rule, got, w)
			return
		}
	}
	if strings.ContainsRune(scn.Text, '\n') || seen > 0 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, res.Hash)
	}
}

func dumpMatches(ns []*xbnf.Node) string {
	var out []*xbnf.Node
	for _, n := range ns {
		if n.RuleType != xbnf.TypeText {
			out = append(out, n)
		}
	}
	return dumpNodes(out, true)
}

func posMap(s string) string { return s }

// posIs reports whether p is the true position of index i (nil at the end).
func posIs(p *xbnf.Position, t []rune, i int) bool {
	if i >= len(t) {
		return p == nil
	}
	if p == nil {
		return false
	}
	l, c := gram.LineCol(t, i)
	return p.Line == l && p.Col == c
}

func runC08ops(scn *Scn, dec *simrt.Decider, res *Result) {
	t := []rune(scn.Text)
	lines := 0
	fate, tk := solo(res, dec, defaultBudget+int64(len(t))*int64(len(t)+20000)/4, func() {
		cs := xbnf.NewCharstreamFromString(scn.Text)
		cur := 0
		for k, op := range scn.Ops {
			switch op.Op {
			case "next":
				cs.Next()
				if cur < len(t) {
					cur++
				}
			case "peek":
				cs.Peek()
			case "match", "matchno":
				end := cur + op.B
				if end > len(t) {
					end = len(t)
				}
				in := append([]rune(nil), t[cur:end]...)
				if op.Op == "matchno" {
					in = append(in, 'Q')
				}
				got, _ := cs.Match(in)
				cur += len(got)
			case "skip":
				cur += len(cs.SkipSpaces())
			case "pos":
				if p := cs.Position(); !posIs(p, t, cur) {
					res.fail("position", "step %d: Position = %s at %d of %q", k, p.String(), cur, scn.Text)
					return
				}
			case "lookup":
				if p := cs.PositionLookup(op.A); op.A < cur && op.A < len(t) {
					if !posIs(p, t, op.A) {
						res.fail("lookup", "step %d: PositionLookup(%d) = %s in %q", k, op.A, p.String(), scn.Text)
						return
					}
				}
			case "cursor":
				if c := cs.Cursor(); c != cur {
					res.fail("cursor", "step %d: Cursor = %d, %d characters were read", k, c, cur)
					return
				}
			}
		}
		step := 1
		if scn.Scale {
			if cur < len(t)-1 {
				got, _ := cs.Match(append([]rune(nil), t[cur:len(t)-1]...))
				cur += len(got)
				if p := cs.Position(); !posIs(p, t, cur) {
					res.fail("position", "Position = %s at %d of %q", p.String(), cur, scn.Text)
					return
				}
			}
			step = 1 + cur/97
		}
		for i := 0; i < cur && i < len(t); i++ {
			if t[i] == '\n' {
				lines++
			}
			if i%step != 0 && i < cur-3 {
				continue
			}
			if p := cs.PositionLookup(i); !posIs(p, t, i) {
				res.fail("lookup", "at the end: PositionLookup(%d) = %s in %q", i, p.String(), scn.Text)
				return
			}
		}
	})
	if fate != "" {
		res.fail("fate", "%s %s", fate, tk.Stack)
	}
	if lines > 0 {
		res.Key = fmt.Sprint(scn.Text, scn.Ops)
	}
}

// ---- C15

func genC15(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	o := base(r, scn, 40, func(o *gram.Options) { o.Nullable = r.P(85); o.EOF = o.EOF || r.P(30) })
	if r.P(50) {
		scn.Text = gram.Mutate(r, o, scn.Text, 1+r.N(3))
	}
	n := 1 + r.N(3)
	if scaled(r, scn, idx, 500) {
		n = r.N(2)
		if len(scn.Text) > 800 {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		j := Job{Op: []string{"rule", "embed", "ruleeval"}[r.N(3)], Rule: pickRule(r, scn.G), Text: scn.Text, Flag: []int{0, 1, 3}[r.N(3)]}
		if r.P(50) {
			j.Text = anotherText(r, scn, o, 24)
		}
		scn.Jobs = append(scn.Jobs, j)
	}
	scn.Stream = streamCfg(r)
	if r.P(25) {
		scn.Kind = "stall"
		scn.Jobs = append(scn.Jobs, Job{Op: "raw", Text: scn.Text})
		scn.Stream.Chunked = true
		switch {
		case r.P(40):
			scn.N = 1 + r.N(5) // more stalled parses
		case r.P(4):
			scn.N = 10 + r.N(120)
		}
	}
	return scn
}

func nullable(g *gram.Grammar) bool {
	var f func(x *gram.Expr) bool
	f = func(x *gram.Expr) bool {
		if x == nil {
			return false
		}
		if x.K == "opt" || (x.K == "rep" && x.Min == 0) || x.K == "eof" {
			return true
		}
		for _, k := range x.Kids {
			if f(k) {
				return true
			}
		}
		return f(x.Esc)
	}
	for _, r := range g.Rules {
		if f(r.X) {
			return true
		}
	}
	return false
}

func runC15(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	e, ok := modelParse(res, scn.G, rootsOf(scn.G), scn.Text)
	if !ok {
		res.Skip = "model limit"
		return
	}
	budget := budgetFor(e.steps, len(e.t))
	budgets := []int64{}
	for _, j := range scn.Jobs {
		m := gram.NewModel(scn.G, j.Text, 4*modelMax)
		x := m.G.Lookup(j.Rule)
		ok := m.Try(func() {
			switch {
			case j.Op == "raw":
				m.Parse(rootsOf(scn.G))
			case x == nil:
			case j.Op == "embed":
				m.Embed(j.Rule)
			default:
				m.Eval(x, j.Rule, 0, modelFlag(j))
			}
		})
		if !ok {
			res.Skip = "model limit"
			return
		}
		budgets = append(budgets, budgetFor(m.Steps, len(m.T)))
	}
	if scn.Kind == "stall" {
		sum := budget * int64(1+scn.N)
		for _, b := range budgets {
			sum += b
		}
		runStall(scn, dec, res, sum)
		return
	}
	var st *SimStream
	var g *xbnf.Grammar
	check := func(what string, b int64, fn func()) bool {
		fate, t := solo(res, dec, b, fn)
		if fate != "" {
			res.fail(strings.SplitN(fate, ":", 2)[0], "%s: %s (budget %d statements)\n%s", what, fate, b, t.Stack)
			return false
		}
		return true
	}
	if !check("building", 400_000+extra, func() {
		var err error
		g, err = grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
		}
	}) || res.Class != "" {
		return
	}
	before := res.Steps
	if !check("parse", budget, func() {
		st = NewSimStream(scn.Text, scn.Stream)
		ast, err := g.EvalRaw(st)
		if (ast == nil) == (err == nil) {
			res.fail("noresult", "parse ended with neither or both of a tree and an error")
		}
	}) {
		return
	}
	res.ratio(res.Steps-before, budget)
	countDelivery(res, st)
	for i, j := range scn.Jobs {
		if scn.G.Lookup(j.Rule) == nil && j.Op != "raw" {
			continue
		}
		before := res.Steps
		if !check(fmt.Sprintf("%s(%s) of %q", j.Op, j.Rule, j.Text), budgets[i], func() { runJob(g, j) }) {
			return
		}
		res.ratio(res.Steps-before, budgets[i])
	}
	if nullable(scn.G) || (st != nil && st.Waits > 0) {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Jobs, scn.Stream)
	}
}

// runStall: one parse on a stalled stream next to parses whose streams are
// complete; only the stalled one may wait.
func runStall(scn *Scn, dec *simrt.Decider, res *Result, budget int64) {
	var g *xbnf.Grammar
	fate, _ := solo(nil, nil, 400_000+extra, func() {
		var err error
		g, err = grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
		}
	})
	if fate != "" {
		res.fail("build", "building: %s", fate)
	}
	if res.Class != "" {
		return
	}
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: scn.Gap}, dec)
	var st *SimStream
	finished := make([]int64, len(scn.Jobs))
	for i := 0; i <= scn.N; i++ {
		s.Spawn(fmt.Sprint("stalled", i), func() {
			st = NewSimStream(scn.Text, scn.Stream)
			g.EvalRaw(st)
		})
	}
	for i, j := range scn.Jobs {
		i, j := i, j
		finished[i] = -1
		s.Spawn(fmt.Sprint("job", i), func() {
			j.Stream.Chunked = false
			runJob(g, j)
			finished[i] = s.Now()
		})
	}
	s.Run()
	res.absorb(s)
	if s.Deadlock != "" {
		res.fail("deadlock", "%s", s.Deadlock)
	}
	for _, t := range s.Tasks() {
		if f := taskFate(s, t); f != "" {
			res.fail(strings.SplitN(f, ":", 2)[0], "%s: %s", t.Name, f)
			return
		}
	}
	for i, f := range finished {
		if f > 0 {
			res.fail("stalled", "%s of %q, whose stream is complete, waited %d us for another parse's stream", scn.Jobs[i].Op, scn.Jobs[i].Text, f)
			return
		}
	}
	countDelivery(res, st)
	if st != nil && st.Waits > 0 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Jobs, scn.Stream, res.Hash)
	}
}

// ---- C16

func genC16(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	o := base(r, scn, 40, func(o *gram.Options) { o.Nullable = o.Nullable && r.P(50) })
	n := 1
	if r.P(25) {
		n = 2 + r.N(3)
	}
	if idx%400 == 9 {
		longScan(r, scn, o)
		return scn
	}
	for i := 0; i < n; i++ {
		j := Job{Op: "embed", Rule: pickRule(r, scn.G)}
		s := ""
		for k, m := 0, 1+r.N(4); k < m; k++ {
			t := gram.DeriveFrom(r, scn.G, o, scn.G.Lookup(j.Rule))
			// a nearly matching attempt directly before a match
			if r.P(45) {
				c := []rune(t)
				if len(c) > 1 {
					s += string(c[:1+r.N(len(c)-1)])
				}
			}
			if r.P(60) {
				s += gram.Mutate(r, o, "", 1+r.N(3))
			}
			s += t
		}
		if r.P(40) {
			s = gram.Mutate(r, o, s, 1+r.N(3))
		}
		if t := []rune(s); len(t) > 40 {
			s = string(t[:40])
		}
		j.Text = s
		scn.Jobs = append(scn.Jobs, j)
	}
	return scn
}

// longScan is a scan with much free text, many matches or long ones.
func longScan(r *gram.Rand, scn *Scn, o gram.Options) {
	scn.Scale = true
	j := Job{Op: "embed"}
	if r.P(50) {
		scn.G, j.Text = gram.Scaled(r)
		j.Rule = pickRule(r, scn.G)
		t := []rune(j.Text)
		if len(t) > 800 {
			t = t[len(t)-800:]
		}
		j.Text = gram.Mutate(r, o, "", r.N(4)) + string(t) + gram.Mutate(r, o, "", r.N(4))
	} else {
		j.Rule = pickRule(r, scn.G)
		x := scn.G.Lookup(j.Rule)
		n := gram.Size(r, 40, 1500)
		free := string([]rune{'Q', 'Q', ' ', '\n', o.Alpha[0]}[r.N(5)])
		for k := 1 + r.N(3); k > 0; k-- {
			switch r.N(3) {
			case 0:
				j.Text += strings.Repeat(free, n)
			case 1:
				j.Text += strings.Repeat(gram.DeriveFrom(r, scn.G, o, x)+"Q", 1+n/10)
			}
			j.Text += gram.DeriveFrom(r, scn.G, o, x)
		}
	}
	scn.Jobs = append(scn.Jobs, j)
}

func runC16(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	var want []string
	var budget int64 = 400_000
	matched, free := false, false
	for _, j := range scn.Jobs {
		if scn.G.Lookup(j.Rule) == nil {
			res.Skip = "no rule"
			return
		}
		m := gram.NewModel(scn.G, j.Text, 4*modelMax)
		var ns []*gram.MNode
		if !m.Try(func() { ns = m.Embed(j.Rule) }) {
			res.Skip = "model limit"
			return
		}
		res.addModel(m)
		budget += budgetFor(m.Steps, len(m.T))
		want = append(want, gram.DumpAll(ns, m.T, false))
		for _, n := range ns {
			if n.Type == "text" {
				free = true
			} else {
				matched = true
			}
		}
	}
	var g *xbnf.Grammar
	fate, _ := solo(nil, nil, 400_000+extra, func() {
		var err error
		g, err = grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
		}
	})
	if fate != "" {
		res.fail("build", "building: %s", fate)
	}
	if res.Class != "" {
		return
	}
	got := make([]string, len(scn.Jobs))
	shape := make([]string, len(scn.Jobs))
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: scn.Gap}, dec)
	for i, j := range scn.Jobs {
		i, j := i, j
		s.Spawn(fmt.Sprint("scan", i), func() {
			er := g.EvalEmbed(j.Rule, j.Text)
			if er == nil || er.Node == nil {
				shape[i] = "no result"
				return
			}
			if er.Error != nil {
				shape[i] = "error " + er.Error.Error()
				return
			}
			if er.Node.RuleType != xbnf.TypeEmbed {
				shape[i] = "type " + string(er.Node.RuleType)
			}
			got[i] = dumpNodes(er.Node.ChildNodes, false)
		})
	}
	s.Run()
	res.absorb(s)
	for _, t := range s.Tasks() {
		if f := taskFate(s, t); f != "" {
			res.fail("fate", "%s: %s", t.Name, f)
			return
		}
	}
	for i, j := range scn.Jobs {
		if shape[i] != "" || got[i] != want[i] {
			res.fail("partition", "scan of %q with %s: %s\n%s\nreference\n%s", j.Text, j.Rule, shape[i], got[i], want[i])
			return
		}
	}
	if (matched && free) || len(scn.Jobs) > 1 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Jobs, res.Hash)
	}
}
