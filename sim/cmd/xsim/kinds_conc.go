package main

import (
	"fmt"
	"sort"
	"strings"

	"xbnfsim/gram"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&Kind{Prop: "C05", Gen: genC05, Run: runC05,
		Rule: "A case is two to six tasks performing parses, rule evaluations, embedded scans, simplifications, dumps and look-ups on one shared grammar (some on bursty or stalled streams) under one seeded statement-level interleaving; each result is compared with the same job alone on a fresh grammar. Non-trivial: at least one preemption switched between two tasks inside library code; distinct by jobs and interleaving."})
	register(&Kind{Prop: "C06", Gen: genC06, Run: runC06,
		Rule: "A case is one parse killed at each of its stream operations in turn (or at the planned one), next to and followed by other jobs on the same grammar. Non-trivial: at least one kill happened inside the parse; distinct by grammar, jobs, kill points and interleaving."})
	register(&Kind{Prop: "C07", Gen: genC07, Run: runC07,
		Rule: "A case is two to five tasks operating on one stream under one seeded statement-level interleaving; the recorded history is checked for linearizability against a single-threaded stream and the rest of the stream is drained afterwards. Non-trivial: operations of different tasks overlapped; distinct by text, operations and interleaving."})
	register(&Kind{Prop: "C13", Gen: genC13, Run: runC13,
		Rule: "A case is a history (or an interleaving) of jobs on one grammar and of simplifications and overwrites of returned trees; every tree not edited and every later result must stay what it was. Non-trivial: at least one returned tree was edited while another was alive; distinct by jobs, edits and interleaving."})
}

// prepared is what a concurrent scenario needs before it runs: the outcome of
// every job alone.
type prepared struct {
	outs   []string
	budget int64
}

// soloOuts runs every job alone on a fresh grammar.
func soloOuts(scn *Scn, jobs []Job, res *Result) (p prepared, ok bool) {
	p.budget = 400_000
	for _, j := range jobs {
		j.Stream.Chunked = false
		j.Stream.Abort = 0
		m := gram.NewModel(scn.G, j.Text, 2*modelMax)
		if !m.Try(func() {
			switch j.Op {
			case "raw", "level", "simplify":
				m.Parse(rootsOf(scn.G))
			case "embed", "rule", "ruleeval", "show":
				if scn.G.Lookup(j.Rule) == nil {
					return // refused at once
				}
				if j.Op == "embed" {
					m.Embed(j.Rule)
					return
				}
				m.Eval(m.G.Lookup(j.Rule), j.Rule, 0, modelFlag(j))
			}
		}) {
			res.Skip = "model limit"
			return p, false
		}
		b := budgetFor(m.Steps, len(m.T)) + int64(scn.G.Size())*4000
		if j.Op == "show" {
			b *= 4
		}
		p.budget += b
		var out string
		fate, t := solo(nil, nil, b, func() {
			g, err := grammarOf(scn)
			if err != nil {
				out = "BUILD " + err.Error()
				return
			}
			out = runJob(g, j).Out
		})
		if strings.HasPrefix(out, "BUILD") {
			res.fail("build", "%s", out)
			return p, false
		}
		if fate != "" {
			res.fail("solo", "%s alone: %s\n%s", jobName(j), fate, t.Stack)
			return p, false
		}
		p.outs = append(p.outs, out)
	}
	return p, true
}

func jobName(j Job) string {
	return fmt.Sprintf("%s(rule %s, text %q, level %d, flag %d)", j.Op, j.Rule, j.Text, j.Level, j.Flag)
}

func sharedGrammar(scn *Scn, res *Result) *xbnf.Grammar {
	var g *xbnf.Grammar
	fate, _ := solo(nil, nil, 2_000_000+extra, func() {
		var err error
		g, err = grammarOf(scn)
		if err != nil {
			res.fail("build", "%s", err)
		}
	})
	if fate != "" {
		res.fail("build", "building: %s", fate)
	}
	if res.Class != "" {
		return nil
	}
	return g
}

// ---- C05

func genC05(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	o := base(r, scn, 20, nil)
	tasks := 2 + r.N(4)
	big := scaled(r, scn, idx, 400)
	if big {
		tasks = 2
		scn.Gap *= 20
	}
	for t := 0; t < tasks; t++ {
		for k, n := 0, 1+r.N(2); k < n; k++ {
			j := randomJob(r, scn, o, !big)
			if big {
				j = bigJob(r, scn, j)
			}
			j.Task = t
			scn.Jobs = append(scn.Jobs, j)
		}
	}
	// equal jobs on equal texts meet often
	if r.P(30) {
		j := scn.Jobs[0]
		for i := range scn.Jobs {
			if r.P(50) {
				t := scn.Jobs[i].Task
				scn.Jobs[i] = j
				scn.Jobs[i].Task = t
			}
		}
	}
	return scn
}

// bigJob makes a job one on the scenario's own text.
func bigJob(r *gram.Rand, scn *Scn, j Job) Job {
	if j.Op == "embed" && (r.P(70) || len(scn.Text) > 3000) {
		j.Op = "raw"
	}
	if j.Op == "show" {
		j.Op = "rule"
	}
	j.Text = scn.Text
	if r.P(20) {
		t := []rune(scn.Text)
		j.Text = string(t[:r.N(len(t)+1)])
	}
	return j
}

// concurrent runs the jobs, one task per Job.Task, and returns their outcomes.
func concurrent(scn *Scn, g *xbnf.Grammar, jobs []Job, dec *simrt.Decider, budget int64, res *Result, after func(i int, jr *JobRes)) (*simrt.Sim, []string) {
	outs := make([]string, len(jobs))
	byTask := map[int][]int{}
	var order []int
	for i, j := range jobs {
		if _, ok := byTask[j.Task]; !ok {
			order = append(order, j.Task)
		}
		byTask[j.Task] = append(byTask[j.Task], i)
	}
	sort.Ints(order)
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: scn.Gap, Serial: scn.Serial}, dec)
	s.KeepLog = keepLog
	strms := make([]*SimStream, len(jobs))
	for _, t := range order {
		list := byTask[t]
		s.Spawn(fmt.Sprint("client", t), func() {
			for _, i := range list {
				jr := runJob(g, jobs[i])
				outs[i] = jr.Out
				strms[i] = jr.Strm
				if after != nil {
					after(i, jr)
				}
			}
		})
	}
	s.Run()
	res.absorb(s)
	for _, st := range strms {
		countDelivery(res, st)
	}
	if keepLog {
		for _, sw := range s.Log {
			res.Log = append(res.Log, fmt.Sprintf("statement %d: %s -> %s at %s", sw.Step, s.Tasks()[sw.From].Name, s.Tasks()[sw.To].Name, simrt.SiteName(sw.Site)))
		}
	}
	return s, outs
}

func runC05(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	p, ok := soloOuts(scn, scn.Jobs, res)
	if !ok {
		return
	}
	g := sharedGrammar(scn, res)
	if g == nil {
		return
	}
	races := simrt.RaceErrors()
	s, outs := concurrent(scn, g, scn.Jobs, dec, p.budget, res, nil)
	if n := simrt.RaceErrors() - races; n > 0 {
		res.fail("race", "the race detector reported %d data race(s) between the tasks", n)
		return
	}
	if s.Deadlock != "" {
		res.fail("deadlock", "%s", s.Deadlock)
		return
	}
	for _, t := range s.Tasks() {
		if f := taskFate(s, t); f != "" {
			res.fail(strings.SplitN(f, ":", 2)[0], "%s: %s\n%s", t.Name, f, t.Stack)
			return
		}
	}
	for i := range outs {
		if outs[i] != p.outs[i] {
			res.fail("result", "%s next to others gives\n%s\nalone\n%s", jobName(scn.Jobs[i]), outs[i], p.outs[i])
			return
		}
	}
	res.fault("preemption inside library code", s.Preempts)
	if s.Switches > int64(len(s.Tasks())) {
		res.Key = fmt.Sprint(grammarText(scn), scn.Jobs, s.TraceHash())
	}
}

// ---- C06

func genC06(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r), Serial: r.P(35)}
	o := base(r, scn, 20, nil)
	v := randomJob(r, scn, o, false)
	for v.Op == "dump" || v.Op == "lookup" || v.Op == "rule" || v.Op == "embed" || v.Op == "show" {
		v = randomJob(r, scn, o, false)
	}
	v.Stream.Chunked = r.P(20)
	big := idx%128 != 7 && scaled(r, scn, idx, 300)
	if big {
		v.Text, v.Stream.Chunked, v.Rule = scn.Text, false, pickRule(r, scn.G)
		scn.Gap *= 20
	}
	scn.Jobs = append(scn.Jobs, v)
	for k, n := 0, 1+r.N(3); k < n; k++ {
		j := randomJob(r, scn, o, false)
		if big {
			j = bigJob(r, scn, j)
		}
		j.Task = 1 + r.N(2)
		if r.P(30) {
			j.Op, j.Text, j.Rule, j.Flag, j.Level = v.Op, v.Text, v.Rule, v.Flag, v.Level
		}
		scn.Jobs = append(scn.Jobs, j)
	}
	// later jobs run in task 9, after everything else
	for k, n := 0, 1+r.N(2); k < n; k++ {
		j := randomJob(r, scn, o, false)
		if big {
			j = bigJob(r, scn, j)
		}
		j.Task = 9
		if k == 0 {
			j = v
			j.Stream = StreamCfg{}
			j.Task = 9
		}
		scn.Jobs = append(scn.Jobs, j)
	}
	scn.Jobs = append(scn.Jobs, Job{Op: "regrow", Task: 9})
	if idx%128 == 7 {
		// a long history of dying, failing and ending parses
		scn.N = []int{300, 1000, 3000, 12000, 30000, 100000}[[]int{0, 1, 2, 3, 0, 1, 2, 3, 1, 2, 3, 4, 4, 5}[r.N(14)]]
		kept := scn.Jobs[:0]
		for i, j := range scn.Jobs {
			if i == 0 || j.Task == 9 {
				if t := []rune(j.Text); len(t) > 6 {
					j.Text = string(t[:6])
				}
				kept = append(kept, j)
			}
		}
		scn.Jobs = kept
		scn.Jobs[0].Stream.Chunked = false
	}
	return scn
}

// soakC06 lets one grammar go through scn.N aborted and failed parses before
// the later jobs run.
func soakC06(scn *Scn, p prepared, ops int, res *Result) {
	g := sharedGrammar(scn, res)
	if g == nil {
		return
	}
	killed, bad := int64(0), ""
	rnd := gram.NewRand(scn.Seed)
	cut := []rune(scn.Jobs[0].Text)
	fate, t := solo(res, nil, p.budget*int64(scn.N)+1_000_000, func() {
		for i := 0; i < scn.N && bad == ""; i++ {
			j := scn.Jobs[0]
			switch what := rnd.N(8); {
			case what < 6:
				j.Stream.Abort = 1 + rnd.N(ops)
			case what == 6:
				j.Text = string(cut[:rnd.N(len(cut)+1)])
			}
			func() {
				if j.Stream.Abort > 0 {
					defer func() {
						v := recover()
						if _, is := v.(StreamAbort); is {
							killed++
						} else if v != nil {
							panic(v)
						} else {
							bad = "the stream's panic did not reach the caller"
						}
					}()
				}
				runJob(g, j)
			}()
		}
	})
	if fate != "" {
		res.fail(strings.SplitN(fate, ":", 2)[0], "during %d aborted parses: %s\n%s", scn.N, fate, t.Stack)
		return
	}
	if bad != "" {
		res.fail("swallowed", "%s", bad)
		return
	}
	fate, t = solo(res, nil, p.budget, func() {
		for i, j := range scn.Jobs {
			if j.Task != 9 {
				continue
			}
			if out := runJob(g, j).Out; out != p.outs[i] && bad == "" {
				bad = fmt.Sprintf("%s after %d aborted, failed and ended parses gives\n%s\nalone\n%s", jobName(j), scn.N, out, p.outs[i])
			}
		}
	})
	if fate != "" {
		res.fail(strings.SplitN(fate, ":", 2)[0], "after %d aborted parses: %s\n%s", scn.N, fate, t.Stack)
		return
	}
	if bad != "" {
		res.fail("later", "%s", bad)
	}
	res.fault("parse killed in a long history", killed)
	res.Key = fmt.Sprint("soak", scn.N, grammarText(scn), scn.Jobs)
}

func runC06(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	if len(scn.Jobs) == 0 {
		res.Skip = "no jobs"
		return
	}
	p, ok := soloOuts(scn, scn.Jobs, res)
	if !ok {
		return
	}
	// number of stream operations of the victim
	ops := 0
	fate, _ := solo(nil, nil, p.budget, func() {
		g, err := grammarOf(scn)
		if err != nil {
			return
		}
		jr := runJob(g, scn.Jobs[0])
		if jr.Strm != nil {
			ops = jr.Strm.Ops
		}
	})
	if fate != "" || ops == 0 {
		res.Skip = "victim " + fate
		return
	}
	if scn.N > 0 {
		soakC06(scn, p, ops, res)
		return
	}
	step := 1 + ops/24
	if scn.Scale {
		step = 1 + ops/3
	}
	killed := int64(0)
	for k := 1; k <= ops; k++ {
		if scn.Point >= 0 {
			if k != scn.Point {
				continue
			}
		} else if (k+int(scn.Seed%uint64(step)))%step != 0 && k != ops {
			continue
		}
		g := sharedGrammar(scn, res)
		if g == nil {
			return
		}
		jobs := append([]Job(nil), scn.Jobs...)
		jobs[0].Stream.Abort = k
		jobs[0].Task = 0
		var now, later []Job
		var nowIdx, laterIdx []int
		for i, j := range jobs {
			if j.Task == 9 {
				later = append(later, j)
				laterIdx = append(laterIdx, i)
			} else {
				now = append(now, j)
				nowIdx = append(nowIdx, i)
			}
		}
		fail := func(class, f string, a ...any) {
			res.fail(class, "killed at stream operation %d of %d: "+f, append([]any{k, ops}, a...)...)
			res.Point = k
		}
		s, outs := concurrent(scn, g, now, dec, p.budget, res, nil)
		if s.Deadlock != "" {
			fail("deadlock", "%s", s.Deadlock)
			return
		}
		for ti, t := range s.Tasks() {
			f := taskFate(s, t)
			if ti == 0 {
				switch f {
				case "abort":
					killed++
				case "":
					fail("swallowed", "the stream's panic did not reach the caller; the parse returned\n%s", outs[0])
					return
				default:
					fail(strings.SplitN(f, ":", 2)[0], "the caller sees %q instead of the stream's panic\n%s", f, t.Stack)
					return
				}
				continue
			}
			if f != "" {
				fail(strings.SplitN(f, ":", 2)[0], "bystander %s: %s\n%s", t.Name, f, t.Stack)
				return
			}
		}
		for i := range now {
			if i > 0 && outs[i] != p.outs[nowIdx[i]] {
				fail("concurrent", "%s next to the killed parse gives\n%s\nalone\n%s", jobName(now[i]), outs[i], p.outs[nowIdx[i]])
				return
			}
		}
		if len(later) > 0 {
			s, outs := concurrent(scn, g, later, dec, p.budget, res, nil)
			if s.Deadlock != "" {
				fail("deadlock", "later: %s", s.Deadlock)
				return
			}
			for _, t := range s.Tasks() {
				if f := taskFate(s, t); f != "" {
					fail(strings.SplitN(f, ":", 2)[0], "later job: %s\n%s", f, t.Stack)
					return
				}
			}
			for i := range later {
				if outs[i] != p.outs[laterIdx[i]] {
					fail("later", "%s after the killed parse gives\n%s\nalone\n%s", jobName(later[i]), outs[i], p.outs[laterIdx[i]])
					return
				}
			}
		}
	}
	res.fault("parse killed at a stream operation", killed)
	if killed > 0 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Jobs, res.Hash)
	}
}

// ---- C07

func genC07(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: []int64{1, 2, 3, 5, 9, 20}[r.N(6)]}
	n := r.N(12)
	long := r.N(300) == 0
	alpha := []rune{'a', 'b', 'a', '\n', ' ', '\t', 'é'}
	if long {
		scn.Scale = true
		n = gram.Size(r, 30, 4000)
		alpha = [][]rune{alpha, {'a', 'a', 'b'}, {' ', '\n', ' '}, {'\n'}, {'a'}}[r.N(5)]
	}
	t := []rune{}
	for i := 0; i < n; i++ {
		t = append(t, alpha[r.N(len(alpha))])
	}
	scn.Text = string(t)
	tasks := 2 + r.N(3)
	for k := 0; k < tasks; k++ {
		for i, m := 0, 1+r.N(4); i < m; i++ {
			op := Op{Task: k, Op: []string{"next", "next", "peek", "match", "skip", "pos", "pos", "lookup", "cursor"}[r.N(9)], A: r.N(n + 2)}
			if op.Op == "match" {
				// mostly something that stands in the text
				a := r.N(n + 1)
				if long && r.P(50) {
					a = 0
				}
				b := a + 1 + r.N(3)
				if long {
					b = a + gram.Size(r, 1, n)
				}
				if b > n {
					b = n
				}
				op.S = string(t[a:b])
				if r.P(20) {
					op.S += "a"
				}
			}
			scn.Ops = append(scn.Ops, op)
		}
	}
	return scn
}

type event struct {
	op       Op
	call     int64
	ret      int64
	out      string
	done     bool
	consumed int
}

// streamStep is the sequential specification: result and new cursor.
func streamStep(t []rune, cur int, op Op) (string, int) {
	at := func(i int) string {
		if i >= len(t) {
			return "EOF"
		}
		return string(t[i])
	}
	switch op.Op {
	case "next":
		if cur < len(t) {
			return at(cur), cur + 1
		}
		return "EOF", cur
	case "peek":
		return at(cur), cur
	case "skip":
		e := cur
		for e < len(t) && gram.IsSpace(t[e]) {
			e++
		}
		return string(t[cur:e]), e
	case "match":
		in := []rune(op.S)
		n := 0
		for n < len(in) {
			if cur+n >= len(t) {
				return string(t[cur:cur+n]) + "/false", cur + n
			}
			n++
			if t[cur+n-1] != in[n-1] {
				return string(t[cur:cur+n]) + "/false", cur + n
			}
		}
		return string(t[cur:cur+n]) + "/true", cur + n
	case "cursor":
		return fmt.Sprint(cur), cur
	case "pos":
		if cur >= len(t) {
			return "nil", cur
		}
		l, c := gram.LineCol(t, cur)
		return fmt.Sprintf("%d:%d", l, c), cur
	case "lookup":
		if op.A >= cur || op.A >= len(t) {
			return "nil", cur
		}
		l, c := gram.LineCol(t, op.A)
		return fmt.Sprintf("%d:%d", l, c), cur
	}
	panic("xsim: stream op " + op.Op)
}

func posStr(p *xbnf.Position) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("%d:%d", p.Line, p.Col)
}

func realStep(cs xbnf.ICharstream, op Op) string {
	ch := func(r rune) string {
		if r == xbnf.EOFChar {
			return "EOF"
		}
		return string(r)
	}
	switch op.Op {
	case "next":
		return ch(cs.Next())
	case "peek":
		return ch(cs.Peek())
	case "skip":
		return string(cs.SkipSpaces())
	case "match":
		c, ok := cs.Match([]rune(op.S))
		return fmt.Sprintf("%s/%v", string(c), ok)
	case "cursor":
		return fmt.Sprint(cs.Cursor())
	case "pos":
		return posStr(cs.Position())
	case "lookup":
		return posStr(cs.PositionLookup(op.A))
	}
	panic("xsim: stream op " + op.Op)
}

// accepts tolerates what the library leaves open: looking up index 0 may
// answer 1:1 before anything was read.
func accepts(op Op, got, want string) bool {
	if got == want {
		return true
	}
	return op.Op == "lookup" && op.A == 0 && (got == "1:1" || got == "nil")
}

func runC07(scn *Scn, dec *simrt.Decider, res *Result) {
	t := []rune(scn.Text)
	cs := xbnf.NewCharstreamFromString(scn.Text)
	evs := make([]event, len(scn.Ops))
	byTask := map[int][]int{}
	var order []int
	for i, op := range scn.Ops {
		evs[i].op = op
		if _, ok := byTask[op.Task]; !ok {
			order = append(order, op.Task)
		}
		byTask[op.Task] = append(byTask[op.Task], i)
	}
	sort.Ints(order)
	races := simrt.RaceErrors()
	s := simrt.New(simrt.Config{Budget: 500_000 + 400*int64(len(scn.Ops)*len(t)), MeanGap: scn.Gap}, dec)
	s.KeepLog = keepLog
	for _, k := range order {
		list := byTask[k]
		s.Spawn(fmt.Sprint("client", k), func() {
			for _, i := range list {
				e := &evs[i]
				stamp(&e.call, s.Tick())
				e.out = realStep(cs, e.op)
				stamp(&e.ret, s.Tick())
				e.done = true
				simrt.Yield()
			}
		})
	}
	s.Run()
	res.absorb(s)
	if n := simrt.RaceErrors() - races; n > 0 {
		res.fail("race", "the race detector reported %d data race(s)", n)
		return
	}
	if s.Deadlock != "" {
		res.fail("deadlock", "%s", s.Deadlock)
		return
	}
	for _, tk := range s.Tasks() {
		if f := taskFate(s, tk); f != "" {
			res.fail(strings.SplitN(f, ":", 2)[0], "%s: %s\n%s", tk.Name, f, tk.Stack)
			return
		}
	}
	// drain: the rest of the stream, then every position
	var rest []rune
	drained := true
	step := 1 + len(t)/200
	fate, _ := solo(nil, nil, 500_000+400*int64(len(t))+1000*int64(len(t)*len(t)/step), func() {
		for k := 0; ; k++ {
			r := cs.Next()
			if r == xbnf.EOFChar {
				break
			}
			rest = append(rest, r)
			if k > len(t) {
				drained = false
				break
			}
		}
		for i := range t {
			if i%step != 0 && i < len(t)-3 {
				continue
			}
			if p := cs.PositionLookup(i); !posIs(p, t, i) && !(i == 0 && posStr(p) == "1:1") {
				res.fail("lines", "after the run: PositionLookup(%d) = %s in %q\n%s", i, posStr(p), scn.Text, history(evs))
				return
			}
		}
	})
	if fate != "" {
		res.fail("drain", "draining after the run: %s", fate)
	}
	if res.Class != "" {
		return
	}
	final := len(t) - len(rest)
	if !drained || final < 0 || string(t[final:]) != string(rest) {
		res.fail("drain", "after the run the stream yields %q of %q\n%s", string(rest), scn.Text, history(evs))
		return
	}
	lin, ok := linearizable(t, evs, final)
	if !ok {
		res.Skip = "history too long to decide"
		return
	}
	if !lin {
		res.fail("linearizability", "no order of these operations on %q explains their results (stream left at %d):\n%s", scn.Text, final, history(evs))
		return
	}
	if overlapping(evs) {
		res.fault("overlapping stream operations", 1)
		res.Key = fmt.Sprint(scn.Text, scn.Ops, s.TraceHash())
	}
}

//go:norace
func stamp(p *int64, v int64) { *p = v }

func overlapping(evs []event) bool {
	for i := range evs {
		for j := range evs {
			if i != j && evs[i].op.Task != evs[j].op.Task && evs[i].call < evs[j].ret && evs[j].call < evs[i].ret {
				return true
			}
		}
	}
	return false
}

func history(evs []event) string {
	s := append([]event(nil), evs...)
	sort.Slice(s, func(i, j int) bool { return s[i].call < s[j].call })
	var b strings.Builder
	for _, e := range s {
		fmt.Fprintf(&b, "  [%d,%d] client%d %s", e.call, e.ret, e.op.Task, e.op.Op)
		switch e.op.Op {
		case "match":
			fmt.Fprintf(&b, "(%q)", e.op.S)
		case "lookup":
			fmt.Fprintf(&b, "(%d)", e.op.A)
		}
		fmt.Fprintf(&b, " = %q\n", e.out)
	}
	return b.String()
}

// linearizable searches for an order of the operations (Wing and Gong, with
// memoisation on the set done and the cursor).
func linearizable(t []rune, evs []event, final int) (lin, decided bool) {
	if len(evs) > 30 {
		return false, false
	}
	type key struct {
		set uint32
		cur int
	}
	seen := map[key]bool{}
	work := 0
	var rec func(set uint32, cur int) bool
	rec = func(set uint32, cur int) bool {
		if set == 1<<uint(len(evs))-1 {
			return cur == final
		}
		k := key{set, cur}
		if seen[k] {
			return false
		}
		seen[k] = true
		work++
		first := int64(1 << 62)
		for i := range evs {
			if set&(1<<uint(i)) == 0 && evs[i].ret < first {
				first = evs[i].ret
			}
		}
		for i := range evs {
			if set&(1<<uint(i)) != 0 || evs[i].call > first {
				continue
			}
			want, c2 := streamStep(t, cur, evs[i].op)
			if accepts(evs[i].op, evs[i].out, want) && rec(set|1<<uint(i), c2) {
				return true
			}
		}
		return false
	}
	lin = rec(0, 0)
	return lin, work < 5_000_000
}

// ---- C13

func genC13(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	if r.P(35) {
		scn.Kind = "concurrent"
	}
	o := base(r, scn, 24, nil)
	if idx%5 == 4 {
		scn.Kind = "session"
		genSession(r, scn)
		return scn
	}
	big := scaled(r, scn, idx, 400)
	n := 2 + r.N(4)
	if big {
		if t := []rune(scn.Text); len(t) > 600 {
			scn.Text = string(t[:600])
		}
		n = 2
		scn.Gap *= 20
	}
	for i := 0; i < n; i++ {
		j := randomJob(r, scn, o, false)
		for j.Op == "dump" || j.Op == "lookup" || j.Op == "simplify" {
			j = randomJob(r, scn, o, false)
		}
		if i > 0 && r.P(40) {
			k := scn.Jobs[r.N(i)]
			j.Op, j.Text, j.Rule, j.Flag, j.Level = k.Op, k.Text, k.Rule, k.Flag, k.Level
		}
		j.Stream.Chunked = false
		if big {
			j = bigJob(r, scn, j)
		}
		j.Task = r.N(3)
		scn.Jobs = append(scn.Jobs, j)
	}
	for i, k := 0, 1+r.N(3); i < k; i++ {
		scn.Ops = append(scn.Ops, Op{Op: []string{"scribble", "simplify", "append", "prune", "level"}[r.N(5)], A: r.N(n), B: r.N(4)})
	}
	return scn
}

// genSession draws operations on one library stream; what each returns is
// edited by the caller before the next one.
func genSession(r *gram.Rand, scn *Scn) {
	if r.P(50) {
		// more white space
		t := []rune(scn.Text)
		for i, n := 0, 1+r.N(4); i < n; i++ {
			p := r.N(len(t) + 1)
			t = append(t[:p:p], append([]rune{[]rune(" \n\t  ")[r.N(5)]}, t[p:]...)...)
		}
		scn.Text = string(t)
	}
	t := []rune(scn.Text)
	for i, n := 0, 2+r.N(6); i < n; i++ {
		op := Op{Op: []string{"skip", "skip", "match", "next", "pos", "eval", "eval"}[r.N(7)], B: r.N(4)}
		switch op.Op {
		case "eval":
			op.S = scn.G.Rules[r.N(len(scn.G.Rules))].Name
			op.A = []int{0, 1, 3}[r.N(3)]
			if r.P(20) {
				op.S = "EOF"
			}
		case "match":
			if len(t) > 0 {
				p := r.N(len(t))
				op.S = string(t[p:min(len(t), p+1+r.N(4))])
			}
		}
		scn.Ops = append(scn.Ops, op)
	}
}

// sessionOp performs one operation; spoil edits everything it returned.
func sessionOp(g *xbnf.Grammar, cs xbnf.ICharstream, op Op, spoil bool) string {
	edit := func(c []rune) {
		if !spoil {
			return
		}
		if op.B&1 == 0 {
			_ = append(c, 'Y', 'Y', 'Y', 'Y')
		}
		if op.B&2 == 0 {
			for i := range c {
				c[i] = 'Z'
			}
		}
	}
	switch op.Op {
	case "skip":
		c := cs.SkipSpaces()
		out := fmt.Sprintf("%q", string(c))
		edit(c)
		return out
	case "match":
		want := []rune(op.S)
		c, ok := cs.Match(want)
		out := fmt.Sprintf("%q %v", string(c), ok)
		edit(want)
		edit(c)
		return out
	case "next":
		return fmt.Sprint(cs.Next())
	case "pos":
		p, q := cs.Position(), cs.PositionLookup(cs.Cursor()-1-op.B)
		out := p.String() + " " + q.String()
		if spoil && p != nil {
			p.Line, p.Col = -7, -7
		}
		if spoil && q != nil {
			q.Line, q.Col = -7, -7
		}
		return out
	}
	var rule xbnf.IRule = xbnf.EOF()
	if op.S != "EOF" {
		rule = g.GetRule(op.S)
	}
	if rule == nil {
		return "none"
	}
	e := rule.Eval(g, cs, op.A)
	out := evalOut(e)
	read := e.CharsRead
	unused := e.CharsUnused
	edit(read)
	edit(unused)
	return out
}

func runSession(scn *Scn, dec *simrt.Decider, res *Result) {
	for _, op := range scn.Ops {
		if op.Op == "eval" && op.S != "EOF" {
			x := scn.G.Lookup(op.S)
			if x == nil {
				return
			}
			// from any place of the text
			for p := range append([]rune(scn.Text), 0) {
				m := gram.NewModel(scn.G, scn.Text, modelMax)
				if !m.Try(func() { m.Eval(x, op.S, p, op.A) }) {
					res.Skip = "model limit"
					return
				}
			}
		}
	}
	g := sharedGrammar(scn, res)
	if g == nil {
		return
	}
	edits := int64(0)
	fate, t := solo(res, dec, 20_000_000, func() {
		a, b := xbnf.NewCharstreamFromString(scn.Text), xbnf.NewCharstreamFromString(scn.Text)
		for i, op := range scn.Ops {
			x := sessionOp(g, a, op, false)
			y := sessionOp(g, b, op, true)
			edits++
			if x != y {
				res.fail("later", "step %d (%s %q) on a stream over %q gives\n%s\nwhen the results of the earlier steps were edited, else\n%s", i, op.Op, op.S, scn.Text, y, x)
				return
			}
		}
	})
	if fate != "" {
		res.fail("fate", "%s\n%s", fate, t.Stack)
		return
	}
	res.fault("result edited", edits)
	res.Key = fmt.Sprint(grammarText(scn), scn.Text, scn.Ops)
}

// edit changes a returned tree in place in one of several ways.
func edit(jr *JobRes, op Op) {
	var nodes []*xbnf.Node
	if jr.AST != nil {
		nodes = jr.AST.Nodes
	}
	if jr.Eval != nil && jr.Eval.Node != nil {
		nodes = append(nodes, jr.Eval.Node)
	}
	var walk func(n *xbnf.Node, d int)
	walk = func(n *xbnf.Node, d int) {
		if n == nil || d > 20000 {
			return
		}
		kids := append([]*xbnf.Node(nil), n.ChildNodes...)
		switch op.Op {
		case "scribble":
			for i := range n.Chars {
				n.Chars[i] = 'Z'
			}
			n.RuleName += "!"
			n.Sticky, n.Virtual, n.NonData, n.Tokenized = !n.Sticky, !n.Virtual, !n.NonData, !n.Tokenized
			if n.Position != nil {
				n.Position.Line += 1000
				n.Position.Col += 1000
			}
		case "append":
			// also writes into spare capacity
			n.Chars = append(n.Chars, 'Y', 'Y', 'Y')
			n.ChildNodes = append(n.ChildNodes, &xbnf.Node{RuleName: "extra"})
		case "prune":
			for i := range n.ChildNodes {
				n.ChildNodes[i] = nil
			}
			n.ChildNodes = nil
		}
		for _, k := range kids {
			walk(k, d+1)
		}
	}
	switch op.Op {
	case "simplify":
		if jr.AST != nil {
			jr.AST.MergeStickyNodes()
			jr.AST.RemoveVirtualNodes()
			jr.AST.RemoveNonDataNodes()
			jr.AST.RemoveRedundantNodes()
		}
		if jr.Eval != nil && jr.Eval.Node != nil {
			jr.Eval.MergeStickyNodes()
			jr.Eval.Node.RemoveVirtualNodes()
			jr.Eval.Node.RemoveNonDataNodes()
			jr.Eval.Node.RemoveRedundantNodes()
		}
		return
	case "level":
		if jr.AST != nil {
			switch op.B {
			case 0:
				jr.AST.MergeStickyNodes()
			case 1:
				jr.AST.RemoveRedundantNodes()
			case 2:
				jr.AST.RemoveVirtualNodes()
			case 3:
				jr.AST.RemoveNonDataNodes()
			}
		}
		return
	}
	for _, n := range nodes {
		walk(n, 0)
	}
	if op.Op == "scribble" && jr.Eval != nil {
		for i := range jr.Eval.CharsRead {
			jr.Eval.CharsRead[i] = 'Z'
		}
		jr.Eval.CharsUnused = append(jr.Eval.CharsUnused, 'Y', 'Y')
	}
	if jr.AST != nil && op.Op == "append" {
		jr.AST.Nodes = append(jr.AST.Nodes, &xbnf.Node{RuleName: "extra"})
	}
}

// view renders everything a result shows.
func view(jr *JobRes) string {
	s := ""
	if jr.AST != nil {
		s += dumpNodes(jr.AST.Nodes, true)
	}
	if jr.Eval != nil {
		s += evalOut(jr.Eval)
	}
	return s
}

// nodesOf lists every node of a result, so that nodes an edit or a
// simplification takes out of the tree stay in view of the caller.
func nodesOf(jr *JobRes) []*xbnf.Node {
	var out []*xbnf.Node
	var walk func(n *xbnf.Node, d int)
	walk = func(n *xbnf.Node, d int) {
		if n == nil || d > 20000 {
			return
		}
		out = append(out, n)
		for _, k := range n.ChildNodes {
			walk(k, d+1)
		}
	}
	if jr.AST != nil {
		for _, n := range jr.AST.Nodes {
			walk(n, 0)
		}
	}
	if jr.Eval != nil {
		walk(jr.Eval.Node, 0)
	}
	return out
}

// own renders what nodes hold themselves.
func own(nodes []*xbnf.Node) string {
	var b strings.Builder
	for _, n := range nodes {
		fmt.Fprintf(&b, "%s %s %q %s %v %v %v %v", n.RuleType, n.RuleName, string(n.Chars), n.Position, n.Sticky, n.Virtual, n.NonData, n.Tokenized)
		for _, k := range n.ChildNodes {
			if k == nil {
				b.WriteString(" nil")
			} else {
				fmt.Fprintf(&b, " (%s %s)", k.RuleType, k.RuleName)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func runC13(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	if scn.Kind == "session" {
		runSession(scn, dec, res)
		return
	}
	p, ok := soloOuts(scn, scn.Jobs, res)
	if !ok {
		return
	}
	g := sharedGrammar(scn, res)
	if g == nil {
		return
	}
	edits := int64(0)
	if scn.Kind == "concurrent" {
		// every task edits its own results as soon as it has them
		kept := make([]*JobRes, len(scn.Jobs))
		views := make([]string, len(scn.Jobs))
		edited := make([]bool, len(scn.Jobs))
		parts := make([][]*xbnf.Node, len(scn.Jobs))
		owns := make([]string, len(scn.Jobs))
		s, outs := concurrent(scn, g, scn.Jobs, dec, p.budget, res, func(i int, jr *JobRes) {
			kept[i] = jr
			parts[i] = nodesOf(jr)
			for _, op := range scn.Ops {
				if op.A == i {
					edit(jr, op)
					edited[i] = true
					edits++
				}
			}
			if !edited[i] {
				views[i] = view(jr)
			}
			owns[i] = own(parts[i])
		})
		if s.Deadlock != "" {
			res.fail("deadlock", "%s", s.Deadlock)
			return
		}
		for _, t := range s.Tasks() {
			if f := taskFate(s, t); f != "" {
				res.fail(strings.SplitN(f, ":", 2)[0], "%s: %s\n%s", t.Name, f, t.Stack)
				return
			}
		}
		for i := range outs {
			if outs[i] != p.outs[i] {
				res.fail("result", "%s while other results are edited gives\n%s\nalone\n%s", jobName(scn.Jobs[i]), outs[i], p.outs[i])
				return
			}
			if !edited[i] && kept[i] != nil && view(kept[i]) != views[i] {
				res.fail("alias", "the result of %s changed while others were edited:\n%s\nwas\n%s", jobName(scn.Jobs[i]), view(kept[i]), views[i])
				return
			}
			if o := own(parts[i]); o != owns[i] {
				res.fail("alias", "nodes of the result of %s (also those an edit took out of it) changed while others were edited:\n%s\nwere\n%s", jobName(scn.Jobs[i]), o, owns[i])
				return
			}
		}
		res.fault("result edited while other parses run", edits)
		if edits > 0 && len(scn.Jobs) > 1 {
			res.Key = fmt.Sprint(grammarText(scn), scn.Jobs, scn.Ops, s.TraceHash())
		}
		return
	}
	var kept []*JobRes
	var views []string
	var parts []*xbnf.Node // every node ever returned
	fate, t := solo(res, dec, 4*p.budget, func() {
		for i, j := range scn.Jobs {
			jr := runJob(g, j)
			if jr.Out != p.outs[i] {
				res.fail("result", "%s gives\n%s\nalone\n%s", jobName(j), jr.Out, p.outs[i])
				return
			}
			kept = append(kept, jr)
			views = append(views, view(jr))
			parts = append(parts, nodesOf(jr)...)
			for k := range kept {
				if v := view(kept[k]); v != views[k] {
					res.fail("alias", "%s changed the earlier result of %s:\n%s\nwas\n%s", jobName(j), jobName(scn.Jobs[k]), v, views[k])
					return
				}
			}
		}
		// parts of one tree must not share storage either: edit node by node
		for _, op := range scn.Ops {
			if op.A >= len(kept) {
				continue
			}
			edit(kept[op.A], op)
			edits++
			views[op.A] = view(kept[op.A])
			owned := own(parts)
			for k := range kept {
				if v := view(kept[k]); v != views[k] {
					res.fail("alias", "%s of the result of %s changed the result of %s:\n%s\nwas\n%s", op.Op, jobName(scn.Jobs[op.A]), jobName(scn.Jobs[k]), v, views[k])
					return
				}
			}
			for i, j := range scn.Jobs {
				if jr := runJob(g, j); jr.Out != p.outs[i] {
					res.fail("later", "after %s of the result of %s, %s gives\n%s\nalone\n%s", op.Op, jobName(scn.Jobs[op.A]), jobName(j), jr.Out, p.outs[i])
					return
				}
				if o := own(parts); o != owned {
					res.fail("alias", "%s changed nodes of earlier results (some of them taken out by %s):\n%s\nwere\n%s", jobName(j), op.Op, o, owned)
					return
				}
			}
		}
	})
	if fate != "" {
		res.fail("fate", "%s\n%s", fate, t.Stack)
		return
	}
	res.fault("result edited", edits)
	if edits > 0 && len(kept) > 1 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Jobs, scn.Ops)
	}
}
