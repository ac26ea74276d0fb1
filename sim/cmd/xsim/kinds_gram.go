package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"xbnfsim/gram"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&Kind{Prop: "C10", Gen: genC10, Run: runC10,
		Rule: "A case is a history of accepted and rejected rule definitions (cut off at any character, corrupted, duplicate, badly named) on one grammar, interleaved with validations and parses; after every rejection the grammar is compared in every observable way with a twin that never saw the attempt. Non-trivial: at least one definition was rejected; distinct by history."})
	register(&Kind{Prop: "C11", Gen: genC11, Run: runC11,
		Rule: "A case is a rule set added in some order with validations, dumps and parses in between; after every validation the grammar is compared with one built at once from the same rules, and its roots with the reference. Non-trivial: rules were added after a validation; distinct by history."})
	register(&Kind{Prop: "C14", Gen: genC14, Run: runC14,
		Rule: "A case is a grammar text (with several roots, several undefined references or errors in it) whose dump, relations, validation and error messages are produced under several visiting orders and repeatedly. Non-trivial: a collection with two or more entries was visited in a non-canonical order; distinct by text and orders."})
}

// breakDef damages one definition; the result is usually not acceptable.
func breakDef(r *gram.Rand, g *gram.Grammar, rl gram.Rule) string {
	d := []rune(rl.Def())
	switch r.N(9) {
	case 0, 1, 2, 3: // cut off
		return string(d[:r.N(len(d))])
	case 4: // a character replaced
		p := r.N(len(d))
		d[p] = []rune{'\'', '"', '(', '}', '<', '|', '-', '\\', ']', '=', '>', '^', '#'}[r.N(13)]
		return string(d)
	case 5: // a character dropped
		p := r.N(len(d))
		return string(append(d[:p:p], d[p+1:]...))
	case 6: // a reference to more rules, then a cut-off part
		s := rl.Bare()
		for i, n := 0, 1+r.N(3); i < n; i++ {
			if r.P(60) {
				s += " " + g.Rules[r.N(len(g.Rules))].Name
			} else {
				s += " undefined" + fmt.Sprint(r.N(3))
			}
		}
		return s + []string{" (", " '", " [", " {'a'", " \"x", " <'a'", " |", " 'a' |"}[r.N(8)]
	case 7: // bad name
		return []string{"1bad", "", "a-b", " ", "é"}[r.N(5)] + " = " + rl.X.Top()
	}
	return strings.Replace(string(d), "=", "", 1)
}

func genC10(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1}
	o := base(r, scn, 24, nil)
	again := 1 // attempts per rejected definition
	if idx%400 == 9 {
		scn.Scale = true
		again = gram.Size(r, 5, 300)
	}
	first := 0
	if r.P(30) {
		// the first rules come from a loaded text
		for k, n := 0, 1+r.N(len(scn.G.Rules)); k < n; k++ {
			part := gram.Grammar{Rules: scn.G.Rules[:k+1]}
			if !undefinedRefs(&part) {
				first = k + 1
			}
		}
		if first > 0 {
			part := gram.Grammar{Rules: scn.G.Rules[:first]}
			scn.Ops = append(scn.Ops, Op{Op: "load", S: strings.TrimSuffix(part.Text(), "\n")})
		}
	}
	for i, rl := range scn.G.Rules {
		if i < first {
			continue
		}
		if r.P(5) {
			// a reference registered by the caller
			used := []string{"undefined1", "undefined2", pickRule(r, scn.G), rl.Name}[r.N(4)]
			scn.Ops = append(scn.Ops, Op{Op: "usage", S: used + " " + []string{rl.Name, pickRule(r, scn.G)}[r.N(2)]})
		}
		for r.P(55) {
			op := Op{Op: []string{"add", "add", "parserule"}[r.N(3)], S: breakDef(r, scn.G, rl)}
			for k := 0; k < again; k++ {
				scn.Ops = append(scn.Ops, op)
				if r.P(50) {
					op.S = breakDef(r, scn.G, rl)
				}
			}
			if again > 1 {
				again = 1 + again/2
			}
			if r.P(15) {
				scn.Ops = append(scn.Ops, Op{Op: "validate"})
			}
		}
		op := Op{Op: "add", S: rl.Def()}
		if r.P(25) {
			op = Op{Op: "parserule", S: rl.Def()}
		}
		scn.Ops = append(scn.Ops, op)
		if r.P(25) {
			// the same name again
			k := scn.G.Rules[r.N(i+1)]
			d := k.Name + " = " + scn.G.Rules[r.N(len(scn.G.Rules))].X.Top()
			if r.P(50) {
				d = k.Name + " = undefined9 " + k.X.Top()
			}
			scn.Ops = append(scn.Ops, Op{Op: "add", S: d})
		}
		if r.P(20) {
			scn.Ops = append(scn.Ops, Op{Op: "validate"})
		}
	}
	for i, n := 0, r.N(3); i < n; i++ {
		scn.Ops = append(scn.Ops, Op{Op: "add", S: breakDef(r, scn.G, scn.G.Rules[r.N(len(scn.G.Rules))])})
	}
	scn.Ops = append(scn.Ops, Op{Op: "validate"})
	for i, n := 0, 1+r.N(3); i < n; i++ {
		scn.Texts = append(scn.Texts, anotherText(r, scn, o, 24))
	}
	return scn
}

// addDef applies a definition; a panic counts as a failure.
func addDef(g *xbnf.Grammar, op Op) (out string, err error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(simrt.BudgetExceeded); ok {
				panic(p)
			}
			if e, ok := p.(error); ok && strings.Contains(e.Error(), "torn down") {
				panic(p)
			}
			out, err = "", fmt.Errorf("panic: %v", p)
		}
	}()
	var rule xbnf.IRule
	if op.Op == "parserule" {
		t := strings.SplitN(op.S, "=", 2)
		if len(t) != 2 {
			return "", fmt.Errorf("no =")
		}
		rule, err = g.ParseRule(strings.TrimSpace(t[0]), t[1])
	} else {
		rule, err = g.AddRule(op.S)
	}
	if err != nil {
		return "", err
	}
	return rule.Name() + ":" + rule.String(), nil
}

// observe renders everything that can be seen of a grammar without changing
// it.
func observe(g *xbnf.Grammar, names []string) string {
	var b strings.Builder
	b.WriteString(g.Serialize(true))
	b.WriteString(g.StringRuleRelation("%s"))
	for _, n := range names {
		rule := g.GetRule(n)
		if rule == nil {
			fmt.Fprintf(&b, "%s: none %v\n", n, g.GetRecord(n) == nil)
			continue
		}
		fmt.Fprintf(&b, "%s: %s\n", n, rule.String())
	}
	return b.String()
}

// usable reports whether parsing with the rules defined by defs is within the
// reference's reach: every definition is one of the scenario's own rules.
func usable(scn *Scn, accepted []string) bool {
	own := map[string]bool{}
	for _, r := range scn.G.Rules {
		own[r.Def()] = true
	}
	for _, d := range accepted {
		if !own[d] {
			return false
		}
	}
	return true
}

func prefixGrammar(scn *Scn, accepted []string) *gram.Grammar {
	g := &gram.Grammar{}
	for _, d := range accepted {
		for _, r := range scn.G.Rules {
			if r.Def() == d {
				g.Rules = append(g.Rules, r)
				break
			}
		}
	}
	return g
}

func runC10(scn *Scn, dec *simrt.Decider, res *Result) {
	var names, own []string
	for _, r := range scn.G.Rules {
		names = append(names, r.Name)
	}
	own = names[:len(names):len(names)]
	names = append(names, "undefined0", "undefined1", "undefined2", "undefined9", "nosuch")
	rejected := int64(0)
	dec.Canon[simrt.StreamMap] = true
	var accepted []string
	var g, twin *xbnf.Grammar
	var base string
	validated := false
	fate, t := solo(res, dec, 20_000_000+2_000_000*int64(len(scn.Ops)), func() {
		g, twin = xbnf.NewGrammar(), xbnf.NewGrammar()
		for i, op := range scn.Ops {
			switch op.Op {
			case "load":
				if i > 0 {
					continue
				}
				a, err := xbnf.NewGrammarFromString(op.S)
				b, err2 := xbnf.NewGrammarFromString(op.S)
				if err != nil || err2 != nil {
					res.fail("load", "step %d: %q refused: %v", i, op.S, err)
					return
				}
				g, twin, base = a, b, op.S
				accepted = strings.Split(op.S, "\n")
				validated = true
			case "usage":
				if f := strings.Fields(op.S); len(f) == 2 {
					g.AddUsage(f[0], f[1])
					twin.AddUsage(f[0], f[1])
					validated = false
				}
			case "add", "parserule":
				out, err := addDef(g, op)
				if err == nil {
					accepted = append(accepted, op.S)
					validated = false
					out2, err2 := addDef(twin, op)
					if err2 != nil || out != out2 {
						res.fail("accepted", "step %d: %q is accepted (%s) after rejected attempts, but gives %v (%s) without them", i, op.S, out, err2, out2)
						return
					}
					continue
				}
				rejected++
				_, err2 := addDef(twinFor(base, accepted, validated), op)
				if err2 == nil {
					res.fail("refused", "step %d: %q is refused (%s) after rejected attempts, but accepted without them", i, op.S, err)
					return
				}
				if err.Error() != err2.Error() {
					res.fail("message", "step %d: %q is refused with %q after rejected attempts, with %q without them", i, op.S, err, err2)
					return
				}
				if strings.HasPrefix(err.Error(), "panic") {
					res.probe("definition rejected by panic")
				}
			case "validate":
				a, b := errText(g.Validate()), errText(twin.Validate())
				if a != b {
					res.fail("validate", "step %d: Validate says %q after rejected attempts, %q without them", i, a, b)
					return
				}
				validated = a == ""
			}
			if a, b := observe(g, names), observe(twin, names); a != b {
				res.fail("state", "step %d (%s %q): the grammar now shows\n%s\nthe twin without rejected attempts\n%s", i, op.Op, op.S, a, b)
				return
			}
		}
		if !validated || !usable(scn, accepted) {
			return
		}
		for _, text := range scn.Texts {
			pg := prefixGrammar(scn, accepted)
			if _, ok := modelParse(nil, pg, rootsOf(pg), text); !ok {
				continue
			}
			j := Job{Op: "raw", Text: text}
			a, b := runJob(g, j).Out, runJob(twin, j).Out
			if a != b {
				res.fail("parse", "parsing %q gives\n%s\nafter rejected attempts, without them\n%s", text, a, b)
				return
			}
			for k, n := range own {
				if pg.Lookup(n) == nil {
					continue
				}
				j := Job{Op: []string{"rule", "embed"}[k%2], Rule: n, Text: text}
				if !affordable(pg, j) {
					continue
				}
				a, b := runJob(g, j).Out, runJob(twin, j).Out
				if a != b {
					res.fail("parse", "%s %s on %q gives\n%s\nafter rejected attempts, without them\n%s", j.Op, n, text, a, b)
					return
				}
			}
			res.probe("parsed after rejected definitions")
		}
	})
	if fate != "" && res.Class == "" {
		res.fail("fate", "%s\n%s", fate, t.Stack)
		return
	}
	res.fault("definition rejected", rejected)
	if rejected > 0 {
		res.Key = fmt.Sprint(scn.Ops, scn.Texts)
	}
}

// affordable reports whether the reference gets through a job within its step
// limit.
func affordable(g *gram.Grammar, j Job) bool {
	m := gram.NewModel(g, j.Text, modelMax)
	return m.Try(func() {
		switch j.Op {
		case "raw":
			m.Parse(rootsOf(g))
		case "embed":
			m.Embed(j.Rule)
		default:
			m.Eval(m.G.Lookup(j.Rule), j.Rule, 0, modelFlag(j))
		}
	})
}

// twinFor builds a throw-away grammar from accepted definitions.
func twinFor(base string, accepted []string, validated bool) *xbnf.Grammar {
	g := xbnf.NewGrammar()
	if base != "" {
		l, err := xbnf.NewGrammarFromString(base)
		if err == nil {
			g = l
			accepted = accepted[strings.Count(base, "\n")+1:]
		}
	}
	for _, d := range accepted {
		addDef(g, Op{Op: "add", S: d})
	}
	if validated {
		g.Validate()
	}
	return g
}

// ---- C11

func genC11(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1}
	o := base(r, scn, 24, func(o *gram.Options) {
		if o.Rules < 3 {
			o.Rules += 2
		}
	})
	some := 45
	if idx%400 == 9 {
		scn.Scale = true
		scn.G, scn.Text = gram.ManyRules(r)
		some = 1 + 400/(10+len(scn.G.Rules))
	}
	if idx%400 == 209 {
		scn.Scale, some = true, 10
		scn.N = gram.Size(r, 50, 30000) // lines between the rules of a text
	}
	// an order of the rules
	perm := make([]int, len(scn.G.Rules))
	for i := range perm {
		perm[i] = i
	}
	if r.P(75) {
		for i := range perm {
			j := i + r.N(len(perm)-i)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	loaded := map[int]bool{}
	if r.P(35) {
		// some rules (and what they refer to) come from a loaded text
		var need func(i int)
		var order []string
		need = func(i int) {
			if loaded[i] {
				return
			}
			loaded[i] = true
			order = append(order, fmt.Sprint(i))
			for _, n := range scn.G.Rules[i].X.Refs(nil) {
				for j := range scn.G.Rules {
					if scn.G.Rules[j].Name == n {
						need(j)
					}
				}
			}
		}
		for k, n := 0, 1+r.N(len(perm)); k < n; k++ {
			need(perm[k])
		}
		scn.Ops = append(scn.Ops, Op{Op: []string{"load", "file"}[r.N(2)], S: strings.Join(order, ",")})
	}
	byParse := []int{0, 0, 30, 100}[r.N(4)]
	for k, i := range perm {
		if !loaded[i] {
			op := Op{Op: "add", A: i}
			if r.P(byParse) {
				op.B = 1
			}
			scn.Ops = append(scn.Ops, op)
		}
		if r.P(some) || k == len(perm)-1 {
			scn.Ops = append(scn.Ops, Op{Op: "validate"})
			if r.P(40) {
				scn.Ops = append(scn.Ops, Op{Op: []string{"parse", "dump", "validate", "relation"}[r.N(4)]})
			}
		}
		if r.P(10) && r.P(2*some) {
			scn.Ops = append(scn.Ops, Op{Op: []string{"dump", "relation"}[r.N(2)]})
		}
		if r.P(25) && r.P(2*some) {
			// use of the grammar as far as it is, complete or not
			scn.Ops = append(scn.Ops, Op{Op: "use", A: r.N(len(perm)), B: r.N(4)})
		}
	}
	for i, n := 0, 1+r.N(3); i < n; i++ {
		scn.Texts = append(scn.Texts, anotherText(r, scn, o, 24))
	}
	return scn
}

func undefinedRefs(g *gram.Grammar) bool {
	for _, r := range g.Rules {
		for _, n := range r.X.Refs(nil) {
			if g.Lookup(n) == nil {
				return true
			}
		}
	}
	return false
}

// lineLabel is how a dump shows the line of a rule.
var lineLabel = regexp.MustCompile(`(?m)\bL\d+:`)

func runC11(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	grown := 0
	fate, t := solo(res, dec, 60_000_000+30_000_000*int64(len(scn.Ops)), func() {
		g := xbnf.NewGrammar()
		var sofar gram.Grammar
		validations := 0
		var vroots []string // as of the last validation that succeeded
		fits := func(j Job) bool {
			if j.Op != "raw" {
				return affordable(&sofar, j)
			}
			m := gram.NewModel(&sofar, j.Text, modelMax)
			return m.Try(func() { m.Parse(vroots) })
		}
		fresh := func() *xbnf.Grammar {
			f := xbnf.NewGrammar()
			for _, r := range sofar.Rules {
				if _, err := f.AddRule(r.Def()); err != nil {
					res.fail("build", "%q: %s", r.Def(), err)
				}
			}
			return f
		}
		for i, op := range scn.Ops {
			switch op.Op {
			case "load", "file":
				if len(sofar.Rules) > 0 {
					continue
				}
				var part gram.Grammar
				for _, f := range strings.Split(op.S, ",") {
					var k int
					if _, err := fmt.Sscan(f, &k); err == nil && k < len(scn.G.Rules) && part.Lookup(scn.G.Rules[k].Name) == nil {
						part.Rules = append(part.Rules, scn.G.Rules[k])
					}
				}
				if len(part.Rules) == 0 || undefinedRefs(&part) {
					continue
				}
				text := strings.TrimSuffix(part.Text(), "\n")
				var l *xbnf.Grammar
				var err error
				if op.Op == "file" {
					name := filepath.Join(scratchDir(), "grammar.xbnf")
					if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
						panic(err)
					}
					l, err = xbnf.NewGrammarFromFile(name)
				} else {
					l, err = xbnf.NewGrammarFromString(text)
				}
				if err != nil {
					res.fail("load", "step %d: %q refused: %s", i, text, err)
					return
				}
				g, sofar = l, part
				vroots = rootsOf(&sofar)
				validations++
			case "add":
				if op.A >= len(scn.G.Rules) {
					continue
				}
				rl := scn.G.Rules[op.A]
				if sofar.Lookup(rl.Name) != nil {
					continue
				}
				add := Op{Op: "add", S: rl.Def()}
				if op.B == 1 {
					add.Op = "parserule"
				}
				if _, err := addDef(g, add); err != nil {
					res.fail("add", "step %d: %q refused: %s", i, rl.Def(), err)
					return
				}
				sofar.Rules = append(sofar.Rules, rl)
				if validations > 0 {
					grown++
				}
			case "dump":
				g.Serialize(i%2 == 0)
			case "relation":
				f := fresh()
				if a, b := g.StringRuleRelation("%s"), f.StringRuleRelation("%s"); a != b {
					res.fail("relation", "step %d: grown step by step\n%s\nat once\n%s", i, a, b)
					return
				}
			case "parse":
				// also between a definition and its validation
				if j := (Job{Op: "raw", Text: scn.Text}); fits(j) {
					runJob(g, j)
				}
			case "use":
				if op.A >= len(scn.G.Rules) || sofar.Lookup(scn.G.Rules[op.A].Name) == nil {
					continue
				}
				j := Job{Op: []string{"rule", "embed", "ruleeval", "raw"}[op.B%4], Rule: scn.G.Rules[op.A].Name, Text: scn.Text, Flag: 1}
				if len(scn.Texts) > 0 && i%2 == 1 {
					j.Text = scn.Texts[0]
				}
				if fits(j) {
					runJob(g, j)
				}
			case "validate":
				validations++
				f := fresh()
				a, b := errText(g.Validate()), errText(f.Validate())
				if a != b {
					res.fail("verdict", "step %d: Validate of the grown grammar: %q, of the same rules at once: %q", i, a, b)
					return
				}
				if want := undefinedRefs(&sofar); want != (a != "") {
					res.fail("verdict", "step %d: Validate says %q; undefined references: %v", i, a, want)
					return
				}
				if a != "" {
					res.probe("validation failed, then completed")
					continue
				}
				vroots = rootsOf(&sofar)
				if x, y := g.Serialize(true), f.Serialize(true); x != y {
					res.fail("dump", "step %d: grown step by step\n%s\nat once\n%s", i, x, y)
					return
				}
				if roots := dumpRoots(g.Serialize(false)); roots != sortedRoots(&sofar) {
					res.fail("roots", "step %d: roots shown %q, defined %q", i, roots, sortedRoots(&sofar))
					return
				}
				if a, b := dumpTerminals(g.Serialize(i%2 == 0)), strings.Join(terminals(&sofar), ","); a != b {
					res.fail("terminals", "step %d: rules shown to use no other rule %q, defined %q", i, a, b)
					return
				}
				if a, b := dumpUsers(g.StringRuleRelation("%s")), users(&sofar); a != b {
					res.fail("references", "step %d: users shown %q, defined %q", i, a, b)
					return
				}
				whole := sofar.Text()
				if scn.N > 0 {
					at := strings.Index(whole, "\n") + 1
					whole = whole[:at] + strings.Repeat("// no rule\n", scn.N) + whole[at:]
				}
				once, err := xbnf.NewGrammarFromString(whole)
				if err != nil {
					res.fail("build", "the same rules at once: %s", err)
					return
				}
				x, y := g.Serialize(true), once.Serialize(true)
				if scn.N > 0 { // the lines the rules stand on differ
					x, y = lineLabel.ReplaceAllString(x, "L:"), lineLabel.ReplaceAllString(y, "L:")
				}
				if x != y {
					res.fail("dump", "step %d: grown step by step\n%s\nread at once\n%s", i, x, y)
					return
				}
				for _, text := range append([]string{scn.Text}, scn.Texts...) {
					e, ok := modelParse(res, &sofar, rootsOf(&sofar), text)
					if !ok {
						continue
					}
					j := Job{Op: "raw", Text: text}
					x, y := runJob(g, j).Out, runJob(once, j).Out
					if x != y {
						res.fail("parse", "step %d: parsing %q with the grown grammar\n%s\nwith the same rules at once\n%s", i, text, x, y)
						return
					}
					if msg := againstModel(x, e, true); msg != "" {
						res.fail("reference", "step %d: parsing %q: %s", i, text, msg)
						return
					}
				}
			}
		}
	})
	if fate != "" && res.Class == "" {
		res.fail("fate", "%s\n%s", fate, t.Stack)
		return
	}
	res.fault("rule added after a validation", int64(grown))
	if grown > 0 {
		res.Key = fmt.Sprint(grammarText(scn), scn.Ops, scn.Text, scn.Texts)
	}
}

// dumpRoots extracts the sorted root names from a dump.
func dumpRoots(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "Root Rules:") {
			var out []string
			for _, n := range strings.Split(strings.TrimPrefix(l, "Root Rules:"), ",") {
				if n = strings.TrimSpace(n); n != "" {
					out = append(out, n)
				}
			}
			sort.Strings(out)
			return strings.Join(out, ",")
		}
	}
	return "?"
}

var ruleLine = regexp.MustCompile(`(?m)^\s*L\d+: !?([A-Za-z0-9_]+)\[T\]\s* = `)

// dumpTerminals extracts the sorted names of the rules a dump marks as
// terminal.
func dumpTerminals(s string) string {
	var out []string
	for _, m := range ruleLine.FindAllStringSubmatch(s, -1) {
		out = append(out, m[1])
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// terminals lists the rules that use no other rule.
func terminals(g *gram.Grammar) []string {
	var out []string
	for _, r := range g.Rules {
		if len(r.X.Refs(nil)) == 0 {
			out = append(out, r.Name)
		}
	}
	sort.Strings(out)
	return out
}

// dumpUsers extracts who uses which rule, each user once.
func dumpUsers(s string) string {
	_, s, _ = strings.Cut(s, "Rule Reference Map:")
	var out []string
	for _, l := range strings.Split(s, "\n") {
		name, by, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		out = append(out, usedBy(strings.TrimSpace(name), strings.Split(by, ",")))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func usedBy(name string, by []string) string {
	seen := map[string]bool{}
	var out []string
	for _, n := range by {
		if n = strings.TrimSpace(n); n != "" && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return name + " by " + strings.Join(out, " ")
}

// users tells what dumpUsers should find.
func users(g *gram.Grammar) string {
	by := map[string][]string{}
	for _, r := range g.Rules {
		for _, n := range r.X.Refs(nil) {
			by[n] = append(by[n], r.Name)
		}
	}
	var out []string
	for n, l := range by {
		out = append(out, usedBy(n, l))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func sortedRoots(g *gram.Grammar) string {
	out := append([]string(nil), rootsOf(g)...)
	sort.Strings(out)
	return strings.Join(out, ",")
}

// ---- C14

func genC14(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, N: 4 + r.N(5)}
	base(r, scn, 20, func(o *gram.Options) {
		if o.Rules < 3 {
			o.Rules += 2
		}
	})
	if idx%400 == 9 {
		scn.Scale, scn.N = true, 2
		scn.G, _ = gram.ManyRules(r)
	}
	var lines []string
	for _, rl := range scn.G.Rules {
		x := rl.Bare()
		if r.P(25) {
			x += fmt.Sprintf(" missing%d", r.N(5+len(scn.G.Rules)/8))
		}
		if rl.Note != "" {
			x += " //" + rl.Note
		}
		if r.P(8) {
			x = breakDef(r, scn.G, rl)
		}
		if r.P(6) {
			continue // leaves references undefined
		}
		lines = append(lines, x)
		if r.P(8) {
			lines = append(lines, []string{"", "// comment", "  "}[r.N(3)])
		}
	}
	scn.GText = strings.Join(lines, "\n") + "\n"
	return scn
}

// diagnostics renders every message the definitions give rise to.
func diagnostics(gtext string) string {
	var b strings.Builder
	g, err := xbnf.NewGrammarFromString(gtext)
	fmt.Fprintf(&b, "build: %s\n", errText(err))
	if g != nil {
		b.WriteString(g.Serialize(true))
		b.WriteString(g.Serialize(false))
		b.WriteString(g.StringRuleRelation("%-9s"))
	}
	// the same definitions one by one
	h := xbnf.NewGrammar()
	for _, l := range strings.Split(gtext, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		out, err := addDef(h, Op{Op: "add", S: l})
		fmt.Fprintf(&b, "%s %s\n", out, errText(err))
	}
	b.WriteString(h.Serialize(true))
	fmt.Fprintf(&b, "validate: %s\n", errText(h.Validate()))
	b.WriteString(h.Serialize(true))
	fmt.Fprintf(&b, "validate again: %s\n", errText(h.Validate()))
	b.WriteString(h.StringRuleRelation("%s"))
	return b.String()
}

func runC14(scn *Scn, dec *simrt.Decider, res *Result) {
	moved := simrt.MapShuffled
	first := ""
	for k := 0; k <= scn.N; k++ {
		d := dec
		if k == 0 {
			d = nil
		}
		var out, again string
		fate, t := solo(res, d, 20_000_000+20*extra, func() {
			out = diagnostics(scn.GText)
			if k%3 == 0 {
				again = diagnostics(scn.GText)
			} else {
				again = out
			}
		})
		if fate != "" {
			res.fail("fate", "%s\n%s", fate, t.Stack)
			return
		}
		if out != again {
			res.fail("repeat", "produced twice in one process:\n%s\nvs\n%s", out, again)
			return
		}
		if k == 0 {
			first = out
		} else if out != first {
			res.fail("order", "visiting order %d gives\n%s\ncanonical order gives\n%s", k, out, first)
			return
		}
	}
	m := simrt.MapShuffled - moved
	res.fault("visiting order changed", m)
	if m > 0 {
		res.Key = fmt.Sprint(scn.GText, dec.Recording()[simrt.StreamMap])
	}
	if strings.Contains(first, "not defined") {
		res.probe("undefined references")
	}
}
