package main

import (
	"fmt"
	"strings"

	"xbnfsim/gram"
	"xbnfsim/simio"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

// Scn is one scenario: everything a simulated run depends on besides the
// recorded decisions.
type Scn struct {
	Prop  string        `json:"prop"`
	Kind  string        `json:"kind"`
	Index int           `json:"index"`
	Seed  uint64        `json:"seed"` // decision seed
	G     *gram.Grammar `json:"g,omitempty"`
	GText string        `json:"gtext,omitempty"` // raw grammar text, when not generated from G
	Text  string        `json:"text"`
	Texts []string      `json:"texts,omitempty"`
	// damage applied to Text before delivery
	Damage []Damage      `json:"damage,omitempty"`
	Stream StreamCfg     `json:"stream"`
	Jobs   []Job         `json:"jobs,omitempty"`
	Ops    []Op          `json:"ops,omitempty"`
	Gap    int64         `json:"gap,omitempty"`
	Serial bool          `json:"serial,omitempty"`
	Point  int           `json:"point"` // sweep position; -1: all
	Plan   []simio.Fault `json:"plan,omitempty"`
	N      int           `json:"n,omitempty"`
	Scale  bool          `json:"scale,omitempty"` // of unusual size: larger limits
	// recorded decisions (replay files only)
	Dec [simrt.NumStreams][]int64 `json:"dec"`
}

// Damage is one delivery fault.
type Damage struct {
	Kind string `json:"kind"` // cut, replace, drop, dup
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	C    rune   `json:"c,omitempty"`
}

// Job is one client operation on a shared grammar.
type Job struct {
	Op     string    `json:"op"`
	Rule   string    `json:"rule,omitempty"`
	Text   string    `json:"text,omitempty"`
	Level  int       `json:"level,omitempty"`
	Flag   int       `json:"flag,omitempty"`
	Stream StreamCfg `json:"stream"`
	Task   int       `json:"task,omitempty"`
}

// Op is one step of a history (meaning depends on the kind).
type Op struct {
	Op   string `json:"op"`
	S    string `json:"s,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	Task int    `json:"task,omitempty"`
}

// Result of running one scenario.
type Result struct {
	Class  string // "" : held
	Detail string
	Skip   string // scenario outside the model's step limit

	Steps    int64
	Switches int64
	SimTime  int64
	Hash     uint64
	Key      string // distinctness key of a non-trivial run ("" : trivial)
	Faults   map[string]int64
	Probes   map[string]int64
	Subruns  int64
	Point    int      // failing sweep position (0: none)
	Log      []string // context switches (replays only)
	MaxRatio int64    // largest share of a step budget used, per mille
}

func newResult() *Result {
	return &Result{Faults: map[string]int64{}, Probes: map[string]int64{}, Hash: 1469598103934665603}
}

func (r *Result) fail(class, format string, a ...any) {
	if r.Class == "" {
		r.Class = class
		r.Detail = fmt.Sprintf(format, a...)
		if len(r.Detail) > 6000 {
			r.Detail = r.Detail[:6000] + "..."
		}
	}
}

func (r *Result) fault(k string, n int64) {
	if n > 0 {
		r.Faults[k] += n
	}
}

// ratio records how much of a budget was used (per mille, maximum).
func (r *Result) ratio(used, budget int64) {
	if v := used * 1000 / budget; v > r.MaxRatio {
		r.MaxRatio = v
	}
}

func (r *Result) probe(k string) { r.Probes[k]++ }

func (r *Result) addModel(m *gram.Model) {
	for k, v := range m.Probes {
		r.Probes[k] += int64(v)
	}
}

// absorb takes over a finished simulation's statistics.
func (r *Result) absorb(s *simrt.Sim) {
	r.Steps += s.Steps()
	r.Switches += s.Switches
	r.SimTime += s.Now()
	r.Hash = (r.Hash ^ s.TraceHash()) * 1099511628211
	r.Subruns++
}

// keepLog makes runs record their context switches (replays).
var keepLog bool

const defaultBudget = 3_000_000

// taskFate describes how a task ended abnormally ("" : normally).
func taskFate(s *simrt.Sim, t *simrt.Task) string {
	if t.Killed {
		return "deadlock"
	}
	switch p := t.Panic.(type) {
	case nil:
		return ""
	case simrt.BudgetExceeded:
		return "no-progress"
	case StreamAbort:
		return "abort"
	default:
		return "panic: " + fmt.Sprint(p)
	}
}

// solo runs fn as the only task, in canonical order unless dec is given.
func solo(r *Result, dec *simrt.Decider, budget int64, fn func()) (fate string, t *simrt.Task) {
	gap := int64(-1)
	if dec == nil {
		gap = 0
		dec = simrt.ReplayDecider([simrt.NumStreams][]int64{})
	}
	if budget <= 0 {
		budget = defaultBudget
	}
	s := simrt.New(simrt.Config{Budget: budget, MeanGap: gap}, dec)
	t = s.Spawn("main", fn)
	s.Run()
	if r != nil {
		r.absorb(s)
	}
	f := taskFate(s, t)
	if f == "" && s.Over {
		f = "no-progress"
	}
	if s.Deadlock != "" {
		f = "deadlock"
	}
	return f, t
}

// grammarOf builds the scenario's grammar (must run inside a task).
func grammarOf(scn *Scn) (*xbnf.Grammar, error) {
	if scn.GText != "" {
		return xbnf.NewGrammarFromString(scn.GText)
	}
	return xbnf.NewGrammarFromString(scn.G.Text())
}

// errText renders an error.
func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// parseOut is the canonical outcome of a whole-text parse.
func parseOut(ast *xbnf.AST, err error, pos bool) string {
	if err != nil {
		if ast != nil {
			return "ERR+TREE " + err.Error()
		}
		return "ERR " + err.Error()
	}
	if ast == nil {
		return "NIL"
	}
	return "OK\n" + dumpNodes(ast.Nodes, pos)
}

func evalOut(e *xbnf.EvalResult) string {
	if e == nil {
		return "NIL"
	}
	return fmt.Sprintf("read=%q unused=%q sticky=%v err=%q at %d\n%s", string(e.CharsRead), string(e.CharsUnused), e.Sticky, errText(e.Error), e.ErrIdx, dumpTree(e.Node, true))
}

// JobRes is what a job produced.
type JobRes struct {
	Out   string
	Nodes []*xbnf.Node
	AST   *xbnf.AST
	Eval  *xbnf.EvalResult
	Strm  *SimStream
}

// runJob performs one client operation.
func runJob(g *xbnf.Grammar, j Job) *JobRes {
	jr := &JobRes{}
	switch j.Op {
	case "raw":
		jr.Strm = NewSimStream(j.Text, j.Stream)
		ast, err := g.EvalRaw(jr.Strm)
		jr.AST = ast
		jr.Out = parseOut(ast, err, true)
	case "level":
		jr.Strm = NewSimStream(j.Text, j.Stream)
		ast, err := g.Eval(jr.Strm, j.Level)
		jr.AST = ast
		jr.Out = parseOut(ast, err, true)
		if err == nil {
			jr.Out += fmt.Sprintf("\ntext=%q nodes=%d tokens=%d sticky=%d", string(ast.Text()), ast.CountNodes(), ast.CountTokens(), ast.CountStickyNodes())
		}
	case "rule":
		jr.Eval = g.EvalRule(j.Rule, j.Text)
		jr.Out = evalOut(jr.Eval)
	case "ruleeval":
		rule := g.GetRule(j.Rule)
		if rule == nil {
			jr.Out = "no rule"
			break
		}
		jr.Strm = NewSimStream(j.Text, j.Stream)
		jr.Eval = rule.Eval(g, jr.Strm, j.Flag)
		jr.Out = evalOut(jr.Eval)
	case "embed":
		jr.Eval = g.EvalEmbed(j.Rule, j.Text)
		jr.Out = evalOut(jr.Eval)
	case "show":
		// every way to look at a result
		jr.Eval = g.EvalRule(j.Rule, j.Text)
		var b strings.Builder
		b.WriteString(evalOut(jr.Eval))
		counts := func() {
			if n := jr.Eval.Node; n != nil {
				fmt.Fprintf(&b, "\n%d %d %d %q", n.CountNodes(), n.CountTokens(), n.CountStickyNodes(), string(n.Text()))
			}
		}
		counts()
		b.WriteString(jr.Eval.StringTree(nil))
		for i := 0; i < 4; i++ {
			b.WriteString("\n" + jr.Eval.StringTree(&xbnf.NodeTreeConfig{PrintRuleType: i%2 == 0, PrintNonleafNodeText: i < 2, VerboseNodeText: i == 0}))
		}
		jr.Eval.MergeStickyNodes()
		counts()
		b.WriteString("\n" + evalOut(jr.Eval))
		jr.Out = b.String()
	case "simplify":
		jr.Strm = NewSimStream(j.Text, j.Stream)
		ast, err := g.EvalRaw(jr.Strm)
		jr.AST = ast
		jr.Out = parseOut(ast, err, true)
		if err == nil {
			ast.MergeStickyNodes()
			jr.Out += "\nM " + dumpNodes(ast.Nodes, true)
			ast.RemoveVirtualNodes()
			jr.Out += "\nV " + dumpNodes(ast.Nodes, true)
			ast.RemoveNonDataNodes()
			jr.Out += "\nD " + dumpNodes(ast.Nodes, true)
			ast.RemoveRedundantNodes()
			jr.Out += "\nR " + ast.StringTree(xbnf.DefaultNodeTreeConfig())
		}
	case "dump":
		jr.Out = g.Serialize(j.Level != 0)
	case "lookup":
		rec := g.GetRecord(j.Rule)
		rule := g.GetRule(j.Rule)
		if rec == nil || rule == nil {
			jr.Out = fmt.Sprintf("none %v %v", rec == nil, rule == nil)
			break
		}
		jr.Out = fmt.Sprintf("%s %v %v %v %s %s %v", rule.Name(), rule.IsVirtual(), rule.IsNonData(), rule.IsTokenized(), rule.String(), rule.StringWithIndent("  "), rec.Rule() == rule)
	case "regrow":
		// the grammar is still open for everything
		var b strings.Builder
		fmt.Fprintln(&b, g.Validate())
		_, err := g.AddRule("zz99 = 'z' 'z'")
		fmt.Fprintln(&b, err)
		_, err = g.AddRule("zz98 = ('z'")
		fmt.Fprintln(&b, err)
		fmt.Fprintln(&b, g.Validate())
		b.WriteString(g.Serialize(true))
		ast, err := g.EvalRaw(xbnf.NewCharstreamFromString("zz"))
		b.WriteString(parseOut(ast, err, true))
		jr.Out = b.String()
	case "validate":
		jr.Out = errText(g.Validate())
	default:
		panic("xsim: unknown job " + j.Op)
	}
	return jr
}

// withLimit runs the model; a false result means the text is too expensive
// for the reference and the scenario is skipped.
var modelMax = 6000

// setScale adjusts the reference's limits to a scenario.
func setScale(scn *Scn) {
	modelMax, gram.MaxDepth, quadratic, extra = 6000, 400, 0, 0
	if scn.Scale {
		n := int64(len(grammarText(scn)))
		modelMax, gram.MaxDepth, quadratic = 120_000, 20_000, 10
		extra = 2_000_000 + 5000*n + 10*n*n
	}
}

// quadratic is the number of statements per pair of characters a budget
// allows texts of unusual length; extra is allowed for building such grammars.
var quadratic, extra int64

// budgetFor derives the step budget from the work of the reference model.
func budgetFor(modelSteps, textLen int) int64 {
	return 400_000 + extra + int64(modelSteps)*4000 + int64(textLen)*4000 + quadratic*int64(textLen)*int64(textLen+modelSteps)
}

// expect is the reference outcome of a whole parse: kind and tree.
type expect struct {
	kind  string
	nodes []*gram.MNode
	t     []rune
	steps int
}

func (e expect) out(pos bool) string {
	if e.kind != gram.OK {
		return "ERR"
	}
	return "OK\n" + gram.DumpAll(e.nodes, e.t, pos)
}

func modelParse(r *Result, g *gram.Grammar, roots []string, text string) (expect, bool) {
	m := gram.NewModel(g, text, modelMax)
	var e expect
	ok := m.Try(func() {
		e.kind, e.nodes = m.Parse(roots)
	})
	e.t = m.T
	e.steps = m.Steps
	if r != nil {
		r.addModel(m)
	}
	return e, ok
}

// verdictOnly cuts an error text down to its verdict.
func verdictOnly(out string) string {
	if strings.HasPrefix(out, "ERR") && !strings.HasPrefix(out, "ERR+TREE") {
		return "ERR"
	}
	return out
}

func applyDamage(text string, ds []Damage) string {
	t := []rune(text)
	for _, d := range ds {
		at := d.At
		if at > len(t) {
			at = len(t)
		}
		n := d.N
		if at+n > len(t) {
			n = len(t) - at
		}
		switch d.Kind {
		case "cut":
			t = t[:at:at]
		case "replace":
			if at < len(t) {
				t = append([]rune(nil), t...)
				t[at] = d.C
			}
		case "drop":
			t = append(t[:at:at], t[at+n:]...)
		case "dup":
			t = append(t[:at+n:at+n], t[at:]...)
		}
	}
	return string(t)
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// modelFlag is the flag a job's rule is evaluated with.
func modelFlag(j Job) int {
	if j.Op == "rule" || j.Op == "show" {
		return gram.SuggestSkip
	}
	return j.Flag
}
