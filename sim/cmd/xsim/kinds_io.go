package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"xbnfsim/gram"
	"xbnfsim/simio"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&Kind{Prop: "C09", Gen: genC09, Run: runC09,
		Rule: "A case is a grammar file (valid or not, up to several pages long) loaded under a plan of short, interrupted, refused and failing system calls and wrong size hints, alone or next to another load; then loaded again without faults. Non-trivial: at least one planned fault fired; distinct by file, plan and interleaving."})
	register(&Kind{Prop: "C12", Gen: genC12, Run: runC12,
		Rule: "A case is one run of the command line tool over a grammar file, rules, texts and input files under a plan of system-call faults; every printed section is compared with the tree of the complete content. Non-trivial: at least one planned fault fired, or more than one input was processed; distinct by files, arguments and plan."})
}

var scratch string

// scratchDir is this process's private directory for simulated disks.
func scratchDir() string {
	if scratch == "" {
		d := os.Getenv("XSIM_SCRATCH")
		if d == "" {
			d = os.TempDir()
		}
		var err error
		scratch, err = os.MkdirTemp(d, "xsim-disk-")
		if err != nil {
			panic(err)
		}
	}
	return scratch
}

func cleanScratch() {
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

func randomFaults(r *gram.Rand, path, size int) []simio.Fault {
	var out []simio.Fault
	add := func(f simio.Fault) { f.Path = path; out = append(out, f) }
	n := 1 + r.N(3)
	if r.P(10) {
		n = 0
	}
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0:
			add(simio.Fault{Call: "open", Nth: r.N(2), Kind: []string{"enoent", "emfile", "eacces", "eio"}[r.N(4)]})
		case 1:
			add(simio.Fault{Call: "open", Nth: 0, Kind: "eintr"})
		case 2:
			add(simio.Fault{Call: "fstat", Nth: 0, Kind: "eio"})
		case 3, 4:
			add(simio.Fault{Call: "fstat", Nth: 0, Kind: "lie", N: []int{0, 1, 10, size / 2, size - 1, size + 1, size + 5000, 100000}[r.N(8)]})
		case 5, 6:
			add(simio.Fault{Call: "read", Nth: -1, Kind: "short", N: 1 + r.N(1+r.N(700))})
		case 7:
			add(simio.Fault{Call: "read", Nth: r.N(4), Kind: "short", N: 1 + r.N(size+1)})
		case 8, 9:
			add(simio.Fault{Call: "read", Nth: r.N(5), Kind: "eintr"})
		case 10, 11:
			add(simio.Fault{Call: "read", Nth: r.N(4), Kind: "eio"})
			if r.P(60) {
				add(simio.Fault{Call: "read", Nth: -1, Kind: "short", N: 1 + r.N(size+1)})
			}
		}
	}
	return out
}

// padding makes files longer than one read.
func padding(r *gram.Rand) string {
	if r.P(2) {
		// beyond any buffer size a reader may use
		n := []int{4096, 8192, 32768, 65536, 70000}[r.N(5)] + r.N(5) - 2
		switch r.N(3) {
		case 0:
			return "// " + strings.Repeat("x", n) + "\n"
		case 1:
			return strings.Repeat("\n", n)
		}
		return strings.Repeat("// padding line of a long grammar file\n", n/39)
	}
	switch r.N(4) {
	case 0:
		return strings.Repeat("// padding line of a long grammar file\n", r.N(40))
	case 1:
		return strings.Repeat("\n", r.N(600))
	}
	return ""
}

func genC09(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1, Gap: gap(r)}
	base(r, scn, 20, nil)
	n := 1
	if r.P(20) {
		n = 2
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			base(r, scn, 20, nil)
		}
		t := ""
		job := Job{Op: "raw", Text: scn.Text}
		for _, rl := range scn.G.Rules {
			if r.P(30) {
				t += padding(r)
			}
			d := rl.Def()
			if r.P(6) {
				d = breakDef(r, scn.G, rl)
				job.Op = "" // its parses may be endless
			}
			t += d + "\n"
		}
		scn.Jobs = append(scn.Jobs, job)
		if r.P(25) {
			t = strings.TrimSuffix(t, "\n")
		}
		if r.P(5) {
			t = ""
		}
		scn.Texts = append(scn.Texts, t)
		if r.P(6) {
			scn.Kind = []string{"missing", "directory"}[r.N(2)]
		}
		scn.Plan = append(scn.Plan, randomFaults(r, i, len(t))...)
	}
	if r.N(400) == 0 {
		pad := strings.Repeat([]string{"// a file beyond any sane size\n", "\n", "//\n"}[r.N(3)], 3000+r.N(40000))
		if r.P(50) {
			scn.Texts[0] += pad
		} else {
			scn.Texts[0] = pad + scn.Texts[0]
		}
	}
	if r.P(40) {
		// what the first file holds later on
		base(r, scn, 20, nil)
		t := scn.G.Text()
		if d := len(scn.Texts[0]) - len(t); d > 0 && r.P(60) {
			t += strings.Repeat("\n", d) // the same size as before
		}
		scn.GText = t
		scn.Serial = r.P(50) // the same modification time as before
	}
	scn.G = nil
	scn.Text = ""
	return scn
}

func gramState(g *xbnf.Grammar, err error, jobs ...Job) string {
	if err != nil {
		if g != nil {
			return "ERR+GRAMMAR"
		}
		return "ERR"
	}
	if g == nil {
		return "NIL"
	}
	out := g.Serialize(true)
	for _, j := range jobs {
		if j.Op == "raw" {
			out += "\nparse: " + runJob(g, j).Out
		}
	}
	return out
}

var lineNo = regexp.MustCompile(`(?m)^( *)L\d+: `)

// lineByLine defines a grammar from a text, a definition a line.
func lineByLine(text string) (*xbnf.Grammar, error) {
	g := xbnf.NewGrammar()
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "//") {
			continue
		}
		at := strings.Index(line, "=")
		if at < 0 {
			return nil, fmt.Errorf("no =")
		}
		if _, err := g.ParseRule(strings.TrimSpace(line[:at]), strings.TrimSpace(line[at+1:])); err != nil {
			return nil, err
		}
	}
	if err := g.Validate(); err != nil {
		return nil, err
	}
	return g, nil
}

func runC09(scn *Scn, dec *simrt.Decider, res *Result) {
	dec.Canon[simrt.StreamMap] = true
	dir := scratchDir()
	var paths, want []string
	jobs := func(i int) []Job {
		if i < len(scn.Jobs) {
			return scn.Jobs[i : i+1]
		}
		return nil
	}
	for i, t := range scn.Texts {
		p := filepath.Join(dir, fmt.Sprintf("g%d.xbnf", i))
		os.RemoveAll(p)
		switch {
		case i == 0 && scn.Kind == "missing":
		case i == 0 && scn.Kind == "directory":
			os.Mkdir(p, 0o755)
		default:
			if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
				panic(err)
			}
		}
		paths = append(paths, p)
		w := ""
		fate, tk := solo(nil, nil, 120_000_000, func() {
			g, err := xbnf.NewGrammarFromString(t)
			w = gramState(g, err, jobs(i)...)
			g, err = lineByLine(t)
			if w2 := gramState(g, err, jobs(i)...); lineNo.ReplaceAllString(w, "") != lineNo.ReplaceAllString(w2, "") {
				res.fail("definition", "a file of %d bytes defines\n%s\nits definitions one by one make\n%s\nfile:\n%s", len(t), w, w2, clip(t, 2000))
			}
		})
		if fate != "" {
			// not a matter of loading
			res.Skip = "definition " + fate
			_ = tk
			return
		}
		if res.Class != "" {
			return
		}
		if i == 0 && scn.Kind != "" {
			w = "ERR"
		}
		want = append(want, w)
	}
	got := make([]string, len(paths))
	msg := make([]string, len(paths))
	again := make([]string, len(paths))
	left := 0
	st := simio.Install(simio.Plan{Paths: paths, Faults: scn.Plan})
	s := simrt.New(simrt.Config{Budget: 60_000_000, MeanGap: scn.Gap * 20}, dec)
	for i, p := range paths {
		i, p := i, p
		s.Spawn(fmt.Sprint("loader", i), func() {
			g, err := xbnf.NewGrammarFromFile(p)
			got[i] = gramState(g, err, jobs(i)...)
			msg[i] = errText(err)
		})
	}
	s.Run()
	simio.Remove()
	left = st.Open()
	res.absorb(s)
	for _, t := range s.Tasks() {
		if f := taskFate(s, t); f != "" {
			res.fail("fate", "%s: %s\n%s", t.Name, f, t.Stack)
			return
		}
	}
	for k, n := range st.Fired {
		res.fault(k, int64(n))
	}
	for i := range paths {
		if got[i] == want[i] {
			continue
		}
		if got[i] == "ERR" && st.Hit[i] > 0 {
			continue
		}
		res.fail("partial", "loading a file of %d bytes under %v gives\n%s (%s)\nthe complete file defines\n%s\nfile:\n%s", len(scn.Texts[i]), scn.Plan, got[i], msg[i], want[i], clip(scn.Texts[i], 2000))
		return
	}
	if left != 0 {
		res.fail("handle", "%d of %d file handles are still open after the load (%v)", left, st.Opens, scn.Plan)
		return
	}
	// later loads without faults, the grammars loaded in between being extended
	later := func(what string) bool {
		st := simio.Install(simio.Plan{Paths: paths})
		fate, tk := solo(res, nil, 60_000_000, func() {
			for i, p := range paths {
				g, err := xbnf.NewGrammarFromFile(p)
				again[i] = gramState(g, err, jobs(i)...)
				if g != nil {
					g.AddRule("zzLater = 'z'")
					g.Validate()
				}
			}
		})
		simio.Remove()
		if fate != "" {
			res.fail("fate", "%s: %s\n%s", what, fate, tk.Stack)
			return false
		}
		for i := range paths {
			if again[i] != want[i] {
				res.fail("later", "%s without faults gives\n%s\nthe file defines\n%s", what, again[i], want[i])
				return false
			}
		}
		if st.Open() != 0 {
			res.fail("handle", "%d file handles are still open after %s without faults", st.Open(), what)
			return false
		}
		return true
	}
	if !later("a later load") {
		return
	}
	if scn.GText != "" && scn.Kind == "" {
		fi, _ := os.Stat(paths[0])
		if err := os.WriteFile(paths[0], []byte(scn.GText), 0o644); err != nil {
			panic(err)
		}
		if scn.Serial && fi != nil {
			os.Chtimes(paths[0], fi.ModTime(), fi.ModTime())
		}
		fate, _ := solo(nil, nil, 60_000_000, func() {
			g, err := xbnf.NewGrammarFromString(scn.GText)
			want[0] = gramState(g, err, jobs(0)...)
		})
		if fate == "" && !later("a load of the rewritten file") {
			return
		}
	}
	if len(res.Faults) > 0 {
		res.Key = fmt.Sprint(scn.Texts, scn.Plan, s.TraceHash())
	}
}

// ---- C12

func genC12(r *gram.Rand, idx int) *Scn {
	scn := &Scn{Point: -1}
	o := base(r, scn, 30, nil)
	long := r.N(150) == 0
	good := ""
	if long && r.P(70) {
		scn.G = gram.JSON()
		good = gram.JSONText(r, 2)
	}
	// root rules after the first may come from -rule
	roots := map[string]bool{}
	for _, n := range rootsOf(scn.G) {
		roots[n] = true
	}
	file := ""
	kept := 0
	var rules []string
	for i, rl := range scn.G.Rules {
		if roots[rl.Name] && r.P(30) && (kept > 0 || i+1 < len(scn.G.Rules)) {
			rules = append(rules, rl.Def())
			continue
		}
		if r.P(15) {
			file += padding(r)
		}
		file += rl.Def() + "\n"
		kept++
	}
	scn.GText = file
	for _, d := range rules {
		scn.Ops = append(scn.Ops, Op{Op: "rule", S: d})
	}
	for i, n := 0, r.N(3); i < n; i++ {
		scn.Ops = append(scn.Ops, Op{Op: "text", S: clipRunes(anotherText(r, scn, o, 30), 40)})
	}
	files := 1 + r.N(4)
	if long && r.P(40) {
		files = gram.Size(r, 5, 60)
	}
	sameNames := r.P(30)
	for i := 0; i < files; i++ {
		t := anotherText(r, scn, o, 60)
		if r.P(30) {
			// long content: many root matches in a row
			for k := 0; k < 4 && len(t) < 200; k++ {
				t += anotherText(r, scn, o, 60)
			}
		}
		if r.P(12) {
			t = strings.Repeat(" ", 1+r.N(1500)) + t
		}
		if r.P(4) {
			t = ""
		}
		if long && r.P(50) && files < 10 {
			pad := strings.Repeat([]string{" ", "\n", "\t\n "}[r.N(3)], gram.Size(r, 500, 90000))
			t = pad[:r.N(len(pad)+1)] + t + pad
			if r.P(60) {
				t = pad + anotherText(r, scn, o, 30)
				if good != "" {
					t = pad + good
				}
			}
		}
		op := Op{Op: "file", S: t}
		if sameNames {
			op.A = 1
		}
		if i > 0 && r.P(12) {
			op.B = 1 + r.N(i)
		}
		scn.Ops = append(scn.Ops, op)
	}
	if r.P(50) {
		scn.Plan = append(scn.Plan, randomFaults(r, 0, len(file))...)
	}
	k := 1
	for _, op := range scn.Ops {
		if op.Op == "file" {
			if r.P(70) {
				scn.Plan = append(scn.Plan, randomFaults(r, k, len(op.S))...)
			}
			k++
		}
	}
	if r.P(25) {
		scn.Plan = append(scn.Plan, simio.Fault{Call: "write", Path: -1, Nth: []int{-1, r.N(4)}[r.N(2)], Kind: "short", N: 1 + r.N(20)})
	}
	if r.P(15) {
		scn.Plan = append(scn.Plan, simio.Fault{Call: "write", Path: -1, Nth: r.N(4), Kind: "eintr"})
	}
	scn.Serial = r.P(30) // print node types
	return scn
}

func clipRunes(s string, n int) string {
	if t := []rune(s); len(t) > n {
		return string(t[:n])
	}
	return s
}

type cliSection struct {
	marker string
	want   string // expected text; "" : an error
	path   int    // plan path index; -2: none
	name   string
	model  string // verdict of the reference
}

// treeTitle starts every printed tree.
const treeTitle = "Abstract Syntax Tree"

func runC12(scn *Scn, dec *simrt.Decider, res *Result) {
	cli := os.Getenv("XSIM_CLI")
	if cli == "" {
		panic("XSIM_CLI not set")
	}
	dir := scratchDir()
	// all names are relative: nothing the tool prints or does depends on where
	// the simulated disk is
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(text), 0o644))
	}
	gpath := "grammar.xbnf"
	put(gpath, scn.GText)
	plan := simio.Plan{Paths: []string{gpath}, Faults: scn.Plan, Dir: dir}
	args := []string{"-xbnf", gpath}
	if scn.Serial {
		args = append(args, "-showNodeType")
	}
	var secs []cliSection
	// build what the complete content gives, in process
	var buildErr string
	var rules []string
	for _, op := range scn.Ops {
		if op.Op == "rule" {
			rules = append(rules, op.S)
			args = append(args, "-rule", op.S)
		}
	}
	build := func() *xbnf.Grammar {
		g, err := xbnf.NewGrammarFromString(scn.GText)
		if err != nil {
			buildErr = err.Error()
			return nil
		}
		for _, d := range rules {
			if _, err := g.AddRule(d); err != nil {
				buildErr = err.Error()
				return nil
			}
		}
		if err := g.Validate(); err != nil {
			buildErr = err.Error()
			return nil
		}
		return g
	}
	conf := xbnf.DefaultNodeTreeConfig()
	conf.PrintRuleType = scn.Serial
	expectTree := func(text string, file bool) (string, bool) {
		m := gram.NewModel(scn.G, text, 10*modelMax)
		if !m.Try(func() { m.Parse(rootsOf(scn.G)) }) {
			return "", false
		}
		out := ""
		fate, _ := solo(res, nil, 60_000_000, func() {
			g := build()
			if g == nil {
				return
			}
			ast, err := g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelBasic)
			if err != nil {
				return
			}
			ast.RemoveVirtualNodes()
			if file {
				ast.MergeStickyNodes()
			}
			ast.RemoveNonDataNodes()
			ast.RemoveRedundantNodes()
			out = ast.StringTree(conf) + "\n"
		})
		if fate != "" {
			return "", false
		}
		return out, true
	}
	add := func(op Op, marker string, path int) bool {
		want, ok := expectTree(op.S, op.Op == "file")
		if !ok {
			return false
		}
		e, ok := modelParse(res, scn.G, rootsOf(scn.G), op.S)
		if !ok {
			return false
		}
		if len(op.S) > 60000 && want != "" {
			res.probe("input of more than 60 KB with a tree")
		}
		secs = append(secs, cliSection{marker: marker, want: want, path: path, name: op.Op, model: e.kind})
		return true
	}
	texts := 0
	for _, op := range scn.Ops {
		if op.Op == "text" {
			op.S = strings.ReplaceAll(op.S, "\x00", "") // no argument can hold it
			args = append(args, "-text", op.S)
			if !add(op, "\nParsing text: "+op.S+"\n", -2) {
				res.Skip = "model limit"
				return
			}
			texts++
		}
	}
	k := 1
	contents := []string{""}
	for _, op := range scn.Ops {
		if op.Op == "file" {
			p := fmt.Sprintf("input%d.txt", k)
			if op.B > 0 && op.B < k {
				// the same file once more
				same := op.B
				p, op.S = plan.Paths[same], contents[same]
				args = append(args, "-file", p)
				plan.Paths = append(plan.Paths, p)
				contents = append(contents, op.S)
				for i, q := range plan.Paths {
					if q == p {
						same = i // the one the faults are counted for
						break
					}
				}
				if !add(op, "\nParsing file: "+p+"\n", same) {
					res.Skip = "model limit"
					return
				}
				k++
				continue
			}
			contents = append(contents, op.S)
			if op.A > 0 {
				// same last path element as its neighbours
				p = fmt.Sprintf("d%d/input.txt", k)
			}
			put(p, op.S)
			plan.Paths = append(plan.Paths, p)
			args = append(args, "-file", p)
			if !add(op, "\nParsing file: "+p+"\n", k) {
				res.Skip = "model limit"
				return
			}
			k++
		}
	}
	if buildErr != "" {
		res.fail("build", "the scenario's grammar does not build: %s", buildErr)
		return
	}
	for i := range secs {
		if (secs[i].want != "") != (secs[i].model == gram.OK) {
			res.fail("reference", "in-process parse and reference disagree on %q (%s)", secs[i].marker, secs[i].model)
			return
		}
	}
	pj, _ := json.Marshal(plan)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "\x00", "")
	}
	cmd := exec.Command(cli, args...)
	cmd.Env = []string{"XSIM_PLAN=" + string(pj), "XSIM_BUDGET=80000000", "GOTRACEBACK=single", "GOMAXPROCS=2", "HOME=" + dir,
		fmt.Sprintf("XSIM_MAPSEED=%d", 1+simrtDraw(dec))}
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	pr, pw, err := os.Pipe()
	must(err)
	cmd.ExtraFiles = []*os.File{pw}
	must(cmd.Start())
	pw.Close()
	var notes []byte
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		var b bytes.Buffer
		b.ReadFrom(pr)
		notes = b.Bytes()
	}()
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	if !timer.Stop() {
		panic("xsim: command line tool did not end within 100 s of real time")
	}
	wg.Wait()
	pr.Close()
	hit := map[int]int{}
	fired := int64(0)
	for _, l := range strings.Split(string(notes), "\n") {
		var call, kind string
		var path int
		if n, _ := fmt.Sscan(l, &call, &kind, &path); n == 3 {
			hit[path]++
			res.fault(call+" "+kind, 1)
			fired++
		}
	}
	out := so.String()
	res.Subruns++
	res.Steps++
	res.Hash = hash64(fmt.Sprint(res.Hash, strings.ReplaceAll(out, dir, "DIR"), res.Faults))
	code := cmd.ProcessState.ExitCode()
	desc := func() string {
		a := strings.ReplaceAll(fmt.Sprintf("%q", args), dir, "DIR")
		return fmt.Sprintf("arguments %s\nplan %v\nfired %v\nexit %d\noutput:\n%s\nerrors:\n%s", a, scn.Plan, hit, code, clip(strings.ReplaceAll(out, dir, "DIR"), 3000), clip(se.String(), 1500))
	}
	if code == 97 {
		res.fail("no-progress", "the tool did not end within its step budget\n%s", desc())
		return
	}
	if werr != nil && code < 0 || strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:") || strings.Contains(se.String(), "goroutine ") {
		res.fail("crash", "the tool crashed\n%s", desc())
		return
	}
	pos := 0
	sawErr := false
	for i, sc := range secs {
		at := strings.Index(out[pos:], sc.marker)
		if at < 0 {
			// legitimate when something before it failed
			if sawErr || (i == 0 && hit[0] > 0 && strings.Contains(out, "ERROR")) {
				break
			}
			res.fail("missing", "section %d (%q) is missing\n%s", i, strings.ReplaceAll(sc.marker, dir, "DIR"), desc())
			return
		}
		begin := pos + at + len(sc.marker)
		end := len(out)
		for j := i + 1; j < len(secs); j++ {
			if n := strings.Index(out[begin:], secs[j].marker); n >= 0 {
				end = begin + n
				break
			}
		}
		body := out[begin:end]
		pos = end
		isErr := strings.HasPrefix(body, "ERROR")
		if at := strings.Index(body, treeTitle); isErr && at >= 0 && (sc.want == "" || body[at:] != sc.want) {
			res.fail("section", "section %d shows an error and a tree that is not the one of the complete content\n%s\n%s", i, clip(body, 2000), desc())
			return
		}
		sawErr = sawErr || isErr
		switch {
		case sc.want != "" && body == sc.want:
		case isErr && sc.want == "":
		case isErr && sc.path >= 0 && hit[sc.path] > 0:
		default:
			w := sc.want
			if w == "" {
				w = "an error (" + sc.model + ")"
			}
			res.fail("section", "section %d shows\n%s\nthe complete content gives\n%s\n%s", i, clip(body, 2000), clip(w, 2000), desc())
			return
		}
	}
	if fired > 0 || len(secs) > 1 {
		res.Key = fmt.Sprint(scn.GText, scn.Ops, scn.Plan)
	}
}

func simrtDraw(dec *simrt.Decider) int64 { return dec.Draw(simrt.StreamMap, 1<<30) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}
