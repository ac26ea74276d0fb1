// instrument rewrites the non-test sources of the library (read from its
// current working tree) into a build overlay in which every statement is a
// potential preemption point, every map iteration asks the simulator for its
// order, locks are simulated and go statements become simulated tasks. The
// library's tree itself is never touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
	pri      int // for equal offsets: lower first
	seq      int
}

var (
	repo  = flag.String("repo", "/repo", "library")
	simd  = flag.String("sim", "/verif/sim", "simulator module")
	out   = flag.String("out", "", "output directory")
	level = flag.Int("level", 3, "3: all rewrites; 2: no read-modify-write splitting; 1: map order and locks only")
	sysio = flag.Bool("sysio", false, "also hook the system-call seam of package syscall")
)

var sites = []string{""}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	for _, sub := range []string{".", "main"} {
		dir := filepath.Join(*repo, sub)
		if err := instrumentDir(dir, sub, overlay); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(3)
		}
	}
	var b strings.Builder
	b.WriteString("package simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	sf := filepath.Join(*out, "sites_gen.go")
	must(os.WriteFile(sf, []byte(b.String()), 0o644))
	overlay[filepath.Join(*simd, "simrt", "sites_gen.go")] = sf
	if *sysio {
		if err := hookSyscall(overlay); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(3)
		}
		ci := filepath.Join(*out, "xsim_cli_init.go")
		must(os.WriteFile(ci, []byte("package main\n\nimport \"xbnfsim/simcli\"\n\nfunc main() { simcli.Run(xsimMain) }\n"), 0o644))
		overlay[filepath.Join(*repo, "main", "xsim_cli_init.go")] = ci
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func instrumentDir(dir, sub string, overlay map[string]string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, p)
	}
	if len(files) == 0 {
		return nil
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check(files[0].Name.Name, fset, files, info) //nolint: partial information is enough
	for i, f := range files {
		src, err := os.ReadFile(names[i])
		if err != nil {
			return err
		}
		r := &rewriter{fset: fset, info: info, src: src, f: f, tf: fset.File(f.Pos()), base: filepath.Join(sub, filepath.Base(names[i])), keep: map[string]bool{}, done: map[ast.Node]bool{}}
		res, changed := r.run()
		if !changed {
			continue
		}
		dst := filepath.Join(*out, "src", sub)
		must(os.MkdirAll(dst, 0o755))
		dst = filepath.Join(dst, filepath.Base(names[i]))
		must(os.WriteFile(dst, res, 0o644))
		overlay[names[i]] = dst
	}
	return nil
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	f     *ast.File
	tf    *token.File
	base  string
	edits []edit
	used  bool
	fn    string
	tmp   int
	keep  map[string]bool // imports some of whose uses were replaced
	done  map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) ins(p token.Pos, pri int, text string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, text, pri, len(r.edits)})
}

func (r *rewriter) repl(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, 5, len(r.edits)})
}

func (r *rewriter) site(p token.Pos) int {
	pos := r.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d (%s)", r.base, pos.Line, r.fn))
	return len(sites) - 1
}

func (r *rewriter) run() ([]byte, bool) {
	for _, imp := range r.f.Imports {
		if imp.Path.Value == `"sync"` {
			r.repl(imp.Path.Pos(), imp.Path.End(), `"xbnfsim/simrt/simsync"`)
			if imp.Name == nil {
				r.ins(imp.Path.Pos(), 1, "sync ")
			}
		}
	}
	for _, d := range r.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body != nil {
			r.fn = fd.Name.Name
			if *sysio && r.f.Name.Name == "main" && fd.Name.Name == "main" && fd.Recv == nil {
				r.repl(fd.Name.Pos(), fd.Name.End(), "xsimMain")
			}
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					r.fn = id.Name + "." + r.fn
				}
			}
			r.block(fd.Body.List)
			r.exprs(fd.Body)
			continue
		}
		// function literals in package variables
		r.fn = "init"
		r.exprs(d)
	}
	if len(r.edits) == 0 {
		return nil, false
	}
	for _, n := range []string{"time", "runtime", "math/rand"} {
		if use := map[string]string{"time": "Duration", "runtime": "Error", "math/rand": "Rand"}[n]; r.keep[n] {
			for _, imp := range r.f.Imports {
				if imp.Path.Value != strconv.Quote(n) {
					continue
				}
				name := n[strings.LastIndexByte(n, '/')+1:]
				if imp.Name != nil {
					name = imp.Name.Name
				}
				r.edits = append(r.edits, edit{len(r.src), len(r.src), "\nvar _ " + name + "." + use + "\n", 9, len(r.edits)})
			}
		}
	}
	// package clause: language version and runtime import
	src := string(r.src)
	if r.used {
		r.ins(r.f.Name.End(), 9, `; import simrt "xbnfsim/simrt"`)
	}
	var b strings.Builder
	hasBuild := false
	for _, cg := range r.f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < r.f.Package {
				hasBuild = true
			}
		}
	}
	if !hasBuild {
		b.WriteString("//go:build go1.21\n\n")
	}
	b.WriteString(r.apply(0, len(src)))
	return []byte(b.String()), true
}

// apply renders the source between two offsets with the collected edits.
func (r *rewriter) apply(from, to int) string {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.pri != b.pri {
			return a.pri < b.pri
		}
		return a.seq < b.seq
	})
	var b strings.Builder
	last := from
	for _, e := range r.edits {
		if e.off < last || e.off < from || e.end > to {
			continue // overlapping (nested) replacement: outer one wins
		}
		b.Write(r.src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(r.src[last:to])
	return b.String()
}

// render is the rewritten text of one expression.
func (r *rewriter) render(n ast.Node) string {
	saved, done := r.edits, r.done
	r.edits, r.done = nil, map[ast.Node]bool{}
	r.exprs(n)
	t := r.apply(r.off(n.Pos()), r.off(n.End()))
	r.edits, r.done = saved, done
	return t
}

// block instruments a statement list.
func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		r.point(s)
		r.stmt(s)
	}
}

func (r *rewriter) point(s ast.Stmt) {
	if *level < 2 {
		return
	}
	if _, ok := s.(*ast.EmptyStmt); ok {
		return
	}
	r.used = true
	r.ins(s.Pos(), 4, fmt.Sprintf("simrt.Y(%d);", r.site(s.Pos())))
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	// a step even for empty bodies
	if *level >= 2 {
		r.used = true
		r.ins(b.Lbrace+1, 3, fmt.Sprintf("simrt.Y(%d);", r.site(b.Lbrace)))
	} else {
		r.used = true
		r.ins(b.Lbrace+1, 3, "simrt.Y(0);")
	}
}

func (r *rewriter) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x.List)
	case *ast.IfStmt:
		r.block(x.Body.List)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			r.block(e.List)
		case *ast.IfStmt:
			r.stmt(e)
		}
	case *ast.ForStmt:
		r.loopBody(x.Body)
		r.block(x.Body.List)
	case *ast.RangeStmt:
		if !r.mapRange(x) && !r.chanRange(x) {
			r.loopBody(x.Body)
		}
		r.block(x.Body.List)
	case *ast.SwitchStmt:
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		r.clauses(x.Body)
	case *ast.SelectStmt:
		r.selectStmt(x, x.Pos())
		r.clauses(x.Body)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			r.selectStmt(sel, x.Pos())
			r.clauses(sel.Body)
			break
		}
		r.stmt(x.Stmt)
	case *ast.AssignStmt:
		r.rmw(x)
	case *ast.IncDecStmt:
		if *level >= 3 && r.sharedPure(x.X) {
			r.used = true
			r.repl(x.X.End(), x.End(), fmt.Sprintf(" = simrt.V(%s %c 1)", r.text(x.X), x.Tok.String()[0]))
		}
	case *ast.GoStmt:
		r.goStmt(x)
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch x := c.(type) {
		case *ast.CaseClause:
			r.block(x.Body)
		case *ast.CommClause:
			r.block(x.Body)
		}
	}
}

// exprs rewrites what stands in expressions anywhere below n: function
// literals, channel operations, clocks.
func (r *rewriter) exprs(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			if !r.done[x] {
				r.done[x] = true
				r.block(x.Body.List)
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				r.recv2(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				r.recv2(x.Values[0])
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.done[x] {
				r.used = true
				r.repl(x.OpPos, x.OpPos+2, "simrt.Recv(")
				r.ins(x.End(), 1, ")")
			}
		case *ast.SendStmt:
			r.used = true
			r.ins(x.Pos(), 6, "simrt.Send(")
			r.repl(x.Arrow, x.Arrow+2, ")(")
			r.ins(x.End(), 2, ")")
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.used = true
					r.repl(id.Pos(), id.End(), "simrt.Close")
				}
			}
		case *ast.SelectorExpr:
			r.clock(x)
		}
		return true
	})
}

func (r *rewriter) recv2(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	x, ok := e.(*ast.UnaryExpr)
	if !ok || x.Op != token.ARROW || r.done[x] {
		return
	}
	r.done[x] = true
	r.used = true
	r.repl(x.OpPos, x.OpPos+2, "simrt.Recv2(")
	r.ins(x.End(), 1, ")")
}

var clocks = map[string]string{
	"time.Now": "TimeNow", "time.Since": "TimeSince", "time.Until": "TimeUntil", "time.Sleep": "TimeSleep", "time.After": "TimeAfter",
	"runtime.Gosched": "Gosched",
	"math/rand.Intn":  "RandIntn", "math/rand.Int": "RandInt", "math/rand.Int63": "RandInt63", "math/rand.Int31n": "RandInt31n",
	"math/rand.Int63n": "RandInt63n", "math/rand.Float64": "RandFloat64", "math/rand.Perm": "RandPerm", "math/rand.Shuffle": "RandShuffle",
}

func (r *rewriter) clock(x *ast.SelectorExpr) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	if to := clocks[pn.Imported().Path()+"."+x.Sel.Name]; to != "" {
		r.used = true
		r.keep[pn.Imported().Path()] = true
		r.repl(x.Pos(), x.End(), "simrt."+to)
	}
}

// selectStmt turns a select into a switch over the simulator's choice.
func (r *rewriter) selectStmt(x *ast.SelectStmt, at token.Pos) {
	r.used = true
	r.tmp++
	id := fmt.Sprintf("simS%d", r.tmp)
	var pre strings.Builder
	args := []string{"false"}
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = "true"
			continue
		}
		name := fmt.Sprintf("%s_%d", id, n)
		recv := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			fmt.Fprintf(&pre, "%s := simrt.RecvCase(%s);", name, r.render(e.(*ast.UnaryExpr).X))
		}
		bind := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := simrt.SendCase(%s)(%s);", name, r.render(s.Chan), r.render(s.Value))
		case *ast.ExprStmt:
			recv(s.X)
		case *ast.AssignStmt:
			recv(s.Rhs[0])
			bind = r.text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				bind += ", " + r.text(s.Lhs[1])
			}
			bind += " " + s.Tok.String() + " " + name + ".V"
			if len(s.Lhs) == 2 {
				bind += ", " + name + ".OK"
			}
			bind += ";"
		}
		r.repl(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", n, bind))
		args = append(args, name)
		n++
	}
	r.ins(at, 5, pre.String())
	r.repl(x.Select, x.Body.Lbrace+1, fmt.Sprintf("switch simrt.Select(%s) {", strings.Join(args, ", ")))
	if args[0] == "false" {
		r.ins(x.Body.Rbrace, 8, "; default: panic(\"unreachable\");")
	}
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func hasLit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) mapRange(x *ast.RangeStmt) bool {
	tv, ok := r.info.Types[x.X]
	if !ok || tv.Type == nil {
		return false
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return false
	}
	if hasLit(x.X) {
		return false
	}
	r.tmp++
	it := fmt.Sprintf("simIt%d", r.tmp)
	r.used = true
	var b strings.Builder
	fmt.Fprintf(&b, "for %s := simrt.MapIter(%s); %s.Next(); ", it, r.render(x.X), it)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	var lhs, rhs []string
	if !blank(x.Key) {
		lhs = append(lhs, r.text(x.Key))
		rhs = append(rhs, it+".K")
	}
	if !blank(x.Value) {
		lhs = append(lhs, r.text(x.Value))
		rhs = append(rhs, it+".V")
	}
	bind := ""
	if len(lhs) > 0 {
		bind = strings.Join(lhs, ", ") + " " + x.Tok.String() + " " + strings.Join(rhs, ", ") + ";"
	}
	r.repl(x.For, x.Body.Lbrace+1, b.String()+"{ "+bind+" simrt.Y(0); {")
	r.ins(x.Body.Rbrace, 8, "}")
	return true
}

// chanRange receives through the simulator.
func (r *rewriter) chanRange(x *ast.RangeStmt) bool {
	tv, ok := r.info.Types[x.X]
	if !ok || tv.Type == nil {
		return false
	}
	if _, ok := tv.Type.Underlying().(*types.Chan); !ok {
		return false
	}
	r.tmp++
	r.used = true
	v, bind := "_", ""
	if x.Key != nil {
		if id, ok := x.Key.(*ast.Ident); !ok || id.Name != "_" {
			v = fmt.Sprintf("simV%d", r.tmp)
			bind = r.text(x.Key) + " " + x.Tok.String() + " " + v + ";"
		}
	}
	r.repl(x.For, x.Body.Lbrace+1, fmt.Sprintf("for simC%d := (%s); ; { %s, simOk%d := simrt.Recv2(simC%d); if !simOk%d { break }; %s {", r.tmp, r.render(x.X), v, r.tmp, r.tmp, r.tmp, bind))
	r.ins(x.Body.Rbrace, 8, "}")
	return true
}

// rmw splits "shared = f(shared)" so that other tasks may run between the
// read and the write.
func (r *rewriter) rmw(x *ast.AssignStmt) {
	if *level < 3 || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return
	}
	if x.Tok != token.ASSIGN {
		if x.Tok != token.DEFINE && r.sharedPure(x.Lhs[0]) && x.Tok != token.SHL_ASSIGN && x.Tok != token.SHR_ASSIGN && !hasLit(x.Rhs[0]) {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			r.used = true
			r.repl(x.Lhs[0].End(), x.End(), fmt.Sprintf(" = simrt.V(%s %s (%s))", r.text(x.Lhs[0]), op, r.render(x.Rhs[0])))
		}
		return
	}
	shared := false
	switch l := x.Lhs[0].(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		shared = true
	case *ast.Ident:
		if o := r.info.Uses[l]; o != nil && o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			shared = true
		}
	}
	if !shared {
		return
	}
	tv, ok := r.info.Types[x.Rhs[0]]
	lv, ok2 := r.info.Types[x.Lhs[0]]
	if !ok || !ok2 || tv.Type == nil || lv.Type == nil {
		return
	}
	if tv.Value != nil || tv.IsNil() || !types.Identical(tv.Type, lv.Type) {
		return // constants and implicit conversions stay as they are
	}
	if hasLit(x.Rhs[0]) {
		return
	}
	r.used = true
	r.ins(x.Rhs[0].Pos(), 3, "simrt.V(")
	r.ins(x.Rhs[0].End(), 2, ")")
}

// sharedPure: a field of something, or a package variable, whose evaluation
// has no side effects.
func (r *rewriter) sharedPure(e ast.Expr) bool {
	if id, ok := e.(*ast.Ident); ok {
		o := r.info.Uses[id]
		return o != nil && o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
	}
	for {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			e = x.X
		case *ast.Ident:
			return true
		default:
			return false
		}
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	if hasNestedGo(x.Call) {
		return
	}
	r.used = true
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		_ = fl
		r.repl(x.Go, x.Call.Pos(), "simrt.Go(")
		r.repl(x.Call.Lparen, x.Call.Rparen+1, ")")
		return
	}
	// bind function value and arguments first
	r.tmp++
	if len(x.Call.Args) == 0 {
		r.repl(x.Go, x.Call.End(), fmt.Sprintf("{ simF%d := %s; simrt.Go(func() { simF%d() }) }", r.tmp, r.render(x.Call.Fun), r.tmp))
		return
	}
	var names, args []string
	for i, a := range x.Call.Args {
		names = append(names, fmt.Sprintf("simA%d_%d", r.tmp, i))
		args = append(args, "simrt.Arg("+r.render(a)+")")
	}
	if _, ok := x.Call.Fun.(*ast.FuncLit); ok {
		r.repl(x.Go, x.Call.Pos(), fmt.Sprintf("{ simF%d := ", r.tmp))
		ell := ""
		if x.Call.Ellipsis.IsValid() {
			ell = "..."
		}
		r.repl(x.Call.Lparen, x.Call.Rparen+1, fmt.Sprintf("; %s := %s; simrt.Go(func() { simF%d(%s%s) }) }", strings.Join(names, ", "), strings.Join(args, ", "), r.tmp, strings.Join(names, ", "), ell))
		return
	}
	ell := ""
	if x.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	r.repl(x.Go, x.Call.End(), fmt.Sprintf("{ simF%d := %s; %s := %s; simrt.Go(func() { simF%d(%s%s) }) }", r.tmp, r.render(x.Call.Fun), strings.Join(names, ", "), strings.Join(args, ", "), r.tmp, strings.Join(names, ", "), ell))
}

func hasNestedGo(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.GoStmt); ok {
			found = true
		}
		return !found
	})
	return found
}

// hookSyscall adds the simulator's seam to the standard library's syscall
// package (in the overlay only).
func hookSyscall(overlay map[string]string) error {
	goroot := strings.TrimSpace(goRoot())
	dir := filepath.Join(goroot, "src", "syscall")
	type h struct{ file, sig, code string }
	hooks := []h{
		{"syscall_unix.go", "func Read(fd int, p []byte) (n int, err error) {", "\tif SimRead != nil {\n\t\tif sn, se, ok := SimRead(fd, p); ok {\n\t\t\treturn sn, se\n\t\t}\n\t}"},
		{"syscall_unix.go", "func Write(fd int, p []byte) (n int, err error) {", "\tif SimWrite != nil {\n\t\tif sn, se, ok := SimWrite(fd, p); ok {\n\t\t\treturn sn, se\n\t\t}\n\t}"},
		{"syscall_unix.go", "func Pread(fd int, p []byte, offset int64) (n int, err error) {", "\tif SimPread != nil {\n\t\tif sn, se, ok := SimPread(fd, p, offset); ok {\n\t\t\treturn sn, se\n\t\t}\n\t}"},
		{"syscall_linux.go", "func Open(path string, mode int, perm uint32) (fd int, err error) {", "\tif SimOpen != nil {\n\t\treturn SimOpen(path, mode, perm, openReal)\n\t}\n\treturn openReal(path, mode, perm)\n}\n\nfunc openReal(path string, mode int, perm uint32) (fd int, err error) {"},
		{"zsyscall_linux_" + runtime.GOARCH + ".go", "func Close(fd int) (err error) {", "\tif SimClose != nil {\n\t\tSimClose(fd)\n\t}"},
		{"zsyscall_linux_" + runtime.GOARCH + ".go", "func Fstat(fd int, stat *Stat_t) (err error) {", "\tif SimFstat != nil {\n\t\treturn SimFstat(fd, stat, fstatReal)\n\t}\n\treturn fstatReal(fd, stat)\n}\n\nfunc fstatReal(fd int, stat *Stat_t) (err error) {"},
		{"zsyscall_linux_" + runtime.GOARCH + ".go", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {", "\tif SimStat != nil && fd == _AT_FDCWD {\n\t\treturn SimStat(path, stat, func(p string, st *Stat_t) error { return fstatatReal(fd, p, st, flags) })\n\t}\n\treturn fstatatReal(fd, path, stat, flags)\n}\n\nfunc fstatatReal(fd int, path string, stat *Stat_t, flags int) (err error) {"},
	}
	texts := map[string]string{}
	for _, k := range hooks {
		p := filepath.Join(dir, k.file)
		if _, ok := texts[p]; !ok {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			texts[p] = string(b)
		}
		if strings.Count(texts[p], k.sig+"\n") != 1 {
			return fmt.Errorf("syscall hook: %q not found in %s", k.sig, k.file)
		}
		texts[p] = strings.Replace(texts[p], k.sig+"\n", k.sig+"\n"+k.code+"\n", 1)
	}
	texts[filepath.Join(dir, "sim_hooks.go")] = `package syscall

// Seams of the simulator; nil means the real system call.
var (
	SimRead  func(fd int, p []byte) (n int, err error, handled bool)
	SimPread func(fd int, p []byte, off int64) (n int, err error, handled bool)
	SimWrite func(fd int, p []byte) (n int, err error, handled bool)
	SimOpen  func(path string, mode int, perm uint32, real func(string, int, uint32) (int, error)) (int, error)
	SimClose func(fd int)
	SimFstat func(fd int, st *Stat_t, real func(int, *Stat_t) error) error
	SimStat  func(path string, st *Stat_t, real func(string, *Stat_t) error) error
)

// SimRawRead and SimRawWrite are the real system calls.
func SimRawRead(fd int, p []byte) (int, error)  { return read(fd, p) }
func SimRawWrite(fd int, p []byte) (int, error) { return write(fd, p) }
func SimRawPread(fd int, p []byte, off int64) (int, error) { return pread(fd, p, off) }
`
	dst := filepath.Join(*out, "goroot")
	must(os.MkdirAll(dst, 0o755))
	for p, t := range texts {
		d := filepath.Join(dst, filepath.Base(p))
		must(os.WriteFile(d, []byte(t), 0o644))
		overlay[p] = d
	}
	return nil
}

func goRoot() string {
	if g := os.Getenv("XSIM_GOROOT"); g != "" {
		return g
	}
	return runtime.GOROOT()
}
