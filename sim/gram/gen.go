package gram

import (
	"fmt"
)

// Rand is a splitmix64 generator, independent of the standard library.
type Rand struct{ s uint64 }

// NewRand seeds.
func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 ^ 0xD1B54A32D192ED03} }

// U64 draws.
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N draws from [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Opt sets what a generated grammar contains (varied per run).
type Options struct {
	Rules     int // 1..6
	Depth     int
	Alpha     []rune
	Blocks    bool
	Spaces    bool // literals containing white space
	Annot     bool
	EOF       bool
	Strings   bool
	Ranges    bool
	Recursive bool
	Nullable  bool // many empty-matching parts
	Unicode   bool
	MultiRoot int  // desired number of roots
	Big       bool // deeper, wider, longer than usual
	Spelling  bool // escapes, comments and other ways to write the same
	WideSpace bool // white space beyond blank, tab and line feed
}

// wide is white space other than blank, tab and line feed, and two characters
// that only look like it.
var wide = []string{"\r", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\u200b", "\ufeff"}

// Space draws white space: mostly from plain.
func (o Options) Space(r *Rand, plain ...string) string {
	if o.WideSpace && r.P(50) {
		return wide[r.N(len(wide))]
	}
	return plain[r.N(len(plain))]
}

// RandomOptions draws a swarm configuration.
func RandomOptions(r *Rand) Options {
	o := Options{
		Rules: 1 + r.N(5), Depth: 1 + r.N(3),
		Blocks: r.P(35), Spaces: r.P(30), Annot: r.P(30), EOF: r.P(15), Strings: r.P(50),
		Ranges: r.P(40), Recursive: r.P(20), Nullable: r.P(25), Unicode: r.P(12),
		MultiRoot: 1 + r.N(3),
	}
	all := []rune{'a', 'b', 'c', 'x'}
	o.Alpha = all[:2+r.N(3)]
	o.WideSpace = r.P(8)
	o.Spelling = r.P(12)
	if r.P(4) {
		o.Big = true
		switch r.N(3) {
		case 0:
			o.Rules, o.Depth = 6+r.N(8), 1+r.N(2)
		case 1:
			o.Depth = 4 + r.N(3)
		}
	}
	if o.Unicode {
		o.Alpha = append(append([]rune{}, o.Alpha...), []rune{'é', '世', 0x1F600}[r.N(3)])
	}
	return o
}

type gen struct {
	r    *Rand
	o    Options
	n    int // number of rules
	cur  int // rule being generated
	size int
}

func ruleName(i int) string { return string(rune('p'+i%8)) + fmt.Sprint(i) }

// Generate draws a grammar without left recursion: a rule refers freely only
// to later rules; a reference to itself or an earlier rule always stands
// behind a literal that consumes a character.
func Generate(r *Rand, o Options) *Grammar {
	g := &gen{r: r, o: o, n: o.Rules}
	gr := &Grammar{}
	for i := 0; i < o.Rules; i++ {
		g.cur = i
		g.size = 0
		var x *Expr
		switch {
		case r.P(15):
			x = g.pump()
		case r.P(25):
			x = g.prefixes()
		default:
			x = g.expr(o.Depth)
		}
		gr.Rules = append(gr.Rules, Rule{Name: ruleName(i), X: x})
	}
	if o.Spelling {
		for i := range gr.Rules {
			spelling(r, gr.Rules[i].X)
			if r.P(25) {
				gr.Rules[i].Note = note(r, gr)
			}
		}
	}
	return gr
}

// spelling varies how an expression is written.
func spelling(r *Rand, x *Expr) {
	if x == nil {
		return
	}
	if r.P(30) {
		x.U = 1 + r.N(3)
	}
	x.W = r.P(30)
	if x.K == "rep" && r.P(30) {
		switch {
		case x.Max > 0 && x.Min == 0:
			x.Suf = fmt.Sprintf("<,%d>", x.Max)
		case x.Max > 0:
			x.Suf = fmt.Sprintf("< %d , %d >", x.Min, x.Max)
		case x.Min > 0:
			x.Suf = fmt.Sprintf([]string{"<%d,0>", "<%d,>", "<0%d>"}[r.N(3)], x.Min)
		default:
			x.Suf = []string{"<0>", "<,>", "*", "<0,0>"}[r.N(4)]
		}
	}
	for _, k := range x.Kids {
		spelling(r, k)
	}
	spelling(r, x.Esc)
	for _, k := range x.Excl {
		spelling(r, k)
	}
}

// note draws a comment; nothing in it means anything.
func note(r *Rand, g *Grammar) string {
	gap := " "
	if r.P(30) {
		gap = ""
	}
	return gap + []string{g.Rules[r.N(len(g.Rules))].Name, "{ ( [ <", "'a' | \"b", "= 'x' > // nosuch", "é 世 \\", "$~#", "- ^ !", "undefined9"}[r.N(8)]
}

func (g *gen) letter() rune { return g.o.Alpha[g.r.N(len(g.o.Alpha))] }

func (g *gen) word(min, max int) string {
	n := min + g.r.N(max-min+1)
	if g.o.Big && max > 2 && g.r.P(30) {
		n = max + g.r.N(30)
	}
	s := ""
	for i := 0; i < n; i++ {
		if g.o.Spaces && g.r.P(12) {
			s += g.o.Space(g.r, " ", "\n", "\t")
		} else {
			s += string(g.letter())
		}
	}
	return s
}

func (g *gen) annot(x *Expr) *Expr {
	if !g.o.Annot || x.K == "cat" || x.K == "choice" {
		return x
	}
	x.T, x.V, x.D = g.r.P(15), g.r.P(20), g.r.P(15)
	return x
}

func (g *gen) terminal() *Expr {
	r := g.r
	for {
		switch r.N(10) {
		case 0, 1, 2:
			if g.o.Spaces && r.P(15) {
				return Ch([]rune{' ', '\n', '\t', ' '}[r.N(4)])
			}
			return Ch(g.letter())
		case 3, 4, 5:
			return Chs(g.word(2, 4))
		case 6, 7:
			if g.o.Strings {
				return Str(g.word(1, 3))
			}
		case 8:
			if g.o.Ranges {
				a, b := g.letter(), g.letter()
				if a > b {
					a, b = b, a
				}
				if g.o.Spaces && r.P(20) {
					a = ' '
				}
				return Rng(a, b)
			}
		case 9:
			if g.o.EOF {
				return EOFx()
			}
			if g.o.Strings && g.o.Nullable && r.P(20) {
				return Str("")
			}
		}
	}
}

func (g *gen) expr(d int) *Expr {
	g.size++
	r := g.r
	limit := 14
	if g.o.Big {
		limit = 30
	}
	if d <= 0 || g.size > limit {
		return g.annot(g.terminal())
	}
	for {
		switch r.N(13) {
		case 0:
			return g.annot(g.terminal())
		case 1, 2, 3:
			n := 2 + r.N(3)
			var k []*Expr
			for i := 0; i < n; i++ {
				k = append(k, g.expr(d-1))
			}
			return Cat(k...)
		case 4, 5, 6:
			return g.choice(d)
		case 7:
			return g.annot(Opt(g.expr(d - 1)))
		case 8:
			return g.rep(d)
		case 9:
			if g.o.Blocks {
				return g.block()
			}
		case 10:
			if g.cur+1 < g.n {
				x := g.annot(Ref(ruleName(g.cur + 1 + r.N(g.n-g.cur-1))))
				if g.o.Annot && r.P(30) {
					x.T, x.V, x.D = r.P(50), r.P(50), r.P(50)
				}
				return x
			}
		case 11:
			if g.o.Recursive {
				open, close := '(', ')'
				if r.P(40) {
					open, close = g.letter(), g.letter()
				}
				in := Ref(ruleName(r.N(g.n)))
				if r.P(50) {
					return Cat(Ch(open), Opt(in), Ch(close))
				}
				return Cat(Ch(open), Rep(in), Ch(close))
			}
		case 12:
			if g.o.Nullable {
				switch r.N(4) {
				case 0:
					return Rep(Opt(g.expr(d - 1)))
				case 1:
					return Opt(Rep(g.expr(d - 1)))
				case 2:
					return RepN(Opt(g.annot(g.terminal())), r.N(3), 0)
				case 3:
					return Cat(Opt(g.annot(g.terminal())), Rep(g.annot(g.terminal())))
				}
			}
			return Grp(g.expr(d - 1))
		}
	}
}

func (g *gen) rep(d int) *Expr {
	in := g.expr(d - 1)
	switch g.r.N(5) {
	case 0:
		return g.annot(Rep(in))
	case 1:
		return g.annot(Rep1(in))
	case 2:
		min := g.r.N(3)
		if g.o.Big {
			min += g.r.N(10)
		}
		max := min + g.r.N(3)
		if max == 0 {
			max = 1
		}
		return g.annot(RepN(in, min, max))
	case 3:
		return g.annot(RepN(in, 1+g.r.N(2), 0))
	}
	return g.annot(Rep(in))
}

func (g *gen) choice(d int) *Expr {
	n := 2 + g.r.N(3)
	if g.o.Big && g.r.P(30) {
		n += 6
	}
	x := &Expr{K: "choice"}
	for i := 0; i < n; i++ {
		x.Kids = append(x.Kids, g.expr(d-1))
	}
	x.Groups = g.groups(n)
	return x
}

func (g *gen) groups(n int) []int {
	if n < 2 || !g.r.P(30) {
		return []int{n}
	}
	k := 1 + g.r.N(n-1)
	if n-k >= 2 && g.r.P(40) {
		l := 1 + g.r.N(n-k-1)
		return []int{k, l, n - k - l}
	}
	return []int{k, n - k}
}

// prefixes builds a choice between overlapping spellings of one word, the
// shape in which look-ahead has to be given back.
func (g *gen) prefixes() *Expr {
	w := []rune(g.word(3, 6))
	n := 2 + g.r.N(3)
	x := &Expr{K: "choice"}
	for i := 0; i < n; i++ {
		k := 1 + g.r.N(len(w))
		x.Kids = append(x.Kids, g.spell(w[:k]))
	}
	x.Groups = g.groups(n)
	if g.r.P(60) {
		tail := g.expr(1)
		return Cat(Grp(x), tail)
	}
	return x
}

// spell writes w as a randomly cut sequence of literals, sometimes with an
// optional or repeated part or a wrong ending.
func (g *gen) spell(w []rune) *Expr {
	var k []*Expr
	for i := 0; i < len(w); {
		n := 1 + g.r.N(len(w)-i)
		s := string(w[i : i+n])
		i += n
		var e *Expr
		if n == 1 {
			e = Ch([]rune(s)[0])
		} else if g.o.Strings && g.r.P(25) {
			e = Str(s)
		} else {
			e = Chs(s)
		}
		switch g.r.N(8) {
		case 0:
			e = Opt(e)
		case 1:
			e = Rep(e)
		case 2:
			e = Opt(Chs(s + string(g.letter())))
			i -= n
			if i < 0 {
				i = 0
			}
			k = append(k, e)
			e = Chs(s + "")
			if n == 1 {
				e = Ch([]rune(s)[0])
			}
			i += n
		}
		k = append(k, e)
	}
	if g.r.P(25) {
		k = append(k, g.terminal())
	}
	if len(k) == 1 {
		return k[0]
	}
	return Cat(k...)
}

// pump: a loop whose body needs look-ahead, followed by what it gives back.
func (g *gen) pump() *Expr {
	w := g.word(2, 3)
	a := []rune(w)
	body := Cat(Ch(a[0]), Chs(string(a[1:])+string(g.letter())))
	if g.r.P(50) {
		body = Cat(Grp(Alt(Chs(w), Ch(a[0]))), Opt(Chs(string(g.letter())+w)))
	}
	tail := g.spell(a)
	if g.r.P(40) {
		return Cat(Rep(Grp(body)), tail, Rep(g.terminal()))
	}
	return Cat(Opt(Grp(body)), Rep(Grp(body)), tail)
}

func (g *gen) blockUnit() *Expr {
	r := g.r
	q := []rune{'"', '\'', '/', '*', '#', '\\'}
	if g.o.Strings && r.P(12) {
		return Str(g.word(1, 3))
	}
	switch r.N(8) {
	case 0, 1, 2:
		return Ch(q[r.N(len(q))])
	case 3, 4:
		return Chs(string(q[r.N(len(q))]) + string(q[r.N(len(q))]))
	case 5:
		return Ch(g.letter())
	case 6:
		return Chs(g.word(2, 3))
	}
	switch r.N(4) {
	case 0:
		return Grp(Alt(Ch(q[r.N(len(q))]), Chs(g.word(2, 3))))
	case 1, 2: // reads on before it settles
		c := q[r.N(len(q))]
		if r.P(50) {
			c = g.letter()
		}
		if r.P(50) {
			return Grp(Alt(Ch(c), Chs(string(c)+g.word(1, 3))))
		}
		return Grp(Cat(Ch(c), Opt(Chs(g.word(2, 3)))))
	}
	return Grp(Cat(Ch(g.letter()), Opt(Ch(g.letter()))))
}

func (g *gen) block() *Expr {
	r := g.r
	b := &Expr{K: "block", Kids: []*Expr{g.blockUnit(), g.blockUnit()}}
	if r.P(30) {
		b.Kids[1] = Ch('\n')
	}
	if g.o.EOF && r.P(20) {
		b.Kids[1] = EOFx()
	}
	if r.P(50) {
		b.Esc = Ch('\\')
		if r.P(30) {
			b.Esc = g.blockUnit()
		}
		if g.o.Nullable && r.P(15) {
			b.Esc = Opt(Ch(g.letter()))
		}
	}
	for r.P(30) && len(b.Excl) < 2 {
		if r.P(50) {
			b.Excl = append(b.Excl, Ch('\n'))
		} else {
			b.Excl = append(b.Excl, g.blockUnit())
		}
		if x := b.Excl[0]; len(b.Excl) == 1 && r.P(35) && (x.K == "char" || x.K == "chars") {
			// one text begins with the other
			b.Excl = append(b.Excl, Chs(x.S+string(g.letter())))
			if r.P(50) {
				b.Excl[0], b.Excl[1] = b.Excl[1], b.Excl[0]
			}
		}
	}
	b.VC = r.P(20)
	return g.annot(b)
}

// ---- texts

var whites = []rune{'\t', '\n', '\r', ' '}

// deriver produces a text a grammar is likely to accept.
type deriver struct {
	r    *Rand
	g    *Grammar
	o    Options
	left int
}

func (d *deriver) gap() string {
	if d.r.P(18) {
		return d.o.Space(d.r, " ", "\n", "  ", "\t", " \n")
	}
	return ""
}

func (d *deriver) expr(x *Expr, depth int) string {
	if x == nil {
		return ""
	}
	d.left--
	if d.left < 0 || depth > 12 {
		return ""
	}
	switch x.K {
	case "char", "chars":
		if x.K == "char" && space([]rune(x.S)[0]) && d.r.P(40) {
			return d.gap() + string(whites[d.r.N(len(whites))]) + x.S
		}
		return d.gap() + x.S
	case "str":
		return d.gap() + x.S
	case "range":
		if space(x.B) && d.r.P(40) { // mixed with space the range leaves out
			return d.gap() + string(whites[d.r.N(len(whites))]) + string(x.B)
		}
		return d.gap() + string(x.B+rune(d.r.N(int(x.E-x.B)+1)))
	case "ref":
		return d.expr(d.g.Lookup(x.S), depth+1)
	case "eof":
		return ""
	case "group":
		return d.expr(x.Kids[0], depth+1)
	case "opt":
		if d.r.P(55) {
			return d.expr(x.Kids[0], depth+1)
		}
		return ""
	case "rep":
		n := x.Min + d.r.N(3)
		if d.o.Big && d.r.P(15) {
			n += d.r.N(20)
		}
		if x.Max > 0 && n > x.Max {
			n = x.Max
		}
		s := ""
		for i := 0; i < n; i++ {
			s += d.expr(x.Kids[0], depth+1)
		}
		return s
	case "cat":
		s := ""
		for _, k := range x.Kids {
			s += d.expr(k, depth+1)
		}
		return s
	case "choice":
		return d.expr(x.Kids[d.r.N(len(x.Kids))], depth+1)
	case "block":
		s := d.expr(x.Kids[0], depth+1)
		n := d.r.N(5)
		for i := 0; i < n; i++ {
			switch d.r.N(7) {
			case 0:
				if x.Esc != nil {
					if d.r.P(20) {
						s += " "
					}
					s += d.expr(x.Esc, depth+1)
					if d.r.P(20) {
						s += " "
					}
					if d.r.P(50) {
						s += d.expr(x.Kids[1], depth+1)
					}
				}
			case 1:
				if x.Esc != nil && len(x.Excl) > 0 {
					s += d.expr(x.Esc, depth+1)
					if d.r.P(25) {
						s += " "
					}
					s += d.expr(x.Excl[d.r.N(len(x.Excl))], depth+1)
				}
			case 2:
				s += " "
			case 3:
				// a look-alike of the closing text
				c := []rune(d.expr(x.Kids[1], depth+1))
				if len(c) > 1 {
					s += string(c[:1])
				}
			default:
				s += string(d.o.Alpha[d.r.N(len(d.o.Alpha))])
			}
		}
		s += d.expr(x.Kids[1], depth+1)
		return s
	}
	return ""
}

// DeriveFrom draws a text one expression is likely to accept.
func DeriveFrom(r *Rand, g *Grammar, o Options, x *Expr) string {
	d := &deriver{r: r, g: g, o: o, left: 80}
	if o.Big {
		d.left = 300
	}
	return d.expr(x, 0)
}

// Derive draws a text for the whole grammar: one to four root matches.
func Derive(r *Rand, g *Grammar, o Options, maxLen int) string {
	roots := g.Roots()
	if len(roots) == 0 {
		roots = []string{g.Rules[0].Name}
	}
	n := 1 + r.N(4)
	s := ""
	for i := 0; i < n; i++ {
		s += DeriveFrom(r, g, o, g.Lookup(roots[r.N(len(roots))]))
		if len([]rune(s)) > maxLen {
			break
		}
	}
	t := []rune(s)
	if len(t) > maxLen {
		t = t[:maxLen]
	}
	return string(t)
}

// Mutate applies a few random edits.
func Mutate(r *Rand, o Options, s string, n int) string {
	t := []rune(s)
	for i := 0; i < n; i++ {
		c := o.Alpha[r.N(len(o.Alpha))]
		if r.P(20) {
			c = []rune{' ', '\n', '(', ')', '"', '\\', '\t', 'é', 0, 0xFFFD, '\r'}[r.N(11)]
		}
		p := r.N(len(t) + 1)
		switch r.N(5) {
		case 0:
			t = append(t[:p], append([]rune{c}, t[p:]...)...)
		case 1:
			if p < len(t) {
				t = append(t[:p:p], t[p+1:]...)
			}
		case 2:
			if p < len(t) {
				t[p] = c
			}
		case 3:
			t = t[:p]
		case 4:
			if p < len(t) {
				q := p + 1 + r.N(len(t)-p)
				t = append(t[:q:q], t[p:]...)
			}
		}
	}
	if len(t) > 200 {
		t = t[:200]
	}
	return string(t)
}

// ---- fixed grammars taken from the library's samples and tests

// JSON is a JSON-like grammar.
func JSON() *Grammar {
	return &Grammar{[]Rule{
		{Name: "value", X: Grp(Alt(Ref("object"), Ref("array"), Ref("jstring"), Ref("number"), Str("true"), Str("false"), Str("null")))},
		{Name: "object", X: Cat(Virt(Str("{")), Opt(Cat(Ref("pair"), Rep(Cat(Virt(Str(",")), Ref("pair"))))), Virt(Str("}")))},
		{Name: "pair", X: Cat(Ref("jstring"), NonData(Str(":")), Ref("value"))},
		{Name: "array", X: Cat(Virt(Str("[")), Opt(Cat(Ref("value"), Rep(Cat(Virt(Str(",")), Ref("value"))))), Virt(Str("]")))},
		{Name: "number", X: Cat(Opt(Ch('-')), Grp(Alt(Ch('0'), Grp(Cat(Rng('1', '9'), Rep(Rng('0', '9')))))), Opt(Cat(Ch('.'), Rep1(Rng('0', '9')))))},
		{Name: "jstring", X: &Expr{K: "block", Kids: []*Expr{Virt(Ch('"')), Virt(Ch('"'))}, Esc: Ch('\\'), Excl: []*Expr{Ch('\n')}}},
		{Name: "json", X: Ref("value")},
	}}
}

// JSONText draws a JSON-like text.
func JSONText(r *Rand, d int) string {
	sp := func() string {
		if r.P(20) {
			return []string{" ", "\n", "  "}[r.N(3)]
		}
		return ""
	}
	switch k := r.N(7); {
	case k == 0 && d > 0:
		s := "{"
		for i, n := 0, r.N(4); i < n; i++ {
			if i > 0 {
				s += "," + sp()
			}
			s += sp() + `"k` + fmt.Sprint(i) + `"` + sp() + ":" + sp() + JSONText(r, d-1)
		}
		return s + sp() + "}"
	case k == 1 && d > 0:
		s := "["
		for i, n := 0, r.N(4); i < n; i++ {
			if i > 0 {
				s += "," + sp()
			}
			s += JSONText(r, d-1)
		}
		return s + sp() + "]"
	case k == 2:
		return []string{"true", "false", "null"}[r.N(3)]
	case k <= 4:
		s := ""
		if r.P(30) {
			s = "-"
		}
		s += fmt.Sprint(r.N(1000))
		if r.P(30) {
			s += "." + fmt.Sprint(r.N(100))
		}
		return s
	}
	return []string{`"a"`, `""`, `"a\"b"`, `"x y"`, `"\\"`, `"é"`}[r.N(6)]
}

// Arith is an arithmetic grammar.
func Arith() *Grammar {
	return &Grammar{[]Rule{
		{Name: "expr", X: Cat(Ref("term"), Rep(Cat(Grp(Alt(Str("+"), Str("-"))), Ref("term"))))},
		{Name: "term", X: Cat(Ref("factor"), Rep(Cat(Grp(Alt(Str("*"), Str("/"), Str("**"))), Ref("factor"))))},
		{Name: "factor", X: &Expr{K: "choice", Kids: []*Expr{Ref("num"), Ref("ident"), Grp(Cat(Virt(Str("(")), Ref("expr"), Virt(Str(")"))))}, Groups: []int{3}}},
		{Name: "num", X: Cat(Rep1(Rng('0', '9')), Opt(Cat(Ch('.'), Rep1(Rng('0', '9')))))},
		{Name: "ident", X: Cat(Rng('a', 'z'), Rep(Alt(Rng('a', 'z'), Rng('0', '9'))))},
		{Name: "assign", X: Cat(Ref("ident"), Str("="), Ref("expr"), Str(";"))},
	}}
}

// ArithText draws an arithmetic text.
func ArithText(r *Rand, d int) string {
	sp := ""
	if r.P(20) {
		sp = []string{" ", "\n"}[r.N(2)]
	}
	if d <= 0 || r.P(30) {
		if r.P(40) {
			return sp + []string{"a", "b1", "xyz"}[r.N(3)]
		}
		s := fmt.Sprint(r.N(100))
		if r.P(30) {
			s += ".5"
		}
		return sp + s
	}
	switch r.N(3) {
	case 0:
		return sp + "(" + ArithText(r, d-1) + ")"
	case 1:
		return ArithText(r, d-1) + sp + []string{"+", "-", "*", "/", "**"}[r.N(5)] + ArithText(r, d-1)
	}
	return ArithText(r, d-1)
}
