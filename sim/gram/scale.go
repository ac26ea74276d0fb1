package gram

import (
	"fmt"
	"strings"
)

// size draws sizes of every order of magnitude up to max.
func size(r *Rand, min, max int) int {
	// about as many of each order
	steps := 0
	for n := min; n < max; n += 1 + n/2 {
		steps++
	}
	n := min
	for k := r.N(steps + 1); k > 0; k-- {
		n += 1 + n/2
	}
	n -= r.N(1 + n/3)
	if n < min {
		n = min
	}
	if n > max {
		n = max
	}
	// around the usual limits
	if r.P(25) {
		for _, l := range []int{64, 100, 128, 256, 512, 1000, 1024, 4096, 10000, 65536} {
			if l >= n && l+2 <= max {
				return l - 2 + r.N(5)
			}
		}
	}
	return n
}

// Size draws a size of any order of magnitude.
func Size(r *Rand, min, max int) int { return size(r, min, max) }

func letters(r *Rand, n int, alpha string) string {
	a := []rune(alpha)
	var b strings.Builder
	if r.P(30) {
		for i := 0; i < n; i++ {
			b.WriteRune(a[0])
		}
		return b.String()
	}
	for i := 0; i < n; i++ {
		b.WriteRune(a[r.N(len(a))])
	}
	return b.String()
}

// blanks is white space of a length of any order, with line breaks.
func blanks(r *Rand, max int) string {
	n := size(r, 1, max)
	switch r.N(4) {
	case 0:
		return strings.Repeat(" ", n)
	case 1:
		return strings.Repeat("\n", n)
	case 2:
		return strings.Repeat(" ", n/2) + "\n" + strings.Repeat("\t", n-n/2)
	}
	return letters(r, n, " \n\t\r ")
}

// gapped puts white space between some of the parts.
func gapped(r *Rand, parts []string) string {
	var b strings.Builder
	pct, max := []int{0, 1, 10, 60, 100}[r.N(5)], []int{1, 2, 20, 300}[r.N(4)]
	if max == 300 && pct > 10 && len(parts) > 50 {
		pct = 2
	}
	for i, p := range parts {
		if i > 0 && r.P(pct) {
			b.WriteString(blanks(r, max))
		}
		b.WriteString(p)
	}
	return b.String()
}

// ManyRules returns a grammar of many rules and a text.
func ManyRules(r *Rand) (*Grammar, string) { return scaledKind(r, []int{6, 6, 7, 8}[r.N(4)]) }

// Scaled returns a grammar and a text of an unusual size: nesting, counts,
// lengths, numbers of rules, lines and columns.
func Scaled(r *Rand) (*Grammar, string) { return scaledKind(r, r.N(11)) }

func scaledKind(r *Rand, kind int) (*Grammar, string) {
	g := &Grammar{}
	def := func(name string, x *Expr) { g.Rules = append(g.Rules, Rule{Name: name, X: x}) }
	lit := func(s string) *Expr {
		if len([]rune(s)) == 1 && r.P(60) {
			return Ch([]rune(s)[0])
		}
		if len([]rune(s)) > 1 && r.P(50) {
			return Chs(s)
		}
		return Str(s)
	}
	var text string
	switch kind {
	case 0: // nesting
		open, shut, atom := lit("("), lit(")"), lit("x")
		n := size(r, 20, 700)
		switch r.N(3) {
		case 0:
			def("e", Alt(Cat(open, Ref("e"), shut), atom))
		case 1:
			def("e", Cat(open, Opt(Ref("e")), shut))
		default:
			def("e", Alt(Cat(open, Ref("f"), shut), atom))
			def("f", Cat(Rep(lit("-")), Ref("e")))
		}
		def("p", Ref("e"))
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, "(")
		}
		parts = append(parts, "x")
		m := n
		if r.P(20) {
			m += r.N(3) - 1
		}
		for i := 0; i < m; i++ {
			parts = append(parts, ")")
		}
		text = gapped(r, parts)
	case 1: // look-ahead that grows with every level
		n := size(r, 20, 250)
		def("e", Alt(Cat(lit("a"), Ref("e")), lit("a")))
		def("p", Cat(Ref("e"), Opt(lit("b"))))
		text = strings.Repeat("a", n) + []string{"", "b", "c"}[r.N(3)]
	case 2: // two roots or alternatives that differ at the far end
		n := size(r, 40, 9000)
		item := []*Expr{Rng('a', 'c'), Ch('a'), Grp(Alt(Ch('a'), Ch('b'), Ch('c')))}[r.N(3)]
		rep := Rep(item)
		if r.P(30) {
			min := n - 1 + r.N(3)
			rep = RepN(item.Clone(), min, []int{0, min + r.N(3)}[r.N(2)])
		}
		if r.P(50) {
			def("p", Cat(rep.Clone(), lit(";")))
			def("q", Cat(rep.Clone(), lit(".")))
			if r.P(40) {
				def("s", rep.Clone())
			}
		} else {
			def("p", Alt(Cat(rep.Clone(), lit(";")), Cat(rep.Clone(), lit(".")), Cat(rep.Clone(), lit("!"))))
		}
		text = letters(r, n, "aabc")
		if r.P(30) {
			text = strings.Repeat("a", n)
		}
		text += []string{"", ";", ".", "!", "?", " ;", "\n."}[r.N(7)]
	case 3: // a long list
		n := size(r, 40, 4000)
		sep := lit(",")
		if r.P(50) {
			sep = NonData(sep)
		}
		def("item", []*Expr{Str("ab"), Chs("ab"), Rep1(Rng('a', 'b')), Cat(Ch('a'), Opt(Str("b")))}[r.N(4)])
		def("p", Cat(Ref("item"), Rep(Cat(sep, Ref("item")))))
		var parts []string
		for i := 0; i < n; i++ {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, "ab")
		}
		text = gapped(r, parts)
	case 4: // long literals
		n := size(r, 16, 1500)
		w := letters(r, n, []string{"ab", "ab ", "abc\n", "aé"}[r.N(4)])
		w2 := []rune(w)
		w2[len(w2)-1-r.N(1+len(w2)/4)] = 'z'
		def("p", Alt(lit(w), lit(string(w2))))
		if r.P(40) {
			def("q", Cat(lit(w), lit("c")))
		}
		for k := 1 + r.N(3); k > 0; k-- {
			text += []string{w, string(w2)}[r.N(2)]
			if r.P(30) {
				text += blanks(r, 40)
			}
		}
		if r.P(20) {
			text += "c"
		}
	case 5: // a long block
		n := size(r, 40, 5000)
		b := &Expr{K: "block", Kids: []*Expr{lit("<"), lit(">")}}
		if r.P(60) {
			b.Esc = lit("\\")
		}
		if r.P(40) {
			b.Excl = append(b.Excl, lit("!"))
		}
		if r.P(30) {
			b.Excl = append(b.Excl, lit("?b"))
		}
		def("p", b)
		if r.P(30) {
			def("q", Cat(lit("<"), Rep(Rng('a', 'c')), lit(";")))
		}
		text = "<" + letters(r, n, []string{"ab", "abc \n", "ab?\n"}[r.N(3)])
		if r.P(40) && b.Esc != nil {
			text += "\\>" + letters(r, r.N(40), "ab")
		}
		if r.P(15) {
			text += "!"
		}
		text += []string{">", ">", ">", "", ";"}[r.N(5)]
	case 6: // many roots
		n := size(r, 5, 150)
		var words []string
		for i := 0; i < n; i++ {
			words = append(words, fmt.Sprintf("%c%d", 'a'+r.N(3), i))
			def(fmt.Sprintf("r%d", i), lit(words[i]))
		}
		if r.P(15) {
			def("rdup", lit(words[r.N(n)]))
		}
		var parts []string
		for k := 1 + r.N(12); k > 0; k-- {
			parts = append(parts, words[r.N(n)])
		}
		text = gapped(r, parts)
	case 7: // a wide choice, in one or several groups
		n := size(r, 5, 120)
		x := &Expr{K: "choice"}
		var words []string
		left := n
		for left > 0 {
			k := 1 + r.N(left)
			x.Groups = append(x.Groups, k)
			left -= k
		}
		if n == 1 || len(x.Groups) == 1 && n < 2 {
			x.Groups = []int{1, 1}
			n = 2
		}
		for i := 0; i < n; i++ {
			w := fmt.Sprintf("%s%d", letters(r, 1+r.N(3), "ab"), r.N(n))
			words = append(words, w)
			x.Kids = append(x.Kids, lit(w))
		}
		def("p", x)
		var parts []string
		for k := 1 + r.N(8); k > 0; k-- {
			parts = append(parts, words[r.N(n)])
		}
		text = gapped(r, parts)
	case 8: // a chain of rules
		n := size(r, 10, 260)
		for i := 0; i < n; i++ {
			ref := Ref(fmt.Sprintf("c%d", i+1))
			switch r.N(12) {
			case 0:
				def(fmt.Sprintf("c%d", i), Cat(lit("a"), ref))
				text += "a"
			case 1:
				def(fmt.Sprintf("c%d", i), Alt(ref, lit("b")))
			default:
				def(fmt.Sprintf("c%d", i), ref)
			}
		}
		def(fmt.Sprintf("c%d", n), lit("x"))
		if r.P(70) {
			text += "x"
		} else {
			text += "b"
		}
	case 9: // white space
		def("p", Alt(Cat(Str("a"), Ref("t")), Cat(Str("a"), Ref("u")), Str("a")))
		def("t", lit("b"))
		def("u", []*Expr{Ch('\n'), Chs(" c"), Str("  d"), Ch('\t')}[r.N(4)])
		var parts []string
		for k := 1 + r.N(6); k > 0; k-- {
			parts = append(parts, "a"+blanks(r, 3000)+[]string{"b", " c", "\n", "  d", "x", ""}[r.N(6)])
		}
		text = strings.Join(parts, blanks(r, 20))
	default: // lines
		def("w", Rep1(Rng('a', 'c')))
		def("p", []*Expr{Ref("w"), Cat(Str("-"), Ref("w")), Cat(Rep1(Ref("w")), Str(";"))}[r.N(3)])
		n := size(r, 10, 3000)
		max := 4
		if r.P(20) {
			n, max = 3, 8000
			if r.P(10) {
				max = 70000
			}
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			if r.P(50) {
				b.WriteString("-")
			}
			b.WriteString(letters(r, 1+r.N(max), "abc"))
			if r.P(50) {
				b.WriteString(";")
			}
			b.WriteString([]string{"\n", "\n", "\n", "\n\n", " ", "\r\n"}[r.N(6)])
		}
		text = b.String()
	}
	if r.P(12) {
		// near the end something else
		t := []rune(text)
		if len(t) > 2 {
			t[len(t)-1-r.N(2)] = 'z'
			text = string(t)
		}
	}
	return g, text
}
