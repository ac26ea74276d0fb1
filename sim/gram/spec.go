// Package gram holds grammar specifications as data, their rendering to XBNF
// text, generators, and the executable reference model of what a grammar
// means on a text (index based, no look-ahead bookkeeping at all).
package gram

import (
	"fmt"
	"strings"
)

// Expr is one rule expression.
type Expr struct {
	K    string  `json:"k"`           // char chars str range ref eof group opt rep cat choice block
	S    string  `json:"s,omitempty"` // literal text or reference name
	B    rune    `json:"b,omitempty"` // range begin
	E    rune    `json:"e,omitempty"` // range end
	Kids []*Expr `json:"kids,omitempty"`
	// choice: number of alternatives per ordered group
	Groups []int `json:"groups,omitempty"`
	// repetition
	Min int    `json:"min,omitempty"`
	Max int    `json:"max,omitempty"`
	Suf string `json:"suf,omitempty"` // rendered suffix
	// block: Kids[0] open, Kids[1] close
	Esc  *Expr   `json:"esc,omitempty"`
	Excl []*Expr `json:"excl,omitempty"`
	VC   bool    `json:"vc,omitempty"`
	// annotations
	T bool `json:"t,omitempty"`
	V bool `json:"v,omitempty"`
	D bool `json:"d,omitempty"`
	// spelling: 1, 2, 3 for forms with escapes; wide for blanks inside brackets
	U int  `json:"u,omitempty"`
	W bool `json:"w,omitempty"`
}

// Rule is a named expression.
type Rule struct {
	Name string `json:"name"`
	X    *Expr  `json:"x"`
	Note string `json:"note,omitempty"` // comment behind the definition
}

// Grammar is an ordered list of rules.
type Grammar struct {
	Rules []Rule `json:"rules"`
}

// Text renders the grammar, one rule per line.
func (g *Grammar) Text() string {
	var b strings.Builder
	for _, r := range g.Rules {
		b.WriteString(r.Def())
		b.WriteByte('\n')
	}
	return b.String()
}

// Def renders one definition.
func (r Rule) Def() string {
	if r.Note != "" {
		return r.Bare() + " //" + r.Note
	}
	return r.Bare()
}

// Bare renders a definition without its comment.
func (r Rule) Bare() string { return r.Name + " = " + r.X.Top() }

// Lookup finds a rule.
func (g *Grammar) Lookup(name string) *Expr {
	for _, r := range g.Rules {
		if r.Name == name {
			return r.X
		}
	}
	return nil
}

// Refs lists the names referenced by x, in order, with repeats.
func (x *Expr) Refs(out []string) []string {
	if x == nil {
		return out
	}
	if x.K == "ref" {
		out = append(out, x.S)
	}
	for _, k := range x.Kids {
		out = k.Refs(out)
	}
	out = x.Esc.Refs(out)
	for _, k := range x.Excl {
		out = k.Refs(out)
	}
	return out
}

// Roots lists the unreferenced rules in definition order.
func (g *Grammar) Roots() []string {
	used := map[string]bool{}
	for _, r := range g.Rules {
		for _, n := range r.X.Refs(nil) {
			used[n] = true
		}
	}
	var out []string
	for _, r := range g.Rules {
		if !used[r.Name] {
			out = append(out, r.Name)
		}
	}
	return out
}

func (x *Expr) ann() string {
	s := ""
	if x.T {
		s += "$"
	}
	if x.V {
		s += "~"
	}
	if x.D {
		s += "#"
	}
	return s
}

func uesc(r rune) string { return fmt.Sprintf("\\u%04X", r) }

func special(r rune) bool {
	return r < 0x21 || r == '\'' || r == '"' || r == '\\' || r == 0x7f || r == 0x85 || r == 0xA0 || (r >= 0x2000 && r < 0x2070) || r == 0x3000
}

func quoted(r rune, extraOK string) string {
	if special(r) && !strings.ContainsRune(extraOK, r) {
		return uesc(r)
	}
	return string(r)
}

func charLit(r rune) string {
	if special(r) && r != ' ' {
		return uesc(r)
	}
	return "'" + string(r) + "'"
}

// Top renders x where concatenation and choice need no brackets.
func (x *Expr) Top() string {
	switch x.K {
	case "cat":
		var p []string
		for _, k := range x.Kids {
			p = append(p, k.Unit())
		}
		return strings.Join(p, " ")
	case "choice":
		var b strings.Builder
		i := 0
		for gi, n := range x.Groups {
			for j := 0; j < n; j++ {
				if i > 0 {
					if j == 0 && gi > 0 {
						b.WriteString(" > ")
					} else {
						b.WriteString(" | ")
					}
				}
				b.WriteString(x.Kids[i].Unit())
				i++
			}
		}
		return b.String()
	}
	return x.Unit()
}

// Unit renders x as one unit.
func (x *Expr) Unit() string {
	switch x.K {
	case "char":
		r := []rune(x.S)[0]
		switch {
		case x.U == 0 || r > 0xffff:
			return x.ann() + charLit(r)
		case x.U == 1:
			return x.ann() + uesc(r)
		}
		return x.ann() + "'" + uesc(r) + "'"
	case "chars":
		var b strings.Builder
		for _, r := range x.S {
			b.WriteString(x.spelled(r, " \""))
		}
		return x.ann() + "'" + b.String() + "'"
	case "str":
		var b strings.Builder
		for _, r := range x.S {
			b.WriteString(x.spelled(r, " '"))
		}
		return x.ann() + "\"" + b.String() + "\""
	case "range":
		b, e := charLit2(x.B), charLit2(x.E)
		if x.U > 0 && x.E <= 0xffff {
			switch b = uesc(x.B); x.U {
			case 1:
				e = uesc(x.E)
			case 2:
				b, e = "'"+b+"'", "'"+uesc(x.E)+"'"
			case 3:
				e = "'" + uesc(x.E) + "'"
			}
		}
		return x.ann() + b + "-" + e
	case "ref":
		return x.ann() + x.S
	case "eof":
		return x.ann() + "EOF"
	case "group":
		return x.ann() + x.in("(", ")")
	case "opt":
		return x.ann() + x.in("[", "]")
	case "rep":
		return x.ann() + x.in("{", "}") + x.Suf
	case "cat", "choice":
		return "(" + x.Top() + ")"
	case "block":
		var b strings.Builder
		b.WriteString(x.ann() + "<" + x.Kids[0].Unit())
		if x.Esc != nil {
			b.WriteString(" " + x.Esc.Unit())
		}
		for _, e := range x.Excl {
			b.WriteString(" ^" + e.Unit())
		}
		b.WriteString(" " + x.Kids[1].Unit())
		if x.VC {
			b.WriteString(" !")
		}
		b.WriteString(">")
		return b.String()
	}
	panic("gram: bad kind " + x.K)
}

func (x *Expr) in(open, shut string) string {
	if x.W {
		return open + "  " + x.Kids[0].Top() + " " + shut
	}
	return open + x.Kids[0].Top() + shut
}

func (x *Expr) spelled(r rune, plain string) string {
	if r <= 0xffff && (x.U == 1 || x.U > 1 && (int(r)+x.U)%2 == 0) {
		return uesc(r)
	}
	return quoted(r, plain)
}

func charLit2(r rune) string {
	if special(r) {
		return uesc(r)
	}
	return "'" + string(r) + "'"
}

// Clone deep-copies.
func (x *Expr) Clone() *Expr {
	if x == nil {
		return nil
	}
	c := *x
	c.Kids = nil
	for _, k := range x.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	c.Esc = x.Esc.Clone()
	c.Excl = nil
	for _, k := range x.Excl {
		c.Excl = append(c.Excl, k.Clone())
	}
	c.Groups = append([]int(nil), x.Groups...)
	return &c
}

// Clone deep-copies.
func (g *Grammar) Clone() *Grammar {
	if g == nil {
		return nil
	}
	c := &Grammar{}
	for _, r := range g.Rules {
		c.Rules = append(c.Rules, Rule{r.Name, r.X.Clone(), r.Note})
	}
	return c
}

// Size counts expression nodes.
func (x *Expr) Size() int {
	if x == nil {
		return 0
	}
	n := 1 + x.Esc.Size()
	for _, k := range x.Kids {
		n += k.Size()
	}
	for _, k := range x.Excl {
		n += k.Size()
	}
	return n
}

// Size counts expression nodes.
func (g *Grammar) Size() int {
	n := 0
	for _, r := range g.Rules {
		n += r.X.Size()
	}
	return n
}

// constructors
func Ch(r rune) *Expr       { return &Expr{K: "char", S: string(r)} }
func Chs(s string) *Expr    { return &Expr{K: "chars", S: s} }
func Str(s string) *Expr    { return &Expr{K: "str", S: s} }
func Rng(a, b rune) *Expr   { return &Expr{K: "range", B: a, E: b} }
func Ref(n string) *Expr    { return &Expr{K: "ref", S: n} }
func EOFx() *Expr           { return &Expr{K: "eof", V: false} }
func Grp(x *Expr) *Expr     { return &Expr{K: "group", Kids: []*Expr{x}} }
func Opt(x *Expr) *Expr     { return &Expr{K: "opt", Kids: []*Expr{x}} }
func Rep(x *Expr) *Expr     { return &Expr{K: "rep", Kids: []*Expr{x}} }
func Rep1(x *Expr) *Expr    { return &Expr{K: "rep", Kids: []*Expr{x}, Min: 1, Suf: "+"} }
func Cat(k ...*Expr) *Expr  { return &Expr{K: "cat", Kids: k} }
func Alt(k ...*Expr) *Expr  { return &Expr{K: "choice", Kids: k, Groups: []int{len(k)}} }
func Virt(x *Expr) *Expr    { x.V = true; return x }
func NonData(x *Expr) *Expr { x.D = true; return x }
func RepN(x *Expr, min, max int) *Expr {
	r := &Expr{K: "rep", Kids: []*Expr{x}, Min: min, Max: max}
	switch {
	case max == 0 && min == 0:
		r.Suf = "*"
	case max == 0:
		r.Suf = fmt.Sprintf("<%d>", min)
	default:
		r.Suf = fmt.Sprintf("<%d,%d>", min, max)
	}
	return r
}

// Norm makes the brackets that rendering puts around a nested concatenation
// or choice explicit, and drops one-element concatenations and choices: the
// text of the result is the text of g, and its shape is what that text means.
func (g *Grammar) Norm() *Grammar {
	c := g.Clone()
	for i := range c.Rules {
		c.Rules[i].X = norm(c.Rules[i].X, false)
	}
	return c
}

func norm(x *Expr, unit bool) *Expr {
	if x == nil {
		return nil
	}
	seq := x.K == "cat" || x.K == "choice"
	for i, k := range x.Kids {
		x.Kids[i] = norm(k, seq || x.K == "block")
	}
	x.Esc = norm(x.Esc, true)
	for i, k := range x.Excl {
		x.Excl[i] = norm(k, true)
	}
	if !seq {
		return x
	}
	x.T, x.V, x.D = false, false, false
	if len(x.Kids) == 1 {
		x = x.Kids[0]
	}
	if unit {
		return Grp(x)
	}
	return x
}

// LeftRecursive reports whether some rule may come back to itself without a
// character in between (also where a reference may match nothing).
func (g *Grammar) LeftRecursive() bool {
	null := map[string]bool{}
	var nullable func(x *Expr) bool
	nullable = func(x *Expr) bool {
		switch x.K {
		case "opt", "eof":
			return true
		case "rep":
			return x.Min == 0 || nullable(x.Kids[0])
		case "chars", "str":
			return x.S == ""
		case "ref":
			return null[x.S]
		case "cat":
			for _, k := range x.Kids {
				if !nullable(k) {
					return false
				}
			}
			return true
		case "choice":
			for _, k := range x.Kids {
				if nullable(k) {
					return true
				}
			}
			return false
		case "block":
			return nullable(x.Kids[0])
		case "group":
			return nullable(x.Kids[0])
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.Rules {
			if !null[r.Name] && nullable(r.X) {
				null[r.Name], changed = true, true
			}
		}
	}
	edges := map[string][]string{}
	var left func(name string, x *Expr)
	left = func(name string, x *Expr) {
		if x == nil {
			return
		}
		switch x.K {
		case "ref":
			edges[name] = append(edges[name], x.S)
		case "cat":
			for _, k := range x.Kids {
				left(name, k)
				if !nullable(k) {
					return
				}
			}
		case "block":
			left(name, x.Kids[0])
			if nullable(x.Kids[0]) {
				left(name, x.Kids[1])
				left(name, x.Esc)
				for _, k := range x.Excl {
					left(name, k)
				}
			}
		default:
			for _, k := range x.Kids {
				left(name, k)
			}
		}
	}
	for _, r := range g.Rules {
		left(r.Name, r.X)
	}
	state := map[string]int{}
	var cyclic func(n string) bool
	cyclic = func(n string) bool {
		if state[n] != 0 {
			return state[n] == 1
		}
		state[n] = 1
		for _, m := range edges[n] {
			if cyclic(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for _, r := range g.Rules {
		if cyclic(r.Name) {
			return true
		}
	}
	return false
}
