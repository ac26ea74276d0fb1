package gram

import (
	"fmt"
	"strings"
)

// Leading-space modes of an evaluation.
const (
	SuggestNotSkip = 0
	SuggestSkip    = 1
	NotSkip        = 3
)

// EOFChar marks the text of an end-of-file node.
const EOFChar = rune(-1)

// MNode is a node of the reference tree.
type MNode struct {
	Type, Name string
	Chars      []rune
	Kids       []*MNode
	Pos        int // index of the first matched character; -1: none
	Sticky     bool
	Virtual    bool
	NonData    bool
	Tokenized  bool
}

// Res is the reference result of one evaluation.
type Res struct {
	Node   *MNode
	Used   int // characters consumed, leading space included
	Sticky bool
}

// MaxDepth bounds the nesting the model follows.
var MaxDepth = 400

// Limit is panicked when the model exceeds its step limit.
type Limit struct{}

// Model evaluates a grammar on a text.
type Model struct {
	G     *Grammar
	T     []rune
	Steps int
	Max   int
	depth int
	// reach probes
	Probes map[string]int
	rules  map[string]*Expr
}

// NewModel builds a model.
func NewModel(g *Grammar, text string, max int) *Model {
	g = g.Norm()
	m := &Model{G: g, T: []rune(text), Max: max, Probes: map[string]int{}, rules: map[string]*Expr{}}
	for _, r := range g.Rules {
		m.rules[r.Name] = r.X
	}
	return m
}

// white space as the library documents it
func space(r rune) bool {
	switch r {
	case 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200A
}

// IsSpace reports white space.
func IsSpace(r rune) bool { return space(r) }

func (m *Model) skip(i int) int {
	for i < len(m.T) && space(m.T[i]) {
		i++
	}
	return i
}

func (m *Model) probe(s string) { m.Probes[s]++ }

func (m *Model) node(x *Expr, typ, name string) *MNode {
	return &MNode{Type: typ, Name: name, Pos: -1, Virtual: x.V, NonData: x.D, Tokenized: x.T}
}

// Eval evaluates x (named name, or "") at index i.
func (m *Model) Eval(x *Expr, name string, i, flag int) Res {
	m.Steps++
	if m.Steps > m.Max {
		panic(Limit{})
	}
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > MaxDepth {
		panic(Limit{})
	}
	switch x.K {
	case "char":
		return m.char(x, name, i, flag)
	case "range":
		return m.rang(x, name, i, flag)
	case "chars", "str":
		return m.lit(x, name, i, flag)
	case "eof":
		j := i
		if flag == SuggestSkip {
			j = m.skip(i)
		}
		if j == len(m.T) {
			n := m.node(x, "EOF", "EOF")
			n.Sticky = true
			n.Chars = []rune{EOFChar}
			return Res{n, j - i, true}
		}
		return Res{nil, 0, true}
	case "ref":
		t, ok := m.rules[x.S]
		if !ok {
			return Res{}
		}
		r := m.Eval(t, x.S, i, flag)
		if r.Node != nil {
			if x.T {
				r.Node.Tokenized = !r.Node.Tokenized
			}
			if x.V {
				r.Node.Virtual = !r.Node.Virtual
			}
			if x.D {
				r.Node.NonData = !r.Node.NonData
			}
		}
		return r
	case "group":
		r := m.Eval(x.Kids[0], "", i, flag)
		if r.Node == nil {
			return r
		}
		n := m.node(x, "group", name)
		n.Sticky = r.Sticky
		n.Kids = []*MNode{r.Node}
		n.Pos = r.Node.Pos
		return Res{n, r.Used, r.Sticky}
	case "opt":
		r := m.Eval(x.Kids[0], "", i, flag)
		n := m.node(x, "option", name)
		n.Sticky = r.Sticky
		if r.Node == nil {
			m.probe("option empty")
			return Res{n, 0, r.Sticky}
		}
		n.Kids = []*MNode{r.Node}
		n.Pos = r.Node.Pos
		return Res{n, r.Used, r.Sticky}
	case "cat":
		return m.cat(x, name, i, flag)
	case "rep":
		return m.rep(x, name, i, flag)
	case "choice":
		return m.choice(x, name, i, flag)
	case "block":
		return m.block(x, name, i, flag)
	}
	panic("gram: bad kind " + x.K)
}

func (m *Model) char(x *Expr, name string, i, flag int) Res {
	if i >= len(m.T) {
		return Res{nil, 0, true}
	}
	c := []rune(x.S)[0]
	n := m.node(x, "char", name)
	n.Sticky = true
	n.Chars = []rune{c}
	j := i
	if flag == SuggestSkip {
		j = m.skip(i)
		if space(c) && j > i {
			for k := i; k < j; k++ {
				if m.T[k] == c {
					m.probe("space taken as literal")
					n.Pos = k
					return Res{n, k + 1 - i, true}
				}
			}
			return Res{nil, 0, true}
		}
	}
	if j < len(m.T) && m.T[j] == c {
		n.Pos = j
		return Res{n, j + 1 - i, true}
	}
	return Res{nil, 0, true}
}

func (m *Model) rang(x *Expr, name string, i, flag int) Res {
	if i >= len(m.T) {
		return Res{nil, 0, true}
	}
	n := m.node(x, "chars", name)
	n.Sticky = true
	j := i
	if flag == SuggestSkip {
		j = m.skip(i)
		for k := i; k < j; k++ {
			if x.B <= m.T[k] && m.T[k] <= x.E {
				n.Pos = k
				n.Chars = []rune{m.T[k]}
				return Res{n, k + 1 - i, true}
			}
		}
	}
	if j < len(m.T) && x.B <= m.T[j] && m.T[j] <= x.E {
		n.Pos = j
		n.Chars = []rune{m.T[j]}
		return Res{n, j + 1 - i, true}
	}
	return Res{nil, 0, true}
}

func (m *Model) lit(x *Expr, name string, i, flag int) Res {
	sticky := x.K == "chars"
	if i >= len(m.T) {
		return Res{nil, 0, sticky}
	}
	n := m.node(x, map[bool]string{true: "chars", false: "string"}[sticky], name)
	n.Sticky = sticky
	text := []rune(x.S)
	n.Chars = append(n.Chars, text...)
	start := i
	if flag == SuggestSkip || (!sticky && flag == SuggestNotSkip) {
		lead := 0
		for lead < len(text) && space(text[lead]) {
			lead++
		}
		j := m.skip(i)
		if j-i < lead {
			return Res{nil, 0, sticky}
		}
		start = j - lead
	}
	if start+len(text) > len(m.T) {
		return Res{nil, 0, sticky}
	}
	for k, c := range text {
		if m.T[start+k] != c {
			return Res{nil, 0, sticky}
		}
	}
	n.Pos = start
	if start >= len(m.T) {
		n.Pos = -1
	}
	return Res{n, start + len(text) - i, sticky}
}

func (m *Model) cat(x *Expr, name string, i, flag int) Res {
	n := m.node(x, "concatenate", name)
	sticky := true
	p := i
	for _, k := range x.Kids {
		r := m.Eval(k, "", p, flag)
		if !r.Sticky {
			sticky = false
		}
		if r.Node == nil {
			if p > i {
				m.probe("sequence gives back after a partial match")
			}
			return Res{nil, 0, sticky}
		}
		p += r.Used
		if n.Pos < 0 {
			n.Pos = r.Node.Pos
		}
		if r.Node.Type != "option" || len(r.Node.Kids) > 0 || len(r.Node.Chars) > 0 {
			flag = SuggestSkip
			if r.Sticky {
				flag = SuggestNotSkip
			}
		}
		n.Kids = append(n.Kids, r.Node)
	}
	n.Sticky = sticky
	return Res{n, p - i, sticky}
}

func (m *Model) rep(x *Expr, name string, i, flag int) Res {
	n := m.node(x, "repetition", name)
	sticky := true
	p := i
	for p < len(m.T) {
		r := m.Eval(x.Kids[0], "", p, flag)
		if !r.Sticky {
			sticky = false
		}
		if r.Node == nil {
			break
		}
		if r.Used == 0 && len(n.Kids) >= x.Min {
			m.probe("repetition stopped on an empty match")
			break
		}
		p += r.Used
		if n.Pos < 0 {
			n.Pos = r.Node.Pos
		}
		n.Kids = append(n.Kids, r.Node)
		if x.Max > 0 && len(n.Kids) == x.Max {
			break
		}
	}
	if len(n.Kids) < x.Min {
		if p > i {
			m.probe("repetition below minimum gives back")
		}
		return Res{nil, 0, sticky}
	}
	n.Sticky = sticky
	return Res{n, p - i, sticky}
}

func (m *Model) choice(x *Expr, name string, i, flag int) Res {
	n := m.node(x, "choice", name)
	sticky := true
	k := 0
	for _, cnt := range x.Groups {
		var matched []Res
		for j := 0; j < cnt; j++ {
			r := m.Eval(x.Kids[k], "", i, flag)
			k++
			if !r.Sticky {
				sticky = false
			}
			if r.Node != nil {
				matched = append(matched, r)
			}
		}
		if len(matched) == 0 {
			continue
		}
		best, ties := 0, 0
		for q, r := range matched {
			switch {
			case r.Used > matched[best].Used:
				m.probe("longer alternative wins")
				if ties > 0 {
					m.probe("longer alternative behind a shorter tie")
				}
				best, ties = q, 0
			case q > best && r.Used == matched[best].Used:
				ties++
			}
		}
		if ties > 0 {
			m.probe("ambiguous choice")
			return Res{nil, 0, false}
		}
		b := matched[best]
		n.Kids = []*MNode{b.Node}
		n.Sticky = sticky
		n.Pos = b.Node.Pos
		return Res{n, b.Used, sticky}
	}
	return Res{nil, 0, sticky}
}

func (m *Model) greedy(rules []*Expr, i int) (Res, bool) {
	best := Res{}
	found, tie := false, false
	for _, x := range rules {
		r := m.Eval(x, "", i, NotSkip)
		switch {
		case r.Node == nil:
		case !found || r.Used > best.Used:
			best, found, tie = r, true, false
		case r.Used == best.Used:
			tie = true
		}
	}
	if tie {
		return Res{}, false
	}
	return best, found
}

func (m *Model) block(x *Expr, name string, i, flag int) Res {
	n := m.node(x, "block", name)
	open := m.Eval(x.Kids[0], "", i, flag)
	if open.Node == nil {
		return Res{}
	}
	n.Pos = open.Node.Pos
	p := i + open.Used
	content := &MNode{Type: "chars", Sticky: true, Pos: p}
	if p >= len(m.T) {
		content.Pos = -1
	}
	n.Kids = []*MNode{open.Node, content}
	for {
		m.Steps++
		if m.Steps > m.Max {
			panic(Limit{})
		}
		escaped := false
		var esc []rune
		if x.Esc != nil {
			r := m.Eval(x.Esc, "", p, NotSkip)
			if r.Node != nil && r.Used > 0 {
				escaped = true
				esc = m.T[p : p+r.Used]
				p += r.Used
			}
		}
		if len(x.Excl) > 0 {
			if r, ok := m.greedy(x.Excl, p); ok {
				if !escaped {
					m.probe("block excluded text")
					return Res{}
				}
				content.Chars = append(content.Chars, m.T[p:p+r.Used]...)
				p += r.Used
				continue
			}
		}
		r := m.Eval(x.Kids[1], "", p, NotSkip)
		if r.Node != nil {
			if escaped {
				m.probe("escaped close")
				content.Chars = append(content.Chars, m.T[p:p+r.Used]...)
				p += r.Used
				continue
			}
			if !x.VC {
				n.Kids = append(n.Kids, r.Node)
				p += r.Used
			}
			return Res{n, p - i, false}
		}
		content.Chars = append(content.Chars, esc...)
		if p >= len(m.T) {
			m.probe("block cut off")
			return Res{}
		}
		content.Chars = append(content.Chars, esc...)
		content.Chars = append(content.Chars, m.T[p])
		p++
	}
}

// Parse outcome kinds.
const (
	OK        = "ok"
	Empty     = "empty"
	NoMatch   = "nomatch"
	Ambiguous = "ambiguous"
	NoWay     = "noprogress"
)

// Parse is the reference for a whole-text parse with the given root rules.
func (m *Model) Parse(roots []string) (string, []*MNode) {
	if len(m.T) == 0 {
		return Empty, nil
	}
	var out []*MNode
	p := 0
	flag := SuggestSkip
	for p < len(m.T) {
		max, ties := -1, 0
		var best Res
		for _, n := range roots {
			r := m.Eval(m.rules[n], n, p, flag)
			if r.Node == nil {
				continue
			}
			switch {
			case r.Used > max:
				if max >= 0 {
					m.probe("longer root wins")
				}
				max, ties, best = r.Used, 1, r
			case r.Used == max:
				ties++
			}
		}
		if max < 0 {
			return NoMatch, nil
		}
		if max == 0 {
			m.probe("empty root match")
			return NoWay, nil
		}
		if ties > 1 {
			m.probe("ambiguous roots")
			return Ambiguous, nil
		}
		out = append(out, best.Node)
		flag = SuggestSkip
		if best.Sticky {
			flag = SuggestNotSkip
		}
		p += max
	}
	return OK, out
}

// Embed is the reference for an embedded scan.
func (m *Model) Embed(name string) []*MNode {
	var out []*MNode
	var text []rune
	flush := func() {
		if len(text) > 0 {
			out = append(out, &MNode{Type: "text", Name: "_", Chars: text, Pos: -1})
			text = nil
		}
	}
	p := 0
	for {
		r := m.Eval(m.rules[name], name, p, NotSkip)
		if r.Node != nil && r.Used > 0 {
			flush()
			out = append(out, r.Node)
			p += r.Used
			continue
		}
		if p >= len(m.T) {
			flush()
			return out
		}
		text = append(text, m.T[p])
		p++
	}
}

// Try runs f, reporting false when the model hit its limit.
func (m *Model) Try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Limit); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// LineCol is the true line and column of an index.
func LineCol(t []rune, idx int) (int, int) {
	if len(t) > 400 {
		return lineColLong(t, idx)
	}
	line, col := 1, 1
	for i := 0; i < idx && i < len(t); i++ {
		if t[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

var (
	longText   []rune // kept, so that its address is not reused
	lineStarts []int
)

// lineColLong remembers the line starts of the last long text.
//
//go:norace
func lineColLong(t []rune, idx int) (int, int) {
	if len(longText) != len(t) || &longText[0] != &t[0] {
		longText, lineStarts = t, []int{0}
		for i, c := range t {
			if c == '\n' {
				lineStarts = append(lineStarts, i+1)
			}
		}
	}
	if idx > len(t) {
		idx = len(t)
	}
	lo, hi := 0, len(lineStarts)
	for hi-lo > 1 {
		if mid := (lo + hi) / 2; lineStarts[mid] <= idx {
			lo = mid
		} else {
			hi = mid
		}
	}
	return lo + 1, idx - lineStarts[lo] + 1
}

// Dump renders a reference tree canonically (same format as the harness uses
// for real trees).
func (n *MNode) Dump(b *strings.Builder, t []rune, pos bool) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	fmt.Fprintf(b, "(%s %q %q", n.Type, n.Name, dumpChars(n.Chars))
	if pos && n.hasText() {
		if n.Pos < 0 {
			b.WriteString(" @-")
		} else {
			l, c := LineCol(t, n.Pos)
			fmt.Fprintf(b, " @%d:%d", l, c)
		}
	}
	b.WriteString(flags(n.Sticky, n.Virtual, n.NonData, n.Tokenized))
	for _, k := range n.Kids {
		b.WriteByte(' ')
		k.Dump(b, t, pos)
	}
	b.WriteByte(')')
}

func (n *MNode) hasText() bool {
	if len(n.Chars) > 0 {
		return !(len(n.Chars) == 1 && n.Chars[0] == EOFChar)
	}
	for _, k := range n.Kids {
		if k.hasText() {
			return true
		}
	}
	return false
}

func dumpChars(c []rune) string {
	if len(c) == 1 && c[0] == EOFChar {
		return "<EOF>"
	}
	return string(c)
}

func flags(s, v, d, t bool) string {
	x := ""
	if s {
		x += "+"
	}
	if v {
		x += "~"
	}
	if d {
		x += "#"
	}
	if t {
		x += "$"
	}
	if x == "" {
		return ""
	}
	return " " + x
}

// DumpAll renders a node list.
func DumpAll(ns []*MNode, t []rune, pos bool) string {
	var b strings.Builder
	for i, n := range ns {
		if i > 0 {
			b.WriteByte('\n')
		}
		n.Dump(&b, t, pos)
	}
	return b.String()
}
