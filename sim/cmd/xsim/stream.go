package main

import (
	"fmt"
	"strings"

	"xbnfsim/gram"
	"xbnfsim/simrt"

	"github.com/cnsgfk/xbnf"
)

// StreamCfg describes a simulated character stream.
type StreamCfg struct {
	Own      bool `json:"own,omitempty"`      // a caller's own stream implementation instead of the library's
	Overread bool `json:"overread,omitempty"` // Match reads its full length before comparing (own only)
	Chunked  bool `json:"chunked,omitempty"`  // bursty arrival in virtual time
	Abort    int  `json:"abort,omitempty"`    // die at this operation (1-based)
}

// StreamAbort is the panic a dying stream raises.
type StreamAbort struct{ Op int }

func (a StreamAbort) Error() string {
	return fmt.Sprintf("simulated stream failure at operation %d", a.Op)
}

// SimStream is an ICharstream whose delivery is decided by the simulator.
type SimStream struct {
	cfg     StreamCfg
	text    []rune
	cur     int
	inner   xbnf.ICharstream
	arrival []int64
	Ops     int
	Waits   int
	Over    int
	Aborted bool
}

// NewSimStream delivers text.
func NewSimStream(text string, cfg StreamCfg) *SimStream {
	s := &SimStream{cfg: cfg, text: []rune(text)}
	if !cfg.Own {
		s.inner = xbnf.NewCharstreamFromString(text)
	}
	if cfg.Chunked {
		// arrival time of each character and of the end of the stream
		s.arrival = make([]int64, len(s.text)+1)
		t := int64(0)
		if c := simrt.Current(); c != nil {
			t = c.Now()
		}
		for i := 0; i <= len(s.text); {
			n := 1 + int(simrt.Draw(simrt.StreamNet, 5))
			switch simrt.Draw(simrt.StreamNet, 4) {
			case 1:
				t += 1 + simrt.Draw(simrt.StreamNet, 50)
			case 2:
				t += 1000 * (1 + simrt.Draw(simrt.StreamNet, 900))
			case 3:
				d := 1 + simrt.Draw(simrt.StreamNet, 90)
				t += 1000000 * d // a stall
				if d%16 == 0 {
					t += 3600 * 1000000 // an outage
				}
			}
			for k := 0; k < n && i <= len(s.text); k++ {
				s.arrival[i] = t
				i++
			}
		}
	}
	return s
}

func (s *SimStream) enter() {
	s.Ops++
	simrt.Yield()
	if s.cfg.Abort > 0 && s.Ops >= s.cfg.Abort {
		s.Aborted = true
		panic(StreamAbort{s.cfg.Abort})
	}
}

// need waits until character i (or the end) has been delivered.
func (s *SimStream) need(i int) {
	if s.arrival == nil {
		return
	}
	if i > len(s.text) {
		i = len(s.text)
	}
	if c := simrt.Current(); c != nil && c.Now() < s.arrival[i] {
		s.Waits++
		simrt.Sleep(s.arrival[i] - c.Now())
	}
}

func (s *SimStream) take(n int) []rune {
	out := append([]rune(nil), s.text[s.cur:s.cur+n]...)
	s.cur += n
	return out
}

// Next implements ICharstream.
func (s *SimStream) Next() rune {
	s.enter()
	s.need(s.cur)
	if s.inner != nil {
		r := s.inner.Next()
		s.cur = s.inner.Cursor()
		return r
	}
	if s.cur >= len(s.text) {
		return xbnf.EOFChar
	}
	s.cur++
	return s.text[s.cur-1]
}

// Peek implements ICharstream.
func (s *SimStream) Peek() rune {
	s.enter()
	s.need(s.cur)
	if s.inner != nil {
		return s.inner.Peek()
	}
	if s.cur >= len(s.text) {
		return xbnf.EOFChar
	}
	return s.text[s.cur]
}

// Match implements ICharstream.
func (s *SimStream) Match(in []rune) ([]rune, bool) {
	s.enter()
	if len(in) == 0 {
		return nil, true
	}
	n, ok := 0, true
	for n < len(in) {
		s.need(s.cur + n)
		if s.cur+n >= len(s.text) {
			ok = false
			break
		}
		c := s.text[s.cur+n]
		n++
		if c != in[n-1] {
			ok = false
			if !s.cfg.Overread || s.inner != nil {
				break
			}
			if n < len(in) {
				s.Over++
			}
		}
	}
	if s.inner != nil {
		r, ok := s.inner.Match(in)
		s.cur = s.inner.Cursor()
		return r, ok
	}
	return s.take(n), ok
}

// SkipSpaces implements ICharstream.
func (s *SimStream) SkipSpaces() []rune {
	s.enter()
	n := 0
	for {
		s.need(s.cur + n)
		if s.cur+n >= len(s.text) || !gram.IsSpace(s.text[s.cur+n]) {
			break
		}
		n++
	}
	if s.inner != nil {
		r := s.inner.SkipSpaces()
		s.cur = s.inner.Cursor()
		return r
	}
	if n == 0 {
		return nil
	}
	return s.take(n)
}

// Position implements ICharstream.
func (s *SimStream) Position() *xbnf.Position {
	s.enter()
	s.need(s.cur)
	if s.inner != nil {
		return s.inner.Position()
	}
	if s.cur >= len(s.text) {
		return nil
	}
	return truePos(s.text, s.cur)
}

func truePos(t []rune, i int) *xbnf.Position {
	l, c := gram.LineCol(t, i)
	return &xbnf.Position{Line: l, Col: c}
}

// PositionLookup implements ICharstream.
func (s *SimStream) PositionLookup(i int) *xbnf.Position {
	s.enter()
	if s.inner != nil {
		return s.inner.PositionLookup(i)
	}
	if i < 0 || i >= s.cur {
		return nil
	}
	return truePos(s.text, i)
}

// Cursor implements ICharstream.
func (s *SimStream) Cursor() int {
	s.enter()
	if s.inner != nil {
		return s.inner.Cursor()
	}
	return s.cur
}

// Unread puts the last n characters back (own streams only).
func (s *SimStream) Unread(n int) { s.cur -= n }

// ---- canonical rendering of real results

func dumpNode(b *strings.Builder, n *xbnf.Node, pos bool, depth int) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	if depth > 20000 || b.Len() > 64<<20 {
		b.WriteString("...")
		return
	}
	fmt.Fprintf(b, "(%s %q %q", string(n.RuleType), n.RuleName, dumpChars(n.Chars))
	if pos && (allPos || hasText(n)) {
		if n.Position == nil {
			b.WriteString(" @-")
		} else {
			fmt.Fprintf(b, " @%d:%d", n.Position.Line, n.Position.Col)
		}
	}
	b.WriteString(flagStr(n))
	for _, k := range n.ChildNodes {
		b.WriteByte(' ')
		dumpNode(b, k, pos, depth+1)
	}
	b.WriteByte(')')
}

// allPos also renders the positions of nodes that matched no text (which the
// reference does not define).
var allPos = true

func hasText(n *xbnf.Node) bool {
	if len(n.Chars) > 0 {
		return !(len(n.Chars) == 1 && n.Chars[0] == xbnf.EOFChar)
	}
	for _, k := range n.ChildNodes {
		if k != nil && hasText(k) {
			return true
		}
	}
	return false
}

func flagStr(n *xbnf.Node) string {
	x := ""
	if n.Sticky {
		x += "+"
	}
	if n.Virtual {
		x += "~"
	}
	if n.NonData {
		x += "#"
	}
	if n.Tokenized {
		x += "$"
	}
	if x == "" {
		return ""
	}
	return " " + x
}

func dumpChars(c []rune) string {
	if len(c) == 1 && c[0] == xbnf.EOFChar {
		return "<EOF>"
	}
	return string(c)
}

func dumpNodes(ns []*xbnf.Node, pos bool) string {
	var b strings.Builder
	for i, n := range ns {
		if i > 0 {
			b.WriteByte('\n')
		}
		dumpNode(&b, n, pos, 0)
	}
	return b.String()
}

func dumpTree(n *xbnf.Node, pos bool) string {
	var b strings.Builder
	dumpNode(&b, n, pos, 0)
	return b.String()
}
