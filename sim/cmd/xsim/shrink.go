package main

import (
	"encoding/json"

	"xbnfsim/gram"
	"xbnfsim/simrt"
)

func cloneScn(s *Scn) *Scn {
	js, _ := json.Marshal(s)
	var c Scn
	json.Unmarshal(js, &c)
	return &c
}

// shrinkEnd is thrown when the time is up.
type shrinkEnd struct{}

// shrink reduces a failing scenario while the same class of violation
// persists.
func shrink(scn *Scn, out Outcome, try func(*Scn) Outcome, more func() bool) (min *Scn, res Outcome) {
	cur := cloneScn(scn)
	class := out.Class
	recursive := scn.G != nil && scn.G.LeftRecursive()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(shrinkEnd); !is {
				panic(r)
			}
			min, res = cur, out
		}
	}()
	attempt := func(c *Scn) bool {
		if !more() {
			panic(shrinkEnd{})
		}
		if !recursive && c.G != nil && c.G.LeftRecursive() {
			return false // another fault than the one at hand
		}
		o := try(c)
		if o.Class == class && o.Skip == "" {
			cur, out = c, o
			return true
		}
		return false
	}
	if out.Point > 0 {
		c := cloneScn(cur)
		c.Point = out.Point
		attempt(c)
	}
	// simplest decisions first
	for st := 0; st < simrt.NumStreams; st++ {
		if len(cur.Dec[st]) > 0 {
			c := cloneScn(cur)
			c.Dec[st] = nil
			attempt(c)
		}
	}
	for pass := 0; pass < 6 && more(); pass++ {
		before, _ := json.Marshal(cur)
		shrinkLists(&cur, attempt)
		shrinkGrammar(&cur, attempt)
		shrinkTexts(&cur, attempt)
		shrinkDec(&cur, attempt)
		after, _ := json.Marshal(cur)
		if string(before) == string(after) {
			break
		}
	}
	return cur, out
}

func shrinkLists(cur **Scn, attempt func(*Scn) bool) {
	for i := len((*cur).Jobs) - 1; i >= 0; i-- {
		c := cloneScn(*cur)
		if len(c.Jobs) <= 1 {
			break
		}
		c.Jobs = append(c.Jobs[:i:i], c.Jobs[i+1:]...)
		attempt(c)
	}
	for size := len((*cur).Ops) / 2; size >= 1; size /= 2 {
		for i := len((*cur).Ops) - size; i >= 0; i -= size {
			c := cloneScn(*cur)
			if i+size > len(c.Ops) {
				continue
			}
			c.Ops = append(c.Ops[:i:i], c.Ops[i+size:]...)
			attempt(c)
		}
	}
	for i := len((*cur).Plan) - 1; i >= 0; i-- {
		c := cloneScn(*cur)
		c.Plan = append(c.Plan[:i:i], c.Plan[i+1:]...)
		attempt(c)
	}
	for i := len((*cur).Damage) - 1; i >= 0; i-- {
		c := cloneScn(*cur)
		c.Damage = append(c.Damage[:i:i], c.Damage[i+1:]...)
		attempt(c)
	}
	if (*cur).Prop != "C09" {
		for i := len((*cur).Texts) - 1; i >= 0; i-- {
			c := cloneScn(*cur)
			c.Texts = append(c.Texts[:i:i], c.Texts[i+1:]...)
			attempt(c)
		}
	}
	if (*cur).Stream != (StreamCfg{}) {
		c := cloneScn(*cur)
		c.Stream = StreamCfg{Own: c.Prop == "C03"}
		attempt(c)
	}
	for i := range (*cur).Jobs {
		if (*cur).Jobs[i].Stream != (StreamCfg{}) {
			c := cloneScn(*cur)
			c.Jobs[i].Stream = StreamCfg{}
			attempt(c)
		}
		if (*cur).Jobs[i].Op != "raw" {
			c := cloneScn(*cur)
			c.Jobs[i].Op = "raw"
			attempt(c)
		}
	}
	for (*cur).N > 1 {
		c := cloneScn(*cur)
		c.N /= 2
		if !attempt(c) {
			break
		}
	}
}

func shrinkTexts(cur **Scn, attempt func(*Scn) bool) {
	one := func(get func(*Scn) *string) {
		for size := len([]rune(*get(*cur))) / 2; size >= 1; size /= 2 {
			for i := len([]rune(*get(*cur))) - size; i >= 0; i -= size {
				t := []rune(*get(*cur))
				if i+size > len(t) {
					i = len(t)
					continue
				}
				c := cloneScn(*cur)
				p := get(c)
				*p = string(append(t[:i:i], t[i+size:]...))
				attempt(c)
			}
		}
	}
	one(func(s *Scn) *string { return &s.Text })
	one(func(s *Scn) *string { return &s.GText })
	for i := range (*cur).Jobs {
		i := i
		one(func(s *Scn) *string { return &s.Jobs[i].Text })
	}
	for i := range (*cur).Texts {
		i := i
		one(func(s *Scn) *string { return &s.Texts[i] })
	}
	for i := range (*cur).Ops {
		i := i
		if (*cur).Ops[i].S != "" && (*cur).Prop != "C03" {
			one(func(s *Scn) *string { return &s.Ops[i].S })
		}
	}
}

// exprs lists the places of all expressions of a grammar.
func exprs(g *gram.Grammar) []**gram.Expr {
	var out []**gram.Expr
	var walk func(p **gram.Expr)
	walk = func(p **gram.Expr) {
		if *p == nil {
			return
		}
		out = append(out, p)
		for i := range (*p).Kids {
			walk(&(*p).Kids[i])
		}
		walk(&(*p).Esc)
		for i := range (*p).Excl {
			walk(&(*p).Excl[i])
		}
	}
	for i := range g.Rules {
		walk(&g.Rules[i].X)
	}
	return out
}

func shrinkGrammar(cur **Scn, attempt func(*Scn) bool) {
	if (*cur).G == nil || (*cur).Prop == "C12" {
		return
	}
	for i := len((*cur).G.Rules) - 1; i >= 0; i-- {
		c := cloneScn(*cur)
		if len(c.G.Rules) <= 1 || i >= len(c.G.Rules) {
			continue
		}
		c.G.Rules = append(c.G.Rules[:i:i], c.G.Rules[i+1:]...)
		attempt(c)
	}
	for i := range (*cur).G.Rules {
		if (*cur).G.Rules[i].Note != "" {
			c := cloneScn(*cur)
			c.G.Rules[i].Note = ""
			attempt(c)
		}
	}
	for i := 0; i < len(exprs((*cur).G)); i++ {
		x := *exprs((*cur).G)[i]
		// replace by a part of itself
		for k := range x.Kids {
			c := cloneScn(*cur)
			p := exprs(c.G)[i]
			*p = (*p).Kids[k]
			if attempt(c) {
				i--
				break
			}
		}
		if i < 0 || i >= len(exprs((*cur).G)) {
			continue
		}
		x = *exprs((*cur).G)[i]
		// drop a part
		if x.K == "cat" || x.K == "choice" {
			for k := len(x.Kids) - 1; k >= 0 && len((*exprs((*cur).G)[i]).Kids) > 2; k-- {
				c := cloneScn(*cur)
				y := *exprs(c.G)[i]
				if k >= len(y.Kids) {
					continue
				}
				y.Kids = append(y.Kids[:k:k], y.Kids[k+1:]...)
				if y.K == "choice" {
					y.Groups = []int{len(y.Kids)}
				}
				attempt(c)
			}
		}
		if x.Esc != nil || len(x.Excl) > 0 || x.T || x.V || x.D || x.VC || x.U != 0 || x.W {
			c := cloneScn(*cur)
			y := *exprs(c.G)[i]
			y.Esc, y.Excl, y.T, y.V, y.D, y.VC, y.U, y.W = nil, nil, false, false, false, false, 0, false
			if !attempt(c) {
				for b := 0; b < 4; b++ {
					c := cloneScn(*cur)
					y := *exprs(c.G)[i]
					switch b {
					case 0:
						y.Esc = nil
					case 1:
						y.Excl = nil
					case 2:
						y.T, y.V, y.D, y.VC = false, false, false, false
					case 3:
						y.U, y.W = 0, false
					}
					attempt(c)
				}
			}
		}
	}
}

func shrinkDec(cur **Scn, attempt func(*Scn) bool) {
	for st := 0; st < simrt.NumStreams; st++ {
		// cut the tail
		for n := len((*cur).Dec[st]); n > 0; {
			c := cloneScn(*cur)
			c.Dec[st] = c.Dec[st][:n/2]
			if !attempt(c) {
				break
			}
			n = len((*cur).Dec[st])
		}
		// boring values
		for size := len((*cur).Dec[st]) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len((*cur).Dec[st]); i += size {
				zero := true
				for _, v := range (*cur).Dec[st][i : i+size] {
					if v != 0 {
						zero = false
					}
				}
				if zero {
					continue
				}
				c := cloneScn(*cur)
				for k := i; k < i+size; k++ {
					c.Dec[st][k] = 0
				}
				attempt(c)
			}
			if size == 1 && len((*cur).Dec[st]) > 200 {
				break
			}
		}
	}
}
