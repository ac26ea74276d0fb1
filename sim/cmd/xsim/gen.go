package main

import (
	"xbnfsim/gram"
)

// base draws the grammar and text most kinds start from.
func base(r *gram.Rand, scn *Scn, maxLen int, tweak func(*gram.Options)) gram.Options {
	o := gram.RandomOptions(r)
	if tweak != nil {
		tweak(&o)
	}
	if o.Big {
		maxLen *= 4
	}
	switch {
	case r.P(4):
		scn.G = gram.JSON()
		scn.Text = gram.JSONText(r, 2)
		o.Alpha = []rune{'{', '"', ',', '1', '.'}
	case r.P(4):
		scn.G = gram.Arith()
		scn.Text = gram.ArithText(r, 3)
		if r.P(40) {
			scn.Text = "x = " + scn.Text + ";" + scn.Text
		}
		o.Alpha = []rune{'+', '*', '(', '1', 'a'}
	default:
		scn.G = gram.Generate(r, o)
		scn.Text = gram.Derive(r, scn.G, o, maxLen)
	}
	if t := []rune(scn.Text); len(t) > maxLen {
		scn.Text = string(t[:maxLen])
	}
	if r.P(40) {
		scn.Text = gram.Mutate(r, o, scn.Text, 1+r.N(3))
	}
	if scn.Text == "" && r.P(90) {
		scn.Text = string(o.Alpha[r.N(len(o.Alpha))])
	}
	return o
}

// scaled gives every so-manieth scenario a grammar and a text of an unusual
// size instead.
func scaled(r *gram.Rand, scn *Scn, idx, every int) bool {
	if idx%every != every/3 {
		return false
	}
	scn.Scale = true
	scn.G, scn.Text = gram.Scaled(r)
	return true
}

func gap(r *gram.Rand) int64 { return []int64{3, 8, 20, 60, 200, 800}[r.N(6)] }

func streamCfg(r *gram.Rand) StreamCfg {
	c := StreamCfg{Own: r.P(40), Chunked: r.P(40)}
	if c.Own {
		c.Overread = r.P(50)
	}
	return c
}

func pickRule(r *gram.Rand, g *gram.Grammar) string { return g.Rules[r.N(len(g.Rules))].Name }

// anotherText draws one more text for the same grammar.
func anotherText(r *gram.Rand, scn *Scn, o gram.Options, maxLen int) string {
	if r.P(25) {
		return scn.Text
	}
	t := gram.Derive(r, scn.G, o, maxLen)
	if r.P(30) {
		t = gram.Mutate(r, o, t, 1+r.N(2))
	}
	if t == "" {
		t = string(o.Alpha[r.N(len(o.Alpha))])
	}
	return t
}

func randomJob(r *gram.Rand, scn *Scn, o gram.Options, slow bool) Job {
	j := Job{Text: anotherText(r, scn, o, 24), Rule: pickRule(r, scn.G), Flag: []int{0, 1, 1, 3}[r.N(4)], Level: r.N(4) - 1}
	j.Stream = streamCfg(r)
	j.Stream.Chunked = slow && r.P(50)
	switch r.N(12) {
	case 0, 1, 2, 3:
		j.Op = "raw"
	case 4, 5:
		j.Op = "level"
	case 6:
		j.Op = []string{"rule", "rule", "show"}[r.N(3)]
	case 7:
		j.Op = "ruleeval"
	case 8:
		j.Op = "embed"
	case 9:
		j.Op = "simplify"
	case 10:
		j.Op = "dump"
		j.Level = r.N(2)
	case 11:
		j.Op = "lookup"
		if r.P(20) {
			j.Rule = "nosuch"
		}
	}
	if j.Op == "rule" || j.Op == "ruleeval" || j.Op == "embed" || j.Op == "show" {
		if r.P(3) {
			j.Rule = "nosuch"
		}
		j.Text = gram.DeriveFrom(r, scn.G, o, scn.G.Lookup(j.Rule))
		if r.P(30) || j.Text == "" {
			j.Text = gram.Mutate(r, o, j.Text, 1+r.N(3))
		}
		if j.Op == "embed" && r.P(60) {
			j.Text = j.Text + gram.Mutate(r, o, j.Text, 2)
		}
	}
	if t := []rune(j.Text); len(t) > 40 {
		j.Text = string(t[:40])
	}
	return j
}
