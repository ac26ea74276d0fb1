// xsim runs the simulations: driver (check), worker, single scenario (one) and
// replay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"xbnfsim/gram"
	"xbnfsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: xsim check|worker|one|replay|gen ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	debug.SetMaxStack(256 << 20)
	switch cmd {
	case "check":
		os.Exit(driver())
	case "worker":
		worker()
	case "one":
		one()
	case "replay":
		os.Exit(replay())
	case "gen":
		prop := flag.String("prop", "", "")
		seed := flag.Uint64("seed", 1, "")
		idx := flag.Int("i", 0, "")
		flag.Parse()
		js, _ := json.MarshalIndent(scenario(kinds[*prop], *seed, *idx), "", " ")
		fmt.Println(string(js))
		if scn := scenario(kinds[*prop], *seed, *idx); scn.G != nil {
			fmt.Println(scn.G.Text())
		}
	default:
		fmt.Fprintln(os.Stderr, "xsim: unknown command", cmd)
		os.Exit(2)
	}
}

// scenario is the pure function from (seed, index) to a scenario.
func scenario(k *Kind, seed uint64, idx int) *Scn {
	h := hash64(fmt.Sprint(k.Prop, "/", seed, "/", idx))
	r := gram.NewRand(h)
	scn := k.Gen(r, idx)
	scn.Prop = k.Prop
	scn.Index = idx
	scn.Seed = r.U64()
	return scn
}

func hasDec(scn *Scn) bool {
	for _, d := range scn.Dec {
		if len(d) > 0 {
			return true
		}
	}
	return false
}

// execute runs one scenario; recorded decisions are used when asked.
func execute(k *Kind, scn *Scn, recorded bool) (*Result, *simrt.Decider) {
	var dec *simrt.Decider
	if recorded {
		dec = simrt.ReplayDecider(scn.Dec)
	} else {
		dec = simrt.NewDecider(scn.Seed)
	}
	res := newResult()
	setScale(scn)
	k.Run(scn, dec, res)
	return res, dec
}

// Found is a violation as a worker reports it.
type Found struct {
	Index  int    `json:"index"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Scn    *Scn   `json:"scn"`
	Hash   uint64 `json:"hash"`
}

// Report is what a worker writes when it ends.
type Report struct {
	Runs     int64            `json:"runs"`
	Subruns  int64            `json:"subruns"`
	Skipped  int64            `json:"skipped"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimTime  int64            `json:"simtime"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Keys     []uint64         `json:"keys"`
	Traces   []uint64         `json:"traces"`
	Samples  []string         `json:"samples"`
	Skips    map[string]int64 `json:"skips"`
	MaxRatio int64            `json:"max_ratio"`
	MaxIdx   int              `json:"max_idx"`
	Digest   uint64           `json:"digest"` // order-independent digest of every run's hash
	Sites    []int            `json:"sites"`
	NSites   int              `json:"nsites"`
	Found    *Found           `json:"found,omitempty"`
	Last     int              `json:"last"`
	Done     bool             `json:"done"`
}

func worker() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	stride := flag.Int("stride", 1, "")
	count := flag.Int("count", 1, "runs")
	wall := flag.Float64("wall", 3600, "")
	out := flag.String("out", "", "")
	status := flag.String("status", "", "")
	slow := flag.Float64("slow", 0, "report runs that take longer (seconds)")
	only := flag.Bool("prefix", false, "stop silently at the first violation (prefix replay)")
	flag.Parse()
	_ = only
	k := kinds[*prop]
	defer cleanScratch()
	start := time.Now()
	rep := &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, Skips: map[string]int64{}}
	keys, traces := map[uint64]bool{}, map[uint64]bool{}
	var st *os.File
	if *status != "" {
		st, _ = os.Create(*status)
	}
	for n := 0; n < *count; n++ {
		idx := *from + n**stride
		if n%16 == 0 && time.Since(start).Seconds() > *wall {
			break
		}
		if st != nil {
			st.WriteAt([]byte(fmt.Sprintf("%12d\n", idx)), 0)
		}
		scn := scenario(k, *seed, idx)
		t0 := time.Now()
		res, dec := execute(k, scn, false)
		if *slow > 0 && time.Since(t0).Seconds() > *slow {
			fmt.Fprintf(os.Stderr, "run %d: %.1f s, %d statements, %d characters, kind %q %s\n", idx, time.Since(t0).Seconds(), res.Steps, len(scn.Text), scn.Kind, res.Skip)
		}
		rep.Last = idx
		rep.Runs++
		rep.Subruns += res.Subruns
		rep.Steps += res.Steps
		rep.Switches += res.Switches
		rep.SimTime += res.SimTime
		for f, c := range res.Faults {
			rep.Faults[f] += c
		}
		for f, c := range res.Probes {
			rep.Probes[f] += c
		}
		rep.Digest += (res.Hash ^ hash64(res.Class+res.Skip+res.Key)) * 0x9E3779B97F4A7C15
		if res.MaxRatio > rep.MaxRatio {
			rep.MaxRatio, rep.MaxIdx = res.MaxRatio, idx
		}
		if res.Class != "" {
			scn.Dec = dec.Recording()
			if res.Point > 0 {
				scn.Point = res.Point
				// the recording belongs to the whole sweep
				scn.Point = -1
			}
			rep.Found = &Found{Index: idx, Class: res.Class, Detail: res.Detail, Scn: scn, Hash: res.Hash}
			break
		}
		if res.Skip != "" {
			rep.Skipped++
			rep.Skips[res.Skip]++
			continue
		}
		if res.Key != "" {
			h := hash64(res.Key)
			if !keys[h] {
				keys[h] = true
				if len(rep.Samples) < 2 && n > 3 {
					s := *scn
					s.Dec = [simrt.NumStreams][]int64{}
					g := s.G
					s.G = nil
					if s.GText == "" && g != nil {
						s.GText = g.Text()
					}
					js, _ := json.Marshal(s)
					rep.Samples = append(rep.Samples, string(js))
				}
			}
		}
		traces[res.Hash] = true
	}
	for h := range keys {
		rep.Keys = append(rep.Keys, h)
	}
	for h := range traces {
		rep.Traces = append(rep.Traces, h)
	}
	for i, h := range simrt.Hits {
		if h != 0 && i > 0 && i < len(simrt.Sites) {
			rep.Sites = append(rep.Sites, i)
		}
	}
	rep.NSites = len(simrt.Sites) - 1
	rep.Done = true
	writeJSON(*out, rep)
}

func writeJSON(path string, v any) {
	js, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, js, 0o644))
}

// Outcome is what "one" prints.
type Outcome struct {
	Class  string   `json:"class"`
	Detail string   `json:"detail"`
	Skip   string   `json:"skip"`
	Hash   uint64   `json:"hash"`
	Steps  int64    `json:"steps"`
	Point  int      `json:"point"`
	Log    []string `json:"log,omitempty"`
}

// one runs a single scenario with recorded decisions, -times times, and
// prints the last outcome.
func one() {
	file := flag.String("f", "", "")
	times := flag.Int("times", 1, "")
	log := flag.Bool("log", false, "")
	flag.Parse()
	keepLog = *log
	b, err := os.ReadFile(*file)
	must(err)
	var scn Scn
	must(json.Unmarshal(b, &scn))
	defer cleanScratch()
	var o Outcome
	for i := 0; i < *times; i++ {
		c := scn
		res, _ := execute(kinds[scn.Prop], &c, true)
		o = Outcome{Class: res.Class, Detail: res.Detail, Skip: res.Skip, Hash: res.Hash, Steps: res.Steps, Point: res.Point, Log: res.Log}
		if res.Class != "" {
			break
		}
	}
	js, _ := json.Marshal(o)
	fmt.Println(string(js))
}
