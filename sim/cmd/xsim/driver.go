package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"xbnfsim/simrt"
)

// plan of a check: runs per tier (first number: plain build, second: race
// build).
var sizes = map[string][2][2]int{
	//        quick            thorough
	"C01": {{120000, 0}, {3600000, 0}},
	"C02": {{1600000, 0}, {24000000, 0}},
	"C03": {{1600000, 0}, {24000000, 0}},
	"C04": {{60000, 0}, {1080000, 0}},
	"C05": {{80000, 4000}, {2400000, 120000}},
	"C06": {{16000, 0}, {600000, 0}},
	"C07": {{2400000, 30000}, {36000000, 900000}},
	"C08": {{900000, 0}, {15000000, 0}},
	"C09": {{240000, 0}, {7200000, 0}},
	"C10": {{180000, 0}, {3600000, 0}},
	"C11": {{200000, 0}, {3000000, 0}},
	"C12": {{60000, 0}, {1080000, 0}},
	"C13": {{240000, 0}, {3600000, 0}},
	"C14": {{144000, 0}, {2160000, 0}},
	"C15": {{720000, 0}, {10800000, 0}},
	"C16": {{400000, 0}, {6000000, 0}},
}

const workers = 8

type opts struct {
	prop, tier, verif, race, work string
	seed                          uint64
	runs                          int
	wall                          float64
}

// batch is one set of workers over one binary.
type batch struct {
	bin   string
	race  bool
	runs  int
	reps  []*Report
	crash []*Crash
	wall  float64
}

// Crash is a worker that died.
type Crash struct {
	Index, From, Stride int
	Output              string
	Bin                 string
}

func driver() int {
	var o opts
	flag.StringVar(&o.prop, "prop", "", "")
	flag.StringVar(&o.tier, "tier", "quick", "")
	flag.StringVar(&o.verif, "verif", "/verif", "")
	flag.StringVar(&o.race, "race", "", "race build of xsim")
	flag.StringVar(&o.work, "work", "", "scratch directory")
	flag.Uint64Var(&o.seed, "seed", 1, "")
	flag.IntVar(&o.runs, "runs", 0, "override the number of runs")
	flag.Float64Var(&o.wall, "wall", 0, "override the time limit of a batch")
	flag.Parse()
	start := time.Now()
	k := kinds[o.prop]
	if k == nil {
		fmt.Fprintln(os.Stderr, "xsim: unknown property", o.prop)
		return 2
	}
	if o.work == "" {
		o.work, _ = os.MkdirTemp("", "xsim-work-")
		defer os.RemoveAll(o.work)
	}
	os.Setenv("XSIM_SCRATCH", o.work)
	t := 0
	wall := 150.0
	if o.tier == "thorough" {
		t = 1
		wall = 3000
	}
	if o.wall > 0 {
		wall = o.wall
	}
	sz := sizes[o.prop][t]
	if o.runs > 0 {
		sz[0] = o.runs
		if sz[1] > o.runs {
			sz[1] = o.runs
		}
	}
	self, _ := os.Executable()
	var batches []*batch
	batches = append(batches, &batch{bin: self, runs: sz[0], wall: wall})
	if sz[1] > 0 && o.race != "" {
		batches = append(batches, &batch{bin: o.race, race: true, runs: sz[1], wall: wall})
	}
	// determinism: the first runs again, in a fresh process, one worker
	detRuns := 64
	var det [2]uint64
	for i := range det {
		out := filepath.Join(o.work, fmt.Sprintf("det%d.json", i))
		cmd := exec.Command(self, "worker", "-prop", o.prop, "-seed", fmt.Sprint(o.seed), "-count", fmt.Sprint(detRuns), "-out", out)
		cmd.Env = workerEnv()
		b, err := cmd.CombinedOutput()
		rep := readReport(out)
		if err != nil || rep == nil {
			// found by the batch below
			det[0], det[1] = 0, 0
			_ = b
			break
		}
		det[i] = rep.Digest
		if rep.Found != nil {
			det[0], det[1] = 0, 0
			break
		}
	}
	var found *Found
	var foundBin string
	var crash *Crash
	for bi, b := range batches {
		b.run(&o, bi)
		for _, r := range b.reps {
			if r.Found != nil && (found == nil || r.Found.Index < found.Index) {
				found, foundBin = r.Found, b.bin
			}
		}
		if found == nil {
			for _, c := range b.crash {
				if crash == nil || c.Index < crash.Index {
					crash = c
				}
			}
		}
		if found != nil || crash != nil {
			break
		}
	}
	status := 0
	violations := 0
	replayFile := ""
	var vinfo map[string]any
	switch {
	case found != nil:
		from, stride := ownerStripe(batches, found.Index, foundBin)
		replayFile, vinfo = report(&o, k, found, foundBin, from, stride)
	case crash != nil:
		f := &Found{Index: crash.Index, Class: "crash", Detail: "the process died:\n" + clip(crash.Output, 3000), Scn: scenario(k, o.seed, crash.Index)}
		replayFile, vinfo = report(&o, k, f, crash.Bin, crash.From, crash.Stride)
		if replayFile == "" {
			fmt.Fprintf(os.Stderr, "xsim: a worker died at run %d and the run does not fail again:\n%s\n", crash.Index, clip(crash.Output, 4000))
			status = 3
		}
	}
	if found != nil && replayFile == "" {
		fmt.Fprintf(os.Stderr, "xsim: run %d reported %s but does not fail again:\n%s\n", found.Index, found.Class, found.Detail)
		status = 3
	}
	if status == 0 && found == nil && crash == nil && det[0] != det[1] {
		// on the unchanged tree this never happens: the code under test has
		// brought a source of nondeterminism the simulator does not control.
		// The verdict of every run stands (each compares what it observed); the
		// evidence says that runs are not repeatable.
		fmt.Fprintf(os.Stderr, "xsim: warning: not repeatable: digests %x and %x of the same %d runs\n", det[0], det[1], detRuns)
	}
	incomplete := false
	for _, b := range batches {
		for _, r := range b.reps {
			if !r.Done {
				incomplete = true
			}
		}
	}
	if incomplete && status == 0 && replayFile == "" {
		fmt.Fprintln(os.Stderr, "xsim: a worker ended without a report")
		status = 3
	}
	if replayFile != "" {
		violations = 1
		status = 1
	}
	writeEvidence(&o, k, batches, start, violations, vinfo, det[0] == det[1], detRuns)
	if replayFile != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, replayFile)
	} else if status == 0 {
		var runs, keys int64
		for _, b := range batches {
			for _, r := range b.reps {
				runs += r.Runs
				keys += int64(len(r.Keys))
			}
		}
		fmt.Printf("%s held on %d simulated runs (%.1f s)\n", o.prop, runs, time.Since(start).Seconds())
	}
	return status
}

func workerEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2", "GOTRACEBACK=single")
}

func readReport(path string) *Report {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r Report
	if json.Unmarshal(b, &r) != nil {
		return nil
	}
	return &r
}

// ownerStripe tells which indices the process that ran idx had run before.
func ownerStripe(bs []*batch, idx int, bin string) (from, stride int) {
	for _, b := range bs {
		if b.bin == bin {
			n := b.n()
			return idx % n, n
		}
	}
	return 0, 1
}

func (b *batch) n() int {
	if b.runs < workers {
		return b.runs
	}
	return workers
}

func (b *batch) run(o *opts, bi int) {
	n := b.n()
	var wg sync.WaitGroup
	var mu sync.Mutex
	b.reps = make([]*Report, n)
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(o.work, fmt.Sprintf("rep%d-%d.json", bi, w))
			st := filepath.Join(o.work, fmt.Sprintf("st%d-%d", bi, w))
			count := (b.runs - w + n - 1) / n
			cmd := exec.Command(b.bin, "worker", "-prop", o.prop, "-seed", fmt.Sprint(o.seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(n),
				"-count", fmt.Sprint(count), "-wall", fmt.Sprint(b.wall), "-out", out, "-status", st)
			cmd.Env = workerEnv()
			var buf limited
			cmd.Stdout, cmd.Stderr = &buf, &buf
			stuck := make(chan struct{})
			if err := cmd.Start(); err != nil {
				b.reps[w] = &Report{}
				return
			}
			go watch(cmd, st, stuck)
			err := cmd.Wait()
			close(stuck)
			rep := readReport(out)
			if rep == nil {
				rep = &Report{}
				idx := -1
				if s, e := os.ReadFile(st); e == nil {
					fmt.Sscan(string(s), &idx)
				}
				mu.Lock()
				b.crash = append(b.crash, &Crash{Index: idx, From: w, Stride: n, Output: fmt.Sprint(err, "\n", buf.String()), Bin: b.bin})
				mu.Unlock()
			}
			b.reps[w] = rep
		}()
	}
	wg.Wait()
}

// watch ends a worker that has not moved to another run for two minutes.
func watch(cmd *exec.Cmd, st string, done chan struct{}) {
	last, since := "", time.Now()
	for {
		select {
		case <-done:
			return
		case <-time.After(2 * time.Second):
		}
		b, _ := os.ReadFile(st)
		if s := string(b); s != last {
			last, since = s, time.Now()
		} else if time.Since(since) > 120*time.Second {
			fmt.Fprintf(os.Stderr, "xsim: worker stuck at run %s\n", strings.TrimSpace(last))
			cmd.Process.Kill()
			return
		}
	}
}

type limited struct{ bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.Len() < 1<<20 {
		l.Buffer.Write(p)
	}
	return len(p), nil
}

// ---- reporting

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Mode     string   `json:"mode"` // scenario; prefix
	Race     bool     `json:"race,omitempty"`
	From     int      `json:"from,omitempty"`
	Stride   int      `json:"stride,omitempty"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Hash     uint64   `json:"hash"`
	Repro    string   `json:"reproduced"`
	Grammar  string   `json:"grammar_text,omitempty"`
	Trace    []string `json:"schedule,omitempty"`
	Scn      *Scn     `json:"scenario"`
}

type runner struct {
	o   *opts
	bin string
	n   int
}

// try runs a scenario in a fresh process.
func (ru *runner) try(scn *Scn, log bool) Outcome {
	ru.n++
	f := filepath.Join(ru.o.work, "try.json")
	writeJSON(f, scn)
	args := []string{"one", "-f", f}
	if log {
		args = append(args, "-log")
	}
	cmd := exec.Command(ru.bin, args...)
	cmd.Env = workerEnv()
	var so, se limited
	cmd.Stdout, cmd.Stderr = &so, &se
	timer := time.AfterFunc(90*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	timer.Stop()
	var o Outcome
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	if err == nil && json.Unmarshal([]byte(lines[len(lines)-1]), &o) == nil {
		if o.Class == "race" {
			o.Detail += "\n" + clip(se.String(), 4000)
		}
		return o
	}
	if code := cmd.ProcessState.ExitCode(); code == 2 && (strings.Contains(se.String(), "fatal error:") || strings.Contains(se.String(), "goroutine ")) {
		return Outcome{Class: "crash", Detail: "the process died:\n" + clip(se.String(), 3000)}
	}
	return Outcome{Skip: "process failed: " + clip(se.String(), 300)}
}

func report(o *opts, k *Kind, f *Found, bin string, from, stride int) (string, map[string]any) {
	ru := &runner{o: o, bin: bin}
	scn := f.Scn
	if f.Class == "crash" {
		// decisions were not saved; draw them again from the seed
		scn.Dec = [simrt.NumStreams][]int64{}
	}
	rp := &Replay{Property: o.prop, Seed: o.seed, Index: f.Index, Mode: "scenario", Class: f.Class, Detail: f.Detail, Race: bin == o.race && o.race != "", From: from, Stride: stride}
	out := ru.try(scn, false)
	prefix := 0
	if out.Class != f.Class && f.Class != "crash" {
		// depends on what the process ran before, or on something the simulator
		// does not control
		rp.Scn = f.Scn
		for i := 0; i < 2; i++ {
			if c, _ := runPrefix(bin, rp, o.work); c == f.Class {
				prefix++
			}
		}
		for i := 0; i < 20 && prefix == 0 && out.Class != f.Class; i++ {
			out = ru.try(scn, false)
		}
	}
	if out.Class == f.Class {
		start := time.Now()
		limit := 45 * time.Second
		min, mo := shrink(scn, out, func(c *Scn) Outcome { return ru.try(c, false) }, func() bool { return time.Since(start) < limit })
		final := ru.try(min, true)
		again := 0
		const times = 3
		for i := 0; i < times; i++ {
			if a := ru.try(min, false); a.Class == mo.Class && (a.Hash == mo.Hash || a.Class == "crash") {
				again++
			}
		}
		if final.Class == mo.Class {
			mo = final
		}
		rp.Scn, rp.Class, rp.Detail, rp.Hash, rp.Trace = min, mo.Class, mo.Detail, mo.Hash, mo.Log
		rp.Repro = fmt.Sprintf("%d of %d fresh processes", again, times)
	} else {
		// depends on what the process ran before: replay the stripe
		rp.Mode = "prefix"
		rp.Scn = f.Scn
		again := prefix
		for i := 0; i < 2 && f.Class == "crash"; i++ {
			if c, _ := runPrefix(bin, rp, o.work); c == "crash" {
				again++
			}
		}
		if again == 0 {
			return "", nil
		}
		// shorten: the last runs may be enough
		for n := 1; f.Index-n*stride >= from; n *= 2 {
			s := *rp
			s.From = f.Index - n*stride
			if c, _ := runPrefix(bin, &s, o.work); c == f.Class {
				rp.From = s.From
				break
			}
		}
		rp.Repro = fmt.Sprintf("%d of 2 fresh processes", again)
	}
	if rp.Scn.G != nil && rp.Scn.GText == "" {
		rp.Grammar = rp.Scn.G.Text()
	}
	dir := filepath.Join(o.verif, "replays")
	os.MkdirAll(dir, 0o755)
	js, _ := json.MarshalIndent(rp, "", " ")
	name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", o.prop, o.seed, f.Index))
	os.WriteFile(name, js, 0o644)
	fmt.Printf("property %s violated: %s (seed %d, run %d, reproduced by %s, %d executions to minimise)\n%s\n", o.prop, rp.Class, o.seed, f.Index, rp.Repro, ru.n, clip(rp.Detail, 3000))
	if rp.Grammar != "" {
		fmt.Printf("grammar:\n%s", rp.Grammar)
	}
	return name, map[string]any{"class": rp.Class, "index": f.Index, "replay": name, "reproduced": rp.Repro}
}

// runPrefix executes the stripe up to the violating run in a fresh process.
func runPrefix(bin string, rp *Replay, work string) (string, string) {
	out := filepath.Join(work, "prefix.json")
	os.Remove(out)
	cmd := exec.Command(bin, "worker", "-prop", rp.Property, "-seed", fmt.Sprint(rp.Seed), "-from", fmt.Sprint(rp.From), "-stride", fmt.Sprint(rp.Stride),
		"-count", fmt.Sprint((rp.Index-rp.From)/rp.Stride+1), "-out", out)
	cmd.Env = workerEnv()
	var buf limited
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Run()
	rep := readReport(out)
	if rep == nil {
		return "crash", buf.String()
	}
	if rep.Found == nil || rep.Found.Index != rp.Index {
		return "", ""
	}
	return rep.Found.Class, rep.Found.Detail
}

func replay() int {
	file := flag.String("f", "", "")
	race := flag.String("race", "", "")
	flag.Parse()
	if *file == "" && flag.NArg() > 0 {
		*file = flag.Arg(0)
	}
	b, err := os.ReadFile(*file)
	must(err)
	var rp Replay
	must(json.Unmarshal(b, &rp))
	bin, _ := os.Executable()
	if rp.Race {
		bin = *race
	}
	work, _ := os.MkdirTemp("", "xsim-replay-")
	defer os.RemoveAll(work)
	os.Setenv("XSIM_SCRATCH", work)
	var class, detail string
	same := true
	if rp.Mode == "prefix" {
		class, detail = runPrefix(bin, &rp, work)
	} else {
		ru := &runner{o: &opts{work: work}, bin: bin}
		o := ru.try(rp.Scn, true)
		class, detail = o.Class, o.Detail
		same = o.Hash == rp.Hash
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	if class == "" {
		fmt.Println("the run does not violate the property on this tree")
		return 0
	}
	fmt.Printf("%s: %s\nidentical execution: %v\n", class, detail, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *file)
	return 1
}

// ---- evidence

func writeEvidence(o *opts, k *Kind, bs []*batch, start time.Time, violations int, vinfo map[string]any, det bool, detRuns int) {
	wall := time.Since(start).Seconds()
	var tot Report
	tot.Faults, tot.Probes, tot.Skips = map[string]int64{}, map[string]int64{}, map[string]int64{}
	keys, traces, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var raceRuns int64
	var samples []any
	for _, b := range bs {
		for _, r := range b.reps {
			if r == nil {
				continue
			}
			tot.Runs += r.Runs
			if b.race {
				raceRuns += r.Runs
			}
			tot.Subruns += r.Subruns
			tot.Skipped += r.Skipped
			tot.Steps += r.Steps
			tot.Switches += r.Switches
			tot.SimTime += r.SimTime
			for n, c := range r.Faults {
				tot.Faults[n] += c
			}
			for n, c := range r.Probes {
				tot.Probes[n] += c
			}
			for n, c := range r.Skips {
				tot.Skips[n] += c
			}
			for _, h := range r.Keys {
				keys[h] = true
			}
			for _, h := range r.Traces {
				traces[h] = true
			}
			for _, s := range r.Sites {
				sites[s] = true
			}
			if r.NSites > tot.NSites {
				tot.NSites = r.NSites
			}
			if r.MaxRatio > tot.MaxRatio {
				tot.MaxRatio, tot.MaxIdx = r.MaxRatio, r.MaxIdx
			}
			if len(samples) < 3 {
				for _, s := range r.Samples {
					var v any
					if json.Unmarshal([]byte(s), &v) == nil && len(samples) < 3 {
						samples = append(samples, v)
					}
				}
			}
		}
	}
	if samples == nil {
		samples = []any{"no non-trivial case in this run"}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(tot.Runs) / wall * 3600
	}
	real := []string{"github.com/cnsgfk/xbnf (every non-test source file of the current tree, rewritten only by inserting scheduling points, simulated locks and simulator-chosen map orders)"}
	stub := []string{"goroutine scheduler (seeded, statement-level)", "sync primitives inside the library (same semantics, simulated blocking)", "map iteration order", "wall clock (virtual microseconds)"}
	switch o.prop {
	case "C09":
		real = append(real, "os/ioutil file reading of the Go standard library", "kernel file content")
		stub = append(stub, "results of open/fstat/read system calls named in the plan")
	case "C12":
		real = append(real, "main/xbnf.go as a process", "os/ioutil/fmt of the Go standard library", "kernel file content")
		stub = append(stub, "results of open/fstat/read/write system calls named in the plan")
	default:
		stub = append(stub, "caller's character stream (delivery in virtual time, read-ahead, failure), wrapping the library's own stream in part of the runs")
	}
	names := []string{}
	for n := range tot.Faults {
		names = append(names, n)
	}
	sort.Strings(names)
	cov := map[string]any{
		"evaluations":                     tot.Runs,
		"distinct_nontrivial":             len(keys),
		"rule":                            k.Rule,
		"samples":                         samples,
		"simulated_executions":            tot.Subruns,
		"seeds_per_hour":                  int64(perHour),
		"simulated_time_us":               tot.SimTime,
		"statements_executed":             tot.Steps,
		"context_switches":                tot.Switches,
		"distinct_execution_hashes":       len(traces),
		"execution_hash_measure":          "hash over every context switch (source location and task chosen) of all executions of a run",
		"faults_injected":                 tot.Faults,
		"reach_probes":                    tot.Probes,
		"skipped":                         tot.Skips,
		"library_statements":              tot.NSites,
		"library_statements_reached":      len(sites),
		"race_detector_runs":              raceRuns,
		"largest_budget_share_per_mille":  tot.MaxRatio,
		"components_real":                 real,
		"components_stubbed":              stub,
		"determinism_selfcheck_runs":      detRuns,
		"determinism_selfcheck_identical": det,
		"seed_derivation":                 "every run is a pure function of (VERIF_SEED, run index, code)",
	}
	if vinfo != nil {
		cov["violation"] = vinfo
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"the reference evaluator (sim/gram/model.go) states what the grammar notation means",
			"preemption between statements of the library (and between the evaluation and the store of a read-modify-write), not between machine instructions; the race detector covers unsynchronised accesses in C05 and C07",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		},
	}
	dir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, o.prop+".json"), js, 0o644)
}
