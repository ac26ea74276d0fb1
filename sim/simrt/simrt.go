// Package simrt is the deterministic simulator the instrumented library runs
// under: it owns the schedule (real goroutines, parked and released one at a
// time), the virtual clock, the visiting order of unordered collections and
// the step budget. Functions that touch scheduler state from simulated tasks
// are go:norace and hide their hand-offs, so that under -race the detector sees
// only the synchronisation the code under test performs itself.
package simrt

import (
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"sync"
)

// Sites describes the instrumented statements (filled by generated code).
var Sites []string

// Hits counts which sites were reached (saturating at 1).
var Hits = make([]uint8, 1<<16)

var (
	steps  int64
	trip   int64 = math.MaxInt64
	active *Sim
)

// BudgetExceeded is the panic raised when a run exceeds its step budget.
type BudgetExceeded struct{ Steps int64 }

func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("step budget exceeded after %d steps", b.Steps)
}

type killSignal struct{}

func (killSignal) Error() string { return "task torn down by simulator" }

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
)

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	Panic  any    // value the task died with, if any
	Stack  string // its stack
	Killed bool   // torn down by the simulator (deadlock)
	Steps  int64
	Daemon bool // started by the code under test; need not end

	wake   chan struct{}
	state  int
	waitOn any
	wakeAt int64
	kill   bool
	fn     func()
}

// Config fixes the scheduling parameters of a run.
type Config struct {
	// mean statements between preemptions; 0: only switch when blocked,
	// -1: drawn when the code under test starts its first task
	MeanGap int64
	Budget  int64 // statement budget for the whole run
	Serial  bool  // tasks run to completion one after another unless blocked
}

// Sim is one simulated execution.
type Sim struct {
	cfg      Config
	dec      *Decider
	tasks    []*Task
	cur      *Task
	now      int64
	wg       sync.WaitGroup
	start    int64
	budgetAt int64
	Deadlock string
	Over     bool // budget exceeded at least once
	Switches int64
	Preempts int64
	trace    uint64
	Log      []Switch // first switches, for the replay file
	KeepLog  bool
	tick     int64
}

// Switch records one context switch.
type Switch struct {
	Step int64
	Site int32
	From int
	To   int
}

// New creates a simulation.
func New(cfg Config, dec *Decider) *Sim {
	if cfg.Budget <= 0 {
		cfg.Budget = 5_000_000
	}
	return &Sim{cfg: cfg, dec: dec, trace: 14695981039346656037}
}

// Spawn adds a task before or during the run.
//
//go:norace
func (s *Sim) Spawn(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), fn: fn}
	s.tasks = append(s.tasks, t)
	s.wg.Add(1)
	if active == s {
		go s.body(t)
		s.spawned()
	}
	return t
}

// Gaps are the mean gaps to draw from.
var Gaps = [...]int64{1, 2, 3, 5, 9, 20, 45, 97}

// spawned starts preemption when the run gets its second task.
//
//go:norace
func (s *Sim) spawned() {
	if s.cfg.MeanGap < 0 {
		s.cfg.MeanGap = Gaps[s.dec.Draw(StreamSched, int64(len(Gaps)))]
	}
	s.setTrip()
}

// Soon may preempt the running task at its next statement: a system call is
// where tasks most often lose the processor.
//
//go:norace
func Soon() {
	s := active
	if s == nil || s.cur == nil || s.cfg.Serial || s.cfg.MeanGap <= 0 || len(s.tasks) < 2 {
		return
	}
	if s.dec.Draw(StreamSched, 3) == 1 && trip > steps+1 {
		trip = steps + 1
	}
}

func (s *Sim) body(t *Task) {
	defer s.wg.Done()
	s.await(t)
	defer s.finish(t)
	t.checkKill()
	t.fn()
}

//go:norace
func (t *Task) checkKill() {
	if t.kill {
		panic(killSignal{})
	}
}

//go:norace
func (s *Sim) await(t *Task) {
	hideSync()
	<-t.wake
	showSync()
}

//go:norace
func (s *Sim) finish(t *Task) {
	if r := recover(); r != nil {
		if _, ok := r.(killSignal); ok {
			t.Killed = true
		} else {
			t.Panic = r
			t.Stack = trimStack(string(debug.Stack()))
		}
	} else if t.state != stDone && t.kill {
		t.Killed = true
	}
	t.state = stDone
	s.handoff(t, -1)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Run executes all tasks to completion under the seeded schedule.
func (s *Sim) Run() {
	if active != nil {
		panic("simrt: nested simulation")
	}
	if len(s.tasks) == 0 {
		return
	}
	s.begin()
	for _, t := range append([]*Task(nil), s.tasks...) {
		go s.body(t)
	}
	s.first()
	s.wg.Wait()
	s.end()
}

//go:norace
func (s *Sim) begin() {
	active = s
	s.start = steps
	s.budgetAt = steps + s.cfg.Budget
	s.setTrip()
}

//go:norace
func (s *Sim) end() {
	active = nil
	trip = math.MaxInt64
}

//go:norace
func (s *Sim) first() {
	t := s.pick(nil)
	s.cur = t
	t.wake <- struct{}{}
}

// Steps returns statements executed in this run.
//
//go:norace
func (s *Sim) Steps() int64 { return steps - s.start }

// TraceHash identifies the interleaving (order and places of context switches).
func (s *Sim) TraceHash() uint64 { return s.trace }

// Tasks returns the tasks of the run.
func (s *Sim) Tasks() []*Task { return s.tasks }

// Now is the virtual time in microseconds.
//
//go:norace
func (s *Sim) Now() int64 { return s.now }

// Tick returns a fresh event sequence number.
//
//go:norace
func (s *Sim) Tick() int64 { s.tick++; return s.tick }

//go:norace
func (s *Sim) setTrip() {
	if s.cfg.Serial || s.cfg.MeanGap <= 0 || len(s.tasks) < 2 {
		trip = s.budgetAt
		return
	}
	g := s.dec.Draw(StreamSched, 2*s.cfg.MeanGap+1)
	if g == 0 {
		g = 4 * s.cfg.MeanGap
	}
	trip = steps + g
	if trip > s.budgetAt {
		trip = s.budgetAt
	}
}

// Y is called before every statement of the instrumented code.
//
//go:norace
func Y(site int32) {
	Hits[site&0xffff] = 1
	steps++
	if steps >= trip {
		slow(site)
	}
}

//go:norace
func slow(site int32) {
	s := active
	if s == nil {
		return
	}
	if steps >= s.budgetAt {
		s.Over = true
		// keep tripping so that code which recovers cannot hide it
		trip = steps + 1000
		s.budgetAt = trip
		if !s.cur.kill {
			panic(BudgetExceeded{steps - s.start})
		}
		panic(killSignal{})
	}
	s.setTrip()
	s.yield(site)
}

// Yield offers a preemption outside instrumented code (harness seams).
//
//go:norace
func Yield() { Y(0) }

//go:norace
func (s *Sim) yield(site int32) {
	if s.cur == nil {
		return
	}
	s.Preempts++
	s.handoff(s.cur, site)
}

// pick selects the next task to run; nil when everything is done.
//
//go:norace
func (s *Sim) pick(self *Task) *Task {
	for {
		n := int64(0)
		selfOK := false
		for _, t := range s.tasks {
			if t.state == stRunnable {
				n++
				if t == self {
					selfOK = true
				}
			}
		}
		if n > 0 {
			var k int64
			if n > 1 {
				k = s.dec.Draw(StreamSched, n)
			}
			// choice 0 is "stay with the current task"
			if selfOK {
				if k == 0 {
					return self
				}
				k--
			}
			for _, t := range s.tasks {
				if t.state == stRunnable && t != self {
					if k == 0 {
						return t
					}
					k--
				}
			}
			return self
		}
		// background tasks of the code under test do not keep a run alive
		idle := true
		for _, t := range s.tasks {
			if !t.Daemon && t.state != stDone {
				idle = false
			}
		}
		if idle {
			left := false
			for _, t := range s.tasks {
				if t.state != stDone {
					left = true
					t.kill = true
					t.state = stRunnable
				}
			}
			if !left {
				return nil
			}
			continue
		}
		// advance virtual time
		next := int64(math.MaxInt64)
		for _, t := range s.tasks {
			if t.state == stSleeping && t.wakeAt < next {
				next = t.wakeAt
			}
		}
		if next != math.MaxInt64 {
			if next > s.now {
				s.now = next
			}
			for _, t := range s.tasks {
				if t.state == stSleeping && t.wakeAt <= s.now {
					t.state = stRunnable
				}
			}
			continue
		}
		// nothing can run: finished, or deadlock
		blocked := false
		for _, t := range s.tasks {
			if t.state == stBlocked {
				blocked = true
				if s.Deadlock == "" {
					s.Deadlock = "deadlock: "
				}
				if !t.Daemon {
					s.Deadlock += t.Name + " "
				}
				t.kill = true
				t.state = stRunnable
			}
		}
		if !blocked {
			return nil
		}
	}
}

//go:norace
func (s *Sim) handoff(self *Task, site int32) {
	next := s.pick(self)
	if next == self {
		self.checkKill()
		return
	}
	if next == nil {
		s.cur = nil
		return
	}
	s.Switches++
	s.trace = (s.trace ^ uint64(site)) * 1099511628211
	s.trace = (s.trace ^ uint64(next.ID+1)) * 1099511628211
	if s.KeepLog && len(s.Log) < 400 {
		s.Log = append(s.Log, Switch{steps - s.start, site, self.ID, next.ID})
	}
	s.cur = next
	hideSync()
	next.wake <- struct{}{}
	if self.state == stDone {
		showSync()
		return
	}
	<-self.wake
	showSync()
	self.checkKill()
}

// InSim reports whether the caller runs inside a simulated task.
//
//go:norace
func InSim() bool { return active != nil && active.cur != nil }

// Current returns the active simulation, or nil.
//
//go:norace
func Current() *Sim { return active }

// Sleep parks the current task for d virtual microseconds.
//
//go:norace
func Sleep(d int64) {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	t.checkKill()
	t.wakeAt = s.now + d
	t.state = stSleeping
	s.handoff(t, -2)
}

// Block parks the current task until Wake(key).
//
//go:norace
func Block(key any) {
	s := active
	if s == nil || s.cur == nil {
		panic("simrt: lock left held outside the simulation (would block for ever)")
	}
	t := s.cur
	t.checkKill()
	t.waitOn = key
	t.state = stBlocked
	s.handoff(t, -3)
	t.waitOn = nil
}

// Wake makes every task blocked on key runnable.
//
//go:norace
func Wake(key any) {
	s := active
	if s == nil {
		return
	}
	for _, t := range s.tasks {
		if t.state == stBlocked && t.waitOn == key {
			t.state = stRunnable
		}
	}
}

// Go replaces go statements of the code under test.
func Go(fn func()) {
	s := active
	if s == nil || s.cur == nil {
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			fn()
		}()
		return
	}
	s.Spawn("go", fn).Daemon = true
}

// Draw draws from the active run's decision stream (0 outside a run).
//
//go:norace
func Draw(stream int, n int64) int64 {
	if active == nil {
		return 0
	}
	return active.dec.Draw(stream, n)
}

// V passes a value through with a preemption point between the evaluation of
// a right-hand side and its store (read-modify-write on shared state).
func V[T any](v T) T {
	Y(0)
	return v
}

// SiteName describes a site.
func SiteName(site int32) string {
	switch {
	case site == -1:
		return "task end"
	case site == -2:
		return "waiting for stream data"
	case site == -3:
		return "blocked on lock"
	case site > 0 && int(site) < len(Sites):
		return Sites[site]
	}
	return "harness seam"
}

// Arg passes an argument of a go statement through.
func Arg[T any](v T) T { return v }
