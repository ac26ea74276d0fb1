package simrt

import "time"

// The library's clock is the simulation's: it starts at the same instant in
// every run, moves with the statements executed and jumps when tasks sleep.

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func nowMicros() int64 {
	if active != nil {
		return active.now
	}
	return 0
}

// TimeNow is time.Now in virtual time: it also advances a little with every
// statement executed in the run.
//
//go:norace
func TimeNow() time.Time {
	d := nowMicros()
	if active != nil {
		d += (steps - active.start) / 1000
	}
	return epoch.Add(time.Duration(d) * time.Microsecond)
}

// TimeSince is time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep is time.Sleep.
func TimeSleep(d time.Duration) {
	Yield()
	if d > 0 {
		Sleep(int64(d / time.Microsecond))
	}
}

// TimeAfter is time.After.
func TimeAfter(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		TimeSleep(d)
		Send(ch)(TimeNow())
	})
	return ch
}

// Gosched is runtime.Gosched.
func Gosched() { Sleep(0) }
