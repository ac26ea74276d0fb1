package simrt

// Every choice of a simulated run is drawn from one of these recorded streams,
// so that a run is a pure function of (scenario, recorded streams, code).
const (
	StreamSched = iota // which task runs next, and when the running one is preempted
	StreamMap          // visiting order of the library's unordered collections
	StreamNet          // stream delivery: chunking, delays
	NumStreams
)

// StreamNames names the streams in replay files.
var StreamNames = [NumStreams]string{"sched", "map", "net"}

// Decider answers choices either from a PRNG or from a recording.
// Value 0 is always the most boring choice; an exhausted recording yields 0.
type Decider struct {
	rng    uint64
	replay bool
	src    [NumStreams][]int64
	pos    [NumStreams]int
	rec    [NumStreams][]int64
	// Canon makes a stream always answer 0 without recording.
	Canon [NumStreams]bool
}

// NewDecider draws from a PRNG seeded with seed.
func NewDecider(seed uint64) *Decider { return &Decider{rng: seed*0x9E3779B97F4A7C15 + 0x1234567} }

// ReplayDecider answers from a recording.
func ReplayDecider(src [NumStreams][]int64) *Decider { return &Decider{replay: true, src: src} }

//go:norace
func (d *Decider) next() uint64 {
	d.rng += 0x9E3779B97F4A7C15
	z := d.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Draw returns a value in [0,n).
//
//go:norace
func (d *Decider) Draw(stream int, n int64) int64 {
	if n <= 1 || d.Canon[stream] {
		return 0
	}
	var v int64
	if d.replay {
		if d.pos[stream] < len(d.src[stream]) {
			v = d.src[stream][d.pos[stream]] % n
			if v < 0 {
				v = -v
			}
		}
		d.pos[stream]++
	} else {
		v = int64(d.next() % uint64(n))
	}
	if len(d.rec[stream]) < 1<<20 {
		d.rec[stream] = append(d.rec[stream], v)
	}
	return v
}

// Recording returns what was drawn, with trailing zeros cut.
func (d *Decider) Recording() [NumStreams][]int64 {
	var out [NumStreams][]int64
	for i := range d.rec {
		r := d.rec[i]
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		out[i] = append([]int64(nil), r...)
	}
	return out
}
