package simrt

// math/rand of the instrumented library: drawn from the run's decisions.

// RandIntn is rand.Intn.
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Draw(StreamMap, int64(n)))
}

// RandInt31n is rand.Int31n.
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }

// RandInt63n is rand.Int63n.
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }

// RandInt is rand.Int.
func RandInt() int { return int(Draw(StreamMap, 1<<62)) }

// RandInt63 is rand.Int63.
func RandInt63() int64 { return Draw(StreamMap, 1<<62) }

// RandFloat64 is rand.Float64.
func RandFloat64() float64 { return float64(Draw(StreamMap, 1<<53)) / (1 << 53) }

// RandPerm is rand.Perm.
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// RandShuffle is rand.Shuffle.
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}
