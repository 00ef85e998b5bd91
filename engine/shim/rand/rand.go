//go:build go1.21

// Package rand replaces math/rand in the rewritten code.
package rand

import (
	"math"

	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

// Source is rand.Source.
type Source interface {
	Int63() int64
	Seed(seed int64)
}

// src is a source of its own only if sched.SeededSources; otherwise it draws
// from the enumerated values.
type src struct{ state uint64 }

func (s *src) next() uint64 {
	if !sched.SeededSources {
		return sched.RandNext()
	}
	s.state += 0x9E3779B97F4A7C15
	z := s.state
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (s *src) Int63() int64    { return int64(s.next() >> 1) }
func (s *src) Uint64() uint64  { return s.next() }
func (s *src) Seed(seed int64) { s.state = uint64(seed) }

// NewSource is rand.NewSource.
func NewSource(seed int64) Source { return &src{uint64(seed)} }

// Rand is rand.Rand.
type Rand struct{ s Source }

func (r *Rand) next() uint64 {
	if sched.SeededSources {
		return uint64(r.s.Int63())<<1 ^ uint64(r.s.Int63())>>31
	}
	return sched.RandNext()
}

func (r *Rand) intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if sched.SeededSources {
		return int(r.next() % uint64(n))
	}
	return sched.RandIntn(n)
}

// New is rand.New.
func New(s Source) *Rand { return &Rand{s} }

// Seed restarts the generator.
func Seed(seed int64) {
	if sched.SeededSources {
		sched.SeedRand(seed)
	}
}

func Uint32() uint32       { return uint32(sched.RandNext() >> 32) }
func Uint64() uint64       { return sched.RandNext() }
func Int63() int64         { return int64(sched.RandNext() >> 1) }
func Int31() int32         { return int32(sched.RandNext() >> 33) }
func Int() int             { return int(sched.RandNext() >> 1) }
func Intn(n int) int       { return sched.RandIntn(n) }
func Int31n(n int32) int32 { return int32(sched.RandIntn(int(n))) }
func Int63n(n int64) int64 { return int64(sched.RandIntn(int(n))) }
func Float64() float64     { return float64(sched.RandNext()>>11) / (1 << 53) }
func Float32() float32     { return float32(sched.RandNext()>>40) / (1 << 24) }
func ExpFloat64() float64  { return -math.Log(1 - Float64()) }
func NormFloat64() float64 {
	return math.Sqrt(-2*math.Log(1-Float64())) * math.Cos(2*math.Pi*Float64())
}
func Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	sched.Shuffle(n, swap)
}

// Perm is rand.Perm.
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	sched.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(sched.RandNext())
	}
	return len(p), nil
}

func (r *Rand) Seed(seed int64)      { r.s.Seed(seed) }
func (r *Rand) Uint32() uint32       { return uint32(r.next() >> 32) }
func (r *Rand) Uint64() uint64       { return r.next() }
func (r *Rand) Int63() int64         { return int64(r.next() >> 1) }
func (r *Rand) Int31() int32         { return int32(r.next() >> 33) }
func (r *Rand) Int() int             { return int(r.next() >> 1) }
func (r *Rand) Intn(n int) int       { return r.intn(n) }
func (r *Rand) Int31n(n int32) int32 { return int32(r.intn(int(n))) }
func (r *Rand) Int63n(n int64) int64 { return int64(r.intn(int(n))) }
func (r *Rand) Float64() float64     { return float64(r.next()>>11) / (1 << 53) }
func (r *Rand) Float32() float32     { return float32(r.next()>>40) / (1 << 24) }
func (r *Rand) ExpFloat64() float64  { return -math.Log(1 - r.Float64()) }
func (r *Rand) NormFloat64() float64 {
	return math.Sqrt(-2*math.Log(1-r.Float64())) * math.Cos(2*math.Pi*r.Float64())
}

// Shuffle is rand.Shuffle.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if !sched.SeededSources {
		Shuffle(n, swap)
		return
	}
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		if j := r.intn(i + 1); j != i {
			swap(i, j)
		}
	}
}

// Perm is rand.Perm.
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	r.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

// Read is rand.Read.
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.next())
	}
	return len(p), nil
}
