// Package rand replaces math/rand for instrumented code: top-level functions draw from the plan.
package rand

import "simrt/simrt"

func u() uint64 {
	a := uint64(simrt.S.C.Choose(simrt.Sched, 1<<31))
	b := uint64(simrt.S.C.Choose(simrt.Sched, 1<<31))
	return a<<33 ^ b<<2
}
func Seed(int64)          {}
func Int63() int64        { return int64(u() >> 1) }
func Uint32() uint32      { return uint32(u() >> 32) }
func Uint64() uint64      { return u() }
func Int31() int32        { return int32(u() >> 33) }
func Int() int            { return int(u() >> 1) }
func Int63n(n int64) int64 { return Int63() % n }
func Int31n(n int32) int32 { return Int31() % n }
func Intn(n int) int      { return int(Int63() % int64(n)) }
func Float64() float64    { return float64(u()>>11) / (1 << 53) }
func Float32() float32    { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u() >> 40)
	}
	return len(p), nil
}
