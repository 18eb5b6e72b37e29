//go:build go1.21

package simrt

import "math/rand"

// The top-level functions of math/rand, drawing from a generator that is
// seeded for each run.

func (r *Run) rand() *rand.Rand {
	if r == nil {
		return rand.New(rand.NewSource(1))
	}
	if r.mrand == nil {
		r.mrand = rand.New(rand.NewSource(int64(r.seed)))
	}
	return r.mrand
}

// RandSeed has no effect: the real generator is process-wide.
func RandSeed(int64) {}

func RandInt() int                        { return R.rand().Int() }
func RandIntn(n int) int                  { return R.rand().Intn(n) }
func RandInt31() int32                    { return R.rand().Int31() }
func RandInt31n(n int32) int32            { return R.rand().Int31n(n) }
func RandInt63() int64                    { return R.rand().Int63() }
func RandInt63n(n int64) int64            { return R.rand().Int63n(n) }
func RandUint32() uint32                  { return R.rand().Uint32() }
func RandUint64() uint64                  { return R.rand().Uint64() }
func RandFloat32() float32                { return R.rand().Float32() }
func RandFloat64() float64                { return R.rand().Float64() }
func RandPerm(n int) []int                { return R.rand().Perm(n) }
func RandShuffle(n int, f func(i, j int)) { R.rand().Shuffle(n, f) }
func RandRead(p []byte) (int, error)      { return R.rand().Read(p) }
func RandExpFloat64() float64             { return R.rand().ExpFloat64() }
func RandNormFloat64() float64            { return R.rand().NormFloat64() }
