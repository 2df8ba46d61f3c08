//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/ftl/sdrainer/scope"
)

// spectra computes the spectral frames for a sequence of blocks independently.
type spectra struct {
	sum    []float64
	count  int
	frames [][]float64
}

func fourier(x []complex128) []complex128 {
	n := len(x)
	if n == 1 {
		return x
	}
	even, odd := make([]complex128, n/2), make([]complex128, n/2)
	for i := range even {
		even[i], odd[i] = x[2*i], x[2*i+1]
	}
	even, odd = fourier(even), fourier(odd)
	result := make([]complex128, n)
	for i := range even {
		t := cmplx.Rect(1, -2*math.Pi*float64(i)/float64(n)) * odd[i]
		result[i], result[i+n/2] = even[i]+t, even[i]-t
	}
	return result
}

// put returns the magnitudes of the bins of the block in dB
func (s *spectra) put(block []float32) []float64 {
	n := len(block) / 2
	x := make([]complex128, n)
	for i := range x {
		x[i] = complex(float64(block[2*i]), float64(block[2*i+1]))
	}
	if s.sum == nil {
		s.sum = make([]float64, n)
	}
	single := make([]float64, n)
	for i, v := range fourier(x) {
		power := real(v)*real(v) + imag(v)*imag(v)
		single[(i+n/2)%n] = 120 + 10*math.Log10(20*power/float64(n*n))
		s.sum[(i+n/2)%n] += single[(i+n/2)%n]
	}
	s.count++
	if s.count == 100 {
		for i := range s.sum {
			s.sum[i] /= 100
		}
		s.frames = append(s.frames, s.sum)
		s.sum, s.count = nil, 0
	}
	return single
}

func (s *spectra) compare(frames []scope.SpectralFrame) error {
	for i, f := range frames {
		if i >= len(s.frames) {
			break
		}
		if len(f.Values) != len(s.frames[i]) {
			return fmt.Errorf("spectral frame %d has %d values instead of %d", i, len(f.Values), len(s.frames[i]))
		}
		for j, v := range f.Values {
			if !(math.Abs(v-s.frames[i][j]) <= 0.02) {
				return fmt.Errorf("spectral frame %d, bin %d: %v instead of %v", i, j, v, s.frames[i][j])
			}
		}
	}
	if len(frames) != len(s.frames) {
		return fmt.Errorf("%d spectral frames instead of %d", len(frames), len(s.frames))
	}
	return nil
}
