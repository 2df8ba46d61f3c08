package dspx

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C16

type fftBlock struct {
	Size  int    `json:"size"`
	Kind  string `json:"kind"`
	Level int    `json:"level"` // power of ten
	Seed  uint64 `json:"seed"`
	Tones []tone `json:"tones,omitempty"`
	At    int    `json:"at,omitempty"`
	Call  int    `json:"call"` // 0: spectrum and PSD, 1: spectrum only
	Proj  int    `json:"proj"`
}

type tone struct {
	Bin   float64 `json:"bin"`
	Amp   float64 `json:"amp"`
	Phase float64 `json:"phase"`
}

type fftCase struct {
	Wide   bool       `json:"wide"` // float64 instead of float32
	Blocks []fftBlock `json:"blocks"`
}

func genFFT(t *rapid.T) fftCase {
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 50, 64, 100, 128, 256, 512}
	n := rapid.IntRange(1, 4).Draw(t, "blocks")
	c := fftCase{Wide: rapid.Bool().Draw(t, "wide")}
	for i := 0; i < n; i++ {
		b := fftBlock{
			Size:  rapid.SampledFrom(sizes).Draw(t, "size"),
			Kind:  rapid.SampledFrom([]string{"noise", "tones", "impulse", "constant", "zero", "mixed"}).Draw(t, "kind"),
			Level: rapid.IntRange(-6, 3).Draw(t, "level"),
			Seed:  rapid.Uint64().Draw(t, "seed"),
			Call:  rapid.IntRange(0, 1).Draw(t, "call"),
			Proj:  rapid.IntRange(0, 2).Draw(t, "proj"),
		}
		if b.Kind == "tones" || b.Kind == "mixed" {
			k := rapid.IntRange(1, 3).Draw(t, "tones")
			for j := 0; j < k; j++ {
				b.Tones = append(b.Tones, tone{
					Bin:   float64(rapid.IntRange(-2*b.Size, 2*b.Size).Draw(t, "bin4")) / 4,
					Amp:   float64(rapid.IntRange(1, 100).Draw(t, "amp")) / 100,
					Phase: float64(rapid.IntRange(0, 628).Draw(t, "phase")) / 100,
				})
			}
		}
		if b.Kind == "impulse" {
			b.At = rapid.IntRange(0, b.Size-1).Draw(t, "at")
		}
		c.Blocks = append(c.Blocks, b)
	}
	return c
}

func (b fftBlock) samples() []complex128 {
	rng := verifkit.NewRand(b.Seed)
	scale := math.Pow(10, float64(b.Level))
	result := make([]complex128, b.Size)
	for i := range result {
		var v complex128
		switch b.Kind {
		case "noise":
			v = complex(rng.Norm(), rng.Norm())
		case "constant":
			v = complex(0.5, -0.25)
		case "impulse":
			if i == b.At {
				v = complex(1, 0.5)
			}
		case "mixed":
			v = complex(rng.Norm(), rng.Norm()) * 0.01
		}
		for _, tn := range b.Tones {
			v += complex(tn.Amp, 0) * cmplx.Exp(complex(0, tn.Phase+2*math.Pi*tn.Bin*float64(i)/float64(b.Size)))
		}
		result[i] = v * complex(scale, 0)
	}
	return result
}

func checkFFT[T dsp.Number](k *verifkit.K, c fftCase, rel float64) error {
	f := dsp.NewFFT[T]()
	for bi, b := range c.Blocks {
		samples := b.samples()
		iq := make([]T, 2*b.Size)
		x := make([]complex128, b.Size) // what the code really gets after rounding to T
		var energy float64
		for i, s := range samples {
			iq[2*i], iq[2*i+1] = T(real(s)), T(imag(s))
			x[i] = complex(float64(iq[2*i]), float64(iq[2*i+1]))
			energy += real(x[i])*real(x[i]) + imag(x[i])*imag(x[i])
		}
		before := append([]T(nil), iq...)
		proj := []func(complex128, int) T{dsp.Magnitude[T], dsp.PSD[T], dsp.MagnitudeIndB[T]}[b.Proj]
		spectrum, psd := make([]T, b.Size), make([]T, b.Size)
		if b.Call == 0 {
			f.IQToSpectrumAndPSD(spectrum, psd, iq, proj)
		} else {
			f.IQToSpectrum(spectrum, iq, proj)
		}
		for i := range iq {
			if iq[i] != before[i] {
				return fmt.Errorf("block %d: input sample %d was changed", bi, i)
			}
		}

		n := b.Size
		tw := make([]complex128, n)
		for i := range tw {
			tw[i] = cmplx.Exp(complex(0, -2*math.Pi*float64(i)/float64(n)))
		}
		absTol := 1e-10*float64(n)*energy + 1e-40
		var sum float64
		for kf := 0; kf < n; kf++ {
			var ref complex128
			for i, v := range x {
				ref += v * tw[(i*kf)%n]
			}
			power := real(ref)*real(ref) + imag(ref)*imag(ref)
			at := (kf + n/2) % n // frequency zero in the middle bin
			tol := rel*power + absTol
			if b.Call == 0 {
				if math.Abs(float64(psd[at])-power) > tol {
					return fmt.Errorf("block %d (size %d): psd[%d] is %v, transform gives %v", bi, n, at, psd[at], power)
				}
				sum += float64(psd[at])
			}
			got := float64(spectrum[at])
			switch b.Proj {
			case 0:
				// compare as power to keep the tolerance meaningful near zero
				if math.Abs(got*got-power) > 3*tol {
					return fmt.Errorf("block %d (size %d): magnitude[%d] is %v, transform gives %v", bi, n, at, got, math.Sqrt(power))
				}
			case 1:
				if math.Abs(got-power) > tol {
					return fmt.Errorf("block %d (size %d): power[%d] is %v, transform gives %v", bi, n, at, got, power)
				}
			case 2:
				if power > 1e3*absTol {
					want := 10 * math.Log10(20*power/float64(n*n))
					if math.Abs(got-want) > 0.02+rel*math.Abs(want) {
						return fmt.Errorf("block %d (size %d): level[%d] is %v dB, transform gives %v dB", bi, n, at, got, want)
					}
				}
			}
		}
		if b.Call == 0 && math.Abs(sum-float64(n)*energy) > 4*rel*float64(n)*energy+float64(n)*absTol {
			return fmt.Errorf("block %d (size %d): total power is %v, samples have %v", bi, n, sum, float64(n)*energy)
		}
		if energy > 0 && n > 2 {
			k.NonTrivial()
		}
		k.Label("kind %s", b.Kind)
	}
	return nil
}

func TestVerif_C16_Transform(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 250, Rule: "at least one block of more than 2 samples with energy"}, genFFT,
		func(k *verifkit.K, c fftCase) error {
			if c.Wide {
				return checkFFT[float64](k, c, 1e-9)
			}
			return checkFFT[float32](k, c, 1e-6)
		})
}

type measureCase struct {
	Re   float64 `json:"re"`
	Im   float64 `json:"im"`
	Size int     `json:"size"`
}

func TestVerif_C16_Measures(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "value is not zero"},
		func(t *rapid.T) measureCase {
			e := rapid.IntRange(-9, 9).Draw(t, "exp")
			return measureCase{
				Re:   float64(rapid.IntRange(-1000, 1000).Draw(t, "re")) * math.Pow(10, float64(e)),
				Im:   float64(rapid.IntRange(-1000, 1000).Draw(t, "im")) * math.Pow(10, float64(e)),
				Size: rapid.SampledFrom([]int{1, 2, 16, 100, 512, 2048, 65536}).Draw(t, "size"),
			}
		},
		func(k *verifkit.K, c measureCase) error {
			v := complex(c.Re, c.Im)
			p := c.Re*c.Re + c.Im*c.Im
			if p == 0 {
				return nil
			}
			k.NonTrivial()
			near := func(what string, got, want, abs float64) error {
				if math.Abs(got-want) > 1e-9*math.Abs(want)+abs {
					return fmt.Errorf("%s of %v (size %d) is %v, want %v", what, v, c.Size, got, want)
				}
				return nil
			}
			if err := near("power", dsp.PSD[float64](v, c.Size), p, 0); err != nil {
				return err
			}
			if err := near("magnitude", dsp.Magnitude[float64](v, c.Size), math.Sqrt(p), 0); err != nil {
				return err
			}
			want := 10 * math.Log10(20*p/(float64(c.Size)*float64(c.Size)))
			if err := near("level", dsp.MagnitudeIndB[float64](v, c.Size), want, 1e-9); err != nil {
				return err
			}
			return near("level of the power", dsp.PSDValueIndB[float64](dsp.PSD[float64](v, c.Size), c.Size), want, 1e-9)
		})
}

// ---------------------------------------------------------------- C17

type mappingCase struct {
	Type   string  `json:"type"`
	Rate   int     `json:"rate"`
	Size   int     `json:"size"`
	Center int     `json:"center"`
	Frac   float64 `json:"frac"` // fraction of a Hertz of the center, floating point types only
	Moves  []int   `json:"moves"`
	Bins   []int   `json:"bins"`
	Freqs  []int   `json:"freqs"` // relative to the center, per mille of the sample rate times 16
}

func genMapping(t *rapid.T) mappingCase {
	rate := rapid.OneOf(rapid.SampledFrom([]int{12000, 48000, 96000, 192000, 384000, 8000, 44100}), rapid.IntRange(2000, 500000)).Draw(t, "rate")
	size := rapid.OneOf(rapid.SampledFrom([]int{512, 1024, 256, 2048, 64}), rapid.Map(rapid.IntRange(1, 2048), func(v int) int { return 2 * v })).Draw(t, "size")
	for rate/size < 6 {
		size /= 2
		size -= size % 2
		if size < 2 {
			size = 2
			break
		}
	}
	c := mappingCase{
		Type:   rapid.SampledFrom([]string{"int", "int64", "float64"}).Draw(t, "type"),
		Rate:   rate,
		Size:   size,
		Center: rapid.OneOf(rapid.SampledFrom([]int{0, 7020000, 14025000, 3550000}), rapid.IntRange(-200000, 1500000000)).Draw(t, "center"),
		Moves:  rapid.SliceOfN(rapid.IntRange(-200000, 450000000), 0, 3).Draw(t, "moves"),
		Bins:   rapid.SliceOfN(rapid.IntRange(0, size-1), 1, 12).Draw(t, "bins"),
		Freqs:  rapid.SliceOfN(rapid.IntRange(-12000, 12000), 1, 12).Draw(t, "freqs"),
	}
	c.Bins = append(c.Bins, 0, size-1, size/2, size/2-1)
	if c.Type == "float64" {
		c.Frac = float64(rapid.IntRange(0, 9).Draw(t, "frac")) / 10
	}
	return c
}

func checkMapping[F dsp.Number](k *verifkit.K, c mappingCase) error {
	k.NonTrivial()
	binSize := float64(c.Rate) / float64(c.Size)
	m := dsp.NewFrequencyMapping[F](c.Rate, c.Size, F(float64(c.Center)+c.Frac))
	fresh := true
	centers := append([]int{c.Center}, c.Moves...)
	for _, center := range centers {
		cf := float64(center) + c.Frac
		if !fresh {
			m.SetCenterFrequency(F(cf))
		}
		fresh = false
		tol := 2.0
		if c.Frac != 0 {
			tol = 3 // the center itself is taken in whole Hertz
		}
		ideal := func(bin float64) float64 { return cf + (bin-float64(c.Size)/2)*binSize }
		for _, bin := range c.Bins {
			for _, loc := range []dsp.BinLocation{dsp.BinFrom, dsp.BinCenter, dsp.BinTo} {
				got := float64(m.BinToFrequency(bin, loc))
				want := ideal(float64(bin) + float64(loc))
				if math.Abs(got-want) > tol {
					return fmt.Errorf("center %v: bin %d at %v is mapped to %v, want %v", cf, bin, loc, got, want)
				}
			}
			if back := m.FrequencyToBin(m.BinToFrequency(bin, dsp.BinCenter)); back != bin {
				return fmt.Errorf("center %v: bin %d is mapped to %v and back to bin %d", cf, bin, m.BinToFrequency(bin, dsp.BinCenter), back)
			}
		}
		for _, rel := range c.Freqs {
			freq := math.Round(cf + float64(rel)*float64(c.Rate)/16000)
			got := m.FrequencyToBin(F(freq))
			if got < 0 || got >= c.Size {
				return fmt.Errorf("center %v: frequency %v is mapped to bin %d of %d", cf, freq, got, c.Size)
			}
			best := math.Inf(1)
			pos := math.Max(0, math.Min(math.Round((freq-ideal(0))/binSize), float64(c.Size-1)))
			best = math.Abs(freq - ideal(pos))
			if d := math.Abs(freq - ideal(float64(got))); d > best+2*tol {
				return fmt.Errorf("center %v: frequency %v is mapped to bin %d (%.1f Hz away), nearest is bin %v (%.1f Hz away)", cf, freq, got, d, pos, best)
			}
			if math.Abs(freq-cf) > float64(c.Rate)/2 {
				k.Label("outside the band")
			} else {
				k.Label("inside the band")
			}
		}
	}
	return nil
}

func TestVerif_C17_Mapping(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 4000, Rule: "every case (bins and frequencies of a mapping, with 1-4 center frequencies)"}, genMapping,
		func(k *verifkit.K, c mappingCase) error {
			switch c.Type {
			case "int":
				return checkMapping[int](k, c)
			case "int64":
				return checkMapping[int64](k, c)
			default:
				return checkMapping[float64](k, c)
			}
		})
}

// ---------------------------------------------------------------- C18

type peaksCase struct {
	Wide       bool  `json:"wide"`
	IntFreq    bool  `json:"int_freq"`
	Values     []int `json:"values"`         // hundredths
	More       []int `json:"more,omitempty"` // a second spectrum, same result slice
	Threshold  int   `json:"threshold"`
	Cumulation int   `json:"cumulation"`
	Rate       int   `json:"rate"`
	Center     int   `json:"center"`
	Probe      []int `json:"probe"`
}

func genSpectrum(t *rapid.T, base int) []int {
	n := rapid.IntRange(2, 40).Draw(t, "halfsize") * 2
	values := make([]int, n)
	kind := rapid.SampledFrom([]string{"uniform", "few", "bumps"}).Draw(t, "kind")
	switch kind {
	case "uniform":
		for i := range values {
			values[i] = base + rapid.IntRange(-300, 300).Draw(t, "v")
		}
	case "few":
		for i := range values {
			values[i] = base + 100*rapid.IntRange(-1, 2).Draw(t, "v")
		}
	default:
		for i := range values {
			values[i] = base - 200 + rapid.IntRange(0, 5).Draw(t, "v")
		}
		k := rapid.IntRange(1, 4).Draw(t, "bumps")
		for j := 0; j < k; j++ {
			at, w, h := rapid.IntRange(0, n-1).Draw(t, "at"), rapid.IntRange(1, 6).Draw(t, "w"), rapid.IntRange(50, 600).Draw(t, "h")
			for i := max(0, at-w); i <= min(n-1, at+w); i++ {
				values[i] = max(values[i], base-200+h-h*(i-at)*(i-at)/(w*w))
			}
		}
	}
	return values
}

func genPeaks(t *rapid.T) peaksCase {
	base := rapid.SampledFrom([]int{0, 0, 1000, 5000, -3000, 300000}).Draw(t, "base")
	c := peaksCase{
		Wide:       rapid.Bool().Draw(t, "wide"),
		IntFreq:    rapid.Bool().Draw(t, "int_freq"),
		Values:     genSpectrum(t, base),
		Cumulation: rapid.SampledFrom([]int{1, 1, 4, 10, 100}).Draw(t, "cumulation"),
		Rate:       rapid.SampledFrom([]int{12000, 48000, 96000}).Draw(t, "rate"),
		Center:     rapid.IntRange(0, 30000000).Draw(t, "center"),
		Probe:      rapid.SliceOfN(rapid.IntRange(-2, 90), 0, 6).Draw(t, "probe"),
	}
	c.Threshold = base + rapid.IntRange(-350, 350).Draw(t, "threshold")
	if rapid.Bool().Draw(t, "twice") {
		c.More = genSpectrum(t, base)
	}
	return c
}

func checkPeaks[T, F dsp.Number](k *verifkit.K, c peaksCase) error {
	var peaks []dsp.Peak[T, F]
	spectra := [][]int{c.Values}
	if c.More != nil {
		spectra = append(spectra, c.More)
	}
	for _, values := range spectra {
		n := len(values)
		spectrum := make(dsp.Block[T], n)
		for i, v := range values {
			spectrum[i] = T(float64(v) / 100 * float64(c.Cumulation))
		}
		before := append(dsp.Block[T](nil), spectrum...)
		threshold := T(float64(c.Threshold) / 100)
		m := dsp.NewFrequencyMapping[F](c.Rate, n, F(c.Center))
		peaks = dsp.FindPeaks[T, F](peaks, spectrum, c.Cumulation, threshold, m)

		// reference: maximal runs
		type run struct{ from, to int }
		var runs []run
		mean := func(i int) T { return spectrum[i] / T(c.Cumulation) }
		for i := 0; i < n; i++ {
			if spectrum[i] != before[i] {
				return fmt.Errorf("the spectrum was changed at bin %d", i)
			}
			if mean(i) <= threshold {
				continue
			}
			if len(runs) > 0 && runs[len(runs)-1].to == i-1 {
				runs[len(runs)-1].to = i
			} else {
				runs = append(runs, run{i, i})
			}
		}
		if len(runs) != len(peaks) {
			return fmt.Errorf("%d peaks found, %d runs above the threshold: %+v, %v", len(peaks), len(runs), peaks, runs)
		}
		for i, r := range runs {
			p := peaks[i]
			if p.From != r.from || p.To != r.to {
				return fmt.Errorf("peak %d is %d-%d, want %d-%d", i, p.From, p.To, r.from, r.to)
			}
			maxValue := mean(r.from)
			for j := r.from; j <= r.to; j++ {
				maxValue = max(maxValue, mean(j))
			}
			if p.SignalValue != maxValue {
				return fmt.Errorf("peak %d-%d has signal value %v, want %v", r.from, r.to, p.SignalValue, maxValue)
			}
			if p.SignalBin < r.from || p.SignalBin > r.to || mean(p.SignalBin) != maxValue {
				return fmt.Errorf("peak %d-%d has signal bin %d, that is not where its maximum %v is", r.from, r.to, p.SignalBin, maxValue)
			}
			binSize := float64(c.Rate) / float64(n)
			freq := func(bin float64) float64 { return float64(c.Center) + (bin-float64(n)/2)*binSize }
			if math.Abs(float64(p.FromFrequency)-freq(float64(r.from)-0.5)) > 1.01 || math.Abs(float64(p.ToFrequency)-freq(float64(r.to)+0.5)) > 1.01 {
				return fmt.Errorf("peak %d-%d has edge frequencies %v-%v, want %v-%v", r.from, r.to, p.FromFrequency, p.ToFrequency, freq(float64(r.from)-0.5), freq(float64(r.to)+0.5))
			}
			b := p.SignalBin
			got := (float64(p.SignalFrequency) - freq(float64(b))) / binSize
			slack := 1.01/binSize + 1e-3
			if !(math.Abs(got) <= 0.5+slack) {
				return fmt.Errorf("peak %d-%d: signal frequency %v is %v bins off its bin %d", r.from, r.to, p.SignalFrequency, got, b)
			}
			want := 0.0
			if b > 0 && b < n-1 {
				y1, y2, y3 := float64(spectrum[b-1]), float64(spectrum[b]), float64(spectrum[b+1])
				want = (y3 - y1) / (2 * (2*y2 - y1 - y3))
				k.Label("interior maximum")
				if (y1 < 0) != (y2 < 0) || (y3 < 0) != (y2 < 0) {
					k.Label("maximum with a sign change")
				}
			} else {
				k.Label("maximum at the edge")
			}
			if math.Abs(got-want) > slack {
				return fmt.Errorf("peak %d-%d: signal frequency %v is %v bins off its bin %d, the vertex is at %v", r.from, r.to, p.SignalFrequency, got, b, want)
			}
			if p.Width() != r.to-r.from+1 {
				return fmt.Errorf("peak %d-%d has width %d", r.from, r.to, p.Width())
			}
			if center := p.Center(); center != r.from+(r.to-r.from)/2 {
				return fmt.Errorf("peak %d-%d has center %d", r.from, r.to, center)
			}
			if math.Abs(float64(p.WidthHz())-float64(r.to-r.from+1)*binSize) > 2.01 {
				return fmt.Errorf("peak %d-%d is %v Hz wide, bins are %v Hz", r.from, r.to, p.WidthHz(), binSize)
			}
			if math.Abs(float64(p.CenterFrequency())-freq(float64(r.from+r.to)/2)) > 2.01 {
				return fmt.Errorf("peak %d-%d has center frequency %v, want %v", r.from, r.to, p.CenterFrequency(), freq(float64(r.from+r.to)/2))
			}
			for _, probe := range append([]int{r.from, r.to, r.from - 1, r.to + 1, (r.from + r.to) / 2}, c.Probe...) {
				if p.ContainsBin(probe) != (probe >= r.from && probe <= r.to) {
					return fmt.Errorf("peak %d-%d contains bin %d: %v", r.from, r.to, probe, p.ContainsBin(probe))
				}
			}
			k.NonTrivial()
			if r.to > r.from {
				k.Label("wide peak")
			}
		}
		k.Label("%d peaks", min(len(runs), 5))
	}
	return nil
}

func TestVerif_C18_FindPeaks(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "at least one peak is found"}, genPeaks,
		func(k *verifkit.K, c peaksCase) error {
			switch {
			case c.Wide && c.IntFreq:
				return checkPeaks[float64, int](k, c)
			case c.Wide:
				return checkPeaks[float64, float64](k, c)
			case c.IntFreq:
				return checkPeaks[float32, int](k, c)
			default:
				return checkPeaks[float32, float64](k, c)
			}
		})
}

// ---------------------------------------------------------------- C19

type noiseCase struct {
	Wide      bool     `json:"wide"`
	Usable    int      `json:"usable"`
	Edge      int      `json:"edge"`
	Exp       int      `json:"exp"`
	Base      int      `json:"base"`
	Seed      uint64   `json:"seed"`
	Spread    int      `json:"spread"` // percent of the base
	Steps     []int    `json:"steps"`  // level of consecutive parts in percent of the base
	Strong    [][2]int `json:"strong"` // position (anywhere) and factor
	EdgeLevel int      `json:"edge_level"`
	Scale     int      `json:"scale"`
}

func genNoise(t *rapid.T) noiseCase {
	c := noiseCase{
		Wide:      rapid.Bool().Draw(t, "wide"),
		Usable:    rapid.OneOf(rapid.IntRange(10, 400), rapid.Map(rapid.IntRange(1, 40), func(v int) int { return 10 * v })).Draw(t, "usable"),
		Edge:      rapid.IntRange(0, 80).Draw(t, "edge"),
		Exp:       rapid.IntRange(-8, 4).Draw(t, "exp"),
		Base:      rapid.IntRange(1, 100).Draw(t, "base"),
		Seed:      rapid.Uint64().Draw(t, "seed"),
		Spread:    rapid.SampledFrom([]int{0, 10, 50, 99}).Draw(t, "spread"),
		Steps:     rapid.SliceOfN(rapid.SampledFrom([]int{100, 100, 60, 150, 300, 1000}), 1, 12).Draw(t, "steps"),
		EdgeLevel: rapid.SampledFrom([]int{0, 1, 100, 100000}).Draw(t, "edge_level"),
		Scale:     rapid.SampledFrom([]int{2, 4, 1024}).Draw(t, "scale"),
	}
	k := rapid.IntRange(0, 5).Draw(t, "strong")
	for i := 0; i < k; i++ {
		c.Strong = append(c.Strong, [2]int{rapid.IntRange(0, c.Usable-1).Draw(t, "at"), rapid.SampledFrom([]int{10, 1000, 1000000}).Draw(t, "factor")})
	}
	return c
}

func checkNoise[T dsp.Number](k *verifkit.K, c noiseCase, rel float64) error {
	rng := verifkit.NewRand(c.Seed)
	unit := float64(c.Base) * math.Pow(10, float64(c.Exp))
	n := c.Usable + 2*c.Edge
	build := func(edgeLevel int, factor float64) dsp.Block[T] {
		r := *rng
		psd := make(dsp.Block[T], n)
		for i := 0; i < c.Usable; i++ {
			v := unit * float64(c.Steps[i*len(c.Steps)/c.Usable]) / 100
			v *= 1 + float64(c.Spread)/100*(2*r.Float()-1)
			psd[c.Edge+i] = T(v * factor)
		}
		for _, s := range c.Strong {
			psd[c.Edge+s[0]] = T(unit * float64(s[1]) * factor)
		}
		for i := 0; i < c.Edge; i++ {
			psd[i] = T(unit * float64(edgeLevel) / 100 * factor)
			psd[n-1-i] = T(unit * float64(edgeLevel) / 100 * factor)
		}
		return psd
	}
	psd := build(c.EdgeLevel, 1)
	floor, variance := dsp.FindNoiseFloor(psd, c.Edge)

	w := c.Usable / 10
	best := math.Inf(1)
	type window struct{ mean, variance float64 }
	var windows []window
	for from := c.Edge; from+w <= n-c.Edge; from += w {
		var sum, dev float64
		for i := from; i < from+w; i++ {
			sum += float64(psd[i])
		}
		mean := sum / float64(w)
		for i := from; i < from+w; i++ {
			dev += (float64(psd[i]) - mean) * (float64(psd[i]) - mean)
		}
		windows = append(windows, window{mean, dev / float64(w)})
		best = math.Min(best, mean)
	}
	near := func(a, b float64) bool { return math.Abs(a-b) <= rel*(math.Abs(a)+math.Abs(b))+1e-300 }
	if !near(float64(floor), best) {
		return fmt.Errorf("noise floor is %v, the quietest stretch has %v", floor, best)
	}
	ok := false
	for _, win := range windows {
		// the variance of any stretch that is minimal (several may be, up to rounding)
		if near(win.mean, best) && math.Abs(variance-win.variance) <= 1e-5*math.Abs(win.variance)+1e-5*win.mean*win.mean {
			ok = true
		}
	}
	if !ok {
		return fmt.Errorf("variance %v does not belong to the quietest stretch (noise floor %v): %v", variance, floor, windows)
	}
	// the edges have no influence
	floor2, variance2 := dsp.FindNoiseFloor(build(c.EdgeLevel*7+3, 1), c.Edge)
	if floor2 != floor || variance2 != variance {
		return fmt.Errorf("with other values in the edges the noise floor changes from %v (%v) to %v (%v)", floor, variance, floor2, variance2)
	}
	// it scales with the input (factor is a power of two: exact)
	floor3, _ := dsp.FindNoiseFloor(build(c.EdgeLevel, float64(c.Scale)), c.Edge)
	if !near(float64(floor3), float64(floor)*float64(c.Scale)) {
		return fmt.Errorf("noise floor %v becomes %v when the input is multiplied by %d", floor, floor3, c.Scale)
	}
	k.NonTrivial()
	if c.Usable%10 == 0 {
		k.Label("divisible by ten")
	}
	if len(c.Strong) > 0 {
		k.Label("with strong signals")
	}
	return nil
}

func TestVerif_C19_NoiseFloor(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "every case (at least 10 usable bins)"}, genNoise,
		func(k *verifkit.K, c noiseCase) error {
			if c.Wide {
				return checkNoise[float64](k, c, 1e-9)
			}
			return checkNoise[float32](k, c, 1e-6)
		})
}
