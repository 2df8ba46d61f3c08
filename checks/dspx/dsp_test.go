package dspx

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C20

type rollingOp struct {
	Op    string     `json:"op"` // put, reset
	Value verifkit.F `json:"v"`
}

type rollingCase struct {
	Type string      `json:"type"`
	N    int         `json:"n"`
	Ops  []rollingOp `json:"ops"`
}

func genRolling(t *rapid.T) rollingCase {
	c := rollingCase{
		Type: rapid.SampledFrom([]string{"float64", "float32", "int"}).Draw(t, "type"),
		N:    rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 70)).Draw(t, "n"),
	}
	value := rapid.Custom(func(t *rapid.T) rollingOp {
		if rapid.IntRange(0, 30).Draw(t, "reset") == 0 {
			return rollingOp{Op: "reset"}
		}
		v := float64(rapid.IntRange(-1000, 1000).Draw(t, "v"))
		if c.Type != "int" {
			v /= 8
			switch rapid.IntRange(0, 25).Draw(t, "special") {
			case 0:
				v = math.Inf(-1)
			case 1:
				v = math.NaN()
			case 2:
				v = math.Inf(1)
			case 3:
				v *= 1e6
			}
		}
		return rollingOp{Op: "put", Value: verifkit.F(v)}
	})
	c.Ops = rapid.SliceOfN(value, 1, 150).Draw(t, "ops")
	return c
}

func checkRolling[T dsp.Number](k *verifkit.K, c rollingCase) error {
	mean, variance := dsp.NewRollingMean[T](c.N), dsp.NewRollingVariance[T](c.N)
	window := make([]float64, c.N) // missing values count as zero
	puts, unclean := 0, 0
	isInt := c.Type == "int"
	for i, op := range c.Ops {
		if op.Op == "reset" {
			mean.Reset()
			variance.Reset()
			clear(window)
			if mean.Get() != 0 || variance.Get() != 0 {
				return fmt.Errorf("step %d: mean %v and variance %v after a reset", i, mean.Get(), variance.Get())
			}
			puts = 0
			continue
		}
		v := float64(op.Value)
		window = append(window[1:], float64(T(v)))
		puts++
		gotMean, gotVar := mean.Put(T(v)), variance.Put(T(v))
		if same := func(a, b T) bool { return a == b || (a != a && b != b) }; !same(gotMean, mean.Get()) || !same(gotVar, variance.Get()) {
			return fmt.Errorf("step %d: Put returns %v and %v, Get returns %v and %v", i, gotMean, gotVar, mean.Get(), variance.Get())
		}
		finite := true
		var sum, scale float64
		for _, w := range window {
			if math.IsNaN(w) || math.IsInf(w, 0) {
				finite = false
			}
			sum += w
			scale = math.Max(scale, math.Abs(w))
		}
		if !finite {
			unclean++
			k.Label("window with a value that is not finite")
			continue
		}
		if unclean > 0 {
			k.Label("finite again")
		}
		if puts > c.N {
			k.NonTrivial()
			k.Label("window overflow")
		}
		want := sum / float64(c.N)
		tol := 1e-6*scale + 1e-12
		if c.Type == "float32" {
			tol = 1e-4*scale + 1e-12
		}
		if isInt {
			tol = 1 // integer division
		}
		if !(math.Abs(float64(gotMean)-want) <= tol) {
			return fmt.Errorf("step %d: mean is %v, the last %d values have %v", i, gotMean, c.N, want)
		}
		if isInt {
			continue // integer variance is not meaningful to the last unit
		}
		var dev float64
		for _, w := range window {
			dev += (w - want) * (w - want)
		}
		wantVar := dev / float64(c.N)
		if !(math.Abs(float64(gotVar)-wantVar) <= tol*(1+4*scale)) {
			return fmt.Errorf("step %d: variance is %v, the last %d values have %v", i, gotVar, c.N, wantVar)
		}
	}
	return nil
}

func TestVerif_C20_Rolling(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 2500, Rule: "more values than the window holds"}, genRolling,
		func(k *verifkit.K, c rollingCase) error {
			switch c.Type {
			case "float64":
				return checkRolling[float64](k, c)
			case "float32":
				return checkRolling[float32](k, c)
			default:
				return checkRolling[int](k, c)
			}
		})
}

type historyCase struct {
	Length  int   `json:"length"`
	Values  []int `json:"values"`
	ResetAt int   `json:"reset_at"`
	N       int   `json:"n"`
	Idx     []int `json:"idx"`
	Int     bool  `json:"int"`
}

func checkHistory[T dsp.Number](k *verifkit.K, c historyCase) error {
	h := dsp.NewRollingHistory[T](c.Length)
	model := make([]T, c.Length) // index 0: most recent
	for i, v := range c.Values {
		if i == c.ResetAt {
			h.Reset()
			clear(model)
			k.Label("reset")
		}
		h.Put(T(v))
		copy(model[1:], model)
		model[0] = T(v)
		if i < len(c.Values)-3 {
			continue
		}
		for x := 1; x <= c.Length; x++ {
			if h.Get(x) != model[x-1] {
				return fmt.Errorf("after %d values: value %d is %v, want %v", i+1, x, h.Get(x), model[x-1])
			}
		}
		var sum T
		mx, mn := model[0], model[0]
		for _, m := range model[:c.N] {
			sum += m
			mx, mn = max(mx, m), min(mn, m)
		}
		mean := float64(sum) / float64(c.N)
		var dev float64
		for _, m := range model[:c.N] {
			dev += (float64(m) - mean) * (float64(m) - mean)
		}
		dev /= float64(c.N)
		if h.Sum(c.N) != sum || h.Max(c.N) != mx || h.Min(c.N) != mn {
			return fmt.Errorf("after %d values: sum, max, min of the last %d are %v %v %v, want %v %v %v", i+1, c.N, h.Sum(c.N), h.Max(c.N), h.Min(c.N), sum, mx, mn)
		}
		if h.Mean(c.N) != T(mean) {
			return fmt.Errorf("after %d values: mean of the last %d is %v, want %v", i+1, c.N, h.Mean(c.N), T(mean))
		}
		if math.Abs(h.Variance(c.N)-dev) > 1e-9*(1+dev) || math.Abs(h.SDev(c.N)-math.Sqrt(dev)) > 1e-9*(1+dev) {
			return fmt.Errorf("after %d values: variance and deviation of the last %d are %v %v, want %v", i+1, c.N, h.Variance(c.N), h.SDev(c.N), dev)
		}
		sum = 0
		mx, mn = model[c.Idx[0]-1], model[c.Idx[0]-1]
		for _, x := range c.Idx {
			sum += model[x-1]
			mx, mn = max(mx, model[x-1]), min(mn, model[x-1])
		}
		if h.SumAt(c.Idx...) != sum || h.MaxAt(c.Idx...) != mx || h.MinAt(c.Idx...) != mn {
			return fmt.Errorf("after %d values: sum, max, min at %v are %v %v %v, want %v %v %v", i+1, c.Idx, h.SumAt(c.Idx...), h.MaxAt(c.Idx...), h.MinAt(c.Idx...), sum, mx, mn)
		}
	}
	if len(c.Values) > c.Length {
		k.NonTrivial()
	}
	return nil
}

func TestVerif_C20_History(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "more values than the history holds"},
		func(t *rapid.T) historyCase {
			c := historyCase{Length: rapid.IntRange(1, 20).Draw(t, "length"), Int: rapid.Bool().Draw(t, "int")}
			c.Values = rapid.SliceOfN(rapid.IntRange(-500, 500), 1, 50).Draw(t, "values")
			c.ResetAt = rapid.IntRange(-30, 50).Draw(t, "reset_at")
			c.N = rapid.IntRange(1, c.Length).Draw(t, "n")
			c.Idx = rapid.SliceOfN(rapid.IntRange(1, c.Length), 1, 5).Draw(t, "idx")
			return c
		},
		func(k *verifkit.K, c historyCase) error {
			if c.Int {
				return checkHistory[int](k, c)
			}
			return checkHistory[float64](k, c)
		})
}

type blockCase struct {
	Values []int `json:"values"`
	From   int   `json:"from"`
	To     int   `json:"to"`
}

func TestVerif_C20_Block(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "section of at least two values that is not the whole block"},
		func(t *rapid.T) blockCase {
			c := blockCase{Values: rapid.SliceOfN(rapid.IntRange(-200, 200), 1, 40).Draw(t, "values")}
			c.From = rapid.IntRange(0, len(c.Values)-1).Draw(t, "from")
			c.To = rapid.IntRange(c.From, len(c.Values)-1).Draw(t, "to")
			return c
		},
		func(k *verifkit.K, c blockCase) error {
			b := make(dsp.Block[float64], len(c.Values))
			for i, v := range c.Values {
				b[i] = float64(v)
			}
			section := c.Values[c.From : c.To+1]
			sum, mx := 0, section[0]
			for _, v := range section {
				sum += v
				mx = max(mx, v)
			}
			if len(section) > 1 && len(section) < len(c.Values) {
				k.NonTrivial()
			}
			if got := b.Sum(c.From, c.To); got != float64(sum) {
				return fmt.Errorf("sum is %v, want %v", got, sum)
			}
			if got := b.Mean(c.From, c.To); math.Abs(got-float64(sum)/float64(len(section))) > 1e-9 {
				return fmt.Errorf("mean is %v, want %v", got, float64(sum)/float64(len(section)))
			}
			if got, at := b.Max(c.From, c.To); got != float64(mx) || at < c.From || at > c.To || b[at] != got {
				return fmt.Errorf("maximum of %v in %d-%d is %v at %d, want %v", c.Values, c.From, c.To, got, at, mx)
			}
			sub := b.Subblock(c.From, c.To)
			if sub.Size() != len(section) || b.Size() != len(c.Values) {
				return fmt.Errorf("section has %d values, want %d", sub.Size(), len(section))
			}
			for i, v := range section {
				if sub[i] != float64(v) {
					return fmt.Errorf("section has %v at %d, want %v", sub[i], i, v)
				}
			}
			f := make(dsp.FilterBlock, len(c.Values))
			abs := 0
			for i, v := range c.Values {
				f[i] = float32(v)
				abs = max(abs, v, -v)
			}
			if f.Max() != float32(abs) {
				return fmt.Errorf("largest absolute value of %v is %v, want %v", c.Values, f.Max(), abs)
			}
			return nil
		})
}

// ---------------------------------------------------------------- C21

type goertzelCase struct {
	Pitch  int     `json:"pitch"`
	Rate   int     `json:"rate"`
	Ratio  float64 `json:"ratio"` // milliseconds
	Amp    int     `json:"amp"`   // percent
	Phase  int     `json:"phase"` // hundredths
	Off    int     `json:"off"`   // tone frequency relative to the pitch in hundredths of the bin spacing
	Seed   uint64  `json:"seed"`
	Blocks int     `json:"blocks"`
}

func TestVerif_C21_Goertzel(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 2500, Rule: "every case"},
		func(t *rapid.T) goertzelCase {
			return goertzelCase{
				Pitch:  rapid.IntRange(250, 1600).Draw(t, "pitch"),
				Rate:   rapid.OneOf(rapid.SampledFrom([]int{8000, 11025, 44100, 48000}), rapid.IntRange(8000, 96000)).Draw(t, "rate"),
				Ratio:  rapid.SampledFrom([]float64{5, 5, 5, 4, 8, 10, 20}).Draw(t, "ratio"),
				Amp:    rapid.IntRange(1, 100).Draw(t, "amp"),
				Phase:  rapid.IntRange(0, 628).Draw(t, "phase"),
				Off:    rapid.IntRange(-600, 600).Draw(t, "off"),
				Seed:   rapid.Uint64().Draw(t, "seed"),
				Blocks: rapid.IntRange(1, 12).Draw(t, "blocks"),
			}
		},
		func(k *verifkit.K, c goertzelCase) error {
			k.NonTrivial()
			ratio := c.Ratio / 1000
			mk := func() *dsp.Goertzel {
				if c.Ratio == 5 {
					return dsp.NewDefaultGoertzel(float64(c.Pitch), c.Rate)
				}
				return dsp.NewGoertzel(float64(c.Pitch), c.Rate, ratio)
			}
			g := mk()
			n := g.Blocksize()
			period := int(math.Round(float64(c.Rate) / float64(c.Pitch)))
			if n <= 0 || n%period != 0 {
				return fmt.Errorf("block size %d is not a whole number of periods of %d samples", n, period)
			}
			if math.Abs(float64(n)-ratio*float64(c.Rate)) > float64(period)/2+1e-6 {
				return fmt.Errorf("block size %d is not the multiple of %d nearest to %v", n, period, ratio*float64(c.Rate))
			}
			if d := g.Tick().Seconds() - float64(n)/float64(c.Rate); math.Abs(d) > 1e-8 {
				return fmt.Errorf("one block of %d samples at %d/s takes %v", n, c.Rate, g.Tick())
			}
			// the bin of the filter is the one nearest to the pitch
			bin := math.Floor(0.5 + float64(n)*float64(c.Pitch)/float64(c.Rate))
			binFreq := bin * float64(c.Rate) / float64(n)
			tone := func(freq, amp, phase float64, n int) dsp.FilterBlock {
				b := make(dsp.FilterBlock, n)
				for i := range b {
					b[i] = float32(amp * math.Sin(phase+2*math.Pi*freq*float64(i)/float64(c.Rate)))
				}
				return b
			}
			amp, phase := float64(c.Amp)/100, float64(c.Phase)/100
			dft := func(b dsp.FilterBlock) float64 {
				var sum complex128
				for i, v := range b {
					sum += complex(float64(v), 0) * cmplx.Exp(complex(0, -2*math.Pi*binFreq*float64(i)/float64(c.Rate)))
				}
				return cmplx.Abs(sum)
			}
			same := func(what string, b dsp.FilterBlock) error {
				// |X|^2 is what the filter computes: compare the squares so that cancellation near zero does not matter
				got, want := g.Magnitude(b), dft(b)
				if math.IsNaN(got) {
					got = 0 // square root of a tiny negative rounding error
				}
				energy := 0.0
				for _, v := range b {
					energy += float64(v) * float64(v)
				}
				if math.Abs(got*got-want*want) > 1e-6*energy*float64(n)+1e-12 {
					return fmt.Errorf("magnitude of %s is %v, Fourier transform at %v Hz gives %v", what, got, binFreq, want)
				}
				return nil
			}
			rng := verifkit.NewRand(c.Seed)
			noise := make(dsp.FilterBlock, n)
			for i := range noise {
				noise[i] = float32(rng.Norm())
			}
			spacing := float64(c.Rate) / float64(n)
			toneFreq := float64(c.Pitch) + float64(c.Off)/100*spacing
			for what, b := range map[string]dsp.FilterBlock{
				"noise":               noise,
				"a tone at the pitch": tone(float64(c.Pitch), amp, phase, n),
				"a tone elsewhere":    tone(toneFreq, amp, phase, n),
				"a tone at the bin":   tone(binFreq, 1, phase, n),
			} {
				if err := same(what, b); err != nil {
					return err
				}
			}
			m1 := g.Magnitude(tone(binFreq, 1, 0, n))
			m2 := g.Magnitude(tone(binFreq, amp, phase, n))
			if math.Abs(m2-amp*m1) > 1e-3*m1 {
				return fmt.Errorf("magnitude of the bin frequency is %v for amplitude 1 and phase 0, and %v for amplitude %v and phase %v", m1, m2, amp, phase)
			}
			// levels above full scale: the filter adapts to the level of the tone, up and down again
			if float64(c.Pitch)/spacing >= 2 {
				g = mk()
				for round := 0; round < 2; round++ {
					loud, normal := 1.1+6*rng.Float(), 1.1+rng.Float()
					for i := 0; i < 30; i++ {
						if _, state, _, err := g.Detect(tone(binFreq, loud, phase, n)); err != nil || (i >= 20 && !state) {
							return fmt.Errorf("tone of amplitude %v in round %d: state %v in block %d, %v", loud, round, state, i, err)
						}
					}
					if value, state, _, err := g.Detect(tone(binFreq, 0.5*loud, phase, n)); err != nil || state {
						return fmt.Errorf("tone of amplitude %v right after many of %v: state %v, %v, %v", 0.5*loud, loud, state, value, err)
					}
					for i := 0; i < 30; i++ {
						if _, state, _, err := g.Detect(tone(binFreq, normal, phase, n)); err != nil || (i >= 20 && !state) {
							return fmt.Errorf("tone of amplitude %v after one of %v in round %d: state %v in block %d, %v", normal, loud, round, state, i, err)
						}
					}
				}
				k.Label("level changes")
			}
			// detection
			g = mk()
			if g.MagnitudeThreshold() != dsp.DefaultMagnitudeThreshold {
				return fmt.Errorf("threshold is %v", g.MagnitudeThreshold())
			}
			if _, _, taken, err := g.Detect(make([]float32, n-1)); err == nil || taken != 0 {
				return fmt.Errorf("a buffer of %d samples is accepted for a block size of %d", n-1, n)
			}
			mismatch := math.Abs(float64(c.Pitch)-binFreq) / spacing
			extra := rng.Intn(5)
			for i := 0; i < c.Blocks; i++ {
				_, state, taken, err := g.Detect(make([]float32, n+extra))
				if err != nil || taken != n || state {
					return fmt.Errorf("silence: state %v, %d samples taken of %d, %v", state, taken, n, err)
				}
				if mismatch <= 0.15 && float64(c.Pitch)/spacing >= 2 {
					_, state, taken, err = g.Detect(append(tone(float64(c.Pitch), 1, phase, n), noise[:min(extra, n)]...))
					if err != nil || taken != n || !state {
						return fmt.Errorf("full tone at the pitch %d: state %v, %d samples taken of %d, %v", c.Pitch, state, taken, n, err)
					}
					k.Label("detection of the pitch")
				}
				off := math.Abs(toneFreq - binFreq)
				if off > 1.6*spacing && toneFreq > 1.6*spacing && toneFreq < float64(c.Rate)/2-1.6*spacing {
					_, state, taken, err = g.Detect(tone(toneFreq, amp, phase, n))
					if err != nil || taken != n || state {
						return fmt.Errorf("tone at %v instead of %v: state %v, %d samples taken of %d, %v", toneFreq, c.Pitch, state, taken, n, err)
					}
					k.Label("rejection of another tone")
				}
				if amp <= 0.55 {
					_, state, _, _ = g.Detect(tone(binFreq, amp, phase, n))
					if state {
						return fmt.Errorf("tone of amplitude %v is detected", amp)
					}
					g.SetMagnitudeThreshold(amp * 0.7)
					_, state, _, _ = g.Detect(tone(binFreq, amp, phase, n))
					if !state {
						return fmt.Errorf("tone of amplitude %v is not detected with threshold %v", amp, g.MagnitudeThreshold())
					}
					g.SetMagnitudeThreshold(dsp.DefaultMagnitudeThreshold)
					k.Label("threshold")
				}
			}
			return nil
		})
}

// ---------------------------------------------------------------- C22

type debounceCase struct {
	Threshold int      `json:"threshold"`
	Runs      []int    `json:"runs"`    // alternating run lengths, starting with off
	Changes   [][2]int `json:"changes"` // before input i the threshold becomes n
}

func TestVerif_C22_Debouncer(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 6000, Rule: "threshold above one and both shorter and longer runs, or a change of the threshold"},
		func(t *rapid.T) debounceCase {
			c := debounceCase{
				Threshold: rapid.IntRange(-1, 7).Draw(t, "threshold"),
				Runs:      rapid.SliceOfN(rapid.IntRange(0, 10), 1, 25).Draw(t, "runs"),
			}
			k := rapid.IntRange(0, 3).Draw(t, "changes")
			for i := 0; i < k; i++ {
				c.Changes = append(c.Changes, [2]int{rapid.IntRange(0, 60).Draw(t, "at"), rapid.IntRange(0, 7).Draw(t, "n")})
			}
			return c
		},
		func(k *verifkit.K, c debounceCase) error {
			d := dsp.NewBoolDebouncer(c.Threshold)
			n := c.Threshold
			state, raw, run := false, false, 0
			i := 0
			short, long := false, false
			for ri, length := range c.Runs {
				in := ri%2 == 1
				for j := 0; j < length; j++ {
					for _, ch := range c.Changes {
						if ch[0] == i {
							n = ch[1]
							d.SetThreshold(n)
							k.NonTrivial()
							k.Label("threshold change")
						}
					}
					if d.Threshold() != n {
						return fmt.Errorf("input %d: threshold reads %d, want %d", i, d.Threshold(), n)
					}
					if i == 0 || in != raw {
						run = 0
					}
					run++
					raw = in
					if n < 2 || run >= n {
						state = in
					}
					if got := d.Debounce(in); got != state {
						return fmt.Errorf("input %d: %d times %v with threshold %d gives %v, want %v", i, run, in, n, got, state)
					}
					i++
				}
				short = short || (length > 0 && length < n)
				long = long || length >= n
			}
			if n > 1 && short && long {
				k.NonTrivial()
				k.Label("short and long runs")
			}
			return nil
		})
}
