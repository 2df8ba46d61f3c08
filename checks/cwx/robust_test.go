package cwx

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	dcw "github.com/ftl/digimodes/cw"

	"github.com/ftl/sdrainer/cw"
	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/scope"
)

// ---------------------------------------------------------------- C09

type countingScope struct{ n int }

func (s *countingScope) Active() bool                             { return true }
func (s *countingScope) ShowTimeFrame(f *scope.TimeFrame)         { s.n++ }
func (s *countingScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.n++ }

type keyingPart struct {
	Op   string  // runs, text, reset
	Runs []int   `json:",omitempty"` // lengths of alternating on and off runs, beginning with on
	Text string  `json:",omitempty"`
	WPM  float64 `json:",omitempty"`
	Jit  float64 `json:",omitempty"`
	Seed uint64  `json:",omitempty"`
}

type c09Case struct {
	Rate, Block int
	Parts       []keyingPart
}

func genRuns(t *rapid.T) []int {
	n := rapid.IntRange(1, 60).Draw(t, "runs")
	class := rapid.IntRange(0, 4).Draw(t, "class")
	var runs []int
	for i := 0; i < n; i++ {
		switch class {
		case 0: // anything
			runs = append(runs, rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17, 20, 30, 60, 200, 1000}).Draw(t, "run"))
		case 1: // dits and dahs of arbitrary order with single tick glitches
			runs = append(runs, rapid.SampledFrom([]int{1, 4, 4, 5, 5, 6, 12, 13, 15, 18, 35, 42}).Draw(t, "run"))
		case 2: // only short runs: many elements per character
			runs = append(runs, rapid.IntRange(2, 7).Draw(t, "run"))
		case 3: // many elements in one character
			if i%2 == 0 {
				runs = append(runs, rapid.SampledFrom([]int{2, 3, 4, 5, 6, 7}).Draw(t, "on"))
			} else {
				runs = append(runs, rapid.SampledFrom([]int{2, 2, 3, 3, 4, 12}).Draw(t, "off"))
			}
		default:
			runs = append(runs, rapid.IntRange(1, 90).Draw(t, "run"))
		}
	}
	return runs
}

func genC09(t *rapid.T) c09Case {
	tr := rapid.SampledFrom(tickRates).Draw(t, "rate")
	c := c09Case{Rate: tr[0], Block: tr[1]}
	n := rapid.IntRange(1, 4).Draw(t, "parts")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 3).Draw(t, "op") {
		case 0:
			c.Parts = append(c.Parts, keyingPart{Op: "text", Text: genSentence(t, 3, 1), WPM: rapid.Float64Range(5, 60).Draw(t, "wpm"),
				Jit: rapid.Float64Range(0, 0.3).Draw(t, "jit"), Seed: rapid.Uint64().Draw(t, "seed")})
		default:
			c.Parts = append(c.Parts, keyingPart{Op: "runs", Runs: genRuns(t)})
		}
		if i < n-1 && rapid.IntRange(0, 2).Draw(t, "reset") == 0 {
			c.Parts = append(c.Parts, keyingPart{Op: "reset"})
		}
	}
	return c
}

// states expands the part into tick states
func (p keyingPart) states(rate, block int) []bool {
	var result []bool
	switch p.Op {
	case "runs":
		for i, n := range p.Runs {
			for j := 0; j < n; j++ {
				result = append(result, i%2 == 0)
			}
		}
	case "text":
		key := &vk.Keying{}
		key.Text(p.Text, ditTicks(rate, block, p.WPM), p.Jit, vk.NewRand(p.Seed))
		state := key.Sampler()
		for i := 0; float64(i) < key.Now; i++ {
			result = append(result, state(float64(i)+0.5))
		}
	}
	return result
}

func countElements(text string) (elements, unknown int) {
	for _, r := range text {
		if r == 0xA6 {
			unknown++
		} else {
			elements += len(dcw.Code[r])
		}
	}
	return elements, unknown
}

const flushTicks = 6000

func runC09(k *vk.K, c c09Case) error {
	var out, scoped bytes.Buffer
	plain := cw.NewDecoder(&out, c.Rate, c.Block)
	withScope := cw.NewDecoder(&scoped, c.Rate, c.Block)
	sc := &countingScope{}
	withScope.SetScope(sc)

	// since the last reset
	var fresh bytes.Buffer
	ref := cw.NewDecoder(&fresh, c.Rate, c.Block)
	mark := 0
	onRuns, onLen, maxOn, shortRuns := 0, 0, 0, 0
	resets := 0
	var writeErr error

	written := 0
	tick := func(s bool) {
		plain.Tick(s)
		withScope.Tick(s)
		ref.Tick(s)
		if s {
			onLen++
		} else if onLen > 0 {
			if onLen >= 2 {
				onRuns++
				maxOn = max(maxOn, onLen)
				if onLen < 8 {
					shortRuns++
				}
			}
			onLen = 0
		}
		// nothing is written before it was keyed
		if n := out.Len(); n != written && writeErr == nil {
			written = n
			if e, u := countElements(out.String()[mark:]); e+u > onRuns {
				writeErr = fmt.Errorf("%q consists of at least %d elements, but the key was down only %d times when it was written", out.String()[mark:], e+u, onRuns)
			}
		}
	}
	check := func(final bool) error {
		if writeErr != nil {
			return writeErr
		}
		got := out.String()[mark:]
		if got != fresh.String() {
			return fmt.Errorf("%d resets: after the last reset the decoder wrote %q, a new decoder %q", resets, got, fresh.String())
		}
		elements, unknown := 0, 0
		for _, r := range got {
			switch {
			case r == ' ':
			case r == 0xA6:
				unknown++
			case dcw.Code[r] != nil:
				elements += len(dcw.Code[r])
			default:
				return fmt.Errorf("wrote %q, which is not a Morse character", string(r))
			}
		}
		if elements+unknown > onRuns {
			return fmt.Errorf("%q consists of at least %d elements, but the key was down only %d times", got, elements+unknown, onRuns)
		}
		if final && unknown == 0 && maxOn < 8 && elements != onRuns {
			return fmt.Errorf("%q consists of %d elements, but the key was down %d times", got, elements, onRuns)
		}
		// a key-down period below eight ticks is never too long, and a character has at most eight elements
		if final && shortRuns > elements+8*unknown {
			return fmt.Errorf("the key was down %d times, but %q cannot consist of more than %d elements", shortRuns, got, elements+8*unknown)
		}
		if out.String() != scoped.String() {
			return fmt.Errorf("without scope %q, with a scope %q", out.String(), scoped.String())
		}
		return nil
	}
	for _, p := range c.Parts {
		if p.Op == "reset" {
			if err := check(false); err != nil {
				return err
			}
			plain.Reset()
			withScope.Reset()
			mark = out.Len()
			fresh.Reset()
			ref = cw.NewDecoder(&fresh, c.Rate, c.Block)
			onRuns, onLen, maxOn, shortRuns = 0, 0, 0, 0
			written = out.Len()
			resets++
			continue
		}
		for _, s := range p.states(c.Rate, c.Block) {
			tick(s)
		}
	}
	for i := 0; i < 3; i++ { // the end of the last run, however long the adapted gap threshold is
		tick(false)
	}
	for i := 0; i < flushTicks; i++ {
		tick(false)
	}
	if err := check(true); err != nil {
		return err
	}
	before := out.Len()
	for i := 0; i < flushTicks; i++ {
		plain.Tick(false)
	}
	if out.Len() != before {
		return fmt.Errorf("wrote %q after a long silence", out.String()[before:])
	}
	if sc.n == 0 {
		return fmt.Errorf("nothing was shown on the scope")
	}
	if strings.TrimSpace(out.String()) != "" {
		k.NonTrivial()
	}
	if resets > 0 {
		k.Label("reset")
	}
	if strings.ContainsRune(out.String(), 0xA6) {
		k.Label("unknown character")
	}
	return nil
}

func TestVerif_C09_AnyKeying(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 250, Rule: "something is written"}, genC09, runC09)
}

// A spectral demodulator is a threshold, a debouncer and a decoder; after a reset it is like new.
type c09Spectral struct {
	Rate, Block int
	Debounce    int
	Before      []int
	After       []keyingPart
	Threshold   float64
	Seed        uint64
}

func TestVerif_C09_SpectralReset(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 1500, Rule: "something is written after the reset"}, func(t *rapid.T) c09Spectral {
		tr := rapid.SampledFrom(tickRates).Draw(t, "rate")
		c := c09Spectral{Rate: tr[0], Block: tr[1], Debounce: rapid.IntRange(0, 4).Draw(t, "debounce"), Before: genRuns(t),
			Threshold: rapid.SampledFrom([]float64{-80, -10, 0, 0.5, 15}).Draw(t, "threshold"), Seed: rapid.Uint64().Draw(t, "seed")}
		if rapid.Bool().Draw(t, "text") {
			c.After = []keyingPart{{Op: "text", Text: genSentence(t, 2, 1), WPM: rapid.Float64Range(10, 40).Draw(t, "wpm")}}
		} else {
			c.After = []keyingPart{{Op: "runs", Runs: genRuns(t)}}
		}
		return c
	}, func(k *vk.K, c c09Spectral) error {
		var usedOut, freshOut, plainOut bytes.Buffer
		used := cw.NewSpectralDemodulator[float32, int](&usedOut, c.Rate, c.Block)
		used.SetSignalDebounce(c.Debounce)
		rng := vk.NewRand(c.Seed)
		value := func(s bool) float32 {
			if s {
				return float32(c.Threshold + 1e-3 + 20*rng.Float())
			}
			return float32(c.Threshold - 20*rng.Float())
		}
		for _, s := range (keyingPart{Op: "runs", Runs: c.Before}).states(c.Rate, c.Block) {
			used.Tick(value(s), float32(c.Threshold))
		}
		used.Reset()
		usedOut.Reset()
		fresh := cw.NewSpectralDemodulator[float32, int](&freshOut, c.Rate, c.Block)
		fresh.SetSignalDebounce(c.Debounce)
		plain := cw.NewDecoder(&plainOut, c.Rate, c.Block)
		tick := func(s bool) {
			v := value(s)
			used.Tick(v, float32(c.Threshold))
			fresh.Tick(v, float32(c.Threshold))
			plain.Tick(s)
		}
		for _, p := range c.After {
			for _, s := range p.states(c.Rate, c.Block) {
				tick(s)
			}
		}
		for i := 0; i < 4000; i++ {
			tick(false)
		}
		if usedOut.String() != freshOut.String() {
			return fmt.Errorf("after the reset %q, a new demodulator writes %q", usedOut.String(), freshOut.String())
		}
		if c.Debounce < 2 && freshOut.String() != plainOut.String() {
			return fmt.Errorf("demodulator wrote %q for values above and below the threshold, the decoder %q", freshOut.String(), plainOut.String())
		}
		if freshOut.Len() > 0 {
			k.NonTrivial()
		}
		k.Label("debounce %d", c.Debounce)
		return nil
	})
}

// Clearing forgets the pending character and nothing else.
type c09Clear struct {
	Rate, Block int
	WPM         float64
	First       string
	Elements    int // key-down elements of a dangling character before the clear
	Second      string
	Phase       float64
}

func TestVerif_C09_Clear(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 1500, Rule: "a character is pending when the decoder is cleared"}, func(t *rapid.T) c09Clear {
		tr := rapid.SampledFrom(tickRates).Draw(t, "rate")
		maxWPM := min(30, 1.2/4*float64(tr[0])/float64(tr[1]))
		return c09Clear{Rate: tr[0], Block: tr[1], WPM: rapid.Float64Range(14, maxWPM).Draw(t, "wpm"), First: genSentence(t, 3, 3),
			Elements: rapid.IntRange(0, 8).Draw(t, "elements"), Second: genSentence(t, 3, 3), Phase: rapid.Float64Range(0, 1).Draw(t, "phase")}
	}, func(k *vk.K, c c09Clear) error {
		var out bytes.Buffer
		d := cw.NewDecoder(&out, c.Rate, c.Block)
		dit := ditTicks(c.Rate, c.Block, c.WPM)
		tick := func(key *vk.Keying) {
			state := key.Sampler()
			for i := 0; float64(i) < key.Now; i++ {
				d.Tick(state(float64(i) + 0.5))
			}
		}
		key := &vk.Keying{Now: 20*dit + c.Phase}
		key.Text("vvv vvv "+c.First, dit, 0, nil)
		key.Pause(40 * dit)
		for i := 0; i < c.Elements; i++ {
			if i > 0 {
				key.Pause(dit)
			}
			key.Carrier(dit)
		}
		tick(key)
		d.Clear()
		before := out.Len()
		if c.Elements > 0 {
			k.NonTrivial()
		}
		key = &vk.Keying{Now: 20*dit + c.Phase}
		key.Text(c.Second, dit, 0, nil)
		key.Pause(40 * dit)
		tick(key)
		if got := strings.TrimSpace(out.String()[before:]); got != c.Second {
			return fmt.Errorf("%q was sent after the decoder was cleared with %d elements pending, decoded %q", c.Second, c.Elements, got)
		}
		return nil
	})
}

// A key-down that is too long spoils the character it belongs to, and no other one.
type c09TooLong struct {
	Rate, Block int
	WPM         float64
	Phase       float64
	Lead        string
	Before      []bool // elements of the spoilt character, true: dah
	Long        float64
	After       []bool
	Word        bool // a word gap follows, otherwise the gap of a character
	Text        string
}

func TestVerif_C09_TooLong(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 2000, Rule: "the spoilt character has other elements"}, func(t *rapid.T) c09TooLong {
		tr := rapid.SampledFrom(tickRates).Draw(t, "rate")
		maxWPM := min(24, 1.2/5*float64(tr[0])/float64(tr[1]))
		return c09TooLong{Rate: tr[0], Block: tr[1], WPM: rapid.Float64Range(16, maxWPM).Draw(t, "wpm"), Phase: rapid.Float64Range(0, 1).Draw(t, "phase"),
			Lead: "vvv vvv " + genSentence(t, 2, 3), Before: rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "before"), Long: rapid.Float64Range(11, 15).Draw(t, "long"),
			After: rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "after"), Word: rapid.Bool().Draw(t, "word"), Text: genSentence(t, 2, 3)}
	}, func(k *vk.K, c c09TooLong) error {
		var out bytes.Buffer
		d := cw.NewDecoder(&out, c.Rate, c.Block)
		dit := ditTicks(c.Rate, c.Block, c.WPM)
		key := &vk.Keying{Now: 20*dit + c.Phase}
		key.Text(c.Lead, dit, 0, nil)
		key.Pause(7 * dit)
		element := func(dah bool) {
			if dah {
				key.Carrier(3 * dit)
			} else {
				key.Carrier(dit)
			}
		}
		for _, e := range c.Before {
			element(e)
			key.Pause(dit)
		}
		key.Carrier(c.Long * dit)
		for _, e := range c.After {
			key.Pause(dit)
			element(e)
		}
		want := c.Lead + " "
		if len(c.Before)+len(c.After) > 0 {
			want += "\u00a6"
			k.NonTrivial()
		}
		if c.Word {
			key.Pause(7 * dit)
			want += " "
		} else {
			key.Pause(3 * dit)
		}
		want += c.Text
		key.Text(c.Text, dit, 0, nil)
		key.Pause(40 * dit)
		state := key.Sampler()
		for i := 0; float64(i) < key.Now; i++ {
			d.Tick(state(float64(i) + 0.5))
		}
		clean := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		if got := clean(out.String()); got != clean(want) {
			return fmt.Errorf("%q was keyed (\u00a6: with a key-down of %.1f dits), decoded %q", clean(want), c.Long, got)
		}
		return nil
	})
}
