package cwx

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/cw"
	vk "github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C08

type transmission struct {
	WPM     float64
	Lead    string
	Text    string
	Carrier float64 // length in dits of a carrier before the transmission, 0: none
	Jitter  float64
	Pause   float64 // dits after the transmission
}

type c08Case struct {
	Rate, Block int
	Phase       float64
	Silence     float64 // before the first transmission, in its dits
	Seed        uint64
	Sent        []transmission
}

type outWriter struct {
	b strings.Builder
	n int
}

func (w *outWriter) Write(p []byte) (int, error) { w.n++; return w.b.Write(p) }

const letters = "abcdefghijklmnopqrstuvwxyz0123456789/?=,.-+:;'\"()_@äöü[]%~§"
const edgeLetters = "abcdfghijklmnopqrsuvwxyz0123456789/?=,.-+:;'\"()_@äöü[]%~§"

func genWord(t *rapid.T, min int) string {
	all, edge := []rune(letters), []rune(edgeLetters)
	n := rapid.IntRange(min, 7).Draw(t, "len")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i == 0 || i == n-1 {
			b.WriteRune(rapid.SampledFrom(edge).Draw(t, "c"))
		} else {
			b.WriteRune(rapid.SampledFrom(all).Draw(t, "c"))
		}
	}
	return b.String()
}

func genSentence(t *rapid.T, max, minLen int) string {
	n := rapid.IntRange(1, max).Draw(t, "words")
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, genWord(t, minLen))
	}
	return strings.Join(ws, " ")
}

// the speed of consecutive transmissions changes by up to this factor
const maxChange = 1.8

// tick rates: sample rate and block size
var tickRates = [][2]int{{48000, 512}, {48000, 240}, {96000, 512}, {44100, 441}, {8000, 80}, {192000, 2048}, {12000, 128}, {20000, 100}, {48000, 480}, {48000, 128}}

func ditTicks(rate, block int, wpm float64) float64 {
	return 1.2 / wpm * float64(rate) / float64(block)
}

func runC08(k *vk.K, c c08Case) error {
	rng := vk.NewRand(c.Seed)
	out := &outWriter{}
	d := cw.NewDecoder(out, c.Rate, c.Block)
	tick := func(key *vk.Keying) {
		state := key.Sampler()
		for i := 0; float64(i) < key.Now; i++ {
			d.Tick(state(float64(i) + 0.5))
		}
	}
	tick(&vk.Keying{Now: c.Silence * ditTicks(c.Rate, c.Block, c.Sent[0].WPM)})
	for i, s := range c.Sent {
		dit := ditTicks(c.Rate, c.Block, s.WPM)
		before := out.b.Len()
		key := &vk.Keying{Now: c.Phase}
		if s.Carrier > 0 {
			key.Carrier(s.Carrier * dit)
			key.Pause(40 * dit)
			k.Label("carrier")
		}
		text := s.Text
		if s.Lead != "" {
			text = s.Lead + " " + s.Text
		}
		key.Text(text, dit, s.Jitter, rng)
		key.Pause(s.Pause * dit)
		tick(key)
		got := strings.TrimSpace(out.b.String()[before:])
		k.Label("wpm %d", int(s.WPM)/8*8)
		k.Label("dit ticks %d", int(dit)/4*4)
		if len(s.Text) > 3 {
			k.NonTrivial()
		}
		if s.Lead == "" || (s.WPM >= 15 && s.WPM <= 24 && s.Jitter <= 0.05 && i == 0) {
			if got != text {
				return fmt.Errorf("transmission %d: sent %q at %.1f wpm (dit %.2f ticks), decoded %q", i, text, s.WPM, dit, got)
			}
			continue
		}
		if !strings.HasSuffix(got, " "+s.Text) {
			return fmt.Errorf("transmission %d: sent %q at %.1f wpm (dit %.2f ticks), decoded %q", i, text, s.WPM, dit, got)
		}
	}
	return nil
}

func genC08(t *rapid.T) c08Case {
	tr := rapid.SampledFrom(tickRates).Draw(t, "rate")
	c := c08Case{Rate: tr[0], Block: tr[1], Phase: rapid.Float64Range(0, 3).Draw(t, "phase"), Seed: rapid.Uint64().Draw(t, "seed"),
		Silence: rapid.Float64Range(8, 60).Draw(t, "silence")}
	n := rapid.IntRange(1, 3).Draw(t, "n")
	maxWPM := min(46, 1.2/2.34*float64(c.Rate)/float64(c.Block))
	for i := 0; i < n; i++ {
		s := transmission{Pause: rapid.Float64Range(40, 80).Draw(t, "pause")}
		if i == 0 && rapid.IntRange(0, 2).Draw(t, "nolead") == 0 {
			s.WPM = rapid.Float64Range(18, 22).Draw(t, "wpm")
		} else {
			lo, hi := 8.0, maxWPM
			if i > 0 {
				prev := c.Sent[i-1].WPM
				lo, hi = max(lo, prev/maxChange), min(hi, prev*maxChange)
			}
			s.WPM = rapid.Float64Range(lo, hi).Draw(t, "wpm")
			s.Lead = rapid.SampledFrom([]string{"vvv", "vvv vvv", "cq cq cq"}).Draw(t, "lead")
		}
		s.Jitter = rapid.SampledFrom([]float64{0, 0, 0.03, 0.05, 0.09}).Draw(t, "jitter")
		dit := ditTicks(c.Rate, c.Block, s.WPM)
		if dit < 4 {
			s.Jitter = 0
		} else if dit < 6 {
			s.Jitter = min(s.Jitter, 0.03)
		}
		minLen := 1 // many words of one character need more precise timing
		if dit < 6 || s.Jitter > 0.05 {
			minLen = 3
		}
		if rapid.IntRange(0, 3).Draw(t, "withcarrier") == 0 {
			s.Carrier = rapid.Float64Range(80, 200).Draw(t, "carrier")
		}
		s.Text = genSentence(t, 5, minLen)
		c.Sent = append(c.Sent, s)
	}
	return c
}

func TestVerif_C08_Text(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 12000, Rule: "a transmission of more than three characters is decoded"}, genC08, runC08)
}

var _ = utf8.RuneError
