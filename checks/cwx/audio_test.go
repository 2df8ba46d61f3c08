//go:build go1.25

package cwx

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/cw"
	vk "github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C10

type c10Case struct {
	Rate, Pitch int
	Amp         float64
	Scale       float64 // 0: automatic, otherwise fixed so that Amp*Scale is about 1
	Magnitude   float64
	Debounce    int
	WPM         float64
	Preset      int
	Jitter      float64
	Phase       float64
	Noise       float64
	Text        string
	OffPitch    int // Hz, a keyed tone before the text; 0: none
	Channels    int
	Other       string // contents of the other channels: silence, noise, tone
	Buffer      int
	Chunks      []int
	Seed        uint64
}

// pitchFits tells if the filter's bin is close to the pitch (see C21)
func pitchFits(pitch, rate int) bool {
	period := math.Round(float64(rate) / float64(pitch))
	n := math.Round(0.005*float64(rate)/period) * period
	if n == 0 {
		return false
	}
	bin := n * float64(pitch) / float64(rate)
	return math.Abs(bin-math.Round(bin)) < 0.1
}

func genC10(t *rapid.T) c10Case {
	c := c10Case{
		Rate:      rapid.SampledFrom([]int{8000, 11025, 16000, 22050, 44100, 48000}).Draw(t, "rate"),
		Magnitude: rapid.SampledFrom([]float64{0.75, 0.7, 0.6}).Draw(t, "magnitude"),
		Debounce:  rapid.IntRange(1, 3).Draw(t, "debounce"),
		WPM:       rapid.Float64Range(12, 32).Draw(t, "wpm"),
		Jitter:    rapid.SampledFrom([]float64{0, 0.03}).Draw(t, "jitter"),
		Phase:     rapid.Float64Range(0, 1).Draw(t, "phase"),
		Channels:  rapid.SampledFrom([]int{1, 1, 2, 2, 3, 6}).Draw(t, "channels"),
		Other:     rapid.SampledFrom([]string{"silence", "noise", "tone"}).Draw(t, "other"),
		Buffer:    rapid.SampledFrom([]int{1, 7, 100, 4096, 20000}).Draw(t, "buffer"),
		Seed:      rapid.Uint64().Draw(t, "seed"),
		Text:      genSentence(t, 2, 3),
	}
	var pitches []int
	for p := 300; p <= 1200; p += 10 {
		if pitchFits(p, c.Rate) {
			pitches = append(pitches, p)
		}
	}
	c.Pitch = rapid.SampledFrom(pitches).Draw(t, "pitch")
	if rapid.Bool().Draw(t, "auto") {
		c.Amp = rapid.Float64Range(0.12, 1).Draw(t, "amp")
	} else {
		c.Amp = rapid.Float64Range(0.01, 1).Draw(t, "amp")
		c.Scale = 1 / c.Amp
	}
	c.Noise = c.Amp * rapid.SampledFrom([]float64{0, 0, 0.02, 0.05}).Draw(t, "noise")
	c.Preset = rapid.IntRange(int(math.Ceil(c.WPM*0.85)), int(c.WPM*1.15)).Draw(t, "preset")
	if rapid.Bool().Draw(t, "withoff") {
		c.OffPitch = c.Pitch + rapid.IntRange(500, 1500).Draw(t, "off")
	}
	if c.Channels == 1 {
		c.Other = "none"
	}
	c.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 64, 127, 480, 1000, 4096, 50000}), 1, 8).Draw(t, "chunks")
	return c
}

// audio builds the samples of the first channel
// and the number of samples before the text begins
func (c c10Case) audio() ([]float32, int) {
	rng := vk.NewRand(c.Seed)
	var result []float32
	off := 0
	phase := c.Phase * 2 * math.Pi
	add := func(key *vk.Keying, freq int) {
		state := key.Sampler()
		n := int(key.Now * float64(c.Rate))
		for i := 0; i < n; i++ {
			v := c.Noise * (2*rng.Float() - 1)
			phase += 2 * math.Pi * float64(freq) / float64(c.Rate)
			if state(float64(i) / float64(c.Rate)) {
				v += c.Amp * math.Sin(phase)
			}
			result = append(result, float32(v))
		}
	}
	dit := 1.2 / c.WPM
	if c.OffPitch > 0 {
		key := &vk.Keying{Now: 0.2 + c.Phase*0.01}
		key.Text("cq k", dit, c.Jitter, rng)
		key.Pause(10 * dit)
		add(key, c.OffPitch)
		off = len(result)
	}
	key := &vk.Keying{Now: 10*dit + c.Phase*0.01}
	key.Text("vvv "+c.Text, dit, c.Jitter, rng)
	key.Pause(1.5 * dit) // the last character is still pending
	add(key, c.Pitch)
	return result, off
}

func (c c10Case) interleaved(first []float32) []float32 {
	if c.Channels == 1 {
		return first
	}
	rng := vk.NewRand(c.Seed + 1)
	result := make([]float32, 0, len(first)*c.Channels)
	for i, s := range first {
		result = append(result, s)
		for ch := 1; ch < c.Channels; ch++ {
			v := 0.0
			switch c.Other {
			case "noise":
				v = 2*rng.Float() - 1
			case "tone":
				v = math.Sin(2 * math.Pi * float64(c.Pitch) * float64(i) / float64(c.Rate))
			}
			result = append(result, float32(v))
		}
	}
	return result
}

func runC10(t *testing.T, k *vk.K, c c10Case) error {
	return vk.Bubble(t, func() error {
		out := &outWriter{}
		d := cw.NewAudioDemodulator(out, float64(c.Pitch), c.Rate, c.Buffer)
		defer d.Close()
		d.SetScale(c.Scale)
		d.SetMaxScale(12)
		d.SetMagnitudeThreshold(c.Magnitude)
		d.SetDebounceThreshold(c.Debounce)
		d.SetChannelCount(c.Channels)
		d.PresetWPM(c.Preset)
		if got := d.WPM(); got != c.Preset {
			return fmt.Errorf("WPM is %d after it was set to %d", got, c.Preset)
		}
		if got := d.MagnitudeThreshold(); got != c.Magnitude {
			return fmt.Errorf("MagnitudeThreshold is %v after it was set to %v", got, c.Magnitude)
		}
		if got := d.DebounceThreshold(); got != c.Debounce {
			return fmt.Errorf("DebounceThreshold is %v after it was set to %v", got, c.Debounce)
		}
		if got := d.MaxScale(); got != 12 {
			return fmt.Errorf("MaxScale is %v after it was set to 12", got)
		}
		mono, off := c.audio()
		samples := c.interleaved(mono)
		off *= c.Channels
		for i := 0; len(samples) > 0; i++ {
			n := min(c.Chunks[i%len(c.Chunks)], len(samples))
			if off > 0 {
				n = min(n, off)
			}
			written, err := d.Write(samples[:n])
			if err != nil || written != n {
				return fmt.Errorf("Write of %d samples returned %d, %v", n, written, err)
			}
			samples = samples[n:]
			if off > 0 && off <= n {
				synctest.Wait()
				if out.b.Len() > 0 {
					return fmt.Errorf("a tone at %d Hz was decoded as %q with the pitch %d", c.OffPitch, out.b.String(), c.Pitch)
				}
			}
			off -= n
		}
		synctest.Wait() // all is processed
		d.Close()
		if got := strings.TrimSpace(out.b.String()); !strings.HasSuffix(got, " "+c.Text) {
			return fmt.Errorf("sent %q, decoded %q", "vvv "+c.Text, got)
		}
		k.NonTrivial()
		k.Label("channels %d", c.Channels)
		k.Label("off pitch %v", c.OffPitch > 0)
		k.Label("auto scale %v", c.Scale == 0)
		return nil
	})
}

func TestVerif_C10_Text(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 30, Rule: "the text is decoded"}, genC10, func(k *vk.K, c c10Case) error { return runC10(t, k, c) })
}

// Every setting reads back as it was set, whatever runs at the same time, and every call returns, also around the close.
type c10Op struct {
	Op    string
	Value float64
}

type c10Settings struct {
	Buffer   int
	Channels int
	Writes   int
	Ops      []c10Op
	CloseAt  int // index of the operation before which the demodulator is closed, -1: after all
	Closers  int
	CloseMS  int
}

func TestVerif_C10_Settings(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 120, Rule: "a setting is read back"}, func(t *rapid.T) c10Settings {
		c := c10Settings{Buffer: rapid.SampledFrom([]int{1, 10, 1000}).Draw(t, "buffer"), Channels: rapid.IntRange(1, 3).Draw(t, "channels"),
			Writes: rapid.IntRange(0, 30).Draw(t, "writes"), Closers: rapid.IntRange(1, 3).Draw(t, "closers"), CloseMS: rapid.IntRange(0, 3).Draw(t, "closems")}
		n := rapid.IntRange(1, 30).Draw(t, "ops")
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, c10Op{rapid.SampledFrom([]string{"wpm", "magnitude", "debounce", "maxscale", "scale"}).Draw(t, "op"),
				float64(rapid.IntRange(1, 40).Draw(t, "value"))})
		}
		c.CloseAt = rapid.IntRange(-1, n).Draw(t, "closeat")
		return c
	}, func(k *vk.K, c c10Settings) error {
		return vk.Bubble(t, func() error {
			d := cw.NewAudioDemodulator(&outWriter{}, 700, 8000, c.Buffer)
			d.SetChannelCount(c.Channels)
			var done sync.WaitGroup
			done.Add(1)
			go func() { // the audio device
				defer done.Done()
				buf := make([]float32, 77)
				for i := 0; i < c.Writes; i++ {
					d.Write(buf)
					time.Sleep(time.Millisecond)
				}
			}()
			closeAll := func() {
				for i := 0; i < c.Closers; i++ {
					done.Add(1)
					go func() {
						defer done.Done()
						d.Close()
					}()
				}
				time.Sleep(time.Duration(c.CloseMS) * time.Millisecond)
			}
			closed := false
			for i, op := range c.Ops {
				if i == c.CloseAt {
					closeAll()
					closed = true
				}
				var got float64
				switch op.Op {
				case "wpm":
					d.PresetWPM(int(op.Value))
					got = float64(d.WPM())
				case "magnitude":
					d.SetMagnitudeThreshold(op.Value)
					got = d.MagnitudeThreshold()
				case "debounce":
					d.SetDebounceThreshold(int(op.Value))
					got = float64(d.DebounceThreshold())
				case "maxscale":
					d.SetMaxScale(op.Value)
					got = d.MaxScale()
				case "scale":
					d.SetScale(op.Value)
					continue
				}
				if !closed {
					k.NonTrivial()
					if got != op.Value {
						return fmt.Errorf("%s is %v after it was set to %v", op.Op, got, op.Value)
					}
				}
			}
			if !closed {
				closeAll()
			}
			d.Close()
			n, _ := d.Write(make([]float32, 3*c.Buffer+10))
			_ = n
			done.Wait()
			k.Label("closed before the last operation %v", closed)
			return nil
		})
	})
}
