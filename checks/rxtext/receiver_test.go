//go:build go1.25

package rxtext

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C13: the last callsign of a station that falls silent, in a whole receiver

type lastCall struct {
	Call  string
	Times int
	WPM   float64
	Bin   int
	SNR   float64
	Tail  string // after the last callsign
	Seed  uint64
}

type callEvent struct {
	T    time.Duration
	Call string
	N    int
}

type callRecorder struct {
	mu     sync.Mutex
	start  time.Time
	events []callEvent
	off    int
}

func (r *callRecorder) ListenerActivated(string, int)       {}
func (r *callRecorder) ListenerDeactivated(string, int)     { r.mu.Lock(); r.off++; r.mu.Unlock() }
func (r *callRecorder) CallsignSpotted(string, string, int) {}
func (r *callRecorder) SpotTimeout(string, string, int)     {}
func (r *callRecorder) CallsignDecoded(_, c string, _, n, _ int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, callEvent{time.Since(r.start), strings.ToUpper(c), n})
}

func TestVerif_C13_Receiver(t *testing.T) {
	const rate, block = 48000, 512
	vk.Run(t, vk.Opts{Checks: 60, Rule: "nothing follows the last callsign"}, func(t *rapid.T) lastCall {
		c := lastCall{Times: rapid.IntRange(1, 3).Draw(t, "times"), WPM: rapid.Float64Range(17, 27).Draw(t, "wpm"),
			Bin: rapid.IntRange(-150, 150).Draw(t, "bin"), SNR: rapid.Float64Range(38, 42).Draw(t, "snr"), Seed: rapid.Uint64().Draw(t, "seed"),
			Tail: rapid.SampledFrom([]string{"", "", " k", " pse k"}).Draw(t, "tail")}
		const edge = "abcdfghijklmnopqrsuvwxyz"
		c.Call = rapid.SampledFrom([]string{"dl", "k", "w", "g", "ok", "sp", "ja", "oh"}).Draw(t, "prefix") + chars("0123456789", 1, 1).Draw(t, "digit") + chars(edge, 1, 3).Draw(t, "suffix")
		return c
	}, func(k *vk.K, c lastCall) error {
		warmUp()
		rec := &callRecorder{}
		var end float64
		err := vk.Bubble(t, func() error {
			rec.start = time.Now()
			r := rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
			r.AddReporter(rec)
			r.SetSilenceTimeout(12 * time.Second)
			r.SetCenterFrequency(7020000)
			r.Start(rate, block)
			key := &vk.Keying{Now: 1.5}
			key.Text("vvv vvv vvv cq cq"+strings.Repeat(" "+c.Call, c.Times)+c.Tail, 1.2/c.WPM, 0, nil)
			end = key.Now
			state := key.Sampler()
			rng := vk.NewRand(c.Seed)
			const sigma = 8e-3
			amp := math.Sqrt(math.Pow(10, c.SNR/10) * 2 * sigma * sigma / block)
			var noise [8192]float32
			for i := range noise {
				noise[i] = float32(sigma * rng.Norm())
			}
			for n := 0; float64(n)*block/rate < end+9; n++ {
				buf := make([]float32, 2*block)
				offset := rng.Intn(len(noise))
				for i := range buf {
					buf[i] = noise[(offset+i*7)%len(noise)]
				}
				for i := 0; i < block; i++ {
					if state(float64(n*block+i) / rate) {
						sin, cos := math.Sincos(2 * math.Pi * float64(c.Bin*i%block) / block)
						buf[2*i] += float32(amp * cos)
						buf[2*i+1] += float32(amp * sin)
					}
				}
				r.IQData(rate, buf)
				synctest.Wait()
				time.Sleep(time.Second * block / rate)
			}
			rec.mu.Lock()
			defer rec.mu.Unlock()
			off := rec.off
			rec.mu.Unlock()
			r.Stop()
			rec.mu.Lock()
			if off > 0 {
				return fmt.Errorf("the listener was released before the silence timeout")
			}
			return nil
		})
		if err != nil {
			return err
		}
		n := 0
		for _, e := range rec.events {
			if e.Call == strings.ToUpper(c.Call) {
				n++
			}
		}
		if n != c.Times {
			return fmt.Errorf("%s was sent %d times until %.1f s, decoded %d times until %.1f s: %v", c.Call, c.Times, end, n, end+9, rec.events)
		}
		if c.Tail == "" {
			k.NonTrivial()
			last := rec.events[len(rec.events)-1].T.Seconds()
			if last < end+4.9 || last > end+7.6 {
				return fmt.Errorf("%s was sent until %.2f s and reported at %.2f s", c.Call, end, last)
			}
		}
		k.Label("times %d", c.Times)
		return nil
	})
}
