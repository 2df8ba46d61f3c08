//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C06

// A fault is a stretch of unusual blocks.
type fault struct {
	Kind  string
	N     int     // number of blocks
	Value float64 `json:",omitempty"`
	Rate  int     `json:",omitempty"` // wrong sample rate
	Size  int     `json:",omitempty"` // wrong block size (samples)
	Burst bool    `json:",omitempty"` // without any pause between the blocks
	Feed  float64 `json:",omitempty"` // seconds of normal signal afterwards
}

type faultCase struct {
	Band   band
	Mode   string
	Faults []fault
}

var faultKinds = []string{"rate", "size", "zero", "zero", "nan", "nanpart", "inf", "inf", "neginf", "infpart", "huge", "huge", "tiny", "constant", "nil", "empty", "quiet", "loud", "pulse", "gap", "mixed"}

func genFaults(t *rapid.T) faultCase {
	c := faultCase{Band: genSmallBand(t), Mode: rapid.SampledFrom([]string{"strain", "strain", "decode"}).Draw(t, "mode")}
	limit := float64(c.Band.Rate/2) - 10*c.Band.binWidth()
	for i := rapid.IntRange(1, 2).Draw(t, "stations"); i > 0; i-- {
		if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	for i := rapid.IntRange(1, 5).Draw(t, "faults"); i > 0; i-- {
		f := fault{Kind: rapid.SampledFrom(faultKinds).Draw(t, "kind"), N: rapid.OneOf(rapid.SampledFrom([]int{1, 2, 3, 60, 100}), rapid.IntRange(1, 700)).Draw(t, "n"),
			Burst: rapid.IntRange(0, 2).Draw(t, "burst") == 0}
		switch f.Kind {
		case "rate":
			f.Rate = rapid.SampledFrom([]int{0, -1, 1, 8000, 12001, 48000, 24000}).Draw(t, "rate")
		case "size":
			f.Size = rapid.SampledFrom([]int{0, 1, 7, 63, 65, 127, 129, 256, 512, 4096}).Draw(t, "size")
		case "huge":
			f.Value = rapid.SampledFrom([]float64{1e3, 1e10, 1e19, 3e38, math.MaxFloat32}).Draw(t, "value")
		case "tiny":
			f.Value = rapid.SampledFrom([]float64{1e-10, 1e-20, 1e-38, 1e-44}).Draw(t, "value")
		case "constant":
			f.Value = rapid.SampledFrom([]float64{1, -1, 0.5}).Draw(t, "value")
		}
		if rapid.Bool().Draw(t, "between") {
			f.Feed = rapid.Float64Range(0.01, 8).Draw(t, "feed")
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func (f fault) block(s *session, rng *vk.Rand) (int, []float32) {
	rate := s.b.Rate
	buf := s.g.next()
	all := func(v float64) {
		for i := range buf {
			buf[i] = float32(v)
		}
	}
	some := func(v float64) { buf[rng.Intn(len(buf))] = float32(v) }
	kind := f.Kind
	if kind == "mixed" {
		kind = faultKinds[rng.Intn(len(faultKinds)-1)]
	}
	switch kind {
	case "rate":
		rate = f.Rate
	case "size":
		size := f.Size
		if size == s.b.Block {
			size++
		}
		buf = make([]float32, 2*size)
	case "zero":
		all(0)
	case "nan":
		all(math.NaN())
	case "nanpart":
		some(math.NaN())
	case "inf":
		all(math.Inf(1))
	case "neginf":
		all(math.Inf(-1))
	case "infpart":
		some(math.Inf(1 - 2*rng.Intn(2)))
	case "huge", "tiny":
		v := f.Value
		if v == 0 {
			v = 1e19
		}
		for i := range buf {
			buf[i] = float32((2*rng.Float() - 1) * v)
		}
	case "constant":
		all(f.Value)
	case "nil":
		buf = nil
	case "empty":
		buf = []float32{}
	case "quiet":
		for i := range buf {
			buf[i] *= 1e-6
		}
	case "loud":
		for i := range buf {
			buf[i] *= 1e4
		}
	case "pulse":
		all(0)
		some(1)
	case "gap":
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
	}
	return rate, buf
}

func TestVerif_C06_Faults(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 20, Rule: "a station is spotted or its text is printed after the faults"}, genFaults, func(k *vk.K, c faultCase) error {
		read, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		return bubble(t, func() error {
			mode := rx.StrainMode
			if c.Mode == "decode" {
				mode = rx.DecodeMode
			}
			s := newSession(c.Band, mode)
			s.rc.SetEdgeWidth(smallEdge)
			s.rc.Start(c.Band.Rate, c.Band.Block)
			vfo := int(math.Round(c.Band.Sources[0].Offset))
			s.rc.SetVFOOffset(vfo)
			rng := vk.NewRand(c.Band.Seed + 1)
			for _, f := range c.Faults {
				k.Label(f.Kind)
				for i := 0; i < f.N; i++ {
					rate, buf := f.block(s, rng)
					before := time.Now()
					s.rc.IQData(rate, buf)
					if d := time.Since(before); d > 0 {
						return fmt.Errorf("IQData blocked for %v", d)
					}
					if !f.Burst {
						synctest.Wait()
						time.Sleep(c.Band.blockTime())
					}
				}
				synctest.Wait()
				s.run(f.Feed)
			}
			back := time.Since(s.rec.start)
			printed := len(read())
			s.run(185)
			text := read()[printed:]
			s.rc.Stop()
			events := s.rec.list()
			if err := checkLifecycle(events, 30, true); err != nil {
				return fmt.Errorf("%v\n%s", err, dump(events))
			}
			if mode == rx.DecodeMode {
				call := c.Band.Sources[0].Call
				if n := strings.Count(text, call+" "); n < 3 {
					return fmt.Errorf("the text of %s at the VFO frequency was printed %d times after the faults: %q", call, n, text)
				}
				k.NonTrivial()
				return nil
			}
			for _, src := range c.Band.Sources {
				found := false
				for _, e := range events {
					found = found || (e.T > back && e.Kind == "spotted" && e.Call == strings.ToUpper(src.Call) && math.Abs(float64(e.Frequency)-src.Offset) <= c.Band.binWidth()+1)
				}
				if !found {
					return fmt.Errorf("%s at %.0f was not spotted in the three minutes after the faults (%v)\n%s", src.Call, src.Offset, back, dump(events))
				}
			}
			k.NonTrivial()
			return nil
		})
	})
}

type misfitCase struct {
	Band band
	At   []int // before these blocks there are blocks that do not fit
	Kind []fault
}

func genMisfit(t *rapid.T) misfitCase {
	c := misfitCase{Band: genSmallBand(t)}
	limit := float64(c.Band.Rate/2) - 10*c.Band.binWidth()
	if s, ok := genStation(t, nil, 3000, limit); ok {
		c.Band.Sources = append(c.Band.Sources, s)
	}
	for i := rapid.IntRange(1, 20).Draw(t, "n"); i > 0; i-- {
		c.At = append(c.At, rapid.IntRange(0, 1800).Draw(t, "at"))
		f := fault{Kind: rapid.SampledFrom([]string{"rate", "size", "nil", "empty"}).Draw(t, "kind"), N: rapid.IntRange(1, 150).Draw(t, "times")}
		f.Rate = rapid.SampledFrom([]int{0, -1, 1, 8000, 12001, 48000, 24000}).Draw(t, "rate")
		f.Size = rapid.SampledFrom([]int{0, 1, 7, 63, 65, 127, 129, 256, 512, 4096}).Draw(t, "size")
		c.Kind = append(c.Kind, f)
	}
	return c
}

// blocks that do not fit change nothing
func TestVerif_C06_Misfits(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 20, Rule: "a callsign is decoded"}, genMisfit, func(k *vk.K, c misfitCase) error {
		listen := func(with bool) (events []event, err error) {
			_, restore, err := captureStdout()
			if err != nil {
				return nil, err
			}
			defer restore()
			err = bubble(t, func() error {
				s := newSession(c.Band, rx.StrainMode)
				s.rc.SetEdgeWidth(smallEdge)
				s.rc.Start(c.Band.Rate, c.Band.Block)
				rng := vk.NewRand(1)
				for i := 0; i < 1900; i++ {
					for j, at := range c.At {
						if !with || at != i {
							continue
						}
						for n := 0; n < c.Kind[j].N; n++ {
							n0, rng0 := s.g.n, *s.g.rng
							rate, buf := c.Kind[j].block(s, rng)
							s.g.n, *s.g.rng = n0, rng0
							s.rc.IQData(rate, buf)
						}
					}
					s.feed(s.g.next())
				}
				s.rc.Stop()
				events = s.rec.list()
				return nil
			})
			return settle(events), err
		}
		want, err := listen(false)
		if err != nil {
			return err
		}
		got, err := listen(true)
		if err != nil {
			return err
		}
		for _, e := range want {
			if e.Call != "" {
				k.NonTrivial()
			}
		}
		if dump(want) != dump(got) {
			return fmt.Errorf("reports without the blocks that do not fit:\n%swith them:\n%s", dump(want), dump(got))
		}
		return nil
	})
}
