//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C03

type ctlOp struct {
	Op   string // feed, center, vfo, threshold, edge, silence, busy, debounce, scope, get, stop, start, restart
	N    int    `json:",omitempty"`
	Wait bool   `json:",omitempty"` // let everything settle after the operation
}

type lifeCase struct {
	Mode     string
	Band     band
	Ops      []ctlOp   // by the device's goroutine, which also feeds
	Parallel [][]ctlOp // by other goroutines meanwhile, without feed
}

// small bands with blocks of 10.67 ms
func genSmallBand(t *rapid.T) band {
	r := rapid.SampledFrom([][2]int{{12000, 128}, {12000, 128}, {6000, 64}}).Draw(t, "rate")
	return band{Rate: r[0], Block: r[1], Sigma: 0.016, Seed: rapid.Uint64().Draw(t, "seed")}
}

const smallEdge = 7

func genCtl(t *rapid.T, parallel bool) ctlOp {
	ops := []string{"center", "vfo", "vfo", "threshold", "edge", "silence", "busy", "debounce", "scope", "get", "stop", "start", "restart"}
	op := ctlOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), Wait: rapid.Bool().Draw(t, "wait")}
	switch op.Op {
	case "center":
		op.N = rapid.IntRange(1000000, 30000000).Draw(t, "n")
	case "vfo":
		op.N = rapid.IntRange(-6500, 6500).Draw(t, "n")
	case "threshold":
		op.N = rapid.IntRange(5, 25).Draw(t, "n")
	case "edge":
		op.N = rapid.IntRange(2, smallEdge).Draw(t, "n")
	case "silence":
		op.N = rapid.IntRange(1, 30).Draw(t, "n")
	case "busy":
		op.N = rapid.IntRange(1, 60).Draw(t, "n")
	case "debounce":
		op.N = rapid.IntRange(0, 3).Draw(t, "n")
	}
	return op
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Mode: rapid.SampledFrom([]string{"strain", "strain", "decode"}).Draw(t, "mode"), Band: genSmallBand(t)}
	limit := float64(c.Band.Rate/2) - 10*c.Band.binWidth()
	n := rapid.IntRange(0, 4).Draw(t, "stations")
	for i := 0; i < n; i++ {
		if s, ok := genStation(t, c.Band.Sources, 300, limit); ok {
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "crowd") == 0 { // more carriers than listeners
		for i := 0; i < 40; i++ {
			off := (float64(i) - 20) * 2.5 * c.Band.binWidth()
			if math.Abs(off) < limit {
				c.Band.Sources = append(c.Band.Sources, source{Kind: "carrier", Offset: off, SNR: 30})
			}
		}
	}
	n = rapid.IntRange(2, 14).Draw(t, "ops")
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "feed") {
			c.Ops = append(c.Ops, ctlOp{Op: "feed", N: rapid.SampledFrom([]int{1, 30, 101, 101, 250, 800, 2000}).Draw(t, "blocks")})
		} else {
			c.Ops = append(c.Ops, genCtl(t, false))
		}
	}
	if rapid.Bool().Draw(t, "parallel") {
		for i := rapid.IntRange(1, 2).Draw(t, "goroutines"); i > 0; i-- {
			var ops []ctlOp
			for j := rapid.IntRange(1, 8).Draw(t, "pops"); j > 0; j-- {
				ops = append(ops, ctlOp{Op: "sleep", N: rapid.IntRange(0, 4000).Draw(t, "ms")}, genCtl(t, true))
			}
			c.Parallel = append(c.Parallel, ops)
		}
	}
	return c
}

func (s *session) control(op ctlOp) {
	switch op.Op {
	case "feed":
		for i := 0; i < op.N; i++ {
			s.feed(s.g.next())
		}
	case "sleep":
		time.Sleep(time.Duration(op.N) * time.Millisecond)
	case "center":
		s.rc.SetCenterFrequency(op.N)
	case "vfo":
		s.rc.SetVFOOffset(op.N)
	case "threshold":
		s.rc.SetPeakThreshold(float32(op.N))
	case "edge":
		s.rc.SetEdgeWidth(op.N)
	case "silence":
		s.rc.SetSilenceTimeout(time.Duration(op.N) * time.Second)
	case "busy":
		s.rc.SetAttachmentTimeout(time.Duration(op.N) * time.Second)
	case "debounce":
		s.rc.SetSignalDebounce(op.N)
	case "scope":
		s.rc.SetScope(&spectralSink{})
	case "get":
		s.rc.CenterFrequency()
	case "start":
		s.rc.Start(s.b.Rate, s.b.Block)
	case "stop":
		s.rc.Stop()
		s.rec.add(event{Kind: "STOPPED"})
	case "restart":
		s.rc.Stop()
		s.rec.add(event{Kind: "STOPPED"})
		s.rc.Start(s.b.Rate, s.b.Block)
	}
	if op.Wait {
		synctest.Wait()
	}
}

// the last value set by each of the goroutines
func last(c lifeCase, name string) map[int]bool {
	result := map[int]bool{}
	for _, ops := range append([][]ctlOp{c.Ops}, c.Parallel...) {
		for i := len(ops) - 1; i >= 0; i-- {
			if ops[i].Op == name {
				result[ops[i].N] = true
				break
			}
		}
	}
	return result
}

func checkLifecycle(events []event, limit int, strictStops bool) error {
	active := map[string]int{}
	for i, e := range events {
		f, on := active[e.Listener]
		switch e.Kind {
		case "activated":
			if on {
				return fmt.Errorf("event %d (%v): the listener is active already", i, e)
			}
			active[e.Listener] = e.Frequency
			if len(active) > limit {
				return fmt.Errorf("event %d (%v): %d listeners are active, the limit is %d", i, e, len(active), limit)
			}
		case "deactivated":
			if !on || f != e.Frequency {
				return fmt.Errorf("event %d (%v): active %v, activated at %d", i, e, on, f)
			}
			delete(active, e.Listener)
		case "STOPPED":
			if strictStops && len(active) > 0 {
				return fmt.Errorf("event %d: after the stop there are active listeners: %v", i, active)
			}
		default:
			if !on || f != e.Frequency {
				return fmt.Errorf("event %d (%v): report of a listener that is not active on this frequency (active %v, %d)", i, e, on, f)
			}
		}
	}
	return nil
}

func runLife(t *testing.T, k *vk.K, c lifeCase) error {
	_, restore, err := captureStdout()
	if err != nil {
		return err
	}
	defer restore()
	return bubble(t, func() error {
		mode, limit := rx.StrainMode, 30
		if c.Mode == "decode" {
			mode, limit = rx.DecodeMode, 1
		}
		s := newSession(c.Band, mode)
		s.rc.SetEdgeWidth(smallEdge)
		s.rc.SetCenterFrequency(7000000)
		s.rc.Start(c.Band.Rate, c.Band.Block)

		var wg sync.WaitGroup
		for _, ops := range c.Parallel {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, op := range ops {
					op.Wait = false // only the main goroutine may wait for the bubble
					s.control(op)
				}
			}()
		}
		center := 7000000
		for _, op := range c.Ops {
			s.control(op)
			if op.Op == "center" {
				center = op.N
			}
			if len(c.Parallel) == 0 && op.Op == "get" {
				if got := s.rc.CenterFrequency(); got != center {
					return fmt.Errorf("CenterFrequency is %d after it was set to %d", got, center)
				}
			}
		}
		wg.Wait()
		s.rc.Stop()
		s.rec.add(event{Kind: "STOPPED"})
		stopped := len(s.rec.list())
		// nothing moves any more
		for i := 0; i < 50; i++ {
			s.feed(s.g.next())
		}
		time.Sleep(5 * time.Minute)
		synctest.Wait()
		events := s.rec.list()
		if len(events) > stopped {
			return fmt.Errorf("reports after the stop: %s", dump(events[stopped:]))
		}
		if err := checkLifecycle(events, limit, len(c.Parallel) == 0); err != nil {
			return fmt.Errorf("%v\n%s", err, dump(events))
		}
		// the frequencies that a VFO may have had
		frequencies := map[int]bool{}
		for _, ops := range append([][]ctlOp{c.Ops}, c.Parallel...) {
			for _, op := range ops {
				if op.Op != "vfo" {
					continue
				}
				frequencies[7000000+op.N] = true
				for _, ops := range append([][]ctlOp{c.Ops}, c.Parallel...) {
					for _, other := range ops {
						if other.Op == "center" {
							frequencies[other.N+op.N] = true
						}
					}
				}
			}
		}
		active := map[string]bool{}
		for _, e := range events {
			switch e.Kind {
			case "activated":
				if mode == rx.DecodeMode && !frequencies[e.Frequency] {
					return fmt.Errorf("%v: this is no frequency of the VFO\n%s", e, dump(events))
				}
				active[e.Listener] = true
			case "deactivated":
				delete(active, e.Listener)
			}
		}
		if len(active) > 0 {
			return fmt.Errorf("listeners are active after the stop: %v\n%s", active, dump(events))
		}
		// it can be used again
		centers, vfos := last(c, "center"), last(c, "vfo")
		vfo := len(vfos) > 0
		if len(centers) == 0 {
			centers[7000000] = true
		}
		if got := s.rc.CenterFrequency(); !centers[got] {
			return fmt.Errorf("CenterFrequency is %d after all, the last values set are %v", got, centers)
		}
		s.rc.Start(c.Band.Rate, c.Band.Block)
		s.feed(s.g.next())
		want := 0
		if mode == rx.DecodeMode {
			if vfo { // it still knows the VFO
				want = 1
			}
			if again := s.rec.list()[stopped:]; len(again) != want || (want == 1 && again[0].Kind != "activated") {
				return fmt.Errorf("after a new start the listener was not bound to the VFO (known %v): %s", vfo, dump(again))
			} else if want == 1 && !vfos[again[0].Frequency-s.rc.CenterFrequency()] {
				return fmt.Errorf("after a new start the listener is bound to %d, the last offsets set are %v: %s", again[0].Frequency-s.rc.CenterFrequency(), vfos, dump(again))
			}
			s.rc.SetVFOOffset(100)
			s.feed(s.g.next())
			again := s.rec.list()[stopped:]
			want = 2*want + 1
			if len(again) != want || again[want-1].Kind != "activated" || again[want-1].Frequency != s.rc.CenterFrequency()+100 {
				return fmt.Errorf("after a new start the listener was not bound to the new VFO: %s", dump(again))
			}
		}
		s.rc.Stop()
		again := s.rec.list()[stopped:]
		if err := checkLifecycle(append(append([]event{}, again...), event{Kind: "STOPPED"}), limit, true); err != nil {
			return fmt.Errorf("in the second run: %v\n%s", err, dump(again))
		}
		if mode == rx.DecodeMode && len(again) != want+1 {
			return fmt.Errorf("in the second run: %s", dump(again))
		}
		calls := 0
		for _, e := range events {
			if e.Kind == "activated" {
				k.NonTrivial()
			}
			if e.Call != "" {
				calls++
			}
		}
		k.Label("mode %s parallel %d", c.Mode, len(c.Parallel))
		if calls > 0 {
			k.Label("with callsigns")
		}
		return nil
	})
}

func TestVerif_C03_Lifecycle(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 150, Rule: "a listener is activated"}, genLife, func(k *vk.K, c lifeCase) error { return runLife(t, k, c) })
}
