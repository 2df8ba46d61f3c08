//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

// ---------------------------------------------------------------- C05

type setting struct {
	Name  string
	Value float64
}

type settingsCase struct {
	Band     band
	Settings []setting
	Order    []int // the order of the settings in the second run
	When     []int // number of blocks before each of the settings (ascending), -1: before the start
	Seconds  float64
	Rand     int64
}

func (s *session) apply(x setting) {
	switch x.Name {
	case "threshold":
		s.rc.SetPeakThreshold(float32(x.Value))
	case "edge":
		s.rc.SetEdgeWidth(int(x.Value))
	case "silence":
		s.rc.SetSilenceTimeout(time.Duration(x.Value * float64(time.Second)))
	case "busy":
		s.rc.SetAttachmentTimeout(time.Duration(x.Value * float64(time.Second)))
	case "debounce":
		s.rc.SetSignalDebounce(int(x.Value))
	case "center":
		s.rc.SetCenterFrequency(int(x.Value))
	}
}

func genSettings(t *rapid.T) settingsCase {
	c := settingsCase{Band: genSmallBand(t), Seconds: float64(rapid.IntRange(20, 60).Draw(t, "seconds")), Rand: int64(rapid.IntRange(1, 1<<30).Draw(t, "rand"))}
	c.Band.Rolloff = rapid.Bool().Draw(t, "rolloff")
	limit := float64(c.Band.Rate/2) - 12*c.Band.binWidth()
	for i := rapid.IntRange(1, 3).Draw(t, "stations"); i > 0; i-- {
		if s, ok := genStation(t, c.Band.Sources, 2000, limit); ok {
			if rapid.IntRange(0, 3).Draw(t, "weak") == 0 {
				s.SNR = float64(rapid.IntRange(8, 30).Draw(t, "weaksnr"))
			}
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	for _, name := range []string{"threshold", "edge", "silence", "busy", "debounce", "center"} {
		if rapid.IntRange(0, 3).Draw(t, "with "+name) == 0 {
			continue
		}
		var v float64
		switch name {
		case "threshold":
			v = float64(rapid.IntRange(6, 30).Draw(t, name))
		case "edge":
			v = float64(rapid.IntRange(2, c.Band.Block/4).Draw(t, name))
		case "silence":
			v = float64(rapid.IntRange(1, 15).Draw(t, name))
		case "busy":
			v = float64(rapid.IntRange(2, 30).Draw(t, name))
		case "debounce":
			v = float64(rapid.SampledFrom([]int{0, 1, 2, 3, 6, 20, 60}).Draw(t, name))
		case "center":
			v = float64(rapid.IntRange(100000, 30000000).Draw(t, name))
		}
		c.Settings = append(c.Settings, setting{name, v})
	}
	if len(c.Settings) == 0 {
		c.Settings = []setting{{"debounce", 60}}
	}
	c.Order = rapid.Permutation(indices(len(c.Settings))).Draw(t, "order")
	last := -1
	for range c.Settings {
		last = max(last, rapid.SampledFrom([]int{-1, -1, 0, 0, 5, 20, 39}).Draw(t, "when"))
		c.When = append(c.When, last)
	}
	return c
}

func indices(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// runs the band; all settings are made before the start, or as the case says
func (c settingsCase) listen(t *testing.T, staged bool) ([]event, error) {
	var events []event
	_, restore, err := captureStdout()
	if err != nil {
		return nil, err
	}
	defer restore()
	err = bubble(t, func() error {
		rand.Seed(c.Rand)
		s := newSession(c.Band, rx.StrainMode)
		center := 0
		set := func(x setting) error {
			s.apply(x)
			if x.Name == "center" {
				center = int(x.Value)
			}
			if got := s.rc.CenterFrequency(); got != center {
				return fmt.Errorf("CenterFrequency is %d after it was set to %d", got, center)
			}
			return nil
		}
		next := 0
		apply := func(when int) error {
			for next < len(c.Settings) && (!staged || c.When[next] <= when) {
				i := next
				if staged {
					i = c.Order[next]
				}
				if err := set(c.Settings[i]); err != nil {
					return err
				}
				next++
			}
			return nil
		}
		if err := apply(-1); err != nil {
			return err
		}
		s.rc.Start(c.Band.Rate, c.Band.Block)
		for i := 0; i < c.Band.blocks(c.Seconds); i++ {
			if err := apply(i); err != nil {
				return err
			}
			synctest.Wait() // settings first, then the block
			s.feed(s.g.next())
		}
		s.rc.Stop()
		events = s.rec.list()
		return nil
	})
	return settle(events), err
}

// brings the reports into an order that does not depend on the schedule
func settle(events []event) []event {
	// the listeners report independently of each other
	sort.SliceStable(events, func(i, j int) bool {
		a, b := events[i], events[j]
		return a.T < b.T || (a.T == b.T && a.Listener < b.Listener)
	})
	// what is in the works when a listener is released may or may not be reported
	gone := map[string]bool{}
	for _, e := range events {
		if e.Kind == "deactivated" {
			gone[fmt.Sprint(e.T, e.Listener)] = true
		}
	}
	var kept []event
	for _, e := range events {
		if e.Kind == "activated" || e.Kind == "deactivated" || !gone[fmt.Sprint(e.T, e.Listener)] {
			kept = append(kept, e)
		}
	}
	return kept
}

func TestVerif_C05_When(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 20, Rule: "a listener is activated"}, genSettings, func(k *vk.K, c settingsCase) error {
		want, err := c.listen(t, false)
		if err != nil {
			return err
		}
		got, err := c.listen(t, true)
		if err != nil {
			return err
		}
		if len(want) > 0 {
			k.NonTrivial()
		}
		for _, s := range c.Settings {
			k.Label(s.Name)
		}
		for _, e := range want {
			k.Label(e.Kind)
		}
		for i := 0; i < max(len(got), len(want)); i++ {
			if i >= len(got) || i >= len(want) || got[i] != want[i] {
				return fmt.Errorf("report %d differs. All settings before the start:\n%s\nSettings made at blocks %v:\n%s", i, dump(want), c.When, dump(got))
			}
		}
		return nil
	})
}

type effectCase struct {
	Band     band
	What     string
	Value    float64
	Late     int // blocks before the setting is made, -1: before the start
	Center   int
	Occupied bool
}

func genEffect(t *rapid.T) effectCase {
	c := effectCase{Band: genSmallBand(t), What: rapid.SampledFrom([]string{"threshold", "debounce", "edge", "center", "vfo"}).Draw(t, "what"),
		Late: rapid.SampledFrom([]int{-1, 0, 10, 39}).Draw(t, "late"), Center: rapid.IntRange(100000, 30000000).Draw(t, "center")}
	c.Band.Rate, c.Band.Block = 12000, 128
	bin := rapid.IntRange(-48, 48).Draw(t, "bin")
	s := source{Kind: "carrier", Offset: float64(bin) * c.Band.binWidth(), SNR: 38, Phase: float64(rapid.IntRange(0, 627).Draw(t, "phase")) / 100}
	switch c.What {
	case "threshold":
		c.Value = float64(rapid.IntRange(8, 40).Draw(t, "threshold"))
		s.SNR = c.Value + rapid.SampledFrom([]float64{-10, -6, -4, 4, 6, 10}).Draw(t, "level")
	case "debounce", "center", "vfo":
		st, _ := genStation(t, nil, 0, 1000)
		st.Offset, st.SNR = s.Offset, float64(rapid.IntRange(36, 42).Draw(t, "snr"))
		st.WPM = float64(rapid.IntRange(16, 22).Draw(t, "slow")) // a dit is at least 5 blocks long
		s = st
		c.Value = float64(rapid.SampledFrom([]int{0, 1, 2, 25, 40}).Draw(t, "debounce"))
	case "edge":
		c.Band.Rolloff = true
		c.Value = float64(rapid.IntRange(14, 24).Draw(t, "edge"))
		s.Offset = math.Mod(s.Offset, 2500)
	}
	c.Band.Sources = []source{s}
	return c
}

func TestVerif_C05_Effect(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 60, Rule: "every case"}, genEffect, func(k *vk.K, c effectCase) error {
		var events []event
		read, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		src := c.Band.Sources[0]
		seconds := 15.0
		if c.What == "debounce" || c.What == "center" || c.What == "vfo" {
			seconds = 60
		}
		err = bubble(t, func() error {
			s := newSession(c.Band, rx.StrainMode)
			s.rc.SetEdgeWidth(smallEdge)
			if c.What != "center" {
				s.rc.SetCenterFrequency(c.Center)
			}
			set := func() {
				switch c.What {
				case "center":
					s.apply(setting{"center", float64(c.Center)})
				case "vfo":
				default:
					s.apply(setting{c.What, c.Value})
				}
			}
			if c.Late < 0 {
				set()
			}
			s.rc.Start(c.Band.Rate, c.Band.Block)
			if c.What == "vfo" {
				s.run(20)
				s.rc.SetVFOOffset(int(math.Round(src.Offset)))
				synctest.Wait()
			}
			for i := 0; i < c.Band.blocks(seconds); i++ {
				if i == c.Late {
					set()
					synctest.Wait()
				}
				s.feed(s.g.next())
			}
			s.rc.Stop()
			events = s.rec.list()
			return nil
		})
		if err != nil {
			return err
		}
		k.NonTrivial()
		k.Label("%s", c.What)
		var found, elsewhere, spotted, decoded bool
		for _, e := range events {
			near := math.Abs(float64(e.Frequency-c.Center)-src.Offset) <= c.Band.binWidth()+1
			switch e.Kind {
			case "activated":
				found = found || near
				elsewhere = elsewhere || !near
			case "spotted":
				spotted = spotted || (near && e.Call == strings.ToUpper(src.Call))
			}
			decoded = decoded || e.Kind == "decoded"
		}
		switch c.What {
		case "threshold":
			if want := src.SNR > c.Value; want != found || elsewhere {
				return fmt.Errorf("with a threshold of %.0f dB a carrier of %.0f dB was found: %v, found elsewhere: %v\n%s", c.Value, src.SNR, found, elsewhere, dump(events))
			}
		case "edge":
			if !found || elsewhere {
				return fmt.Errorf("with an edge width of %.0f bins the carrier was found: %v, found elsewhere: %v\n%s", c.Value, found, elsewhere, dump(events))
			}
		case "debounce":
			if want := c.Value < 5; spotted != want || decoded != want {
				return fmt.Errorf("with a debounce of %.0f blocks %s was decoded: %v, spotted: %v\n%s", c.Value, src.Call, decoded, spotted, dump(events))
			}
		case "center":
			if !spotted {
				return fmt.Errorf("%s at %.0f was not spotted there\n%s", src.Call, float64(c.Center)+src.Offset, dump(events))
			}
		case "vfo": // the text of the listener on the VFO frequency is shown
			if text := read(); !strings.Contains(text, src.Call) {
				return fmt.Errorf("%s, on the VFO frequency, was not printed: %q\n%s", src.Call, text, dump(events))
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- settings made while the receiver stops

type pendingCase struct {
	Band    band
	Mode    string
	Pending []setting // made by goroutines of their own while the receiver is busy; center, vfo, threshold, get, scope
	StopAt  int       // the stop is called before this setting
}

func genPending(t *rapid.T) pendingCase {
	c := pendingCase{Band: genSmallBand(t), Mode: rapid.SampledFrom([]string{"strain", "decode"}).Draw(t, "mode")}
	names := rapid.Permutation([]string{"center", "vfo", "threshold", "get", "scope"}).Draw(t, "names")
	for _, name := range names[:rapid.IntRange(1, len(names)).Draw(t, "count")] {
		x := setting{Name: name}
		switch name {
		case "center":
			x.Value = float64(rapid.IntRange(100000, 30000000).Draw(t, "value"))
		case "vfo":
			x.Value = float64(rapid.IntRange(-c.Band.Rate/3, c.Band.Rate/3).Draw(t, "value"))
		case "threshold":
			x.Value = float64(rapid.SampledFrom([]int{20, 40}).Draw(t, "value"))
		}
		c.Pending = append(c.Pending, x)
	}
	c.StopAt = rapid.IntRange(0, len(c.Pending)).Draw(t, "stop")
	c.Band.Sources = []source{{Kind: "carrier", Offset: float64(rapid.IntRange(-c.Band.Block/3, c.Band.Block/3).Draw(t, "bin")) * c.Band.binWidth(), SNR: 30}}
	return c
}

// busyScope keeps the receiver busy until it is told to go on
type busyScope struct {
	scope.Scope
	goOn <-chan struct{}
}

func (s busyScope) Active() bool                             { return true }
func (s busyScope) ShowSpectralFrame(f *scope.SpectralFrame) { <-s.goOn }

func TestVerif_C05_Stopping(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 70, Rule: "a setting is pending when the receiver is stopped"}, genPending, func(k *vk.K, c pendingCase) error {
		_, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		if c.StopAt > 0 {
			k.NonTrivial()
		}
		return bubble(t, func() error {
			mode := rx.StrainMode
			if c.Mode == "decode" {
				mode = rx.DecodeMode
			}
			s := newSession(c.Band, mode)
			goOn := make(chan struct{})
			// what is in effect after all
			center, vfo, threshold, sink := 7000000, 0, 15.0, &spectralSink{}
			s.rc.SetCenterFrequency(center)
			s.rc.SetVFOOffset(vfo)
			s.rc.SetEdgeWidth(smallEdge)
			s.rc.SetPeakThreshold(float32(threshold))
			s.rc.SetScope(busyScope{scope.NewNullScope(), goOn})
			s.rc.Start(c.Band.Rate, c.Band.Block)
			for i := 0; i < 110; i++ { // a frame is shown with the selection of peaks
				s.rc.IQData(c.Band.Rate, s.g.next())
			}
			synctest.Wait()

			done := make(chan string, len(c.Pending)+1)
			expect, scoped := 0, false
			stop := func() {
				expect++
				go func() { s.rc.Stop(); done <- "Stop" }()
				synctest.Wait()
			}
			for i, x := range c.Pending {
				if i == c.StopAt {
					break
				}
				expect++
				go func() {
					switch x.Name {
					case "vfo":
						s.rc.SetVFOOffset(int(x.Value))
					case "get":
						s.rc.CenterFrequency()
					case "scope":
						s.rc.SetScope(sink)
					default:
						s.apply(x)
					}
					done <- x.Name
				}()
				synctest.Wait()
				switch x.Name {
				case "center":
					center = int(x.Value)
				case "vfo":
					vfo = int(x.Value)
				case "threshold":
					threshold = x.Value
				case "scope":
					scoped = true
				}
			}
			stop()
			close(goOn)
			for i := 0; i < expect; i++ {
				select {
				case <-done:
				case <-time.After(time.Hour):
					return fmt.Errorf("a call does not return")
				}
			}
			if !scoped {
				s.rc.SetScope(sink)
			}
			if got := s.rc.CenterFrequency(); got != center {
				return fmt.Errorf("CenterFrequency is %d, but was set to %d", got, center)
			}
			before := len(s.rec.list())
			s.rc.Start(c.Band.Rate, c.Band.Block)
			for i := 0; i < 450; i++ {
				s.feed(s.g.next())
			}
			s.rc.Stop()
			events := s.rec.list()[before:]
			want := center + int(math.Round(c.Band.Sources[0].Offset))
			if c.Mode == "decode" {
				want = center + vfo
			}
			found := false
			for _, e := range events {
				if e.Kind == "activated" && math.Abs(float64(e.Frequency-want)) <= c.Band.binWidth()+1 {
					found = true
				} else if e.Kind == "activated" {
					return fmt.Errorf("the receiver listens to %d instead of %d\n%s", e.Frequency, want, dump(events))
				}
			}
			if expected := c.Mode == "decode" || threshold < 30; found != expected {
				return fmt.Errorf("the receiver listens to %d: %v, it should: %v (threshold %.0f)\n%s", want, found, expected, threshold, dump(events))
			}
			if len(sink.frames) == 0 {
				return fmt.Errorf("nothing is shown on the scope that was set")
			}
			return nil
		})
	})
}
