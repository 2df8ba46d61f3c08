//go:build go1.25

package rxe2e

import (
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/tci"
)

// C31: a receiver that gets its blocks from packets of a device behaves like one that is fed with the blocks directly.

type burst struct {
	Packets int    // without a pause in between
	Pause   int    // ms
	Before  string // what happens before
	Value   int
}

type blocksCase struct {
	Decode  bool
	Band    band
	Junk    bool // random samples instead of the band
	Center  int
	TRX     int
	IFLimit int
	VFO     int
	Early   map[string]int // settings before the connection
	Bursts  []burst
}

var blockSettings = []string{"threshold", "debounce", "silence", "attachment"}

func genSetting(t *rapid.T, name string) int {
	switch name {
	case "threshold":
		return rapid.IntRange(14, 22).Draw(t, "threshold")
	case "debounce":
		return rapid.IntRange(1, 4).Draw(t, "debounce")
	case "silence":
		return rapid.IntRange(1, 30).Draw(t, "silence")
	default:
		return rapid.IntRange(5, 60).Draw(t, "attachment")
	}
}

func genC31(t *rapid.T) blocksCase {
	c := blocksCase{
		Decode:  rapid.Bool().Draw(t, "decode"),
		Band:    band{Rate: 48000, Block: 512, Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")},
		Center:  genCenter(t),
		TRX:     rapid.IntRange(0, 1).Draw(t, "trx"),
		IFLimit: rapid.SampledFrom(ifLimits).Draw(t, "iflimit"),
		Early:   map[string]int{},
	}
	for _, name := range blockSettings {
		if rapid.Bool().Draw(t, "early") {
			c.Early[name] = genSetting(t, name)
		}
	}
	before := []string{"", "", "", "", "other if", "other dds", "vfo b", "other iq", "audio", "foreign iq", "show", "threshold", "debounce", "silence", "attachment", "dds", "if", "scope"}
	if c.Decode {
		c.Junk = rapid.Bool().Draw(t, "junk")
		before = append(before, "if", "if", "dds")
	}
	n := 1
	if c.Decode {
		n = rapid.IntRange(0, 3).Draw(t, "sources")
	}
	for i := 0; i < n; i++ {
		if s, ok := genStation(t, c.Band.Sources, 3000, 17000); ok {
			s.Start /= 3
			if !c.Decode { // one peak, which is not split; among several, one is selected at random
				s.Offset = math.Round(s.Offset/c.Band.binWidth()) * c.Band.binWidth()
				s.SNR -= 8
			}
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	c.VFO = c.vfo(t)
	for total := rapid.IntRange(1, 700).Draw(t, "packets"); total > 0; {
		b := burst{Packets: rapid.SampledFrom([]int{1, 1, 1, 2, 3, 10, 24, 25}).Draw(t, "burst"), Before: rapid.SampledFrom(before).Draw(t, "before")}
		b.Pause = b.Packets * 43
		if rapid.IntRange(0, 20).Draw(t, "longer") == 0 {
			b.Pause = rapid.IntRange(1, 20000).Draw(t, "pause")
		}
		switch b.Before {
		case "if":
			b.Value = c.vfo(t)
		case "threshold", "debounce", "silence", "attachment":
			b.Value = genSetting(t, b.Before)
		case "dds":
			b.Value = genCenter(t)
		default:
			b.Value = rapid.IntRange(-20000, 20000).Draw(t, "value")
		}
		c.Bursts = append(c.Bursts, b)
		total -= b.Packets
	}
	return c
}

func (c blocksCase) vfo(t *rapid.T) int {
	if len(c.Band.Sources) > 0 && rapid.IntRange(0, 3).Draw(t, "on station") > 0 {
		i := rapid.IntRange(0, len(c.Band.Sources)-1).Draw(t, "station")
		return int(c.Band.Sources[i].Offset)
	}
	return rapid.IntRange(-23000, 23000).Draw(t, "vfo")
}

// frames keeps what a scope gets
type frames struct {
	mu       sync.Mutex
	time     []scope.TimeFrame
	spectral []scope.SpectralFrame
}

func (f *frames) Active() bool { return true }
func (f *frames) ShowTimeFrame(frame *scope.TimeFrame) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.time = append(f.time, *frame)
}
func (f *frames) ShowSpectralFrame(frame *scope.SpectralFrame) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.spectral = append(f.spectral, *frame)
}

func same(a, b map[scope.ChannelID]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || math.Float64bits(v) != math.Float64bits(w) {
			return false
		}
	}
	return true
}

func (f *frames) compare(other *frames) error {
	for i := range f.time {
		if i >= len(other.time) {
			break
		}
		a, b := f.time[i], other.time[i]
		if a.Stream != b.Stream || !a.Timestamp.Equal(b.Timestamp) || !same(a.Values, b.Values) {
			return fmt.Errorf("time frame %d is %v instead of %v", i, b, a)
		}
	}
	if len(f.time) != len(other.time) {
		return fmt.Errorf("%d time frames instead of %d", len(other.time), len(f.time))
	}
	for i := range f.spectral {
		if i >= len(other.spectral) {
			break
		}
		a, b := f.spectral[i], other.spectral[i]
		if !a.Timestamp.Equal(b.Timestamp) || a.Stream != b.Stream || a.FromFrequency != b.FromFrequency || a.ToFrequency != b.ToFrequency ||
			!reflect.DeepEqual(a.FrequencyMarkers, b.FrequencyMarkers) || !reflect.DeepEqual(a.MagnitudeMarkers, b.MagnitudeMarkers) {
			return fmt.Errorf("spectral frame %d is from %v with %v %v instead of from %v with %v %v", i, b.Timestamp, b.FrequencyMarkers, b.MagnitudeMarkers, a.Timestamp, a.FrequencyMarkers, a.MagnitudeMarkers)
		}
		if len(a.Values) != len(b.Values) {
			return fmt.Errorf("spectral frame %d has %d values instead of %d", i, len(b.Values), len(a.Values))
		}
		for j := range a.Values {
			if math.Float64bits(a.Values[j]) != math.Float64bits(b.Values[j]) {
				return fmt.Errorf("spectral frame %d, bin %d: %v instead of %v", i, j, b.Values[j], a.Values[j])
			}
		}
	}
	if len(f.spectral) != len(other.spectral) {
		return fmt.Errorf("%d spectral frames instead of %d", len(other.spectral), len(f.spectral))
	}
	return nil
}

// stdoutTo runs f with the standard output going into a new file
func stdoutTo(f func()) (*os.File, error) {
	file, err := os.CreateTemp(os.Getenv("VERIF_OUT"), "verif-stdout")
	if err != nil {
		return nil, err
	}
	os.Remove(file.Name())
	old := os.Stdout
	os.Stdout = file
	f()
	os.Stdout = old
	return file, nil
}

// sorted orders the reports of several listeners at the same time, which come in any order
func sorted(events []event) []event {
	sort.SliceStable(events, func(i, j int) bool {
		if events[i].T != events[j].T {
			return events[i].T < events[j].T
		}
		return events[i].Listener < events[j].Listener
	})
	return events
}

func content(f *os.File) string {
	f.Seek(0, 0)
	raw, _ := io.ReadAll(f)
	f.Close()
	return string(raw)
}

func (c blocksCase) run(k *vk.K) error {
	other := 1 - c.TRX
	dev := &tciDevice{echo: "all", init: []string{"protocol:esdr,1.4;", fmt.Sprintf("if_limits:%d,%d;", -c.IFLimit, c.IFLimit),
		fmt.Sprintf("dds:%d,%d;", c.TRX, c.Center), fmt.Sprintf("dds:%d,%d;", other, c.Center+777), fmt.Sprintf("if:%d,0,%d;", c.TRX, c.VFO), fmt.Sprintf("if:%d,0,%d;", other, c.VFO+5000)}}
	dev.install()
	defer dev.stop()

	mode := rx.ReceiverMode(rx.StrainMode)
	if c.Decode {
		mode = rx.DecodeMode
	}
	now := time.Now()
	got, want := &recorder{start: now}, &recorder{start: now}
	gotFrames, wantFrames := &frames{}, &frames{}
	var seen []scope.SpectralFrame // on former scopes
	var model spectra

	var p *tci.Process
	var ref *rx.Receiver[float32, int]
	var err error
	gotOut, fileErr := stdoutTo(func() { p, err = tci.New(deviceHost, c.TRX, mode, nil, got, false) })
	if fileErr != nil {
		vk.Inconclusive("%v", fileErr)
	}
	if err != nil {
		return err
	}
	defer p.Close()
	wantOut, fileErr := stdoutTo(func() { ref = rx.NewReceiver[float32, int]("", mode, rx.WallClock) })
	if fileErr != nil {
		vk.Inconclusive("%v", fileErr)
	}
	defer ref.Stop()
	ref.AddReporter(want)

	set := func(name string, v int, process bool) {
		switch name {
		case "threshold":
			if process {
				p.SetThreshold(v)
			} else {
				ref.SetPeakThreshold(float32(v))
			}
		case "debounce":
			if process {
				p.SetSignalDebounce(v)
			} else {
				ref.SetSignalDebounce(v)
			}
		case "silence":
			if process {
				p.SetSilenceTimeout(time.Duration(v) * time.Second)
			} else {
				ref.SetSilenceTimeout(time.Duration(v) * time.Second)
			}
		case "attachment":
			if process {
				p.SetAttachmentTimeout(time.Duration(v) * time.Second)
			} else {
				ref.SetAttachmentTimeout(time.Duration(v) * time.Second)
			}
		}
	}
	for _, name := range blockSettings {
		if v, ok := c.Early[name]; ok {
			set(name, v, true)
		}
	}
	p.SetScope(gotFrames)

	// the reference, started at the same time
	ref.SetCenterFrequency(c.Center)
	ref.SetVFOOffset(c.VFO)
	ref.SetEdgeWidth(max(0, (48000-2*c.IFLimit)/2*512/48000))
	ref.Start(48000, 512)
	for _, name := range blockSettings {
		if v, ok := c.Early[name]; ok {
			set(name, v, false)
		}
	}
	ref.SetScope(wantFrames)

	if !dev.wait(time.Minute, dev.streaming) {
		return fmt.Errorf("the IQ stream was not started:%s", list(dev.received()))
	}
	g := newGenerator(c.Band)
	rng := vk.NewRand(c.Band.Seed)
	next := func() []float32 {
		if !c.Junk {
			return g.next()
		}
		result := make([]float32, 2*512)
		for i := range result {
			result[i] = float32(rng.Norm()) * 0.01
		}
		return result
	}
	for i, b := range c.Bursts {
		junk := make([]float32, 4096)
		for j := range junk {
			junk[j] = float32(rng.Norm())
		}
		switch b.Before {
		case "":
		case "other if":
			dev.sendText(fmt.Sprintf("if:%d,0,%d;", other, b.Value))
		case "other dds":
			dev.sendText(fmt.Sprintf("dds:%d,%d;", other, c.Center+b.Value))
		case "vfo b":
			dev.sendText(fmt.Sprintf("if:%d,1,%d;", c.TRX, b.Value))
		case "other iq":
			dev.sendIQ(iqPacket(other, 48000, 0, junk))
		case "audio":
			dev.sendIQ(iqPacket(c.TRX, 48000, 1, junk))
		case "foreign iq":
			dev.sendIQ(iqPacket(c.TRX, 96000, 0, junk))
		case "show":
			p.SetShow(b.Value > 0, b.Value%2 == 0)
		case "scope":
			gotFrames2, wantFrames2 := &frames{}, &frames{}
			synctest.Wait()
			if err := wantFrames.compare(gotFrames); err != nil {
				return err
			}
			seen = append(seen, gotFrames.spectral...)
			gotFrames, wantFrames = gotFrames2, wantFrames2
			p.SetScope(gotFrames)
			ref.SetScope(wantFrames)
		case "if":
			dev.sendText(fmt.Sprintf("if:%d,0,%d;", c.TRX, b.Value))
			ref.SetVFOOffset(b.Value)
		case "dds":
			dev.sendText(fmt.Sprintf("dds:%d,%d;", c.TRX, b.Value))
			ref.SetCenterFrequency(b.Value)
		default:
			set(b.Before, b.Value, true)
			set(b.Before, b.Value, false)
		}
		synctest.Wait()
		for j := 0; j < b.Packets; j++ {
			var data []float32
			for n := 0; n < 4; n++ {
				block := next()
				data = append(data, block...)
				model.put(block)
				ref.IQData(48000, block)
			}
			dev.sendIQ(iqPacket(c.TRX, 48000, 0, data))
		}
		synctest.Wait()
		if i%10 == 0 {
			if g, w := len(gotFrames.spectral), len(wantFrames.spectral); g != w {
				return fmt.Errorf("after burst %d: %d spectral frames instead of %d", i, g, w)
			}
		}
		time.Sleep(time.Duration(b.Pause) * time.Millisecond)
		synctest.Wait()
	}
	if err := model.compare(append(seen, gotFrames.spectral...)); err != nil {
		return fmt.Errorf("compared with the spectra of the blocks: %w", err)
	}
	if len(wantFrames.spectral) > 0 && len(wantFrames.time) > 0 {
		k.NonTrivial()
	}
	if err := wantFrames.compare(gotFrames); err != nil {
		return err
	}
	if g, w := sorted(got.list()), sorted(want.list()); !reflect.DeepEqual(g, w) {
		return fmt.Errorf("reports:\n%sinstead of:\n%s", dump(g), dump(w))
	}
	p.Close()
	ref.Stop()
	if g, w := content(gotOut), content(wantOut); g != w {
		return fmt.Errorf("text %q instead of %q", g, w)
	}
	return nil
}

func TestVerif_C31_TCI(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 40, Rule: "a listener was attached and spectra were seen"}, genC31, func(k *vk.K, c blocksCase) error {
		return deviceBubble(t, func() error {
			if c.Decode {
				k.Label("decode")
			} else {
				k.Label("strain")
			}
			return c.run(k)
		})
	})
}
