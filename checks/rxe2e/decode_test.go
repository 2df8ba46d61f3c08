//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C07

type phase struct {
	Center  int     // 0: as before
	Target  int     // index of the station the VFO is set to, -1: somewhere else
	Off     float64 // of the VFO from the station in bins, or the VFO offset in Hz if there is no target
	VFO     bool    // the VFO is set in this phase (it always is when the target changes)
	Texts   []string
	WPM     []float64
	Repeat  bool // the VFO is set to the same frequency again in the pause before the texts
	Before  bool // VFO and center are set before the receiver is started (first phase only)
	Swapped bool // the VFO is set before the center
}

type decodeCase struct {
	Band     band // the sources give offsets and levels of the stations
	Center   int
	Phases   []phase
	EdgeBand int
}

var leadIns = []string{"vvv", "vvv vvv", "cq cq cq"}

func genDecodeText(t *rapid.T) string {
	const all, edge = "abcdefghijklmnopqrstuvwxyz0123456789/?=", "abcdfghijklmnopqrsuvwxyz0123456789/?="
	var ws []string
	for i := rapid.IntRange(1, 4).Draw(t, "words"); i > 0; i-- {
		n := rapid.IntRange(3, 7).Draw(t, "len")
		w := ""
		for j := 0; j < n; j++ {
			if j == 0 || j == n-1 {
				w += string(edge[rapid.IntRange(0, len(edge)-1).Draw(t, "c")])
			} else {
				w += string(all[rapid.IntRange(0, len(all)-1).Draw(t, "c")])
			}
		}
		ws = append(ws, w)
	}
	return rapid.SampledFrom(leadIns).Draw(t, "lead") + " " + strings.Join(ws, " ")
}

func genDecode(t *rapid.T) decodeCase {
	c := decodeCase{}
	r := rapid.SampledFrom([][2]int{{48000, 512}, {24000, 256}, {12000, 128}}).Draw(t, "rate")
	c.Band = band{Rate: r[0], Block: r[1], Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")}
	c.Center = genCenter(t)
	limit := float64(c.Band.Rate/2) - 10*c.Band.binWidth()
	for i := rapid.IntRange(1, 4).Draw(t, "stations"); i > 0; i-- {
		if off, ok := genOffset(t, c.Band.Sources, 3000, limit); ok {
			c.Band.Sources = append(c.Band.Sources, source{Kind: "text", Offset: off, SNR: float64(rapid.IntRange(36, 42).Draw(t, "snr")), Phase: float64(rapid.IntRange(0, 627).Draw(t, "phase")) / 100})
		}
	}
	prev := -2
	for i := rapid.IntRange(1, 4).Draw(t, "phases"); i > 0; i-- {
		p := phase{Target: rapid.IntRange(-1, len(c.Band.Sources)-1).Draw(t, "target"), Repeat: rapid.IntRange(0, 3).Draw(t, "repeat") == 0}
		p.VFO = p.Target != prev || p.Target < 0
		prev = p.Target
		if p.Target >= 0 {
			p.Off = float64(rapid.IntRange(-45, 45).Draw(t, "off")) / 100
		} else if off, ok := genOffset(t, c.Band.Sources, 3000, limit); ok {
			p.Off = off
		} else {
			p.Target = 0
			prev = 0
		}
		if len(c.Phases) == 0 {
			p.Before = rapid.IntRange(0, 2).Draw(t, "before") == 0
		} else if rapid.IntRange(0, 2).Draw(t, "recenter") == 0 {
			p.Center = genCenter(t)
		}
		p.Swapped = p.Center != 0 && rapid.Bool().Draw(t, "swapped")
		for range c.Band.Sources {
			if rapid.IntRange(0, 4).Draw(t, "silent") == 0 {
				p.Texts = append(p.Texts, "")
			} else {
				p.Texts = append(p.Texts, genDecodeText(t))
			}
			p.WPM = append(p.WPM, float64(rapid.IntRange(160, 280).Draw(t, "wpm"))/10)
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

// nearStation gives the VFO offset off bins away from the station, as long as the bin of the VFO still hears the station
// well (which it does not when the station is almost one bin away from its center).
func nearStation(b band, station, off float64) int {
	vfo := math.Round(station + off*b.binWidth())
	if math.Abs(math.Round(vfo/b.binWidth())-station/b.binWidth()) > 0.6 {
		vfo = math.Round(station)
	}
	return int(vfo)
}

const (
	phaseSeconds  = 32
	warmUpSeconds = 3 // the noise floor is a mean over the last 60 blocks
)

func TestVerif_C07_Text(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 25, Rule: "a text is printed"}, genDecode, func(k *vk.K, c decodeCase) error {
		read, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		b := c.Band
		b.Sources = nil
		for i, p := range c.Phases {
			for j, src := range c.Band.Sources {
				if p.Texts[j] == "" {
					continue
				}
				src.Text, src.WPM, src.Times, src.Start = p.Texts[j], p.WPM[j], 1, float64(i*phaseSeconds)+2+warmUpSeconds
				// it fits into the phase
				key := &vk.Keying{}
				key.Text(src.Text, 1.2/src.WPM, 0, nil)
				for key.Now > phaseSeconds-5 {
					words := strings.Fields(src.Text)
					src.Text = strings.Join(words[:len(words)-1], " ")
					key = &vk.Keying{}
					key.Text(src.Text, 1.2/src.WPM, 0, nil)
				}
				c.Phases[i].Texts[j] = src.Text
				b.Sources = append(b.Sources, src)
			}
		}
		return bubble(t, func() error {
			s := newSession(b, rx.DecodeMode)
			// wide bands keep the default edge width
			if b.Block < 256 {
				s.rc.SetEdgeWidth(smallEdge)
			}
			center, vfo := c.Center, 0
			s.rc.SetCenterFrequency(center)
			printed := 0
			for i, p := range c.Phases {
				start := time.Now()
				if p.Center != 0 {
					center = p.Center
				}
				if !p.VFO && p.Center == 0 {
					// stays where it is
				} else if p.Target >= 0 {
					vfo = nearStation(c.Band, c.Band.Sources[p.Target].Offset, p.Off)
				} else {
					vfo = int(p.Off)
				}
				if i == 0 && !p.Before {
					s.rc.Start(b.Rate, b.Block)
				}
				if p.Swapped {
					s.rc.SetVFOOffset(vfo) // shall be the same as without it
				}
				if p.Center != 0 {
					s.rc.SetCenterFrequency(center)
				}
				if p.VFO || p.Center != 0 {
					s.rc.SetVFOOffset(vfo)
				}
				if i == 0 && p.Before {
					s.rc.Start(b.Rate, b.Block)
				}
				if i == 0 {
					s.run(warmUpSeconds)
					start = time.Now()
					printed = len(read())
				}
				s.run(1)
				if p.Repeat {
					s.rc.SetVFOOffset(vfo)
				}
				for time.Since(start) < phaseSeconds*time.Second {
					s.feed(s.g.next())
				}
				for s.g.n < ((i+1)*phaseSeconds+warmUpSeconds)*b.Rate {
					s.feed(s.g.next())
				}
				synctest.Wait()
				text := read()
				got := strings.Join(strings.Fields(text[printed:]), " ")
				printed = len(text)
				want := ""
				if p.Target >= 0 {
					want = p.Texts[p.Target]
				}
				if want != "" {
					k.NonTrivial()
				}
				k.Label("target %v", p.Target >= 0)
				if last := s.lastActivated(); last.Frequency != center+vfo {
					return fmt.Errorf("phase %d: VFO at %d, the listener listens at %d", i, center+vfo, last.Frequency)
				}
				// the first word may be lost on the way to the speed of the station
				rest := want
				if _, after, ok := strings.Cut(want, " "); ok {
					rest = after
				}
				for _, lead := range leadIns {
					rest = strings.TrimSpace(strings.TrimPrefix(rest, lead))
				}
				for strings.HasPrefix(rest, "vvv ") || strings.HasPrefix(rest, "cq ") {
					_, rest, _ = strings.Cut(rest, " ")
				}
				if !strings.HasSuffix(got, rest) || (want == "" && got != "") || len([]rune(got)) > len(want)+8 {
					return fmt.Errorf("phase %d, VFO %d: printed %q, want %q", i, vfo, got, want)
				}
			}
			s.rc.Stop()
			return nil
		})
	})
}

func (s *session) lastActivated() (last event) {
	for _, e := range s.rec.list() {
		if e.Kind == "activated" {
			last = e
		}
	}
	return last
}

// In strain mode, the text of the listener on the VFO frequency is printed.
type vfoCase struct {
	Band   band
	Center int
	Phases []vfoPhase
}

type vfoPhase struct {
	Target  int // -1: between the stations
	Off     float64
	Seconds int
	Center  int // the center is set (again) before the VFO
}

func genVFO(t *rapid.T) vfoCase {
	c := vfoCase{Center: genCenter(t)}
	c.Band = band{Rate: 48000, Block: 512, Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")}
	const slots = 14
	free := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}).Draw(t, "slots")
	n := rapid.SampledFrom([]int{1, 3, 12, 13, 14}).Draw(t, "stations")
	for _, slot := range free[:n] {
		_, text, _ := strings.Cut(genDecodeText(t), " ")
		text = strings.TrimPrefix(strings.TrimPrefix(text, "vvv "), "cq cq ")
		c.Band.Sources = append(c.Band.Sources, source{Kind: "text", Text: text,
			Offset: float64(slot)*3100 - (slots-1)*1550 + float64(rapid.IntRange(-40, 40).Draw(t, "offset")),
			SNR:    float64(rapid.IntRange(36, 42).Draw(t, "snr")),
			WPM:    float64(rapid.IntRange(180, 240).Draw(t, "wpm")) / 10,
			Pause:  0.5, Start: float64(rapid.IntRange(0, 20).Draw(t, "start")) / 10,
			Phase: float64(rapid.IntRange(0, 627).Draw(t, "phase")) / 100})
	}
	for i := rapid.IntRange(1, 5).Draw(t, "phases"); i > 0; i-- {
		p := vfoPhase{Target: rapid.IntRange(-1, n-1).Draw(t, "target"), Off: float64(rapid.IntRange(-40, 40).Draw(t, "off")) / 100, Seconds: rapid.IntRange(2, 12).Draw(t, "seconds")}
		if rapid.IntRange(0, 3).Draw(t, "recenter") == 0 {
			p.Center = c.Center
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

func TestVerif_C07_Strain(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 12, Rule: "a text is printed"}, genVFO, func(k *vk.K, c vfoCase) error {
		read, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		return bubble(t, func() error {
			s := newSession(c.Band, rx.StrainMode)
			defer s.rc.Stop()
			s.rc.SetEdgeWidth(smallEdge)
			s.rc.SetCenterFrequency(c.Center)
			s.rc.SetAttachmentTimeout(time.Hour)
			s.rc.SetSilenceTimeout(time.Hour)
			s.rc.Start(c.Band.Rate, c.Band.Block)
			// listener gives the bin of the listener of a station
			listener := func(offset float64) (float64, bool) {
				for _, e := range s.rec.list() {
					if got := float64(e.Frequency - c.Center); e.Kind == "activated" && math.Abs(got-offset) < c.Band.binWidth() {
						return got / c.Band.binWidth(), true
					}
				}
				return 0, false
			}
			for i := 0; i < 60; i++ {
				s.run(1)
				missing := false
				for _, src := range c.Band.Sources {
					_, ok := listener(src.Offset)
					missing = missing || !ok
				}
				if !missing {
					break
				}
			}
			s.run(10) // the decoders know the speed
			if text := read(); text != "" {
				return fmt.Errorf("printed %q without a VFO frequency", text)
			}
			printed := 0
			for i, p := range c.Phases {
				vfo := int(c.Band.Sources[0].Offset) + 1550
				if p.Target >= 0 {
					bin, ok := listener(c.Band.Sources[p.Target].Offset)
					if !ok || math.Abs(bin-math.Round(bin)) > 0.45 {
						k.Label("no listener, or between two bins")
						continue
					}
					vfo = int(math.Round((math.Round(bin) + p.Off) * c.Band.binWidth()))
				}
				if p.Center != 0 {
					s.rc.SetCenterFrequency(p.Center)
				}
				s.rc.SetVFOOffset(vfo)
				s.run(float64(p.Seconds))
				text := read()
				got := strings.Join(strings.Fields(text[printed:]), "")
				printed = len(text)
				k.Label("target %v", p.Target >= 0)
				if p.Target < 0 {
					if got != "" {
						return fmt.Errorf("phase %d: printed %q with the VFO between the stations", i, got)
					}
					continue
				}
				src := c.Band.Sources[p.Target]
				k.NonTrivial()
				k.Label("stations %d", len(c.Band.Sources))
				cycle := strings.Join(strings.Fields(src.Text), "")
				repeated := strings.Repeat(cycle, 2+len(got)/len(cycle))
				// a character takes 20 dits at most, and the pause is shorter
				least := int((float64(p.Seconds) - 1.5) / (24 * 1.2 / src.WPM))
				if !strings.Contains(repeated, got) || len(got) < least {
					return fmt.Errorf("phase %d: printed %q with the VFO on %d, the station that sends %q on %v (at least %d characters)\n%s", i, got, c.Center+vfo, src.Text, float64(c.Center)+src.Offset, least, dump(s.rec.list()))
				}
			}
			return nil
		})
	})
}
