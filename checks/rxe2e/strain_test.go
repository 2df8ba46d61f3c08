//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

type strainCase struct {
	Band      band
	Center    int
	EdgeWidth int // 0: default
	Seconds   float64
}

// configurations: sample rate, block size; all with blocks of 10.67 ms
var strainRates = [][2]int{{48000, 512}, {48000, 512}, {24000, 256}, {96000, 1024}}

func genBand(t *rapid.T) (band, int, float64) {
	r := rapid.SampledFrom(strainRates).Draw(t, "rate")
	b := band{Rate: r[0], Block: r[1], Seed: rapid.Uint64().Draw(t, "seed"), Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma")}
	edge := 0
	usable := b.Block/2 - 70
	if rapid.Bool().Draw(t, "withedge") {
		edge = rapid.IntRange(b.Block/16, b.Block/6).Draw(t, "edge")
		usable = b.Block/2 - edge
	}
	return b, edge, (float64(usable) - 3) * b.binWidth()
}

func genCenter(t *rapid.T) int {
	return rapid.OneOf(rapid.SampledFrom([]int{7020000, 3530000, 14025000, 28030000}), rapid.IntRange(100000, 30000000)).Draw(t, "center")
}

func genC01(t *rapid.T) strainCase {
	b, edge, limit := genBand(t)
	c := strainCase{Band: b, EdgeWidth: edge, Center: genCenter(t), Seconds: 50}
	n := rapid.IntRange(1, 4).Draw(t, "stations")
	for i := 0; i < n; i++ {
		if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	return c
}

func (c strainCase) listen(t *testing.T) ([]event, error) {
	var events []event
	err := bubble(t, func() error {
		s := newSession(c.Band, rx.StrainMode)
		s.rc.SetCenterFrequency(c.Center)
		if c.EdgeWidth > 0 {
			s.rc.SetEdgeWidth(c.EdgeWidth)
		}
		s.rc.Start(c.Band.Rate, c.Band.Block)
		s.run(c.Seconds)
		s.rc.Stop()
		events = s.rec.list()
		return nil
	})
	return events, err
}

func TestVerif_C01_Spots(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 10, Rule: "at least one station calls"}, genC01, func(k *vk.K, c strainCase) error {
		events, err := c.listen(t)
		if err != nil {
			return err
		}
		k.NonTrivial()
		k.Label("stations %d", len(c.Band.Sources))
		for _, s := range c.Band.Sources {
			found := false
			for _, e := range events {
				if e.Kind == "spotted" && e.Call == strings.ToUpper(s.Call) && math.Abs(float64(e.Frequency-c.Center)-s.Offset) <= c.Band.binWidth()+1 {
					found = true
				}
			}
			if !found {
				return fmt.Errorf("%s at %d was not spotted:\n%s", s.Call, c.Center+int(s.Offset), dump(events))
			}
		}
		return nil
	})
}

var otherWords = []string{"cq", "vvv", "qrl", "name", "is", "jim", "hans", "qsl", "via", "buro", "pse", "k", "agn", "ur", "rig", "ic", "wx", "sunny", "and", "warm", "cpy", "sri", "bk", "hi", "mni", "abrakadabra", "radiogram", "number", "dx"}

func genC02(t *rapid.T) strainCase {
	b, edge, limit := genBand(t)
	c := strainCase{Band: b, EdgeWidth: edge, Center: genCenter(t), Seconds: 40}
	n := rapid.IntRange(0, 5).Draw(t, "sources")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
				c.Band.Sources = append(c.Band.Sources, s)
			}
		case 1:
			if off, ok := genOffset(t, c.Band.Sources, 3000, limit); ok {
				c.Band.Sources = append(c.Band.Sources, source{Kind: "carrier", Offset: off, SNR: float64(rapid.IntRange(20, 42).Draw(t, "snr")),
					Start: float64(rapid.IntRange(0, 20).Draw(t, "start")), Stop: float64(rapid.IntRange(0, 1).Draw(t, "stops") * 30)})
			}
		default:
			if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
				words := rapid.SliceOfN(rapid.SampledFrom(otherWords), 1, 12).Draw(t, "words")
				s.Kind, s.Call, s.Text = "text", "", strings.Join(words, " ")
				c.Band.Sources = append(c.Band.Sources, s)
			}
		}
	}
	return c
}

func TestVerif_C02_NoPhantoms(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 10, Rule: "something is on the air"}, genC02, func(k *vk.K, c strainCase) error {
		events, err := c.listen(t)
		if err != nil {
			return err
		}
		if len(c.Band.Sources) > 0 {
			k.NonTrivial()
		}
		for _, s := range c.Band.Sources {
			k.Label(s.Kind)
		}
		for _, e := range events {
			if e.Kind != "spotted" {
				continue
			}
			true_ := false
			for _, s := range c.Band.Sources {
				if s.Kind == "call" && e.Call == strings.ToUpper(s.Call) && math.Abs(float64(e.Frequency-c.Center)-s.Offset) <= c.Band.binWidth()+1 {
					true_ = true
				}
			}
			if !true_ {
				return fmt.Errorf("%s at %d (%+d) was %s, but it was not sent there:\n%s", e.Call, e.Frequency, e.Frequency-c.Center, e.Kind, dump(events))
			}
		}
		return nil
	})
}
