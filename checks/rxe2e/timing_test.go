//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C04

type timeouts struct {
	From          float64 // s
	Silence, Busy float64 // s
}

type timingCase struct {
	Band     band
	Timeouts []timeouts
	Seconds  float64
}

func genTiming(t *rapid.T) timingCase {
	c := timingCase{Band: genSmallBand(t)}
	c.Band.Rate, c.Band.Block = 12000, 128
	c.Seconds = rapid.SampledFrom([]float64{60, 100, 160, 290}).Draw(t, "seconds")
	n := rapid.IntRange(1, 4).Draw(t, "sources")
	for i := 0; i < n; i++ {
		s := source{Phase: float64(rapid.IntRange(0, 627).Draw(t, "phase")) / 100, SNR: float64(rapid.IntRange(36, 40).Draw(t, "snr")),
			Start: float64(rapid.IntRange(0, 200).Draw(t, "start")) / 10}
		bin := rapid.IntRange(-52, 52).Draw(t, "bin")
		s.Offset = float64(bin) * c.Band.binWidth()
		for _, u := range c.Band.Sources {
			if math.Abs(u.Offset-s.Offset) < 2000 {
				s.Kind = "x"
			}
		}
		if s.Kind == "x" {
			continue
		}
		if rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
			s.Kind = "carrier"
			if rapid.Bool().Draw(t, "stops") {
				s.Stop = s.Start + float64(rapid.IntRange(5, 60).Draw(t, "stop"))
			}
		} else {
			s.Kind = "text"
			s.WPM = float64(rapid.IntRange(16, 28).Draw(t, "wpm"))
			words := rapid.SliceOfN(rapid.SampledFrom(otherWords), 1, 8).Draw(t, "words")
			s.Text = strings.Join(words, " ")
			s.Pause = rapid.OneOf(rapid.Float64Range(0.5, 3), rapid.Float64Range(0.5, 30)).Draw(t, "pause")
			if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
				s.Times = rapid.IntRange(1, 8).Draw(t, "times")
			}
		}
		c.Band.Sources = append(c.Band.Sources, s)
	}
	draw := func(from float64) timeouts {
		return timeouts{From: from, Silence: rapid.Float64Range(2, 25).Draw(t, "silence"),
			Busy: rapid.OneOf(rapid.Float64Range(3, 60), rapid.Float64Range(60, 150)).Draw(t, "busy")}
	}
	c.Timeouts = []timeouts{draw(0)}
	if rapid.IntRange(0, 2).Draw(t, "change") == 0 {
		c.Timeouts = append(c.Timeouts, draw(c.Seconds*rapid.Float64Range(0.05, 0.9).Draw(t, "at")))
	}
	return c
}

// the key-down time spans of the characters of a keyed source until the given time
func (s *tx) characters(until float64) []vk.Interval {
	var once []vk.Interval
	dit := 1.2 / s.WPM
	for _, k := range s.keying {
		if n := len(once); n > 0 && k.From-once[n-1].To < 2.5*dit {
			once[n-1].To = k.To
		} else {
			once = append(once, k)
		}
	}
	var all []vk.Interval
	for i := 0; s.Times == 0 || i < s.Times; i++ {
		t0 := s.Start + float64(i)*s.period
		if t0 > until {
			break
		}
		for _, c := range once {
			all = append(all, vk.Interval{From: c.From + t0, To: c.To + t0})
		}
	}
	return all
}

type visit struct {
	id         string
	freq       int
	from, to   float64
	terminated bool // by the receiver, not by the end of the case
}

func visits(events []event, end float64) []visit {
	var all []visit
	open := map[string]int{}
	for _, e := range events {
		switch e.Kind {
		case "activated":
			open[e.Listener] = len(all)
			all = append(all, visit{id: e.Listener, freq: e.Frequency, from: e.T.Seconds(), to: end})
		case "deactivated":
			all[open[e.Listener]].to = e.T.Seconds()
			all[open[e.Listener]].terminated = e.T.Seconds() < end-0.001
		}
	}
	return all
}

const (
	cumulationTime = 1.0667
	blockSeconds   = 128.0 / 12000
)

func (c timingCase) judge(k *vk.K, g *generator, events []event) error {
	end := c.Seconds
	all := visits(events, end)
	segments := c.Timeouts
	at := func(t float64) timeouts {
		r := segments[0]
		for _, s := range segments {
			if s.From <= t+1e-9 {
				r = s
			}
		}
		return r
	}
	sourceOf := func(v visit) *tx {
		for _, s := range g.txs {
			if math.Abs(s.Offset-float64(v.freq)) <= c.Band.binWidth()/2+1 {
				return s
			}
		}
		return nil
	}
	bySource := map[*tx][]visit{}
	for _, v := range all {
		s := sourceOf(v)
		bySource[s] = append(bySource[s], v)
		what := fmt.Sprintf("listener %s at %d, %.3f - %.3f s", v.id, v.freq, v.from, v.to)
		if s != nil {
			what += fmt.Sprintf(" (%s %q)", s.Kind, s.Text)
		}
		var chars []vk.Interval
		latency := 0.1
		if s != nil && s.Kind != "carrier" {
			chars = s.characters(end)
			latency = 40 * 1.2 / s.WPM
		}
		// too late?
		for i, seg := range segments {
			to := math.Inf(1)
			if i+1 < len(segments) {
				to = segments[i+1].From
			}
			due := max(seg.From, v.from+seg.Busy) + 2.5*blockSeconds
			if due < to && v.to > due {
				return fmt.Errorf("%s is held longer than the busy timeout %.3f s", what, seg.Busy)
			}
			if s == nil {
				continue
			}
			for j := -1; j < len(chars); j++ {
				last, next := v.from, math.Inf(1)
				if j >= 0 {
					last = max(last, chars[j].To+latency)
				}
				if j+1 < len(chars) {
					next = chars[j+1].From
				}
				due := max(seg.From, last+seg.Silence) + 2.5*blockSeconds
				if next <= v.from || due >= next || due >= to {
					continue
				}
				if s.Kind == "carrier" && s.Stop > 0 && s.Stop > v.from && due > s.Stop { // its end may be taken for a character
					due = max(seg.From, s.Stop+1+seg.Silence)
					if due >= to {
						continue
					}
				}
				if v.to > due && (j < 0 || chars[j].From < v.to) {
					return fmt.Errorf("%s is held longer than the silence timeout %.3f s, last character at %.3f s, next at %.3f s", what, seg.Silence, last, next)
				}
			}
		}
		// too early?
		if !v.terminated {
			continue
		}
		if len(segments) > 1 && math.Abs(v.to-segments[1].From) < 2*blockSeconds {
			continue // just when the timeouts were changed
		}
		seg := at(v.to)
		k.NonTrivial()
		if v.to-v.from > seg.Busy-1e-6 {
			k.Label("busy")
			continue
		}
		k.Label("silence")
		if v.to-v.from < seg.Silence-1e-6 {
			return fmt.Errorf("%s is released before the silence timeout %.3f s and the busy timeout %.3f s", what, seg.Silence, seg.Busy)
		}
		for _, ch := range chars {
			if ch.From > v.from+3 && ch.To > v.to-seg.Silence && ch.To+latency < v.to {
				return fmt.Errorf("%s is released although there was a character at %.3f s (silence timeout %.3f s, busy timeout %.3f s)", what, ch.To, seg.Silence, seg.Busy)
			}
		}
	}
	// visits of the sources
	n := float64(len(g.txs))
	for _, s := range g.txs {
		vs := bySource[s]
		pause := s.Pause
		lastOn := end
		if s.Kind == "carrier" && s.Stop > 0 {
			lastOn = min(end, s.Stop)
		} else if s.Kind != "carrier" && s.Times > 0 {
			lastOn = min(end, s.end())
		}
		shortOn := s.Kind != "carrier" && s.keying[len(s.keying)-1].To < 3*cumulationTime // may be missed
		wait := 3*cumulationTime + n*cumulationTime + pause
		if len(vs) == 0 {
			if !shortOn && s.Start+wait < lastOn {
				return fmt.Errorf("the %s %q at %.1f, on from %.1f to %.1f s, is never visited", s.Kind, s.Text, s.Offset, s.Start, lastOn)
			}
			continue
		}
		if !shortOn && vs[0].from > s.Start+wait && vs[0].from < lastOn {
			return fmt.Errorf("the %s %q at %.1f, on from %.1f to %.1f s, is first visited at %.3f s", s.Kind, s.Text, s.Offset, s.Start, lastOn, vs[0].from)
		}
		for i := 1; i < len(vs); i++ {
			k.Label("revisit")
			if d := vs[i].from - vs[i-1].from; d < 120-n*cumulationTime-0.1 {
				return fmt.Errorf("the %s %q at %.1f is visited again %.3f s after %.3f s", s.Kind, s.Text, s.Offset, d, vs[i-1].from)
			}
		}
		for i, v := range vs {
			due := max(v.to, v.from+120) + 1.1 + wait
			if due < lastOn-pause && !shortOn && (i+1 == len(vs) || vs[i+1].from > due) {
				return fmt.Errorf("the %s %q at %.1f is on until %.1f s, it was visited at %.3f s, but not again until %.3f s", s.Kind, s.Text, s.Offset, lastOn, v.from, due)
			}
		}
	}
	return nil
}

func TestVerif_C04_Timeouts(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 25, Rule: "a listener is released by a timeout"}, genTiming, func(k *vk.K, c timingCase) error {
		var events []event
		var g *generator
		_, restore, err := captureStdout()
		if err != nil {
			return err
		}
		defer restore()
		err = bubble(t, func() error {
			s := newSession(c.Band, rx.StrainMode)
			g = s.g
			s.rc.SetEdgeWidth(smallEdge)
			s.rc.SetPeakThreshold(10)
			set := func(x timeouts) {
				s.rc.SetSilenceTimeout(time.Duration(x.Silence * float64(time.Second)))
				s.rc.SetAttachmentTimeout(time.Duration(x.Busy * float64(time.Second)))
			}
			set(c.Timeouts[0])
			s.rc.Start(c.Band.Rate, c.Band.Block)
			if len(c.Timeouts) > 1 {
				n := c.Band.blocks(c.Timeouts[1].From)
				c.Timeouts[1].From = float64(n) * c.Band.blockTime().Seconds()
				s.run(c.Timeouts[1].From)
				set(c.Timeouts[1])
				s.run(c.Seconds - c.Timeouts[1].From)
			} else {
				s.run(c.Seconds)
			}
			s.rc.Stop()
			events = s.rec.list()
			return nil
		})
		if err != nil {
			return err
		}
		if err := c.judge(k, g, events); err != nil {
			return fmt.Errorf("%v\n%s", err, dump(events))
		}
		return nil
	})
}
