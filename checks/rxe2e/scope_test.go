//go:build go1.25

package rxe2e

import (
	"bytes"
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	dcw "github.com/ftl/digimodes/cw"
	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/cw"
	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

// ---------------------------------------------------------------- C35

// probe is a scope that can be switched on and off and keeps the time frames since the last look
type probe struct {
	active   bool
	streams  map[scope.StreamID][]map[scope.ChannelID]float64
	spectral []*scope.SpectralFrame
	bad      error
}

func (p *probe) Active() bool { return p.active }
func (p *probe) ShowTimeFrame(f *scope.TimeFrame) {
	if p.streams == nil {
		p.streams = map[scope.StreamID][]map[scope.ChannelID]float64{}
	}
	p.streams[f.Stream] = append(p.streams[f.Stream], f.Values)
	p.stamp(f.Timestamp)
}
func (p *probe) ShowSpectralFrame(f *scope.SpectralFrame) {
	p.spectral = append(p.spectral, f)
	p.stamp(f.Timestamp)
}
func (p *probe) stamp(t time.Time) {
	if now := time.Now(); !t.Equal(now) && p.bad == nil {
		p.bad = fmt.Errorf("a frame shown at %v has the timestamp %v", now, t)
	}
}

// look returns the frames since the last look
func (p *probe) look() (map[scope.StreamID][]map[scope.ChannelID]float64, []*scope.SpectralFrame) {
	streams, spectral := p.streams, p.spectral
	p.streams, p.spectral = nil, nil
	return streams, spectral
}

// decoding follows the frames of the decoder
type decoding struct {
	last, state bool
	duration    float64 // ticks in the state
	known       bool    // the last tick was shown
	symbols     []dcw.Symbol
	doubtful    bool // the symbols are not known exactly
	invalid     bool // the key was down for too long
}

func (d *decoding) reset() { *d = decoding{} }

// tick judges the frames of one tick with the given state of the key and what was written meanwhile
func (d *decoding) tick(frames map[scope.StreamID][]map[scope.ChannelID]float64, active bool, state bool, written string) error {
	before := d.duration
	edge := state != d.last
	if edge {
		d.duration = 0
	} else {
		d.duration++
	}
	d.last = state
	if !active {
		if n := len(frames); n > 0 {
			return fmt.Errorf("%d streams are shown on a scope that is not active", n)
		}
		d.symbols, d.doubtful, d.invalid = nil, true, false
		return nil
	}
	one := func(stream scope.StreamID) (map[scope.ChannelID]float64, error) {
		if len(frames[stream]) != 1 {
			return nil, fmt.Errorf("%d frames of the stream %q in one tick", len(frames[stream]), stream)
		}
		return frames[stream][0], nil
	}
	value := 0.0
	if state {
		value = 1
	}
	var all [4]map[scope.ChannelID]float64
	for i, stream := range []scope.StreamID{"decode", "signal_timing", "gap_timing", "signal"} {
		f, err := one(stream)
		if err != nil {
			return err
		}
		if got, ok := f["state"]; !ok || got != value {
			return fmt.Errorf("the state in the stream %q is %v, want %v", stream, got, value)
		}
		all[i] = f
	}
	decode, on, off := all[0], all[1], all[2]
	if got := decode["duration"]; got != d.duration {
		return fmt.Errorf("the duration is shown as %v ticks, it is %v", got, d.duration)
	}
	wantOn, wantOff := d.duration, 0.0
	if !state {
		wantOn, wantOff = 0, d.duration
	}
	if on["on_duration"] != wantOn || off["off_duration"] != wantOff {
		return fmt.Errorf("the durations are shown as %v on and %v off, want %v and %v", on["on_duration"], off["off_duration"], wantOn, wantOff)
	}
	if decode["on_threshold"] != on["on_threshold"] {
		return fmt.Errorf("the on threshold is shown as %v and as %v", decode["on_threshold"], on["on_threshold"])
	}
	for name, f := range map[string]map[scope.ChannelID]float64{"on": on, "off": off} {
		low, threshold, high := f[scope.ChannelID(name+"_threshold_low")], f[scope.ChannelID(name+"_threshold")], f[scope.ChannelID(name+"_threshold_high")]
		if !(0 < low && low <= threshold && threshold <= high) {
			return fmt.Errorf("the thresholds %s are shown as %v, %v and %v", name, low, threshold, high)
		}
	}

	// what is shown explains what is decoded
	ended := false
	for _, r := range written {
		if r == ' ' {
			continue
		}
		ended = true
		want, ok := dcw.Code[r]
		switch {
		case d.doubtful:
		case d.invalid && r != 0xA6:
			return fmt.Errorf("%q is written although the key was down longer than the highest threshold shown", string(r))
		case r == 0xA6 && !d.invalid && isCharacter(d.symbols):
			return fmt.Errorf("the unknown character is written, the timing shown is %v and no key-down was too long", d.symbols)
		case ok && !slices.Equal(want, d.symbols):
			return fmt.Errorf("%q is written, the timing shown is %v", string(r), d.symbols)
		}
		if len([]rune(written)) > 1 && strings.Trim(written, " ") != string(r) {
			return fmt.Errorf("%q is written at once", written)
		}
	}
	if edge && state { // a gap has ended
		gap := before + 1
		long := gap >= off["off_threshold"] && gap >= 2
		if ended && !long {
			return fmt.Errorf("%q is written after a gap of %v, the threshold shown is %v", written, gap, off["off_threshold"])
		}
		if !ended && long && len(d.symbols) > 0 && !d.doubtful {
			return fmt.Errorf("nothing is written after a gap of %v and %v, the threshold shown is %v", gap, d.symbols, off["off_threshold"])
		}
	}
	if ended {
		d.symbols, d.doubtful, d.invalid = nil, false, false
	} else if edge && state && before+1 >= off["off_threshold"] && before+1 >= 2 {
		d.symbols, d.doubtful, d.invalid = nil, false, false // nothing was pending
	}
	if state && d.duration > 5*off["off_threshold"] {
		d.doubtful = true // the pending character is written meanwhile
	}
	if edge && !state {
		switch pulse := before + 1; {
		case pulse < 2:
			d.doubtful = true // perhaps too short for a symbol
		case pulse >= on["on_threshold_high_2"]:
			d.invalid = true
		case pulse >= on["on_threshold"]:
			d.symbols = append(d.symbols, dcw.Da)
		default:
			d.symbols = append(d.symbols, dcw.Dit)
		}
	}
	return nil
}

func isCharacter(symbols []dcw.Symbol) bool {
	for _, s := range dcw.Code {
		if slices.Equal(s, symbols) {
			return true
		}
	}
	return false
}

// debouncing is the model of the debouncer
type debouncing struct {
	threshold  int
	raw, state bool
	run        int
}

func (d *debouncing) put(raw bool) bool {
	if raw != d.raw {
		d.run = 0
	}
	d.run++
	d.raw = raw
	if d.threshold < 2 || d.run >= d.threshold {
		d.state = raw
	}
	return d.state
}

type demodPart struct {
	Op    string // text, runs, reset, debounce, scope (new), switch (on and off)
	Text  string
	WPM   float64
	Runs  []int
	Level float64
	Floor float64
	Depth float64 // of the random part
	Limit float64 // threshold
	N     int
}

type demodCase struct {
	Rate, Block int
	Parts       []demodPart
	Seed        uint64
}

func genDemodPart(t *rapid.T) demodPart {
	p := demodPart{Op: rapid.SampledFrom([]string{"text", "text", "runs", "runs", "reset", "debounce", "scope", "switch"}).Draw(t, "op")}
	switch p.Op {
	case "text":
		p.Text = genDecodeText(t)
		p.WPM = rapid.Float64Range(8, 40).Draw(t, "wpm")
	case "runs":
		p.Runs = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 18, 25, 40, 90, 300}), 1, 40).Draw(t, "runs")
	case "debounce":
		p.N = rapid.IntRange(0, 5).Draw(t, "n")
	case "switch":
		p.N = rapid.IntRange(0, 1).Draw(t, "n")
	}
	p.Limit = rapid.Float64Range(-20, 80).Draw(t, "limit")
	p.Floor = p.Limit - rapid.Float64Range(0, 20).Draw(t, "floor")
	p.Level = p.Limit + rapid.Float64Range(0, 40).Draw(t, "level")
	p.Depth = rapid.SampledFrom([]float64{0, 0, 0, 3, 15}).Draw(t, "depth")
	return p
}

func TestVerif_C35_Demodulator(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 250, Rule: "a character is decoded while the scope is active"}, func(t *rapid.T) demodCase {
		r := rapid.SampledFrom([][2]int{{48000, 512}, {48000, 240}, {12000, 128}, {8000, 40}, {44100, 441}}).Draw(t, "rate")
		return demodCase{Rate: r[0], Block: r[1], Seed: rapid.Uint64().Draw(t, "seed"), Parts: rapid.SliceOfN(rapid.Custom(genDemodPart), 1, 10).Draw(t, "parts")}
	}, func(k *vk.K, c demodCase) error {
		return bubble(t, func() error { return c.run(k) })
	})
}

func (c demodCase) run(k *vk.K) error {
	rng := vk.NewRand(c.Seed)
	var out, plainOut bytes.Buffer
	shown := cw.NewSpectralDemodulator[float32, int](&out, c.Rate, c.Block)
	plain := cw.NewSpectralDemodulator[float32, int](&plainOut, c.Rate, c.Block)
	p := &probe{active: true}
	shown.SetScope(p)
	debounced := debouncing{threshold: 1}
	var dec decoding
	var former []*probe
	for _, part := range c.Parts {
		var key func(float64) bool
		n := 0
		switch part.Op {
		case "text":
			keying := &vk.Keying{}
			keying.Text(part.Text, 1.2/part.WPM*float64(c.Rate)/float64(c.Block), 0.05, rng)
			keying.Pause(20)
			key, n = keying.Sampler(), int(keying.Now)
		case "runs":
			keying := &vk.Keying{}
			for i, run := range part.Runs {
				if i%2 == 0 {
					keying.Carrier(float64(run))
				} else {
					keying.Pause(float64(run))
				}
			}
			key, n = keying.Sampler(), int(keying.Now)
		case "reset":
			shown.Reset()
			plain.Reset()
			debounced = debouncing{threshold: debounced.threshold}
			dec.reset()
		case "debounce":
			shown.SetSignalDebounce(part.N)
			plain.SetSignalDebounce(part.N)
			debounced.threshold = part.N
		case "scope":
			former = append(former, p)
			p = &probe{active: p.active}
			shown.SetScope(p)
		case "switch":
			p.active = part.N == 1
		}
		for i := 0; i < n; i++ {
			value := part.Floor
			if key(float64(i) + 0.5) {
				value = part.Level
			}
			value += part.Depth * (2*rng.Float() - 1)
			v, limit := float32(value), float32(part.Limit)
			time.Sleep(time.Duration(float64(c.Block) / float64(c.Rate) * float64(time.Second)))
			at := out.Len()
			shown.Tick(v, limit)
			plain.Tick(v, limit)
			state := debounced.put(v > limit)
			frames, spectral := p.look()
			if len(spectral) > 0 {
				return fmt.Errorf("spectral frames from a demodulator")
			}
			written := out.String()[at:]
			demod := frames["demod"]
			delete(frames, "demod")
			if err := dec.tick(frames, p.active, state, written); err != nil {
				return fmt.Errorf("part %v, tick %d: %w", part.Op, i, err)
			}
			if p.active {
				if len(demod) != 1 {
					return fmt.Errorf("%d frames of the stream demod in one tick", len(demod))
				}
				f := demod[0]
				if f["value"] != float64(v) || f["threshold"] != float64(limit) || (f["state"] > 0) != (v > limit) || (f["debounced"] > 0) != state {
					return fmt.Errorf("part %v, tick %d: the value %v with the threshold %v and the debounced state %v is shown as %v", part.Op, i, v, limit, state, f)
				}
				if strings.TrimSpace(written) != "" {
					k.NonTrivial()
				}
			} else if len(demod) > 0 {
				return fmt.Errorf("a frame is shown on a scope that is not active")
			}
			if p.bad != nil {
				return p.bad
			}
			for _, f := range former {
				if streams, _ := f.look(); len(streams) > 0 {
					return fmt.Errorf("part %v, tick %d: the former scope is still used", part.Op, i)
				}
			}
			if plainOut.String()[at:] != written {
				return fmt.Errorf("part %v, tick %d: %q is written with a scope, %q without", part.Op, i, written, plainOut.String()[at:])
			}
		}
		k.Label("part %s", part.Op)
	}
	return nil
}

// ---- audio

type audioPart struct {
	Op     string // text, silence, off (a tone off the pitch), magnitude, debounce, scale, switch
	Text   string
	WPM    float64
	Amp    float64
	N      int
	Number float64
}

type audioCase struct {
	Rate, Pitch int
	Noise       float64
	Channels    int
	Parts       []audioPart
	Seed        uint64
}

func genAudio(t *rapid.T) audioCase {
	c := audioCase{Rate: rapid.SampledFrom([]int{8000, 11025, 16000, 44100, 48000}).Draw(t, "rate"), Pitch: rapid.IntRange(250, 1300).Draw(t, "pitch"),
		Noise: rapid.SampledFrom([]float64{0, 0.001, 0.02, 0.3}).Draw(t, "noise"), Channels: rapid.IntRange(1, 3).Draw(t, "channels"), Seed: rapid.Uint64().Draw(t, "seed")}
	c.Parts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) audioPart {
		p := audioPart{Op: rapid.SampledFrom([]string{"text", "text", "text", "silence", "off", "magnitude", "debounce", "scale", "switch"}).Draw(t, "op")}
		switch p.Op {
		case "text":
			p.Text = rapid.StringMatching("[a-z0-9]{1,3}( [a-z0-9]{1,3})?").Draw(t, "text")
			p.WPM = rapid.Float64Range(15, 40).Draw(t, "wpm")
		case "magnitude":
			p.Number = rapid.Float64Range(0.1, 1).Draw(t, "number")
		case "scale":
			p.Number = rapid.SampledFrom([]float64{0, 0, 1, 1, 0.5, 2, 20}).Draw(t, "number")
		case "debounce":
			p.N = rapid.IntRange(0, 4).Draw(t, "n")
		case "switch":
			p.N = rapid.IntRange(0, 1).Draw(t, "n")
		case "silence", "off":
			p.N = rapid.IntRange(1, 60).Draw(t, "n")
		}
		p.Amp = rapid.SampledFrom([]float64{1, 1, 0.6, 0.3, 0.05}).Draw(t, "amp")
		return p
	}), 1, 7).Draw(t, "parts")
	return c
}

func TestVerif_C35_Audio(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 80, Rule: "a character is decoded while the scope is active"}, genAudio, func(k *vk.K, c audioCase) error {
		return bubble(t, func() error { return c.run(k) })
	})
}

func (c audioCase) run(k *vk.K) error {
	rng := vk.NewRand(c.Seed)
	var out, plainOut bytes.Buffer
	shown := cw.NewAudioDemodulator(&out, float64(c.Pitch), c.Rate, 0)
	defer shown.Close()
	plain := cw.NewAudioDemodulator(&plainOut, float64(c.Pitch), c.Rate, 0)
	defer plain.Close()
	p := &probe{active: true}
	shown.SetScope(p)
	both := []*cw.AudioDemodulator{shown, plain}
	threshold, scale := 0.75, 1.0
	debounced := debouncing{threshold: 3}
	for _, d := range both {
		d.SetChannelCount(c.Channels)
		d.SetMaxScale(12)
		d.SetMagnitudeThreshold(threshold)
		d.SetScale(scale)
		d.SetDebounceThreshold(debounced.threshold)
	}
	var dec decoding
	size := shown.Blocksize()
	bin := math.Round(float64(size) * float64(c.Pitch) / float64(c.Rate))
	limit := 0.0
	phase := 0.0
	for _, part := range c.Parts {
		key := func(float64) bool { return part.Op == "off" }
		n, freq := 0, float64(c.Pitch)
		switch part.Op {
		case "text":
			keying := &vk.Keying{}
			keying.Text(part.Text, 1.2/part.WPM*float64(c.Rate)/float64(size), 0.03, rng)
			keying.Pause(10 * 1.2 / part.WPM * float64(c.Rate) / float64(size))
			key, n = keying.Sampler(), int(keying.Now)
		case "silence":
			n = part.N
		case "off":
			n, freq = part.N, freq*1.5
		case "magnitude":
			threshold = part.Number
			shown.SetMagnitudeThreshold(threshold)
			plain.SetMagnitudeThreshold(threshold)
		case "scale":
			scale = part.Number
			shown.SetScale(scale)
			plain.SetScale(scale)
		case "debounce":
			debounced.threshold = part.N
			shown.SetDebounceThreshold(part.N)
			plain.SetDebounceThreshold(part.N)
		case "switch":
			synctest.Wait()
			p.active = part.N == 1
		}
		for i := 0; i < n; i++ {
			block := make([]float32, size)
			data := make([]float32, 0, size*c.Channels)
			top := float32(0)
			for j := range block {
				phase += 2 * math.Pi * freq / float64(c.Rate)
				v := c.Noise * (2*rng.Float() - 1)
				if key(float64(i) + float64(j)/float64(size)) {
					v += part.Amp * math.Sin(phase)
				}
				block[j] = float32(max(-1, min(1, v)))
				top = max(top, block[j], -block[j])
				data = append(data, block[j])
				for ch := 1; ch < c.Channels; ch++ {
					data = append(data, float32(2*rng.Float()-1))
				}
			}
			time.Sleep(time.Duration(float64(size) / float64(c.Rate) * float64(time.Second)))
			at := out.Len()
			shown.Write(data)
			plain.Write(data)
			synctest.Wait()
			frames, spectral := p.look()
			if len(spectral) > 0 {
				return fmt.Errorf("spectral frames from a demodulator")
			}
			written := out.String()[at:]
			if plainOut.String()[at:] != written {
				return fmt.Errorf("%q is written with a scope, %q without", written, plainOut.String()[at:])
			}

			factor := scale
			if scale == 0 {
				factor = math.Min(1/float64(top), 12)
			}
			var sum complex128
			for j, v := range block {
				x := max(-1, min(1, float64(v)*factor))
				sum += cmplx.Rect(x, -2*math.Pi*bin*float64(j)/float64(size))
			}
			magnitude := cmplx.Abs(sum)
			if magnitude > float64(size)/2 {
				limit += (magnitude - limit) / 6
			}
			limit = max(limit, float64(size)/2)
			magnitude /= limit

			audio := frames["audio"]
			delete(frames, "audio")
			if !p.active {
				if len(audio) > 0 {
					return fmt.Errorf("a frame is shown on a scope that is not active")
				}
				// not known exactly when it is close to the threshold
				if math.Abs(magnitude-threshold) < 1e-4 {
					return nil
				}
				if err := dec.tick(frames, false, debounced.put(magnitude > threshold), written); err != nil {
					return err
				}
				continue
			}
			if len(audio) != 1 {
				return fmt.Errorf("%d frames of the stream audio for one block", len(audio))
			}
			f := audio[0]
			if !(math.Abs(f["magnitude"]/50-magnitude) < 1e-4*max(1, factor)) || math.Abs(f["magnitude_threshold"]/50-threshold) > 1e-9 {
				return fmt.Errorf("part %v, block %d: the magnitude %v with the threshold %v is shown as %v", part.Op, i, magnitude, threshold, f)
			}
			state := f["magnitude"] > f["magnitude_threshold"]
			if math.Abs(f["magnitude"]-f["magnitude_threshold"]) > 1e-9 && (f["state"] > 0) != state {
				return fmt.Errorf("part %v, block %d: the state is wrong in %v", part.Op, i, f)
			}
			effective := debounced.put(f["state"] > 0)
			if (f["debounced"] > 0) != effective {
				return fmt.Errorf("part %v, block %d: the debounced state is wrong in %v", part.Op, i, f)
			}
			if err := dec.tick(frames, true, effective, written); err != nil {
				return fmt.Errorf("part %v, block %d: %w", part.Op, i, err)
			}
			if p.bad != nil {
				return p.bad
			}
			if strings.TrimSpace(written) != "" {
				k.NonTrivial()
			}
		}
		k.Label("part %s", part.Op)
	}
	return nil
}

// ---- receiver

type watchOp struct {
	Op string // feed, scope, switch, vfo, center, silence
	N  int
}

type watchCase struct {
	Mode string
	Band band
	Ops  []watchOp
}

func genWatch(t *rapid.T) watchCase {
	c := watchCase{Mode: rapid.SampledFrom([]string{"strain", "strain", "decode"}).Draw(t, "mode"), Band: genSmallBand(t)}
	limit := float64(c.Band.Rate/2) - 10*c.Band.binWidth()
	for i := rapid.IntRange(0, 3).Draw(t, "stations"); i > 0; i-- {
		if s, ok := genStation(t, c.Band.Sources, 500, limit); ok {
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	c.Ops = append(c.Ops, watchOp{Op: "vfo", N: c.vfo(t)})
	for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
		op := watchOp{Op: "feed", N: rapid.SampledFrom([]int{1, 30, 99, 100, 101, 250, 700}).Draw(t, "blocks")}
		if rapid.Bool().Draw(t, "other") {
			op.Op = rapid.SampledFrom([]string{"scope", "switch", "vfo", "center", "silence", "restart"}).Draw(t, "op")
			switch op.Op {
			case "switch":
				op.N = rapid.IntRange(0, 1).Draw(t, "n")
			case "vfo":
				op.N = c.vfo(t)
			case "center":
				op.N = rapid.IntRange(1000000, 30000000).Draw(t, "n")
			case "silence":
				op.N = rapid.IntRange(1, 30).Draw(t, "n")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func (c watchCase) vfo(t *rapid.T) int {
	if len(c.Band.Sources) > 0 && rapid.Bool().Draw(t, "on station") {
		return int(c.Band.Sources[rapid.IntRange(0, len(c.Band.Sources)-1).Draw(t, "station")].Offset)
	}
	return rapid.IntRange(-c.Band.Rate*9/20, c.Band.Rate*9/20).Draw(t, "vfo")
}

func TestVerif_C35_Receiver(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 60, Rule: "a spectral frame and a frame of a listener are shown"}, genWatch, func(k *vk.K, c watchCase) error {
		return bubble(t, func() error {
			events, text, err := c.run(k, true)
			if err != nil {
				return err
			}
			plainEvents, plainText, err := c.run(k, false)
			if err != nil {
				return err
			}
			if text != plainText {
				return fmt.Errorf("%q was printed with a scope, %q without", text, plainText)
			}
			if a, b := dump(sorted(events)), dump(sorted(plainEvents)); a != b {
				return fmt.Errorf("with a scope: %s\nwithout: %s", a, b)
			}
			return nil
		})
	})
}

// run returns what the receiver reported and printed
func (c watchCase) run(k *vk.K, scoped bool) (_ []event, text string, _ error) {
	mode := rx.StrainMode
	if c.Mode == "decode" {
		mode = rx.DecodeMode
	}
	var s *session
	file, err := stdoutTo(func() { s = newSession(c.Band, mode) })
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	rand.Seed(int64(c.Band.Seed))
	p := &probe{active: true}
	s.rc.SetEdgeWidth(smallEdge)
	s.rc.SetCenterFrequency(7000000)
	s.rc.Start(c.Band.Rate, c.Band.Block)
	defer s.rc.Stop()
	if scoped {
		s.rc.SetScope(p)
	}
	var model spectra
	active := map[string]float64{}
	center, seen, demods, spectrals := 7000000, 0, 0, 0
	position := func(f float64) float64 { // in bins
		return (f-float64(center))/c.Band.binWidth() + float64(c.Band.Block)/2
	}
	follow := func() {
		synctest.Wait()
		events := s.rec.list()
		for _, e := range events[seen:] {
			switch e.Kind {
			case "activated":
				active[e.Listener] = position(float64(e.Frequency))
			case "deactivated":
				delete(active, e.Listener)
			}
		}
		seen = len(events)
	}
	quiet := func(former *probe, what string) error {
		if streams, spectral := former.look(); len(streams) > 0 || len(spectral) > 0 {
			return fmt.Errorf("frames are shown on a scope that is %s", what)
		}
		return nil
	}
	var former []*probe
	for i, op := range c.Ops {
		switch op.Op {
		case "scope":
			if !scoped {
				continue
			}
			f := p
			p = &probe{active: p.active}
			s.rc.SetScope(p)
			follow()
			f.look() // until now
			former = append(former, f)
		case "switch":
			synctest.Wait()
			p.active = op.N == 1
		case "vfo":
			s.rc.SetVFOOffset(op.N)
		case "center":
			s.rc.SetCenterFrequency(op.N)
			center = op.N
		case "silence":
			s.rc.SetSilenceTimeout(time.Duration(op.N) * time.Second)
		case "restart":
			s.rc.Stop()
			follow()
			if len(active) > 0 {
				return nil, "", fmt.Errorf("op %d: listeners are active after the stop", i)
			}
			s.rc.Start(c.Band.Rate, c.Band.Block)
			model = spectra{}
		case "feed":
			for j := 0; j < op.N; j++ {
				follow()
				listening := map[string]float64{}
				for l, at := range active {
					listening[l] = at
				}
				block := s.g.next()
				single := model.put(block)
				s.rc.IQData(c.Band.Rate, block)
				follow()
				if !scoped {
					time.Sleep(c.Band.blockTime())
					continue
				}
				streams, spectral := p.look()
				if p.bad != nil {
					return nil, "", p.bad
				}
				if !p.active {
					if len(streams) > 0 || len(spectral) > 0 {
						return nil, "", fmt.Errorf("op %d: frames are shown on a scope that is not active", i)
					}
					model.frames = nil
					time.Sleep(c.Band.blockTime())
					continue
				}
				if err := c.judge(streams, listening, single); err != nil {
					return nil, "", fmt.Errorf("op %d, block %d: %w", i, j, err)
				}
				demods += len(streams["demod"])
				spectrals += len(spectral)
				frames := make([]scope.SpectralFrame, 0, 1)
				for _, f := range spectral {
					frames = append(frames, *f)
				}
				if err := model.compare(frames); err != nil {
					return nil, "", fmt.Errorf("op %d, block %d: %w", i, j, err)
				}
				model.frames = nil
				for _, f := range spectral {
					marker, ok := f.FrequencyMarkers["signal_bin"]
					found := len(active) == 0 && marker == -1
					for _, at := range active {
						found = found || math.Abs(marker-at) <= 1.01
					}
					if !ok || !found {
						return nil, "", fmt.Errorf("op %d, block %d: the signal is shown at %v, the listeners are at %v", i, j, f.FrequencyMarkers, active)
					}
					stays := len(active) > 0
					for l := range active {
						_, before := listening[l]
						stays = stays && before
					}
					if stays && !slices.ContainsFunc(streams["demod"], func(f map[scope.ChannelID]float64) bool { return math.Abs(f["value"]-single[int(marker)]) < 0.05 }) {
						return nil, "", fmt.Errorf("op %d, block %d: the signal is shown at %v with %v dB, the listeners got %v", i, j, marker, single[int(marker)], streams["demod"])
					}
					if f.Stream != "spectrum" || len(f.MagnitudeMarkers) != 1 {
						return nil, "", fmt.Errorf("op %d, block %d: stream %q with %v", i, j, f.Stream, f.MagnitudeMarkers)
					}
				}
				time.Sleep(c.Band.blockTime())
			}
		}
		follow()
		if op.Op != "feed" && op.Op != "scope" {
			if err := quiet(p, "used without IQ data"); err != nil {
				return nil, "", fmt.Errorf("op %d: %w", i, err)
			}
		}
	}
	for _, f := range former {
		if err := quiet(f, "not used any more"); err != nil {
			return nil, "", err
		}
	}
	if spectrals > 0 && demods > 0 {
		k.NonTrivial()
	}
	k.Label("mode %s", c.Mode)
	s.rc.Stop()
	follow()
	return s.rec.list(), content(file), nil
}

// judge compares the time frames of one block with the listeners
func (c watchCase) judge(streams map[scope.StreamID][]map[scope.ChannelID]float64, listening map[string]float64, single []float64) error {
	for stream, frames := range streams {
		if !slices.Contains([]scope.StreamID{"demod", "decode", "signal_timing", "gap_timing", "signal"}, stream) {
			return fmt.Errorf("frames of the stream %q", stream)
		}
		if len(frames) != len(listening) {
			return fmt.Errorf("%d frames of the stream %q for %d listeners", len(frames), stream, len(listening))
		}
	}
	if len(streams) == 0 && len(listening) > 0 {
		return fmt.Errorf("no frames for %d listeners", len(listening))
	}
	var names []string
	for l := range listening {
		names = append(names, l)
	}
	slices.Sort(names)
	fits := func(at, value float64) bool {
		for bin := int(math.Floor(at - 0.5)); float64(bin) <= at+1.01; bin++ {
			if bin >= 0 && bin < len(single) && math.Abs(single[bin]-value) < 0.05 {
				return true
			}
		}
		return false
	}
	used := map[int]bool{}
	var assign func(n int) bool
	assign = func(n int) bool {
		if n == len(names) {
			return true
		}
		for i, f := range streams["demod"] {
			if !used[i] && fits(listening[names[n]], f["value"]) {
				used[i] = true
				if assign(n + 1) {
					return true
				}
				delete(used, i)
			}
		}
		return false
	}
	if !assign(0) {
		return fmt.Errorf("the frames do not show the signals of the listeners at %v: %v, of the bins %v", listening, streams["demod"], single)
	}
	for i, f := range streams["demod"] {
		if f["threshold"] != streams["demod"][0]["threshold"] {
			return fmt.Errorf("different thresholds for the listeners: %v and %v", streams["demod"][0], f)
		}
		if (f["state"] > 0) != (f["value"] > f["threshold"]) {
			return fmt.Errorf("the state is wrong in %v", f)
		}
		signal := streams["signal"][i]
		if (signal["state"] == 1) != (f["debounced"] > 0) {
			return fmt.Errorf("the state of the decoder in %v does not follow %v", signal, f)
		}
	}
	return nil
}
