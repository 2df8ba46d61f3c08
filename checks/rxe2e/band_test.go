//go:build go1.25

// Package rxe2e runs whole receivers on generated bands in virtual time.
package rxe2e

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

// A source is one transmitter.
type source struct {
	Kind   string  // call, text, carrier
	Call   string  `json:",omitempty"`
	Text   string  `json:",omitempty"`
	Offset float64 // Hz from the center
	SNR    float64 // dB over the noise in one FFT bin
	WPM    float64 `json:",omitempty"`
	Start  float64 // s
	Stop   float64 `json:",omitempty"` // s, 0: goes on for ever
	Pause  float64 `json:",omitempty"` // s between two repetitions
	Times  int     `json:",omitempty"` // number of repetitions, 0: goes on for ever
	Phase  float64
}

// A band is a set of sources in white noise.
type band struct {
	Rate, Block int
	Sigma       float64
	Seed        uint64
	Rolloff     bool `json:",omitempty"` // the device's filter: no noise in the outer tenths of the band
	Sources     []source
}

func (b band) binWidth() float64 { return float64(b.Rate) / float64(b.Block) }
func (b band) blockTime() time.Duration {
	return time.Duration(b.Block) * time.Second / time.Duration(b.Rate)
}
func (b band) blocks(seconds float64) int {
	return int(math.Ceil(seconds * float64(b.Rate) / float64(b.Block)))
}

type tx struct {
	source
	amp    float64
	keying []vk.Interval
	period float64
}

func (s *tx) on(t float64) bool {
	if t < s.Start || (s.Stop > 0 && t >= s.Stop) {
		return false
	}
	if s.Kind == "carrier" {
		return true
	}
	t -= s.Start
	n := math.Floor(t / s.period)
	if s.Times > 0 && int(n) >= s.Times {
		return false
	}
	t -= n * s.period
	i := sort.Search(len(s.keying), func(i int) bool { return s.keying[i].To > t })
	return i < len(s.keying) && s.keying[i].From <= t
}

// end of the last keying when the repetitions are limited
func (s *tx) end() float64 {
	return s.Start + float64(s.Times-1)*s.period + s.keying[len(s.keying)-1].To
}

var noiseTable, filteredTable []float32

func init() {
	rng := vk.NewRand(4711)
	noiseTable = make([]float32, 1<<16+4096*2)
	for i := range noiseTable {
		noiseTable[i] = float32(rng.Norm())
	}
	// windowed-sinc low pass at 0.4 of the sample rate for the complex samples
	const taps, cutoff = 129, 0.4
	var h [taps]float64
	for i := range h {
		x := float64(i - taps/2)
		w := 0.42 + 0.5*math.Cos(2*math.Pi*x/taps) + 0.08*math.Cos(4*math.Pi*x/taps)
		if x == 0 {
			h[i] = 2 * cutoff * w
		} else {
			h[i] = math.Sin(2*math.Pi*cutoff*x) / (math.Pi * x) * w
		}
	}
	n := len(noiseTable) / 2
	filteredTable = make([]float32, 2*n)
	for i := 0; i < n; i++ {
		var re, im float64
		for j := range h {
			m := (i + j) % n
			re += h[j] * float64(noiseTable[2*m])
			im += h[j] * float64(noiseTable[2*m+1])
		}
		filteredTable[2*i], filteredTable[2*i+1] = float32(re), float32(im)
	}
}

// The generator produces the IQ blocks of a band.
type generator struct {
	band
	rng *vk.Rand
	txs []*tx
	n   int // next sample
}

func newGenerator(b band) *generator {
	g := &generator{band: b, rng: vk.NewRand(b.Seed)}
	for _, s := range b.Sources {
		t := &tx{source: s, amp: math.Sqrt(math.Pow(10, s.SNR/10) * 2 * b.Sigma * b.Sigma / float64(b.Block))}
		if s.Kind != "carrier" {
			key := &vk.Keying{}
			key.Text(s.Text, 1.2/s.WPM, 0, nil)
			t.keying = key.Intervals
			t.period = key.Now + s.Pause
		}
		g.txs = append(g.txs, t)
	}
	return g
}

func (g *generator) next() []float32 {
	buf := make([]float32, 2*g.Block)
	offset := g.rng.Intn(1 << 16)
	noise := noiseTable[offset : offset+2*g.Block]
	if g.Rolloff {
		offset &^= 1 // the samples are not independent any more
		noise = filteredTable[offset : offset+2*g.Block]
	}
	for i := range buf {
		buf[i] = float32(g.Sigma) * noise[i]
	}
	dt := 1 / float64(g.Rate)
	for _, s := range g.txs {
		w := 2 * math.Pi * s.Offset * dt
		start := math.Mod(float64(g.n)*s.Offset*dt, 1)
		sin, cos := math.Sincos(s.Phase + 2*math.Pi*start)
		dsin, dcos := math.Sincos(w)
		for i := 0; i < g.Block; i++ {
			if s.on(float64(g.n+i) * dt) {
				buf[2*i] += float32(s.amp * cos)
				buf[2*i+1] += float32(s.amp * sin)
			}
			cos, sin = cos*dcos-sin*dsin, sin*dcos+cos*dsin
		}
	}
	g.n += g.Block
	return buf
}

// event is one report of the receiver.
type event struct {
	T         time.Duration
	Kind      string // activated, deactivated, decoded, spotted, timeout
	Listener  string
	Call      string
	Frequency int
	Count     int
}

func (e event) String() string {
	return fmt.Sprintf("%v %s %q %s %d (%d)", e.T, e.Kind, e.Listener, e.Call, e.Frequency, e.Count)
}

type recorder struct {
	mu     sync.Mutex
	start  time.Time
	events []event
}

func (r *recorder) add(e event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	e.T = time.Since(r.start)
	r.events = append(r.events, e)
}
func (r *recorder) ListenerActivated(l string, f int) {
	r.add(event{Kind: "activated", Listener: l, Frequency: f})
}
func (r *recorder) ListenerDeactivated(l string, f int) {
	r.add(event{Kind: "deactivated", Listener: l, Frequency: f})
}
func (r *recorder) CallsignDecoded(l, c string, f int, n, w int) {
	r.add(event{Kind: "decoded", Listener: l, Call: strings.ToUpper(c), Frequency: f, Count: n})
}
func (r *recorder) CallsignSpotted(l, c string, f int) {
	r.add(event{Kind: "spotted", Listener: l, Call: c, Frequency: f})
}
func (r *recorder) SpotTimeout(l, c string, f int) {
	r.add(event{Kind: "timeout", Listener: l, Call: c, Frequency: f})
}
func (r *recorder) list() []event {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]event{}, r.events...)
}

func dump(events []event) string {
	var b strings.Builder
	for i, e := range events {
		if i > 60 {
			fmt.Fprintf(&b, "... %d more\n", len(events)-i)
			break
		}
		fmt.Fprintln(&b, e)
	}
	return b.String()
}

// session is a receiver that is fed with a band in virtual time.
type session struct {
	b   band
	g   *generator
	rc  *rx.Receiver[float32, int]
	rec *recorder
}

func newSession(b band, mode rx.ReceiverMode) *session {
	s := &session{b: b, g: newGenerator(b), rec: &recorder{start: time.Now()}}
	s.rc = rx.NewReceiver[float32, int]("", mode, rx.WallClock)
	s.rc.AddReporter(s.rec)
	return s
}

func (s *session) feed(buf []float32) {
	s.rc.IQData(s.b.Rate, buf)
	synctest.Wait()
	time.Sleep(s.b.blockTime())
}

func (s *session) run(seconds float64) {
	for i := s.b.blocks(seconds); i > 0; i-- {
		s.feed(s.g.next())
	}
}

// warmUp makes sure that everything that is initialized lazily outside of the bubble's business is so.
var warmUpOnce sync.Once

func warmUp() {
	warmUpOnce.Do(func() {
		rx.NewTextProcessor(nil, rx.WallClock, rx.SpotReporterFunc(func(string) {}))
	})
}

func bubble(t *testing.T, f func() error) error {
	warmUp()
	return vk.Bubble(t, f)
}

// captureStdout lets receivers created meanwhile write their text into a file; the returned functions read and restore.
func captureStdout() (read func() string, restore func(), err error) {
	f, err := os.CreateTemp(os.Getenv("VERIF_OUT"), "verif-stdout")
	if err != nil {
		return nil, nil, err
	}
	old := os.Stdout
	os.Stdout = f
	return func() string {
			raw, _ := os.ReadFile(f.Name())
			return string(raw)
		}, func() {
			os.Stdout = old
			f.Close()
			os.Remove(f.Name())
		}, nil
}

type spectralSink struct {
	mu     sync.Mutex
	frames []*scope.SpectralFrame
}

func (s *spectralSink) Active() bool                   { return true }
func (s *spectralSink) ShowTimeFrame(*scope.TimeFrame) {}
func (s *spectralSink) ShowSpectralFrame(f *scope.SpectralFrame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.frames = append(s.frames, f)
}

// ---------------------------------------------------------------- generators

var prefixes = []string{"dl", "k", "w", "g", "f", "ok", "sp", "pa", "ja", "oh", "9a", "s5", "n", "aa", "vk", "3da"}

// A callsign without e and t at the edges of its word (see C08).
func genCallsign(t *rapid.T) string {
	const edge = "abcdfghijklmnopqrsuvwxyz"
	p := rapid.SampledFrom(prefixes[:15]).Draw(t, "prefix")
	s := p
	if p != "9a" && p != "s5" {
		s += string(rune('0' + rapid.IntRange(0, 9).Draw(t, "digit")))
	} else {
		s += string(rune('1' + rapid.IntRange(0, 8).Draw(t, "digit")))
	}
	n := rapid.IntRange(1, 3).Draw(t, "suffix")
	for i := 0; i < n; i++ {
		s += string(edge[rapid.IntRange(0, len(edge)-1).Draw(t, "letter")])
	}
	return s
}

// offsets at least 'gap' apart within +/- limit
func genOffset(t *rapid.T, used []source, gap, limit float64) (float64, bool) {
	for try := 0; try < 30; try++ {
		off := float64(rapid.IntRange(-int(limit), int(limit)).Draw(t, "offset"))
		ok := true
		for _, u := range used {
			if math.Abs(u.Offset-off) < gap {
				ok = false
			}
		}
		if ok {
			return off, true
		}
	}
	return 0, false
}

var callTexts = []string{"cq cq %[1]s %[1]s %[1]s k", "cq %[1]s %[1]s %[1]s", "cq cq cq %[1]s %[1]s k", "vvv %[1]s %[1]s %[1]s k", "qrz %[1]s %[1]s pse", "cq dx %[1]s %[1]s %[1]s pse"}

func genStation(t *rapid.T, used []source, gap, limit float64) (source, bool) {
	off, ok := genOffset(t, used, gap, limit)
	if !ok {
		return source{}, false
	}
	s := source{Kind: "call", Offset: off,
		SNR:   float64(rapid.IntRange(36, 42).Draw(t, "snr")),
		WPM:   float64(rapid.IntRange(160, 280).Draw(t, "wpm")) / 10,
		Start: float64(rapid.IntRange(0, 50).Draw(t, "start")) / 10,
		Pause: float64(rapid.IntRange(20, 40).Draw(t, "pause")) / 10,
		Phase: float64(rapid.IntRange(0, 627).Draw(t, "phase")) / 100,
	}
	for {
		s.Call = genCallsign(t)
		dup := false
		for _, u := range used {
			dup = dup || u.Call == s.Call
		}
		if !dup {
			break
		}
	}
	s.Text = fmt.Sprintf(rapid.SampledFrom(callTexts).Draw(t, "text"), s.Call)
	return s, true
}
