//go:build go1.25

package rxe2e

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C34

type pulseSource struct {
	Name     string
	Rate     int
	Channels int
	Text     string
	Index    int
}

type pulseCase struct {
	Sources   []pulseSource
	Default   int // index of the server's default source
	Use       int // index of the source to use, -1: none is given, -2: one that does not exist
	Pitch     int
	Tone      int // deviation of the tone from the default pitch of 700 Hz is allowed when the pitch is not given
	WPM       int // 0: default
	Speed     float64
	Lead      bool
	Scale     float64
	Amp       float64
	Noise     float64
	Residual  float64 // amplitude of the tone while the key is up
	Magnitude float64
	Glitch    int // the tone is interrupted for so many blocks in the middle of every dash
	Debounce  int
	Packet    []int // samples
	Float     bool
	Lost      bool // the server goes away after everything is sent
	Debug     bool
	Style     uint64
	Signal    int
	Seed      uint64
}

// audioBlock is the number of samples of a filter block: whole periods of the pitch for about 5 ms
func audioBlock(pitch, rate int) int {
	period := math.Round(float64(rate) / float64(pitch))
	return int(math.Round(0.005*float64(rate)/period) * period)
}

func audioPitchFits(pitch, rate int) bool {
	n := float64(audioBlock(pitch, rate))
	if n == 0 {
		return false
	}
	bin := n * float64(pitch) / float64(rate)
	return math.Abs(bin-math.Round(bin)) < 0.1
}

func genPulse(t *rapid.T) pulseCase {
	c := pulseCase{
		WPM:       rapid.SampledFrom([]int{0, 0, 12, 15, 18, 24, 28, 30}).Draw(t, "wpm"),
		Magnitude: rapid.SampledFrom([]float64{0, 0, 0.75, 0.7, 0.6, 0.4, 0.25}).Draw(t, "magnitude"),
		Debounce:  rapid.IntRange(0, 3).Draw(t, "debounce"),
		Packet:    rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 64, 127, 480, 1000, 4096, 16000}), 1, 5).Draw(t, "packet"),
		Lost:      rapid.IntRange(0, 4).Draw(t, "lost") == 0,
		Debug:     rapid.Bool().Draw(t, "debug"),
		Style:     rapid.Uint64().Draw(t, "style"),
		Signal:    rapid.IntRange(0, len(cliSignals)-1).Draw(t, "signal"),
		Seed:      rapid.Uint64().Draw(t, "seed"),
		Lead:      rapid.Bool().Draw(t, "lead"),
	}
	if rapid.IntRange(0, 3).Draw(t, "glitches") == 0 {
		c.Debounce = rapid.IntRange(4, 8).Draw(t, "long debounce")
		c.Glitch = c.Debounce - 2 // it touches one block more
		c.WPM = rapid.SampledFrom([]int{12, 13, 14}).Draw(t, "slow")
	}
	preset := 20.0
	if c.WPM > 0 {
		preset = float64(c.WPM)
	}
	c.Speed = preset * rapid.Float64Range(0.93, 1.07).Draw(t, "speed")
	if rapid.Bool().Draw(t, "auto") {
		c.Amp = rapid.Float64Range(0.12, 1).Draw(t, "amp")
	} else {
		c.Amp = rapid.OneOf(rapid.Float64Range(0.01, 1), rapid.Float64Range(1, 4)).Draw(t, "amp")
		threshold := 0.75
		if c.Magnitude > 0 {
			threshold = c.Magnitude
		}
		c.Scale = rapid.Float64Range(1.3*threshold, 1).Draw(t, "level") / c.Amp
		c.Residual = rapid.SampledFrom([]float64{0, 0.65 * threshold}).Draw(t, "residual") / c.Scale
	}
	c.Noise = c.Amp * rapid.SampledFrom([]float64{0, 0, 0.02}).Draw(t, "noise")
	n := rapid.IntRange(1, 3).Draw(t, "sources")
	index := rapid.IntRange(0, 5).Draw(t, "index")
	for i := 0; i < n; i++ {
		s := pulseSource{
			Name:     fmt.Sprintf("%s.%d", rapid.SampledFrom([]string{"alsa_input.pci-0000_00_1f.3.analog-stereo", "rig", "tci rx 1", "v"}).Draw(t, "name"), i),
			Rate:     rapid.SampledFrom([]int{8000, 16000, 22050, 44100, 48000, 48000, 96000}).Draw(t, "rate"),
			Channels: rapid.SampledFrom([]int{1, 2, 2, 6}).Draw(t, "channels"),
			Index:    index,
		}
		_, s.Text, _ = strings.Cut(genDecodeText(t), " ")
		for _, l := range []string{"vvv ", "cq cq "} {
			s.Text = strings.TrimPrefix(s.Text, l)
		}
		index += 1 + rapid.IntRange(0, 3).Draw(t, "gap")
		c.Sources = append(c.Sources, s)
	}
	c.Default = rapid.IntRange(0, n-1).Draw(t, "default")
	c.Use = rapid.IntRange(-1, n-1).Draw(t, "use")
	if rapid.IntRange(0, 11).Draw(t, "unknown") == 0 {
		c.Use = -2
	}
	s := c.source()
	pitches := []int{0, 0, 0}
	if !audioPitchFits(700, s.Rate) {
		pitches = nil
	}
	for p := 300; p <= 1200; p += 10 {
		if audioPitchFits(p, s.Rate) {
			pitches = append(pitches, p)
		}
	}
	c.Pitch = rapid.SampledFrom(pitches).Draw(t, "pitch")
	return c
}

func (c pulseCase) source() pulseSource {
	if c.Use >= 0 {
		return c.Sources[c.Use]
	}
	return c.Sources[c.Default]
}

func (c pulseCase) args() []string {
	type flag struct{ name, value string }
	var flags []flag
	add := func(name string, value any) { flags = append(flags, flag{name, fmt.Sprint(value)}) }
	switch {
	case c.Use >= 0:
		add("source", c.Sources[c.Use].Name)
	case c.Use == -2:
		add("source", "no such source")
	}
	if c.Pitch > 0 {
		add("pitch", c.Pitch)
	}
	if c.Scale > 0 {
		add("scale", c.Scale)
	}
	if c.Magnitude > 0 {
		add("magnitude", c.Magnitude)
	}
	if c.WPM > 0 {
		add("wpm", c.WPM)
	}
	if c.Debounce > 0 {
		add("debounce", c.Debounce)
	}
	if c.Debug {
		flags = append(flags, flag{"debug", ""})
	}
	result := []string{"decode", "pulse"}
	for i, f := range style(c.Style, flags) {
		switch {
		case f.value == "":
			result = append(result, "--"+f.name)
		case (c.Style>>(i+1))%2 == 0:
			result = append(result, "--"+f.name+"="+f.value)
		default:
			result = append(result, "--"+f.name, f.value)
		}
	}
	return result
}

// samples of one source, as a stream of the given rate
func (c pulseCase) samples(s pulseSource, rate int) []float32 {
	rng := vk.NewRand(c.Seed)
	pitch := c.Pitch
	if pitch == 0 {
		pitch = 700
	}
	dit := 1.2 / c.Speed
	key := &vk.Keying{Now: 10 * dit}
	text := s.Text
	if c.Lead {
		text = "vvv " + text
	}
	key.Text(text, dit, 0, nil)
	if c.Glitch > 0 {
		var cut []vk.Interval
		block := float64(audioBlock(pitch, s.Rate)) / float64(s.Rate)
		for _, iv := range key.Intervals {
			if middle, half := (iv.From+iv.To)/2, float64(c.Glitch)*block/2; iv.To-iv.From > 2*dit {
				cut = append(cut, vk.Interval{From: iv.From, To: middle - half}, vk.Interval{From: middle + half, To: iv.To})
			} else {
				cut = append(cut, iv)
			}
		}
		key.Intervals = cut
	}
	key.Pause(120 * dit)
	state := key.Sampler()
	result := make([]float32, 0, int(key.Now*float64(rate)))
	for i := 0; i < cap(result); i++ {
		v := c.Noise * (2*rng.Float() - 1)
		amp := c.Residual
		if state(float64(i) / float64(rate)) {
			amp = c.Amp
		}
		v += amp * math.Sin(2*math.Pi*float64(pitch)*float64(i)/float64(rate))
		result = append(result, float32(v))
	}
	return result
}

// pulseServer is a PulseAudio server with version 13 of the native protocol
type pulseServer struct {
	c    pulseCase
	conn net.Conn
	wmu  sync.Mutex

	mu      sync.Mutex
	stream  *pulseStream
	problem error
	sent    chan struct{} // everything is sent
	over    chan struct{} // the client has gone
}

type pulseStream struct {
	source   pulseSource
	rate     int
	channels int
	format   int
	running  bool
}

const pulseUndefined = 0xFFFFFFFF

func (p *pulseServer) packet(channel uint32, data []byte) error {
	buf := binary.BigEndian.AppendUint32(nil, uint32(len(data)))
	buf = binary.BigEndian.AppendUint32(buf, channel)
	buf = append(buf, make([]byte, 12)...)
	p.wmu.Lock()
	defer p.wmu.Unlock()
	_, err := p.conn.Write(append(buf, data...))
	return err
}

type pulseWriter []byte

func (w *pulseWriter) u32(v uint32) { *w = binary.BigEndian.AppendUint32(append(*w, 'L'), v) }
func (w *pulseWriter) str(s string) { *w = append(append(append(*w, 't'), s...), 0) }
func (w *pulseWriter) boolean(v bool) {
	if v {
		*w = append(*w, '1')
	} else {
		*w = append(*w, '0')
	}
}
func (w *pulseWriter) usec(v uint64) { *w = binary.BigEndian.AppendUint64(append(*w, 'U'), v) }
func (w *pulseWriter) spec(format, channels, rate int) {
	*w = binary.BigEndian.AppendUint32(append(*w, 'a', byte(format), byte(channels)), uint32(rate))
}
func (w *pulseWriter) channelMap(n int) {
	*w = append(*w, 'm', byte(n))
	for i := 0; i < n; i++ {
		if n == 1 {
			*w = append(*w, 0)
		} else {
			*w = append(*w, byte(i+1))
		}
	}
}
func (w *pulseWriter) volumes(n int) {
	*w = append(*w, 'v', byte(n))
	for i := 0; i < n; i++ {
		*w = binary.BigEndian.AppendUint32(*w, 0x10000)
	}
}

// pulseValues parses the tagged values of a message
func pulseValues(data []byte) ([]any, error) {
	var result []any
	take := func(n int) []byte {
		if n > len(data) {
			n = len(data)
		}
		b := data[:n]
		data = data[n:]
		return b
	}
	u32 := func() uint32 {
		b := take(4)
		if len(b) < 4 {
			return 0
		}
		return binary.BigEndian.Uint32(b)
	}
	str := func() string {
		i := 0
		for i < len(data) && data[i] != 0 {
			i++
		}
		s := string(take(i))
		take(1)
		return s
	}
	for len(data) > 0 {
		switch tag := take(1)[0]; tag {
		case 'L', 'V':
			result = append(result, u32())
		case 't':
			result = append(result, str())
		case 'N':
			result = append(result, "")
		case '1', '0':
			result = append(result, tag == '1')
		case 'B':
			result = append(result, take(1)[0])
		case 'R', 'r', 'U', 'T':
			result = append(result, take(8))
		case 'x':
			result = append(result, take(int(u32())))
		case 'a':
			b := take(2)
			result = append(result, [3]int{int(b[0]), int(b[1]), int(u32())})
		case 'm':
			result = append(result, take(int(take(1)[0])))
		case 'v':
			result = append(result, take(4*int(take(1)[0])))
		case 'P':
			m := map[string]string{}
			for len(data) > 0 && data[0] == 't' {
				take(1)
				name := str()
				take(1)
				u32()
				take(1)
				m[name] = string(take(int(u32())))
			}
			take(1)
			result = append(result, m)
		default:
			return result, fmt.Errorf("the PulseAudio server got the value %q", tag)
		}
	}
	return result, nil
}

func (p *pulseServer) serve(conn net.Conn) {
	p.conn = conn
	defer close(p.over)
	fail := func(err error) {
		p.mu.Lock()
		if p.problem == nil {
			p.problem = err
		}
		p.mu.Unlock()
	}
	r := bufio.NewReader(conn)
	for {
		header := make([]byte, 20)
		if _, err := io.ReadFull(r, header); err != nil {
			return
		}
		data := make([]byte, binary.BigEndian.Uint32(header))
		if _, err := io.ReadFull(r, data); err != nil {
			return
		}
		values, err := pulseValues(data)
		if err != nil || len(values) < 2 {
			fail(fmt.Errorf("bad message %q: %v", data, err))
			return
		}
		command, _ := values[0].(uint32)
		tag, _ := values[1].(uint32)
		values = values[2:]
		var w pulseWriter
		reply := func(f func()) {
			w.u32(2)
			w.u32(tag)
			if f != nil {
				f()
			}
			p.packet(pulseUndefined, w)
		}
		refuse := func(code uint32) {
			w.u32(0)
			w.u32(tag)
			w.u32(code)
			p.packet(pulseUndefined, w)
		}
		// find looks up a source by index or name
		find := func(index any, name any) (pulseSource, bool) {
			if index == uint32(pulseUndefined) && (name == "" || name == "@DEFAULT_SOURCE@") {
				return p.c.Sources[p.c.Default], true
			}
			for _, s := range p.c.Sources {
				if index == uint32(s.Index) || index == uint32(pulseUndefined) && name == s.Name {
					return s, true
				}
			}
			return pulseSource{}, false
		}
		switch command {
		case 8: // auth
			reply(func() { w.u32(13) })
		case 9: // client name
			reply(func() { w.u32(77) })
		case 23: // source info
			s, ok := find(values[0], values[1])
			if !ok {
				refuse(5)
				continue
			}
			reply(func() { p.info(&w, s) })
		case 24: // all sources
			reply(func() {
				for _, s := range p.c.Sources {
					p.info(&w, s)
				}
			})
		case 5: // record
			spec, _ := values[0].([3]int)
			s, ok := find(values[2], values[3])
			if !ok {
				refuse(5)
				continue
			}
			if spec[1] < 1 || spec[2] < 1 || (spec[0] != 3 && spec[0] != 5) {
				fail(fmt.Errorf("record stream with %v", spec))
				refuse(3)
				continue
			}
			st := &pulseStream{source: s, rate: spec[2], channels: spec[1], format: spec[0]}
			p.mu.Lock()
			p.stream = st
			p.mu.Unlock()
			reply(func() {
				w.u32(3)
				w.u32(9)
				w.u32(4194304)
				w.u32(4096)
				w.spec(spec[0], spec[1], spec[2])
				w.channelMap(spec[1])
				w.u32(uint32(s.Index))
				w.str(s.Name)
				w.boolean(false)
				w.usec(1000)
			})
			if corked, _ := values[5].(bool); !corked {
				go p.play(st)
			}
		case 59: // flush
			reply(nil)
		case 58: // cork
			corked, _ := values[1].(bool)
			p.mu.Lock()
			st := p.stream
			start := st != nil && !corked && !st.running
			if start {
				st.running = true
			}
			p.mu.Unlock()
			reply(nil)
			if start {
				go p.play(st)
			}
		default:
			reply(nil)
		}
	}
}

func (p *pulseServer) info(w *pulseWriter, s pulseSource) {
	w.u32(uint32(s.Index))
	w.str(s.Name)
	w.str("description of " + s.Name)
	w.spec(3, s.Channels, s.Rate)
	w.channelMap(s.Channels)
	w.u32(1)
	w.volumes(s.Channels)
	w.boolean(false)
	w.u32(pulseUndefined)
	*w = append(*w, 'N')
	w.usec(0)
	w.str("driver")
	w.u32(0)
	*w = append(*w, 'P', 'N')
	w.usec(0)
}

func (p *pulseServer) play(st *pulseStream) {
	defer close(p.sent)
	samples := p.c.samples(st.source, st.rate)
	for i := 0; len(samples) > 0; i++ {
		n := min(p.c.Packet[i%len(p.c.Packet)], len(samples))
		if n < 64 && i > 200 {
			n = min(64, len(samples))
		}
		var data []byte
		for _, s := range samples[:n] {
			for ch := 0; ch < st.channels; ch++ {
				if st.format == 5 {
					data = binary.LittleEndian.AppendUint32(data, math.Float32bits(s))
				} else {
					data = binary.LittleEndian.AppendUint16(data, uint16(int16(s*32767)))
				}
			}
		}
		if p.packet(3, data) != nil {
			return
		}
		samples = samples[n:]
	}
}

func (c pulseCase) run() error {
	home, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "pulse")
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	defer os.RemoveAll(home)
	network, address := "tcp", "127.0.0.1:0"
	if path := filepath.Join(home, "native"); c.Style%3 == 0 && len(path) < 100 {
		network, address = "unix", path
	}
	l, err := net.Listen(network, address)
	if err != nil {
		vk.Inconclusive("no PulseAudio server: %v", err)
	}
	defer l.Close()
	server := &pulseServer{c: c, sent: make(chan struct{}), over: make(chan struct{})}
	go func() {
		if conn, err := l.Accept(); err == nil {
			defer conn.Close()
			server.serve(conn)
		}
	}()

	args := c.args()
	program := exec.Command(os.Args[0], args...)
	program.Env = []string{"VERIF_SDRAINER=1", "HOME=" + home, "PATH=" + os.Getenv("PATH"), "PULSE_SERVER=" + network + ":" + l.Addr().String(), "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9"}
	program.Dir = home
	outR, outW, err := os.Pipe()
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	errR, errW, err := os.Pipe()
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	program.Stdout, program.Stderr = outW, errW
	if err := program.Start(); err != nil {
		vk.Inconclusive("cannot start: %v", err)
	}
	outW.Close()
	errW.Close()
	stdout, stderr := readLines(outR), readLines(errR)
	exited := make(chan struct{})
	go func() {
		program.Wait()
		close(exited)
	}()
	defer func() {
		program.Process.Kill()
		<-exited
		outR.Close()
		errR.Close()
	}()
	describe := func(format string, a ...any) error {
		server.mu.Lock()
		defer server.mu.Unlock()
		stream := "no stream"
		if st := server.stream; st != nil {
			stream = fmt.Sprintf("a stream of %q with %d Hz and %d channels", st.source.Name, st.rate, st.channels)
		}
		return fmt.Errorf("sdrainer %q with %s: %s\nprinted:\n%s\nlogged:\n%s", args, stream, fmt.Sprintf(format, a...), tail(stdout.text()), tail(stderr.text()))
	}

	if c.Use == -2 {
		select {
		case <-exited:
		case <-time.After(cliPatience):
			return describe("goes on although the source does not exist")
		}
		if program.ProcessState.ExitCode() != 1 {
			return describe("ended with %v although the source does not exist", program.ProcessState)
		}
		return nil
	}

	select {
	case <-server.sent:
	case <-server.over:
	case <-exited:
		return describe("ended by itself: %v", program.ProcessState)
	case <-time.After(cliPatience):
		return describe("has not recorded")
	}
	want := strings.Join(strings.Fields(c.source().Text), " ")
	printed := func() string { return strings.Join(strings.Fields(stdout.text()), " ") }
	right := func() bool {
		got := printed()
		if !c.Lead {
			return got == want
		}
		return got == want || strings.HasSuffix(got, " "+want) && len([]rune(got)) <= len([]rune(want))+9
	}
	if !waitFor(20*time.Second, exited, right) {
		return describe("printed %q, want %q", printed(), want)
	}
	if c.Lost {
		server.conn.Close()
		<-server.over
		time.Sleep(50 * time.Millisecond)
	}
	program.Process.Signal(cliSignals[c.Signal])
	select {
	case <-exited:
	case <-time.After(cliPatience):
		program.Process.Signal(syscall.SIGABRT)
		time.Sleep(time.Second)
		return describe("does not end with %v", cliSignals[c.Signal])
	}
	if code := program.ProcessState.ExitCode(); code != 0 {
		return describe("ended with %v", program.ProcessState)
	}
	if !stdout.ended(cliPatience) || !stderr.ended(cliPatience) {
		return describe("something of the program is left")
	}
	select {
	case <-server.over:
	case <-time.After(cliPatience):
		return describe("the connection to the PulseAudio server is still there")
	}
	if !right() {
		return describe("printed %q, want %q", printed(), want)
	}
	if !c.Debug && stderr.text() != "" {
		return describe("logged without debug")
	}
	if server.problem != nil {
		return describe("%v", server.problem)
	}
	return nil
}

func TestVerif_C34_Pulse(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 60, Rule: "the source exists and its text was printed"}, genPulse, func(k *vk.K, c pulseCase) error {
		if err := c.run(); err != nil {
			return err
		}
		if c.Use == -2 {
			k.Label("unknown source")
			return nil
		}
		k.Label("rate %s", strconv.Itoa(c.source().Rate))
		k.Label("given source %v", c.Use >= 0)
		k.Label("lead in %v", c.Lead)
		k.NonTrivial()
		return nil
	})
}
