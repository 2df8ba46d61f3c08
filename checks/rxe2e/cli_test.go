//go:build go1.25

package rxe2e

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"net/url"
	"os"
	"os/exec"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/cmd"
	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/scope"
)

// This test binary is the program itself when it is started again by the checks of the command line.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_SDRAINER") != "" {
		log.SetOutput(os.Stderr)
		cmd.Execute()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

const (
	cliPatience = 60 * time.Second // for what needs no time in fact
	cliSlack    = 900 * time.Millisecond
)

type cliCase struct {
	Kind      string // spots, timing, text, kiwi
	Band      band
	Center    int
	VFO       int
	TRX       int
	IFLimit   int
	Threshold int // -1: default
	Debounce  int // 0: default
	Silence   int // ms, 0: default
	Busy      int // ms, 0: default
	SpotEvery int // ms, 0: default
	Call      string
	Spots     bool
	Listeners bool
	Scope     bool
	User      string
	Password  string
	Bandwidth int
	RX        int
	Host      string
	Style     uint64 // how the arguments are written
	Signal    int
	Seconds   float64 // of IQ data
	Speed     float64
}

var cliSignals = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT}

func genCLI(t *rapid.T) cliCase {
	c := cliCase{
		Kind:      rapid.SampledFrom([]string{"spots", "spots", "timing", "timing", "text", "kiwi"}).Draw(t, "kind"),
		Center:    genCenter(t),
		TRX:       rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "trx"),
		IFLimit:   rapid.SampledFrom([]int{24000, 20000, 18000}).Draw(t, "iflimit"),
		Threshold: rapid.SampledFrom([]int{-1, -1, 9, 12, 18, 21, 24}).Draw(t, "threshold"),
		Debounce:  rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "debounce"),
		Call:      rapid.SampledFrom([]string{"", "dl0abc-#", "W1AW", "sk-1"}).Draw(t, "call"),
		Spots:     rapid.Bool().Draw(t, "spots"),
		Listeners: rapid.Bool().Draw(t, "listeners"),
		Scope:     true,
		Host:      rapid.SampledFrom([]string{"127.0.0.1:", "localhost:", ":"}).Draw(t, "host"),
		Style:     rapid.Uint64().Draw(t, "style"),
		Signal:    rapid.IntRange(0, len(cliSignals)-1).Draw(t, "signal"),
	}
	c.Band = band{Rate: 48000, Block: 512, Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")}
	timed := func(wpm int) {
		s := source{Kind: "carrier", Offset: math.Round(rapid.Float64Range(-100, 100).Draw(t, "offset")) * c.Band.binWidth(), SNR: 40, Start: 1.3}
		if c.Kind == "kiwi" {
			s.Start = 4.5
		}
		if rapid.Bool().Draw(t, "keyed") {
			s.Kind, s.Text, s.WPM, s.Pause = "text", "test paris test paris", float64(wpm), 0.6
			c.Busy = rapid.SampledFrom([]int{0, 1500, 2500, 3500}).Draw(t, "busy")
			c.Silence = rapid.SampledFrom([]int{0, 5000}).Draw(t, "silence")
			if c.Kind == "kiwi" {
				c.Debounce = min(2, c.Debounce)
			}
			c.Threshold = min(15, c.Threshold)
		} else {
			c.Silence = rapid.SampledFrom([]int{0, 1500, 2500, 3500}).Draw(t, "silence")
			c.Busy = rapid.SampledFrom([]int{0, 1500, 2500, 3500}).Draw(t, "busy")
		}
		c.Band.Sources = append(c.Band.Sources, s)
	}
	switch c.Kind {
	case "spots":
		c.SpotEvery = rapid.SampledFrom([]int{0, 0, 700, 1500, 3000}).Draw(t, "spotevery")
		c.Threshold = rapid.SampledFrom([]int{-1, 15, 18}).Draw(t, "threshold")
		c.Debounce = min(1, c.Debounce)
		c.Scope = rapid.Bool().Draw(t, "scope")
		s, _ := genStation(t, nil, 3000, min(17500, float64(c.IFLimit)))
		c.Band.Sources = append(c.Band.Sources, s)
		c.Seconds, c.Speed = 50, 6
	case "timing":
		timed(20)
		c.Speed = 3
		c.Seconds = (1.3 + 1.1) + 3*5.5
	case "text":
		c.Debounce = min(2, c.Debounce)
		c.Scope = rapid.Bool().Draw(t, "scope")
		s, _ := genStation(t, nil, 3000, 17500)
		s.Kind, s.Text, s.Times, s.Start = "text", genDecodeText(t), 1, warmUpSeconds+1
		for {
			key := &vk.Keying{}
			key.Text(s.Text, 1.2/s.WPM, 0, nil)
			if key.Now < 40 {
				c.Seconds = s.Start + key.Now + 4
				break
			}
			words := strings.Fields(s.Text)
			s.Text = strings.Join(words[:len(words)-1], " ")
		}
		c.VFO = nearStation(c.Band, s.Offset, float64(rapid.IntRange(-4, 4).Draw(t, "off"))/10)
		c.Band.Sources = append(c.Band.Sources, s)
		c.Speed = 6
	case "kiwi":
		c.Band.Rate = 12000
		c.User = rapid.StringMatching(`[ -~]{0,12}`).Draw(t, "user")
		c.Password = rapid.StringMatching(`[ -~]{0,12}`).Draw(t, "password")
		c.Bandwidth = rapid.SampledFrom([]int{0, 10000, 8000, 6000, 11000}).Draw(t, "bandwidth")
		c.RX = rapid.SampledFrom([]int{0, 0, 700, -1234}).Draw(t, "rx")
		timed(7)
		c.Speed = 8
		c.Seconds = (4.5 + 4.3) + 8*5.5
	}
	return c
}

func style[T any](s uint64, list []T) []T {
	result := slices.Clone(list)
	rng := vk.NewRand(s)
	for i := len(result) - 1; i > 0; i-- {
		j := rng.Intn(i + 1)
		result[i], result[j] = result[j], result[i]
	}
	return result
}

// args are the arguments of the program
func (c cliCase) args(device, telnetPort, scopePort int) []string {
	type flag struct{ name, value string }
	var flags []flag
	add := func(name string, value any) { flags = append(flags, flag{name, fmt.Sprint(value)}) }
	ms := func(v int) string { return (time.Duration(v) * time.Millisecond).String() }
	add("host", c.Host+strconv.Itoa(device))
	flags = append(flags, flag{"debug", ""})
	if c.Debounce > 0 {
		add("debounce", c.Debounce)
	}
	if c.Threshold >= 0 {
		add("threshold", c.Threshold)
	}
	if c.Scope {
		flags = append(flags, flag{"scope", ""})
		add("scope-address", fmt.Sprintf("127.0.0.1:%d", scopePort))
	}
	words := []string{"strain", "tci"}
	switch c.Kind {
	case "text":
		words = []string{"decode", "tci"}
	case "kiwi":
		words = []string{"strain", "kiwi"}
		add("center", c.Center)
		if c.User != "" {
			add("username", c.User)
		}
		if c.Password != "" {
			add("password", c.Password)
		}
		if c.Bandwidth > 0 {
			add("bandwidth", c.Bandwidth)
		}
		if c.RX != 0 {
			add("rx", c.Center+c.RX)
		}
	}
	if c.Kind != "kiwi" && (c.Style>>40)%8 == 0 {
		flags = append(flags, flag{"trace_tci", ""})
	}
	if c.Kind != "kiwi" && (c.TRX != 0 || c.Style%2 == 0) {
		add("trx", c.TRX)
	}
	if c.Kind != "text" {
		add("telnet_port", telnetPort)
		if c.Call != "" {
			add("telnet_call", c.Call)
		}
		if c.Silence > 0 {
			add("silence", ms(c.Silence))
		}
		if c.Busy > 0 {
			add("busy", ms(c.Busy))
		}
		if c.SpotEvery > 0 {
			add("spot_every", ms(c.SpotEvery))
		}
		if c.Kind != "kiwi" {
			if c.Spots {
				flags = append(flags, flag{"show_spots", ""})
			}
			if c.Listeners {
				flags = append(flags, flag{"show_listeners", ""})
			}
		}
	}
	result := words
	for i, f := range style(c.Style, flags) {
		switch {
		case f.value == "":
			result = append(result, "--"+f.name)
		case (c.Style>>(i+1))%2 == 0:
			result = append(result, "--"+f.name+"="+f.value)
		default:
			result = append(result, "--"+f.name, f.value)
		}
	}
	return result
}

type timedLine struct {
	T    time.Time
	Text string
}

type lines struct {
	mu   sync.Mutex
	list []timedLine
	raw  strings.Builder
	end  chan struct{}
}

func readLines(r io.Reader) *lines {
	result := &lines{end: make(chan struct{})}
	go func() {
		defer close(result.end)
		buf := make([]byte, 4096)
		line := ""
		for {
			n, err := r.Read(buf)
			now := time.Now()
			result.mu.Lock()
			result.raw.Write(buf[:n])
			line += string(buf[:n])
			for {
				before, after, ok := strings.Cut(line, "\n")
				if !ok {
					break
				}
				result.list = append(result.list, timedLine{now, before})
				line = after
			}
			result.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return result
}

func (l *lines) all() []timedLine {
	l.mu.Lock()
	defer l.mu.Unlock()
	return slices.Clone(l.list)
}

func (l *lines) text() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.raw.String()
}

func (l *lines) ended(limit time.Duration) bool {
	select {
	case <-l.end:
		return true
	case <-time.After(limit):
		return false
	}
}

// ports below the range that is used for outgoing connections; every process has its own
var cliPort = 12000 + os.Getpid()%1800*10

func freePort() int {
	for i := 0; i < 1000; i++ {
		cliPort++
		if cliPort > 31000 {
			cliPort = 12000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", cliPort))
		if err != nil {
			continue
		}
		l.Close()
		return cliPort
	}
	vk.Inconclusive("no free port")
	return 0
}

// scopeLog keeps what the scope of the program shows
type scopeLog struct {
	mu       sync.Mutex
	spectral []*scope.SpectralFrame
	demod    []*scope.TimeFrame
	gaps     []int // indexes into demod where frames may be missing
	stop     chan struct{}
	done     chan struct{}
	ready    chan struct{}
}

func watchScope(port int) *scopeLog {
	l := &scopeLog{stop: make(chan struct{}), done: make(chan struct{}), ready: make(chan struct{})}
	go func() {
		defer close(l.done)
		connected := false
		for {
			select {
			case <-l.stop:
				return
			default:
			}
			client := scope.NewClient(fmt.Sprintf("127.0.0.1:%d", port))
			if err := client.Open(); err != nil {
				vk.Inconclusive("no scope client: %v", err)
			}
			tf, sf, err := client.GetFrames()
			if err == nil {
				if !connected {
					connected = true
					close(l.ready)
				}
				l.mu.Lock()
				l.gaps = append(l.gaps, len(l.demod))
				l.mu.Unlock()
				for tf != nil || sf != nil {
					select {
					case f, ok := <-tf:
						if !ok {
							tf = nil
							continue
						}
						if f.Stream == "demod" {
							l.mu.Lock()
							l.demod = append(l.demod, f)
							l.mu.Unlock()
						}
					case f, ok := <-sf:
						if !ok {
							sf = nil
							continue
						}
						l.mu.Lock()
						l.spectral = append(l.spectral, f)
						l.mu.Unlock()
					}
				}
			}
			client.Close()
			select {
			case <-l.stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
		}
	}()
	return l
}

type cliRun struct {
	stdout, stderr, telnet *lines
	scope                  *scopeLog
	dev                    *tciDevice
	kiwi                   *kiwiDevice
	maxGap                 time.Duration // between two packets
	skipped                bool
	stopped                time.Time
}

// kiwiDevice is a KiwiSDR on the loopback network
type kiwiDevice struct {
	mu       sync.Mutex
	ws       *websocket.Conn
	path     string
	commands []string
	over     bool
}

func (d *kiwiDevice) serve(conn net.Conn) {
	ws, err := upgrade(conn)
	if err != nil {
		return
	}
	ws.WriteMessage(websocket.BinaryMessage, []byte("MSG audio_init=0 audio_rate=12000"))
	d.mu.Lock()
	d.ws = ws
	d.mu.Unlock()
	for {
		_, raw, err := ws.ReadMessage()
		d.mu.Lock()
		if err != nil {
			d.over = true
			d.mu.Unlock()
			conn.Close()
			return
		}
		d.commands = append(d.commands, string(raw))
		d.mu.Unlock()
	}
}

func (d *kiwiDevice) ready() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return slices.ContainsFunc(d.commands, func(s string) bool { return strings.HasPrefix(s, "SET mod=") })
}

func (c cliCase) messages() []string {
	return tciCase{TRX: c.TRX, Center: c.Center, IFLimit: c.IFLimit}.messages()
}

func waitFor(limit time.Duration, exited <-chan struct{}, condition func() bool) bool {
	for end := time.Now().Add(limit); !condition(); time.Sleep(5 * time.Millisecond) {
		if time.Now().After(end) {
			return false
		}
		select {
		case <-exited:
			return false
		default:
		}
	}
	return true
}

func (c cliCase) run() (*cliRun, error) {
	r := &cliRun{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vk.Inconclusive("no device: %v", err)
	}
	defer l.Close()
	init := c.messages()
	if c.Kind == "text" {
		init = append(init, fmt.Sprintf("if:%d,0,%d;", c.TRX, c.VFO), fmt.Sprintf("if:%d,1,%d;", c.TRX, -c.VFO+1), fmt.Sprintf("if:%d,0,%d;", 1-c.TRX, 77))
	}
	r.dev = &tciDevice{init: init, echo: "all", start: time.Now()}
	r.kiwi = &kiwiDevice{}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			if c.Kind == "kiwi" {
				go r.kiwi.serve(conn)
			} else {
				go r.dev.serve(conn)
			}
		}
	}()

	home, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "home")
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	defer os.RemoveAll(home)
	telnetPort, scopePort := freePort(), freePort()
	args := c.args(l.Addr().(*net.TCPAddr).Port, telnetPort, scopePort)
	program := exec.Command(os.Args[0], args...)
	program.Env = []string{"VERIF_SDRAINER=1", "HOME=" + home, "PATH=" + os.Getenv("PATH"), "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9"}
	program.Dir = home
	outR, outW, err := os.Pipe()
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	errR, errW, err := os.Pipe()
	if err != nil {
		vk.Inconclusive("%v", err)
	}
	program.Stdout, program.Stderr = outW, errW
	if err := program.Start(); err != nil {
		vk.Inconclusive("cannot start: %v", err)
	}
	outW.Close()
	errW.Close()
	r.stdout, r.stderr = readLines(outR), readLines(errR)
	exited := make(chan struct{})
	go func() {
		program.Wait()
		close(exited)
	}()
	defer func() {
		program.Process.Kill()
		<-exited
		outR.Close()
		errR.Close()
	}()
	describe := func(format string, a ...any) error {
		return fmt.Errorf("sdrainer %q: %s\nprinted:\n%s\nlogged:\n%s", args, fmt.Sprintf(format, a...), tail(r.stdout.text()), tail(r.stderr.text()))
	}

	// everything is there
	if c.Kind != "text" {
		var conn net.Conn
		if !waitFor(cliPatience, exited, func() bool {
			conn, err = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", telnetPort))
			return err == nil
		}) {
			return nil, describe("no telnet server: %v", err)
		}
		defer conn.Close()
		conn.Write([]byte("dl1xyz\n"))
		r.telnet = readLines(conn)
		if !waitFor(cliPatience, exited, func() bool { return strings.Contains(r.telnet.text(), "welcome dl1xyz\n") }) {
			return nil, describe("the telnet server does not answer, but says %q", r.telnet.text())
		}
	}
	if c.Scope {
		if !waitFor(cliPatience, exited, func() bool {
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", scopePort))
			if err != nil {
				return false
			}
			conn.Close()
			return true
		}) {
			return nil, describe("no scope server")
		}
		r.scope = watchScope(scopePort)
		select {
		case <-r.scope.ready:
		case <-time.After(cliPatience):
			return nil, describe("the scope server does not answer")
		}
		time.Sleep(100 * time.Millisecond)
	}
	if c.Kind == "kiwi" {
		if !waitFor(cliPatience, exited, r.kiwi.ready) {
			return nil, describe("the KiwiSDR got %q", r.kiwi.commands)
		}
		time.Sleep(300 * time.Millisecond) // the settings follow
	} else {
		if !waitFor(cliPatience, exited, r.dev.streaming) {
			return nil, describe("the IQ stream was not started, the device got %s", list(r.dev.received()))
		}
		time.Sleep(100 * time.Millisecond)
	}

	// the stream
	g := newGenerator(c.Band)
	per := 4
	if c.Kind == "kiwi" {
		per = 1
	}
	period := time.Duration(float64(per) * float64(c.Band.blockTime()) / c.Speed)
	var packets [][]byte
	for n := c.Band.blocks(c.Seconds) / per; n > 0; n-- {
		var data []float32
		for i := 0; i < per; i++ {
			data = append(data, g.next()...)
		}
		if c.Kind == "kiwi" {
			raw := append([]byte("SND"), make([]byte, 17)...)
			for _, v := range data {
				raw = binary.BigEndian.AppendUint16(raw, uint16(int16(max(-32767, min(32767, v*32767)))))
			}
			packets = append(packets, raw)
		} else {
			packets = append(packets, iqPacket(c.TRX, 48000, 0, data))
		}
	}
	start := time.Now()
	last := start
	shift := time.Duration(0) // never hurry
	for i, p := range packets {
		due := start.Add(time.Duration(i)*period + shift)
		time.Sleep(time.Until(due))
		now := time.Now()
		if late := now.Sub(due); late > 5*period {
			shift += late
		}
		r.maxGap = max(r.maxGap, now.Sub(last))
		last = now
		if c.Kind == "kiwi" {
			if err := r.kiwi.ws.WriteMessage(websocket.BinaryMessage, p); err != nil {
				break
			}
		} else {
			r.dev.sendIQ(p)
		}
	}
	time.Sleep(500 * time.Millisecond)
	r.stopped = time.Now()
	select {
	case <-exited:
		return nil, describe("ended by itself: %v", program.ProcessState)
	default:
	}
	r.skipped = strings.Contains(r.stderr.text(), "skipped")

	// the end
	program.Process.Signal(cliSignals[c.Signal])
	select {
	case <-exited:
	case <-time.After(cliPatience):
		program.Process.Signal(syscall.SIGABRT)
		time.Sleep(time.Second)
		return nil, describe("does not end with %v", cliSignals[c.Signal])
	}
	if code := program.ProcessState.ExitCode(); code != 0 {
		return nil, describe("ended with %v", program.ProcessState)
	}
	if !r.stdout.ended(cliPatience) || !r.stderr.ended(cliPatience) {
		return nil, describe("something of the program is left")
	}
	if r.telnet != nil && !r.telnet.ended(cliPatience) {
		return nil, describe("the telnet connection is still there")
	}
	if r.scope != nil {
		close(r.scope.stop)
		<-r.scope.done
	}
	if c.Kind == "kiwi" {
		if !waitFor(cliPatience, nil, func() bool { r.kiwi.mu.Lock(); defer r.kiwi.mu.Unlock(); return r.kiwi.over }) {
			return nil, describe("the connection to the KiwiSDR is still there")
		}
	} else if !waitFor(cliPatience, nil, func() bool { return r.dev.connection() == nil }) {
		return nil, describe("the connection to the TCI device is still there")
	}
	if err := c.judge(r); err != nil {
		return nil, describe("%v", err)
	}
	return r, nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return "..." + s[len(s)-3000:]
	}
	return s
}

var (
	spotLine     = regexp.MustCompile(`^DX de (\S+):\s+(\d+\.\d)  (\S+)\s+cw\s+(\d\d)(\d\d)z$`)
	stdoutSpot   = regexp.MustCompile(`^callsign (\S+) spotted on (-?\d+\.\d\d)kHz$`)
	stdoutListen = regexp.MustCompile(`^listener (\S+) activated on (-?\d+\.\d\d)kHz$`)
	stdoutReport = regexp.MustCompile(`(?:listener (\S+) ((?:de)?activated) on|callsign \S+ heard [1-9]\d* times on|callsign \S+ spotted on|spot of \S+ on) (-?\d+\.\d\d)kHz(?:, weight is \d+| timed out)?$`)
)

// judgeReports checks the printed reports: whatever is reported, it is about a frequency in the band.
func (c cliCase) judgeReports(r *cliRun) error {
	active := map[string]string{}
	for _, l := range r.stdout.all() {
		if !strings.Contains(l.Text, "kHz") { // decoded text, which may also precede a report
			continue
		}
		m := stdoutReport.FindStringSubmatch(l.Text)
		if m == nil {
			return fmt.Errorf("printed %q", l.Text)
		}
		khz, _ := strconv.ParseFloat(m[3], 64)
		if math.Abs(khz*1000-float64(c.Center)) > float64(c.Band.Rate)/2+6 {
			return fmt.Errorf("printed %q, the band is %d Hz around %.2f kHz", l.Text, c.Band.Rate, float64(c.Center)/1000)
		}
		switch m[2] {
		case "activated":
			active[m[1]] = m[3]
		case "deactivated":
			if active[m[1]] != m[3] {
				return fmt.Errorf("printed %q, it was activated on %skHz", l.Text, active[m[1]])
			}
		}
	}
	return nil
}

func (c cliCase) judge(r *cliRun) error {
	src := c.Band.Sources[0]
	if c.Kind == "kiwi" {
		if err := c.judgeKiwi(r); err != nil {
			return err
		}
	} else {
		if err := c.judgeDevice(r); err != nil {
			return err
		}
	}
	if c.Scope {
		if err := c.judgeScope(r); err != nil {
			return err
		}
	}
	if r.telnet != nil && !strings.HasPrefix(r.telnet.text(), "SDRainer Version ") {
		return fmt.Errorf("telnet greeting %q", r.telnet.text())
	}
	switch c.Kind {
	case "text":
		got := strings.Join(strings.Fields(r.stdout.text()), " ")
		want := src.Text
		rest := want
		if _, after, ok := strings.Cut(want, " "); ok {
			rest = after
		}
		for _, lead := range leadIns {
			rest = strings.TrimSpace(strings.TrimPrefix(rest, lead))
		}
		for strings.HasPrefix(rest, "vvv ") || strings.HasPrefix(rest, "cq ") {
			_, rest, _ = strings.Cut(rest, " ")
		}
		if !r.skipped && (c.Debounce < 2 || src.WPM < 20) && (!strings.HasSuffix(got, rest) || len([]rune(got)) > len(want)+8) {
			return fmt.Errorf("printed %q, want %q", got, want)
		}
	case "spots":
		if err := c.judgeReports(r); err != nil {
			return err
		}
		return c.judgeSpots(r)
	}
	return nil
}

func (c cliCase) judgeSpots(r *cliRun) error {
	src := c.Band.Sources[0]
	call := strings.ToUpper(src.Call)
	frequency := float64(c.Center) + src.Offset
	every := time.Minute
	if c.SpotEvery > 0 {
		every = time.Duration(c.SpotEvery) * time.Millisecond
	}
	reporter := "local-#"
	if c.Call != "" {
		reporter = c.Call
	}
	var announced []time.Time
	for _, l := range r.telnet.all() {
		if !strings.HasPrefix(l.Text, "DX") {
			continue
		}
		m := spotLine.FindStringSubmatch(l.Text)
		if m == nil {
			return fmt.Errorf("telnet line %q", l.Text)
		}
		khz, _ := strconv.ParseFloat(m[2], 64)
		if m[1] != reporter || m[3] != call || math.Abs(khz*1000-frequency) > c.Band.binWidth()+51 {
			return fmt.Errorf("telnet line %q, the station is %s on %.1f kHz, reported by %s", l.Text, call, frequency/1000, reporter)
		}
		at := l.T.UTC()
		h, _ := strconv.Atoi(m[4])
		min, _ := strconv.Atoi(m[5])
		if d := ((at.Hour()*60 + at.Minute()) - (h*60 + min) + 1440) % 1440; d > 2 && d < 1439 {
			return fmt.Errorf("telnet line %q at %v", l.Text, at)
		}
		if n := len(announced); n > 0 && l.T.Sub(announced[n-1]) < every-cliSlack-r.maxGap {
			return fmt.Errorf("telnet spots after %v although they are to come every %v", l.T.Sub(announced[n-1]), every)
		}
		announced = append(announced, l.T)
	}
	seen := 0
	for _, l := range r.stdout.all() {
		m := stdoutSpot.FindStringSubmatch(l.Text)
		if m == nil {
			continue
		}
		seen++
		khz, _ := strconv.ParseFloat(m[2], 64)
		if m[1] != call || math.Abs(khz*1000-frequency) > c.Band.binWidth()+6 {
			return fmt.Errorf("printed %q, the station is %s on %.2f kHz", l.Text, call, frequency/1000)
		}
		if !slices.ContainsFunc(announced, func(t time.Time) bool {
			return t.After(l.T.Add(-every-cliSlack)) && t.Before(l.T.Add(5*time.Second))
		}) {
			return fmt.Errorf("%q was printed at %v, but is not announced in time: %v (every %v)", l.Text, l.T, announced, every)
		}
	}
	if seen == 0 && !r.skipped {
		return fmt.Errorf("%s on %.1f kHz was not spotted", call, frequency/1000)
	}
	shown := 0
	for _, cmd := range r.dev.received() {
		name, rest, _ := strings.Cut(strings.TrimSuffix(cmd.Text, ";"), ":")
		if name != "spot" {
			continue
		}
		parts := strings.Split(rest, ",")
		if strings.HasPrefix(parts[0], ">") {
			shown++
			if parts[0] != ">"+call+"<" || !c.Spots {
				return fmt.Errorf("the device got %q (show_spots: %v)", cmd.Text, c.Spots)
			}
		} else if !c.Listeners {
			return fmt.Errorf("the device got %q without show_listeners", cmd.Text)
		}
	}
	if c.Spots && shown == 0 && seen > 0 {
		return fmt.Errorf("no spot on the device")
	}
	return nil
}

func (c cliCase) judgeDevice(r *cliRun) error {
	var started, stopped, listeners int
	for _, cmd := range r.dev.received() {
		switch text := strings.TrimSuffix(cmd.Text, ";"); {
		case text == fmt.Sprintf("iq_start:%d", c.TRX):
			started++
		case text == fmt.Sprintf("iq_stop:%d", c.TRX):
			stopped++
		case strings.HasPrefix(text, "iq_start") || strings.HasPrefix(text, "iq_stop"):
			return fmt.Errorf("the device got %q instead of trx %d", cmd.Text, c.TRX)
		case strings.HasPrefix(text, "spot:") && !strings.HasPrefix(text, "spot:>"):
			listeners++
		}
	}
	if started == 0 || stopped == 0 {
		return fmt.Errorf("the IQ stream was started %d times and stopped %d times", started, stopped)
	}
	activated := 0
	for _, l := range r.stdout.all() {
		if m := stdoutListen.FindStringSubmatch(l.Text); m != nil {
			activated++
		}
	}
	if c.Kind != "text" && activated > 0 && (listeners > 0) != c.Listeners {
		return fmt.Errorf("%d listeners, of which %d are shown on the device (show_listeners: %v)", activated, listeners, c.Listeners)
	}
	return nil
}

func (c cliCase) judgeKiwi(r *cliRun) error {
	r.kiwi.mu.Lock()
	defer r.kiwi.mu.Unlock()
	bandwidth := 10000
	if c.Bandwidth > 0 {
		bandwidth = c.Bandwidth
	}
	password, user, mod := "", "", ""
	for _, text := range r.kiwi.commands {
		if s, ok := strings.CutPrefix(text, "SET auth t=kiwi p="); ok {
			password, _ = url.QueryUnescape(s)
		}
		if s, ok := strings.CutPrefix(text, "SET ident_user="); ok {
			user, _ = url.QueryUnescape(s)
		}
		if s, ok := strings.CutPrefix(text, "SET mod="); ok {
			mod = s
		}
	}
	want := fmt.Sprintf("iq low_cut=%d high_cut=%d freq=%.3f", -bandwidth/2, bandwidth/2, float64(c.Center)/1000)
	if password != c.Password || user != c.User || mod != want {
		return fmt.Errorf("the KiwiSDR got the password %q, the user %q, mod=%s instead of %q, %q, mod=%s", password, user, mod, c.Password, c.User, want)
	}
	return nil
}

func (c cliCase) judgeScope(r *cliRun) error {
	s := r.scope
	s.mu.Lock()
	defer s.mu.Unlock()
	src := c.Band.Sources[0]

	// the threshold; the noise floor is that of the quietest part of the band
	threshold := 15
	if c.Threshold >= 0 {
		threshold = c.Threshold
	}
	floor := 10*math.Log10(20*2*c.Band.Sigma*c.Band.Sigma/float64(c.Band.Block)) + dBmShift - 1
	for _, f := range s.spectral {
		if f.Stream != "spectrum" {
			continue
		}
		if got := f.MagnitudeMarkers["threshold"] - floor; math.Abs(got-float64(threshold)) > 0.7 {
			return fmt.Errorf("the threshold is %.1f dB over the noise instead of %d", got, threshold)
		}
	}

	// the debounce
	debounce := max(1, c.Debounce)
	gaps := map[int]bool{}
	for _, g := range s.gaps {
		gaps[g] = true
	}
	known, state, run, last := false, false, 0, false
	for i, f := range s.demod {
		v := f.Values["state"] > 0
		got := f.Values["debounced"] > 0
		if i == 0 || gaps[i] || f.Timestamp.Sub(s.demod[i-1].Timestamp) > time.Second {
			known, run = false, 0
		}
		if run > 0 && v == last {
			run++
		} else {
			run = 1
		}
		last = v
		if run >= debounce {
			known, state = true, v
		}
		if known && got != state {
			return fmt.Errorf("debounced state %v after %d times %v, the debounce is %d", got, run, v, debounce)
		}
	}

	// silence and busy timeout
	if c.Kind != "timing" && c.Kind != "kiwi" {
		return nil
	}
	if len(s.demod) == 0 {
		if r.skipped || len(s.gaps) > 5 {
			return nil
		}
		return fmt.Errorf("no listener")
	}
	silence, busy := 10*time.Second, time.Minute
	if c.Silence > 0 {
		silence = time.Duration(c.Silence) * time.Millisecond
	}
	if c.Busy > 0 {
		busy = time.Duration(c.Busy) * time.Millisecond
	}
	release := busy
	if src.Kind == "carrier" {
		release = min(silence, busy)
	}
	first, end := s.demod[0].Timestamp, s.demod[len(s.demod)-1].Timestamp
	heard := end.Sub(first)
	slack := cliSlack + r.maxGap
	if heard > release+slack {
		return fmt.Errorf("listened for %v, silence %v, busy %v, %s", heard, silence, busy, src.Kind)
	}
	// the stream went on long enough
	if available := r.stopped.Add(-500 * time.Millisecond).Sub(first); heard < min(release, available)-slack {
		return fmt.Errorf("listened only for %v of %v, silence %v, busy %v, %s", heard, available, silence, busy, src.Kind)
	}
	return nil
}

const dBmShift = 120

func TestVerif_C33_Program(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 30, Rule: "the program ran and something was received"}, genCLI, func(k *vk.K, c cliCase) error {
		r, err := c.run()
		if err != nil {
			return err
		}
		k.Label("%s", c.Kind)
		if r.skipped {
			k.Label("IQ data skipped")
			return nil
		}
		if r.scope != nil {
			k.Label("scope connections %d", min(5, len(r.scope.gaps)))
		}
		k.NonTrivial()
		return nil
	})
}

// What the program cannot do it refuses, without a crash.
type refusalCase struct {
	Kind    string // version, flag, host, device, scope, waiting
	Command string // strain tci, strain kiwi, decode tci
	Bad     string
	Debug   bool
	Signal  int
	After   int // ms
}

func TestVerif_C33_Refusals(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 12, Rule: "the program ran"}, func(t *rapid.T) refusalCase {
		c := refusalCase{
			Kind:    rapid.SampledFrom([]string{"version", "flag", "host", "host", "device", "scope", "waiting"}).Draw(t, "kind"),
			Command: rapid.SampledFrom([]string{"strain tci", "strain kiwi", "decode tci"}).Draw(t, "command"),
			Debug:   rapid.Bool().Draw(t, "debug"),
		}
		switch c.Kind {
		case "flag":
			c.Bad = rapid.SampledFrom([]string{"--threshold=high", "--debounce=1.5", "--scope=2", "--sillence=3s", "--host", "--threshold", "-q"}).Draw(t, "flag")
		case "host":
			c.Bad = rapid.SampledFrom([]string{"localhost:abc", "localhost:70000", "127.0.0.1:99999", "[::1", "1.2.3.4:x", "[::1]:y"}).Draw(t, "host")
		case "device":
			c.Command = "strain kiwi"
		case "waiting":
			c.Command = "strain tci"
			c.Signal = rapid.IntRange(0, len(cliSignals)-1).Draw(t, "signal")
			c.After = rapid.SampledFrom([]int{0, 10, 300, 3000}).Draw(t, "after")
		}
		return c
	}, func(k *vk.K, c refusalCase) error {
		home, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "home")
		if err != nil {
			vk.Inconclusive("%v", err)
		}
		defer os.RemoveAll(home)
		args := strings.Fields(c.Command)
		telnetPort := freePort()
		if args[0] == "strain" {
			args = append(args, "--telnet_port", strconv.Itoa(telnetPort))
		}
		if c.Debug {
			args = append(args, "--debug")
		}
		nobody := fmt.Sprintf("127.0.0.1:%d", freePort())
		host := nobody
		switch c.Kind {
		case "version":
			args = []string{"version"}
		case "flag":
			args = append(args, c.Bad)
		case "host":
			host = c.Bad
		case "scope":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				vk.Inconclusive("%v", err)
			}
			defer l.Close()
			args = append(args, "--scope", "--scope-address", l.Addr().String())
		}
		if c.Kind != "version" && c.Kind != "flag" {
			args = append(args, "--host", host)
		}
		program := exec.Command(os.Args[0], args...)
		program.Env = []string{"VERIF_SDRAINER=1", "HOME=" + home, "PATH=" + os.Getenv("PATH"), "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9"}
		program.Dir = home
		var stdout, stderr strings.Builder
		program.Stdout, program.Stderr = &stdout, &stderr
		if err := program.Start(); err != nil {
			vk.Inconclusive("cannot start: %v", err)
		}
		k.Label("%s", c.Kind)
		k.NonTrivial()
		exited := make(chan struct{})
		go func() {
			program.Wait()
			close(exited)
		}()
		signaled := false
		if c.Kind == "waiting" {
			// it listens to signals before it opens the telnet port
			waitFor(cliPatience, exited, func() bool {
				conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", telnetPort))
				if err == nil {
					conn.Close()
				}
				return err == nil
			})
			select {
			case <-exited:
			case <-time.After(time.Duration(c.After) * time.Millisecond):
				signaled = true
				program.Process.Signal(cliSignals[c.Signal])
			}
		}
		ended := true
		select {
		case <-exited:
		case <-time.After(cliPatience):
			ended = false
			program.Process.Kill()
			<-exited
		}
		fail := func(format string, a ...any) error {
			return fmt.Errorf("sdrainer %q: %s\nprinted:\n%s\nlogged:\n%s", args, fmt.Sprintf(format, a...), tail(stdout.String()), tail(stderr.String()))
		}
		if !ended {
			return fail("does not end")
		}
		if both := stdout.String() + stderr.String(); strings.Contains(both, "panic:") || strings.Contains(both, "fatal error:") {
			return fail("crashed")
		}
		code := program.ProcessState.ExitCode()
		switch c.Kind {
		case "version":
			if code != 0 || !strings.Contains(stdout.String(), "SDRainer") {
				return fail("exit code %d", code)
			}
		case "waiting":
			if !signaled {
				return fail("ended by itself with exit code %d", code)
			}
			if code != 0 {
				return fail("exit code %d after %v", code, cliSignals[c.Signal])
			}
		default:
			if code == 0 {
				return fail("exit code 0")
			}
		}
		return nil
	})
}
