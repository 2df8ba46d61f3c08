//go:build go1.25

package rxe2e

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/tci"
)

const (
	packetSamples = 2048
	// closing involves a few commands that may each take a second to time out
	closeLimit = 150 * time.Second
)

type tciFault struct {
	At     int     // packet
	Kind   string  // cut, close, deaf
	Down   float64 // s without a reachable device
	Joined []source
}

type tciCase struct {
	Band      band
	Other     band // on the other trx
	Center    int
	TRX       int
	IFLimit   int
	Others    bool   // the other trx sends as well
	Noise     string // other messages in between
	Listeners bool
	Spots     bool
	Echo      string
	DownFirst float64 // the device is not reachable in the first seconds
	CutAt     int     // break the connection at that command
	Silent    bool    // the device is never ready
	Foreign   int     // packets with another sample rate at first
	Fault     *tciFault
	Packets   int
	Threshold int
	CloseAt   string // end, middle, disconnected, start
	Closers   int
	BreakLast bool // the connection breaks after the close
}

var ifLimits = []int{24000, 20000, 18000, 48000, 96000}

func genC30(t *rapid.T) tciCase {
	c := tciCase{
		Band:      band{Rate: 48000, Block: 512, Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")},
		Other:     band{Rate: 48000, Block: 512, Sigma: 8e-3, Seed: 17},
		Center:    genCenter(t),
		TRX:       rapid.IntRange(0, 1).Draw(t, "trx"),
		IFLimit:   rapid.SampledFrom(ifLimits).Draw(t, "iflimit"),
		Others:    rapid.Bool().Draw(t, "others"),
		Listeners: rapid.Bool().Draw(t, "listeners"),
		Spots:     rapid.Bool().Draw(t, "spots"),
		Echo:      rapid.SampledFrom([]string{"all", "some", "none"}).Draw(t, "echo"),
		Threshold: rapid.SampledFrom([]int{0, 15, 18}).Draw(t, "threshold"),
		CloseAt:   rapid.SampledFrom([]string{"end", "end", "end", "middle", "disconnected", "start"}).Draw(t, "closeat"),
		Closers:   rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "closers"),
		BreakLast: rapid.Bool().Draw(t, "breaklast"),
	}
	if rapid.IntRange(0, 5).Draw(t, "downfirst?") == 0 {
		c.DownFirst = float64(rapid.IntRange(1, 40).Draw(t, "downfirst"))
	}
	if rapid.IntRange(0, 3).Draw(t, "foreign?") == 0 {
		c.Foreign = rapid.IntRange(1, 8).Draw(t, "foreign")
	}
	const limit = 17500.0
	n := rapid.IntRange(1, 3).Draw(t, "stations")
	for i := 0; i < n; i++ {
		if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
			c.Band.Sources = append(c.Band.Sources, s)
		}
	}
	c.Packets = packetsFor(48)
	if c.CloseAt == "start" {
		c.Packets = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "packets")
		c.Silent = rapid.IntRange(0, 2).Draw(t, "silent") == 0
		return c
	}
	if c.CloseAt == "middle" {
		c.Packets = rapid.IntRange(20, packetsFor(30)).Draw(t, "packets")
	}
	switch rapid.IntRange(0, 3).Draw(t, "fault?") {
	case 0:
		c.CutAt = rapid.IntRange(1, 6).Draw(t, "cutat")
	case 1:
		kind := rapid.SampledFrom([]string{"cut", "close", "deaf"}).Draw(t, "kind")
		f := &tciFault{At: rapid.IntRange(1, 600).Draw(t, "at"), Kind: kind, Down: float64(rapid.IntRange(0, 60).Draw(t, "down"))}
		if kind == "deaf" {
			f.Down = 0
		}
		// further stations that start after the interruption
		later := float64(f.At)*packetSamples/48000 + 0.5
		for i := rapid.IntRange(0, 1).Draw(t, "later"); i > 0 && kind != "deaf"; i-- {
			if s, ok := genStation(t, c.Band.Sources, 3000, limit); ok {
				s.Start += later
				c.Band.Sources = append(c.Band.Sources, s)
			}
		}
		c.Fault = f
		if c.CloseAt == "end" {
			c.Packets = f.At + packetsFor(48)
		}
	}
	if c.Others {
		s, _ := genStation(t, c.Band.Sources, 3000, limit)
		if s.Kind != "" {
			c.Other.Sources = append(c.Other.Sources, s)
		}
	}
	return c
}

func packetsFor(seconds float64) int { return int(seconds * 48000 / packetSamples) }

func (c tciCase) messages() []string {
	other := 1 - c.TRX
	return []string{
		"protocol:esdr,1.4;", "device:SunSDR2PRO;", "receive_only:false;", "trx_count:2;", "channels_count:2;",
		"vfo_limits:10000,160000000;", fmt.Sprintf("if_limits:%d,%d;", -c.IFLimit, c.IFLimit),
		fmt.Sprintf("dds:%d,%d;", other, c.Center+12345), fmt.Sprintf("dds:%d,%d;", c.TRX, c.Center), fmt.Sprintf("dds:%d,%d;", other, c.Center-54321),
		fmt.Sprintf("if:%d,0,%d;", c.TRX, 1234), fmt.Sprintf("if:%d,1,%d;", c.TRX, 2345), fmt.Sprintf("if:%d,0,%d;", other, -4321),
	}
}

type tciRun struct {
	dev     *tciDevice
	spotter *spotter
	rec     *recorder
	closed  time.Duration // when Close returned
	faulty  bool          // commands may have been lost
	deaf    bool
	done    bool // the whole stream was received
}

func (c tciCase) run() (*tciRun, error) {
	r := &tciRun{dev: &tciDevice{init: c.messages(), echo: c.Echo, silent: c.Silent, cutAt: c.CutAt}}
	now := time.Now()
	r.rec = &recorder{start: now}
	r.spotter = &spotter{start: now}
	r.dev.install()
	defer r.dev.stop()
	if c.DownFirst > 0 {
		r.dev.setUp(false)
		go func() {
			time.Sleep(time.Duration(c.DownFirst * float64(time.Second)))
			r.dev.setUp(true)
		}()
	}
	p, err := tci.New(deviceHost, c.TRX, rx.StrainMode, r.spotter, r.rec, false)
	if err != nil {
		return nil, err
	}
	if c.Threshold > 0 {
		p.SetThreshold(c.Threshold)
	}
	p.SetSignalDebounce(1)
	p.SetShow(c.Listeners, c.Spots)

	stream := func() error {
		if c.Packets == 0 || c.Silent {
			return nil
		}
		lost := c.CutAt > 0
		start := func(down float64) error {
			limit := time.Duration((down + 60) * float64(time.Second))
			if !r.dev.wait(limit, r.dev.streaming) {
				return fmt.Errorf("the IQ stream was not started within %v, the device got %s", limit, list(r.dev.received()))
			}
			return nil
		}
		if err := start(c.DownFirst); err != nil {
			return err
		}
		if lost && r.dev.count() > 1 { // before anything was received
			lost, r.faulty = false, true
		}
		cut := false
		for i := 0; i < c.Foreign; i++ {
			r.dev.sendIQ(iqPacket(c.TRX, 96000, 0, make([]float32, 2*packetSamples)))
			synctest.Wait()
		}
		g, o := newGenerator(c.Band), newGenerator(c.Other)
		for n := 0; n < c.Packets; n++ {
			if f := c.Fault; f != nil && f.At == n {
				switch f.Kind {
				case "deaf":
					r.dev.mu.Lock()
					r.dev.deafFrom = 1
					r.dev.mu.Unlock()
					r.deaf = true
				default:
					r.faulty = true
					if f.Down > 0 {
						r.dev.setUp(false)
						go func() {
							time.Sleep(time.Duration(f.Down * float64(time.Second)))
							r.dev.setUp(true)
						}()
					}
					r.dev.breakConnection(f.Kind == "close")
					if c.CloseAt == "disconnected" {
						return nil
					}
					if err := start(f.Down); err != nil {
						return fmt.Errorf("after the connection was lost: %w", err)
					}
				}
			}
			if lost && !r.dev.streaming() { // the device was cut off at a command
				r.faulty = true
				lost, cut = false, true
				if err := start(0); err != nil {
					return fmt.Errorf("after the connection was lost: %w", err)
				}
			}
			var data []float32
			for i := 0; i < 4; i++ {
				data = append(data, g.next()...)
			}
			if c.Others {
				var other []float32
				for i := 0; i < 4; i++ {
					other = append(other, o.next()...)
				}
				r.dev.sendIQ(iqPacket(1-c.TRX, 48000, 0, other))
				if n%16 == 3 {
					r.dev.sendText(fmt.Sprintf("dds:%d,%d;", 1-c.TRX, c.Center+n))
				}
				if n%50 == 7 {
					r.dev.sendIQ(iqPacket(c.TRX, 48000, 1, other)) // audio
				}
			}
			r.dev.sendIQ(iqPacket(c.TRX, 48000, 0, data))
			synctest.Wait()
			time.Sleep(packetSamples * time.Second / 48000)
		}
		r.done = !cut
		return nil
	}
	if err := stream(); err != nil {
		return nil, err
	}

	var wg sync.WaitGroup
	for i := 0; i < c.Closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.Close()
		}()
	}
	closed := make(chan struct{})
	go func() {
		wg.Wait()
		close(closed)
	}()
	select {
	case <-closed:
	case <-time.After(closeLimit):
		return nil, fmt.Errorf("Close does not return within %v:\n%s", closeLimit, vk.Stacks())
	}
	r.closed = time.Since(now)
	synctest.Wait()
	if c.BreakLast {
		time.Sleep(time.Second)
		r.dev.breakConnection(false)
	}
	time.Sleep(70 * time.Second)
	p.Close()
	if err := vk.NothingLeft(`github\.com/ftl/sdrainer/(rx|cw)\.\(`, 10*time.Second); err != nil {
		return nil, fmt.Errorf("after Close: %w", err)
	}
	return r, nil
}

func list(commands []command) string {
	if len(commands) > 40 {
		commands = commands[len(commands)-40:]
	}
	var b strings.Builder
	for _, c := range commands {
		fmt.Fprintf(&b, "\n%v (%d) %s", c.T, c.Conn, c.Text)
	}
	return b.String()
}

// key and expected commands of an event
func (c tciCase) expected(e event) (string, []string) {
	switch e.Kind {
	case "activated":
		if !c.Listeners {
			return e.Listener, nil
		}
		return e.Listener, []string{"delete", "show " + strconv.Itoa(e.Frequency)}
	case "deactivated":
		return e.Listener, []string{"delete"}
	case "spotted":
		if !c.Spots {
			return ">" + e.Call + "<", nil
		}
		return ">" + e.Call + "<", []string{"show " + strconv.Itoa(e.Frequency)}
	case "timeout":
		return ">" + e.Call + "<", []string{"delete"}
	}
	return "", nil
}

func (c tciCase) judgeCommands(r *tciRun) error {
	shown := map[string][]string{}
	last := ""
	conn := 0
	rated := map[int]bool{}
	for _, cmd := range r.dev.received() {
		text := strings.TrimSuffix(cmd.Text, ";")
		if text == cmd.Text {
			return fmt.Errorf("invalid command %q", cmd.Text)
		}
		if conn != cmd.Conn {
			last, conn = "", cmd.Conn
		}
		name, raw, _ := strings.Cut(text, ":")
		args := strings.Split(raw, ",")
		if r.closed > 0 && cmd.T > r.closed {
			return fmt.Errorf("%s at %v, after Close returned at %v:%s", cmd.Text, cmd.T, r.closed, list(r.dev.received()))
		}
		switch name {
		case "iq_samplerate":
			rated[cmd.Conn] = raw == "48000"
		case "iq_start":
			if raw != strconv.Itoa(c.TRX) || !rated[cmd.Conn] {
				return fmt.Errorf("unexpected %s:%s", cmd.Text, list(r.dev.received()))
			}
			last = name
		case "iq_stop":
			if raw == strconv.Itoa(c.TRX) {
				last = name
			}
		case "spot":
			if len(args) != 5 || strings.ToLower(args[1]) != "cw" {
				return fmt.Errorf("invalid command %q", cmd.Text)
			}
			if _, err := strconv.ParseUint(args[3], 10, 32); err != nil {
				return fmt.Errorf("invalid color in %q", cmd.Text)
			}
			shown[args[0]] = append(shown[args[0]], "show "+args[2])
		case "spot_delete":
			shown[raw] = append(shown[raw], "delete")
		default:
			return fmt.Errorf("unexpected command %q", cmd.Text)
		}
	}
	if last == "iq_start" && !r.deaf && !c.BreakLast && r.dev.connected() == conn {
		return fmt.Errorf("the IQ stream was not stopped:%s", list(r.dev.received()))
	}

	want := map[string][]string{}
	groups := map[string][]time.Duration{}
	for i, e := range r.rec.list() {
		key, cmds := c.expected(e)
		group := e.T // listeners report concurrently
		if !strings.HasPrefix(key, ">") {
			group = time.Duration(i)
		}
		for _, cmd := range cmds {
			want[key] = append(want[key], cmd)
			groups[key] = append(groups[key], group)
		}
	}
	for key, got := range shown {
		if err := sequence(want[key], groups[key], got, r.faulty || r.deaf || c.CutAt > 0); err != nil {
			return fmt.Errorf("commands for %s: %w\nwant %v\ngot %v\n%s", key, err, want[key], got, dump(r.rec.list()))
		}
		delete(want, key)
	}
	if !(r.faulty || r.deaf || c.CutAt > 0) {
		for key, cmds := range want {
			if len(cmds) > 0 {
				return fmt.Errorf("no commands for %s instead of %v\n%s", key, cmds, dump(r.rec.list()))
			}
		}
	}
	return nil
}

// sequence compares the commands with the wanted ones, some of which may be lost; those of a group come in any order
func sequence(want []string, groups []time.Duration, got []string, lossy bool) error {
	want = append([]string{}, want...)
	i := 0
	for _, g := range got {
		found := false
		for j := i; j < len(want) && (lossy || groups[j] == groups[i]) && !found; j++ {
			if want[j] == g {
				found = true
				if lossy && groups[j] != groups[i] { // all before are lost
					for i < j && groups[i] != groups[j] {
						i++
					}
				}
				want[i], want[j] = want[j], want[i]
				i++
			}
		}
		if !found {
			return fmt.Errorf("%q was not expected", g)
		}
	}
	if !lossy && i < len(want) {
		return fmt.Errorf("%q is missing", want[i])
	}
	return nil
}

func (c tciCase) judgeSpots(k *vk.K, r *tciRun) error {
	events := r.rec.list()
	spots := r.spotter.list()
	used := make([]bool, len(spots))
	for _, e := range events {
		if e.Kind != "spotted" {
			continue
		}
		found := false
		for i, s := range spots {
			if !used[i] && s.Call == e.Call && s.Frequency == float64(e.Frequency) && s.Msg == "cw" && s.T >= e.T {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return fmt.Errorf("%s was spotted by the receiver, but not forwarded with its frequency: %v\n%s", e.Call, spots, dump(events))
		}
	}
	for i, s := range spots {
		if !used[i] {
			return fmt.Errorf("%v was spotted without a report:\n%s", s, dump(events))
		}
		at := r.spotter.start.Add(s.T)
		if s.Time.Location() != time.UTC || math.Abs(s.Time.Sub(at).Seconds()) > 0.001 {
			return fmt.Errorf("the time of the spot %v is not %v in UTC", s, at)
		}
		if s.T > r.closed {
			return fmt.Errorf("%v was spotted after Close", s)
		}
		ok := false
		for _, src := range c.Band.Sources {
			ok = ok || s.Call == strings.ToUpper(src.Call) && math.Abs(s.Frequency-float64(c.Center)-src.Offset) <= 700 // see C01, C02
		}
		if !ok {
			return fmt.Errorf("%v was not sent there:\n%s", s, dump(events))
		}
	}
	if !r.done || c.CloseAt != "end" || r.deaf {
		return nil
	}
	for _, src := range c.Band.Sources {
		if c.Fault != nil && src.Start < float64(c.Fault.At)*packetSamples/48000 {
			continue // interrupted
		}
		found := false
		for _, s := range spots {
			found = found || s.Call == strings.ToUpper(src.Call)
		}
		if !found {
			return fmt.Errorf("%s at %d was not spotted:\n%s", src.Call, c.Center+int(src.Offset), dump(events))
		}
		k.NonTrivial()
	}
	return nil
}

func TestVerif_C30_Device(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 30, Rule: "a station is spotted, or the process is closed before the end"}, genC30, func(k *vk.K, c tciCase) error {
		return deviceBubble(t, func() error {
			r, err := c.run()
			if err != nil {
				return err
			}
			k.Label("close at %s", c.CloseAt)
			k.Label("echo %s", c.Echo)
			k.Label("trx %d", c.TRX)
			if c.Fault != nil {
				k.Label(c.Fault.Kind)
			}
			if c.CutAt > 0 {
				k.Label("cut at a command")
			}
			if c.CloseAt != "end" {
				k.NonTrivial()
			}
			if err := c.judgeSpots(k, r); err != nil {
				return err
			}
			return c.judgeCommands(r)
		})
	})
}
