//go:build go1.25

package telnetx

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/telnet"
)

func newServer(mycall, version string) (*telnet.Server, string, error) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, "", err
		}
		addr := l.Addr().String()
		l.Close()
		s, err := telnet.NewServer(addr, mycall, version)
		if err == nil || try > 20 {
			return s, addr, err
		}
	}
}

// ---------------------------------------------------------------- C23

type spot struct {
	Call  string
	Freq  int // Hz
	Msg   string
	After int // ms since the previous spot
}

type spotsCase struct {
	MyCall string
	Period int // ms, 0: the default of four minutes
	Start  int64
	Spots  []spot
}

func genSpots(t *rapid.T) spotsCase {
	c := spotsCase{MyCall: rapid.SampledFrom([]string{"local-#", "dl1abc", "w1aw-#", "K1A"}).Draw(t, "mycall"),
		Period: rapid.SampledFrom([]int{0, 1, 1000, 60000, 3600000}).Draw(t, "period"), Start: int64(rapid.IntRange(0, 2000000000).Draw(t, "start"))}
	period := c.Period
	if period == 0 {
		period = 240000
	}
	calls := []string{"DL0ABC", "DL0ABD", "W1AW", "W1AW/QRP", "K1A", "VP2/G3XYZ/M"}
	base := rapid.IntRange(100, 30000).Draw(t, "khz") * 1000
	for i := rapid.IntRange(1, 40).Draw(t, "n"); i > 0; i-- {
		s := spot{Call: rapid.SampledFrom(calls).Draw(t, "call"), Msg: rapid.SampledFrom([]string{"cw", "", "20 db 18 wpm  cq", "a comment of thirty characters"}).Draw(t, "msg"),
			After: rapid.OneOf(rapid.IntRange(0, 2*period), rapid.SampledFrom([]int{0, 1, period - 1, period, period + 1})).Draw(t, "after")}
		s.Freq = base + rapid.OneOf(rapid.IntRange(0, 2500), rapid.SampledFrom([]int{0, 499, 501, 999, 1000, 1499, 1501}), rapid.IntRange(0, 500000)).Draw(t, "freq")
		if s.Freq%1000 == 500 {
			s.Freq++ // half way between two
		}
		if s.Freq%100 == 50 {
			s.Freq++
		}
		c.Spots = append(c.Spots, s)
	}
	return c
}

func pad(s string, n int) string {
	for len(s) < n {
		s += " "
	}
	return s
}

// a line of a DX cluster
func clusterLine(mycall string, s spot, at time.Time) string {
	tenth := int(math.Round(float64(s.Freq) / 100))
	freq := fmt.Sprintf("%d.%d", tenth/10, tenth%10)
	for len(freq) < 6 {
		freq = " " + freq
	}
	if len(freq) == 6 && freq[0] != ' ' {
		freq = " " + freq // at least one space
	}
	if len(freq) > 6 && freq[0] != ' ' {
		freq = " " + freq
	}
	return pad("DX de "+mycall+":", 16) + freq + "  " + pad(s.Call, 13) + pad(s.Msg, 31) + fmt.Sprintf("%02d%02dz", at.UTC().Hour(), at.UTC().Minute())
}

type client struct {
	conn  *net.TCPConn
	r     *bufio.Reader
	lines chan string // everything but the dialog
}

func dial(addr string) (*client, error) {
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	return &client{conn: conn.(*net.TCPConn), r: bufio.NewReaderSize(conn, 1<<20)}, nil
}

// reads greeting and question
func (c *client) greeted(version string) error {
	want := "SDRainer Version " + version + "\nEnter your callsign: "
	buf := make([]byte, len(want))
	c.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	defer c.conn.SetReadDeadline(time.Time{})
	n := 0
	for n < len(buf) {
		m, err := c.r.Read(buf[n:])
		n += m
		if err != nil {
			return fmt.Errorf("no greeting: %q, %v", buf[:n], err)
		}
	}
	if string(buf) != want {
		return fmt.Errorf("greeted with %q", buf)
	}
	return nil
}

func TestVerif_C23_Spots(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 20, Rule: "a spot is repeated"}, genSpots, func(k *vk.K, c spotsCase) error {
		server, addr, err := newServer(c.MyCall, "1.2.3")
		if err != nil {
			vk.Inconclusive("no server: %v", err)
		}
		defer server.Stop()
		period := 4 * time.Minute
		if c.Period > 0 {
			period = time.Duration(c.Period) * time.Millisecond
			server.SetSilencePeriod(period)
		}
		cl, err := dial(addr)
		if err != nil {
			return fmt.Errorf("cannot connect: %v", err)
		}
		defer cl.conn.Close()
		defer cl.conn.SetLinger(0) // leaves nothing in TIME_WAIT
		if err := cl.greeted("1.2.3"); err != nil {
			return err
		}
		type key struct {
			call string
			khz  int
		}
		announced := map[key]time.Time{}
		at := time.Unix(c.Start, 0).UTC()
		var want []string
		const last = "Z9ZZZ"
		for _, s := range append(append([]spot{}, c.Spots...), spot{Call: last, Freq: 1000, Msg: "end"}) {
			at = at.Add(time.Duration(s.After) * time.Millisecond)
			id := key{s.Call, int(math.Round(float64(s.Freq) / 1000))}
			before, ok := announced[id]
			if !ok || at.Sub(before) > period {
				announced[id] = at
				want = append(want, clusterLine(c.MyCall, s, at))
				if ok {
					k.Label("again")
				}
			} else {
				k.Label("silent")
			}
			if ok {
				k.NonTrivial()
			}
			if err := vk.Returns("Spot", func() { server.Spot(s.Call, float64(s.Freq), s.Msg, at) }); err != nil {
				return err
			}
		}
		cl.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
		var got []string
		for len(got) == 0 || !strings.Contains(got[len(got)-1], "  "+last+" ") {
			line, err := cl.r.ReadString('\n')
			if err != nil {
				return fmt.Errorf("after %q: got %q, %v; want %d lines", got, line, err, len(want))
			}
			got = append(got, line)
		}
		for i, w := range want {
			if i >= len(got) || got[i] != w+"\n" {
				return fmt.Errorf("line %d: got\n%q, want\n%q", i, got[min(i, len(got)-1)], w+"\n")
			}
		}
		if len(got) != len(want) {
			return fmt.Errorf("%d lines, want %d", len(got), len(want))
		}
		return nil
	})
}

// ---------------------------------------------------------------- C24

type netOp struct {
	Op     string // connect, spot, bulk, leave, reset, shut, input, pause
	Client int    `json:",omitempty"` // modulo the number of clients
	Kind   string `json:",omitempty"` // of a new client: reader, lazy (reads with pauses), stalled
	N      int    `json:",omitempty"`
}

type netCase struct {
	Ops      []netOp
	StopWith bool // the server is stopped while spots are announced
	Stops    int
}

func genNet(t *rapid.T) netCase {
	c := netCase{StopWith: rapid.Bool().Draw(t, "stopwith"), Stops: rapid.IntRange(1, 3).Draw(t, "stops")}
	for i := rapid.IntRange(1, 16).Draw(t, "n"); i > 0; i-- {
		op := netOp{Op: rapid.SampledFrom([]string{"connect", "connect", "connect", "spot", "spot", "spot", "bulk", "leave", "reset", "shut", "input", "pause"}).Draw(t, "op")}
		switch op.Op {
		case "connect":
			op.Kind = rapid.SampledFrom([]string{"reader", "reader", "lazy", "stalled"}).Draw(t, "kind")
		case "spot":
			op.N = rapid.IntRange(1, 5).Draw(t, "count")
		case "bulk":
			op.N = rapid.SampledFrom([]int{1, 3, 12}).Draw(t, "mb")
		case "pause":
			op.N = rapid.IntRange(1, 150).Draw(t, "ms")
		default:
			op.Client = rapid.IntRange(0, 5).Draw(t, "client")
			op.N = rapid.IntRange(1, 60).Draw(t, "bytes")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type netClient struct {
	*client
	kind string
	gone bool
	from int // index of the first spot it must get
	to   int // index after the last spot it must get; -1: all

	mu   sync.Mutex
	data []byte
	done chan struct{} // the reader has ended
	err  error
}

func (c *netClient) read() {
	defer close(c.done)
	buf := make([]byte, 1<<18)
	for {
		n, err := c.r.Read(buf)
		c.mu.Lock()
		c.data = append(c.data, buf[:n]...)
		if err != nil {
			c.err = err
			c.mu.Unlock()
			return
		}
		c.mu.Unlock()
		if c.kind == "lazy" {
			time.Sleep(time.Millisecond)
		}
	}
}

func (c *netClient) text() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.data...)
}

func (c *netClient) tail(n int) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.data[max(0, len(c.data)-n):]...)
}

// the calls of the spots in the received data; a spot that is not whole is an error
func spotsIn(data []byte, whole bool) ([]string, error) {
	var calls []string
	lines := bytes.Split(data, []byte("\n"))
	for i, l := range lines {
		text := string(l)
		if p := strings.Index(text, "DX de "); p >= 0 {
			text = text[p:]
		} else {
			continue // dialog
		}
		if i == len(lines)-1 {
			if whole {
				return calls, fmt.Errorf("the last line is not complete")
			}
			break
		}
		f := strings.Fields(text)
		if len(f) != 7 || f[0] != "DX" || f[2] != "local-#:" || f[6] != "1200z" || (len(f[5]) > 2 && len(f[5]) != 1<<20) || strings.Trim(f[5], "b") != "" {
			if len(text) > 100 {
				text = text[:100]
			}
			return calls, fmt.Errorf("broken line %q", text)
		}
		calls = append(calls, f[4])
	}
	return calls, nil
}

func TestVerif_C24_Clients(t *testing.T) {
	at := time.Date(2024, 1, 1, 12, 0, 0, 0, time.UTC)
	vk.Run(t, vk.Opts{Checks: 50, Rule: "a reading client gets a spot"}, genNet, func(k *vk.K, c netCase) error {
		server, addr, err := newServer("local-#", "9")
		if err != nil {
			vk.Inconclusive("no server: %v", err)
		}
		stopped := false
		defer func() {
			if !stopped {
				go server.Stop()
			}
		}()
		var clients []*netClient
		var spots []string
		defer func() {
			for _, cl := range clients {
				cl.conn.SetLinger(0) // leaves nothing in TIME_WAIT
				cl.conn.Close()
			}
		}()
		announce := func(size int) error {
			call := fmt.Sprintf("X%dX", len(spots))
			spots = append(spots, call)
			var took time.Duration
			err := vk.Returns("Spot", func() {
				before := time.Now()
				server.Spot(call, 7000000, strings.Repeat("b", size)+" ", at)
				took = time.Since(before)
			})
			if took > 5*time.Second {
				k.Label("slow spot")
			}
			return err
		}
		pick := func(op netOp) *netClient {
			if len(clients) == 0 {
				return nil
			}
			return clients[op.Client%len(clients)]
		}
		for _, op := range c.Ops {
			switch op.Op {
			case "connect":
				cl, err := dial(addr)
				if err != nil {
					return fmt.Errorf("cannot connect: %v", err)
				}
				nc := &netClient{client: cl, kind: op.Kind, to: -1, done: make(chan struct{})}
				if op.Kind == "stalled" {
					cl.conn.SetReadBuffer(4096)
				}
				clients = append(clients, nc)
				if err := cl.greeted("9"); err != nil {
					return fmt.Errorf("client %d (%s): %v", len(clients)-1, op.Kind, err)
				}
				nc.from = len(spots)
				if op.Kind != "stalled" {
					go nc.read()
				}
			case "spot":
				for i := 0; i < op.N; i++ {
					if err := announce(1); err != nil {
						return err
					}
				}
			case "bulk":
				for i := 0; i < op.N; i++ {
					if err := announce(1 << 20); err != nil {
						return err
					}
				}
			case "leave", "reset":
				if cl := pick(op); cl != nil {
					if op.Op == "reset" {
						cl.conn.SetLinger(0)
					}
					cl.gone = true
					cl.conn.Close()
				}
			case "shut":
				if cl := pick(op); cl != nil && !cl.gone {
					cl.conn.CloseWrite()
				}
			case "input":
				if cl := pick(op); cl != nil && !cl.gone && cl.kind != "stalled" {
					cl.conn.SetWriteDeadline(time.Now().Add(time.Second))
					cl.conn.Write(bytes.Repeat([]byte("call\r\n"), op.N)[:op.N])
				}
			case "pause":
				time.Sleep(time.Duration(op.N) * time.Millisecond)
			}
		}
		// one more for all
		if err := announce(1); err != nil {
			return err
		}
		last := spots[len(spots)-1]
		deadline := time.Now().Add(20 * time.Second)
		for i, cl := range clients {
			if cl.kind == "stalled" || cl.gone {
				continue
			}
			for !bytes.Contains(cl.tail(200), []byte("  "+last+" ")) {
				ended := false
				select {
				case <-cl.done:
					ended = true
				default:
				}
				if ended || time.Now().After(deadline) {
					got, _ := spotsIn(cl.text(), false)
					return fmt.Errorf("client %d (%s, connected before spot %d) got %v of %d spots, ended %v (%v)", i, cl.kind, cl.from, got, len(spots), ended, cl.err)
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		// the end
		var extra sync.WaitGroup
		if c.StopWith {
			extra.Add(1)
			go func() {
				defer extra.Done()
				for i := 0; i < 10; i++ {
					server.Spot(fmt.Sprintf("Y%dY", i), 7000000, "bb", at)
				}
			}()
		}
		for i := 1; i < c.Stops; i++ {
			extra.Add(1)
			go func() {
				defer extra.Done()
				server.Stop()
			}()
		}
		if err := vk.Returns("Stop", server.Stop); err != nil {
			return err
		}
		stopped = true
		if err := vk.Returns("Spot or Stop while the server was stopped", extra.Wait); err != nil {
			return err
		}
		if err := vk.Returns("Spot after Stop", func() {
			for i := 0; i < 5; i++ {
				server.Spot(fmt.Sprintf("Z%dZ", i), 7000000, "bb", at)
			}
		}); err != nil {
			return err
		}
		if err := vk.Returns("Stop again", server.Stop); err != nil {
			return err
		}
		for i, cl := range clients {
			if cl.gone {
				continue
			}
			if cl.kind == "stalled" {
				// it may have megabytes left to read through a tiny window; what matters is that it is not served anymore
				continue
			}
			select {
			case <-cl.done:
			case <-time.After(30 * time.Second):
				return fmt.Errorf("client %d (%s) is still connected after the server was stopped", i, cl.kind)
			}
		}
		for i, cl := range clients {
			if cl.kind == "stalled" {
				k.Label("client stalled gone %v", cl.gone)
				continue
			}
			if cl.gone {
				<-cl.done
			}
			got, err := spotsIn(cl.text(), false)
			if err != nil {
				return fmt.Errorf("client %d (%s): %v", i, cl.kind, err)
			}
			from := cl.from
			for i := 1; i <= 2 && len(got) > 0 && cl.from-i >= 0; i++ {
				if spots[cl.from-i] == got[0] {
					from = cl.from - i // was still on its way when the client connected
				}
			}
			want := spots[from:]
			for j, g := range got {
				if j >= len(want) && strings.HasPrefix(g, "Y") && !cl.gone {
					continue // while the server was stopped
				}
				if j >= len(want) || g != want[j] {
					return fmt.Errorf("client %d (%s) got %v, want %v", i, cl.kind, got, want)
				}
			}
			if !cl.gone {
				if len(got) < len(want) {
					return fmt.Errorf("client %d (%s) got %v, want %v", i, cl.kind, got, want)
				}
				k.NonTrivial()
			}
			k.Label("client %s gone %v", cl.kind, cl.gone)
		}
		// the address is free
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return fmt.Errorf("the address is not free after the stop: %v", err)
		}
		l.Close()
		if err := vk.NothingLeft(`github\.com/ftl/sdrainer/telnet\.`, 60*time.Second); err != nil {
			return fmt.Errorf("after the stop: %w", err)
		}
		return nil
	})
}
