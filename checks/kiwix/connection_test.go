package kiwix

import (
	"fmt"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/kiwi"
)

// ---------------------------------------------------------------- C29

type connectionCase struct {
	Host      string // form of the host argument
	User      string
	Password  string
	Center    int // Hz
	Bandwidth int

	Fault string // what the device does
	After int    // number of messages it receives before that
	How   string // close, reset, half, frame
	Delay int    // us

	Closers    int
	CloseAfter int // us after Open
	Flood      bool
	Sizes      []int // of the IQ messages, in values
	Process    bool  // through the process instead of the client alone
}

var faults = []string{"none", "none", "none", "port closed", "before handshake", "garbage", "status", "partial handshake", "wrong accept", "refuse", "refuse", "end", "end", "end", "bad frame", "silent"}

func genSecret(t *rapid.T, what string) string {
	return rapid.OneOf(rapid.String(), rapid.StringMatching(`[ -~]{0,20}`), rapid.SampledFrom([]string{"", " ", "a b", "100%", "a&b=c", "p=x SET mod=am", "a+b", "%20", "%s%d%!", "äöü€", "\n", "#/?;:@", "日本", "\x00", "'\"\\"})).Draw(t, what)
}

func genConnection(t *rapid.T) connectionCase {
	c := connectionCase{
		Host: rapid.SampledFrom([]string{"v4", "v4", "v4", "name", "v6", "v4 default port", "v6 default port", "bracketed v4", "v4 empty port"}).Draw(t, "host"),
		User: genSecret(t, "user"), Password: genSecret(t, "password"),
		Center:    rapid.OneOf(rapid.IntRange(0, 30000000), rapid.SampledFrom([]int{7020000, 14012345, 1, 999, 500, 29999999})).Draw(t, "center"),
		Bandwidth: rapid.OneOf(rapid.IntRange(0, 12000), rapid.SampledFrom([]int{0, 1, 11, 9999, 10000, 12000})).Draw(t, "bandwidth"),
		Fault:     rapid.SampledFrom(faults).Draw(t, "fault"),
		Closers:   rapid.IntRange(1, 3).Draw(t, "closers"),
		Flood:     rapid.IntRange(0, 2).Draw(t, "flood") == 0,
		Process:   rapid.IntRange(0, 2).Draw(t, "process") == 0,
	}
	if c.Flood {
		c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1024, 1024, 1024, 2048, 10240, 0, 2, 512, 1000, 1026}), 1, 4).Draw(t, "sizes")
	}
	if c.Fault == "port closed" && (c.Host == "name" || strings.HasPrefix(c.Host, "v6")) {
		c.Host = "v4" // on an address that nobody else uses
	}
	delay := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3000))
	c.CloseAfter = delay.Draw(t, "close after")
	if c.Fault == "refuse" || c.Fault == "end" || c.Fault == "bad frame" || c.Fault == "silent" {
		c.After = rapid.IntRange(0, 10).Draw(t, "after")
	}
	if c.Fault == "end" || c.Fault == "before handshake" || c.Fault == "partial handshake" {
		c.How = rapid.SampledFrom([]string{"close", "reset", "half", "frame"}).Draw(t, "how")
	}
	if c.Fault != "none" {
		c.Delay = delay.Draw(t, "delay")
	}
	return c
}

func (c connectionCase) setup() []string {
	return []string{
		"SET AR OK in=12000 out=48000", "SET squelch=0 max=0", "SET lms_autonotch=0", "SET getattn=0", "SET gen=0 mix=-1",
		"SET agc=0 hang=0 thresh=-100 slope=6 decay=1000 manGain=50", "SET compression=0",
		fmt.Sprintf("SET mod=iq low_cut=%d high_cut=%d freq=%s", -(c.Bandwidth / 2), c.Bandwidth/2, strconv.FormatFloat(float64(c.Center)/1000, 'f', 3, 64)),
	}
}

func escaped(line, prefix, want string) error {
	value, ok := strings.CutPrefix(line, prefix)
	if !ok {
		return fmt.Errorf("%q instead of %q", line, prefix)
	}
	if strings.ContainsAny(value, " \n\r=&") {
		return fmt.Errorf("%q is not escaped", value)
	}
	got, err := url.QueryUnescape(value)
	if err != nil || got != want {
		return fmt.Errorf("%q arrives as %q (%v)", want, got, err)
	}
	return nil
}

// the messages of the client, without the keepalives
func (c connectionCase) judge(messages []string, complete bool) error {
	setup := c.setup()
	for i, m := range messages {
		var err error
		switch {
		case i == 0:
			err = escaped(m, "SET auth t=kiwi p=", c.Password)
		case i == 1:
			err = escaped(m, "SET ident_user=", c.User)
		case i-2 < len(setup):
			if m != setup[i-2] {
				err = fmt.Errorf("%q instead of %q", m, setup[i-2])
			}
		default:
			err = fmt.Errorf("%q after the setup", m)
		}
		if err != nil {
			return fmt.Errorf("message %d of the client: %w", i+1, err)
		}
	}
	if complete && len(messages) != len(setup)+2 {
		return fmt.Errorf("the setup ends after %q", messages[len(messages)-1])
	}
	return nil
}

// listens where the host argument leads to
func (c connectionCase) listen() (*device, string) {
	r := vk.NewRand(uint64(time.Now().UnixNano()))
	for try := 0; try < 50; try++ {
		ip, port := fmt.Sprintf("127.%d.%d.%d", 1+r.Intn(250), r.Intn(250), 1+r.Intn(250)), "0"
		switch c.Host {
		case "name":
			ip = "localhost"
		case "v6", "v6 default port":
			ip = "::1"
		}
		if strings.Contains(c.Host, "default") || c.Host == "v4 empty port" {
			port = "8073"
		}
		if try > 40 {
			return nil, ""
		}
		dev, err := listen(net.JoinHostPort(ip, port))
		if err != nil {
			if strings.Contains(ip, "::") {
				if port == "0" {
					return nil, "" // no IPv6 here
				}
				time.Sleep(time.Millisecond)
			}
			continue
		}
		_, port, _ = net.SplitHostPort(dev.listener.Addr().String())
		switch c.Host {
		case "v4 default port":
			return dev, ip
		case "v4 empty port":
			return dev, ip + ":"
		case "v6 default port":
			return dev, ip
		case "bracketed v4":
			return dev, "[" + ip + "]:" + port
		}
		return dev, net.JoinHostPort(ip, port)
	}
	return nil, ""
}

func end(conn *net.TCPConn, ws *websocket.Conn, how string) {
	switch how {
	case "reset":
		conn.SetLinger(0)
		conn.Close()
	case "half":
		conn.CloseWrite()
	case "frame":
		if ws != nil {
			ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "bye"), time.Now().Add(time.Second))
			return
		}
		fallthrough
	default:
		conn.Close()
	}
}

type noSpots struct{}

func (noSpots) Spot(string, float64, string, time.Time) {}

type closer interface{ Close() }

func TestVerif_C29_Connection(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 400, Rule: "the setup is complete, or the device fails after the connection is established"}, genConnection, func(k *vk.K, c connectionCase) error {
		if c.Host == "v6 default port" { // there is only one for all processes
			lock, err := os.OpenFile(filepath.Join(filepath.Dir(os.Getenv("VERIF_OUT")), "port.lock"), os.O_CREATE|os.O_RDWR, 0o666)
			if err != nil {
				vk.Inconclusive("no lock: %v", err)
			}
			defer lock.Close()
			if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
				vk.Inconclusive("no lock: %v", err)
			}
		}
		dev, host := c.listen()
		if dev == nil {
			k.Label("no address for %s", c.Host)
			return nil
		}
		defer dev.listener.Close()
		k.Label("host %s", c.Host)
		k.Label("fault %s %s", c.Fault, c.How)
		if c.Fault == "port closed" {
			dev.listener.Close()
		}

		type report struct {
			messages []string
			complete bool // the setup must be complete
			err      error
		}
		served := make(chan report, 1)
		opened := make(chan struct{}) // Open has returned
		failed := make(chan struct{}) // Open has returned an error
		go func() {
			var rep report
			defer func() { served <- rep }()
			if c.Fault == "port closed" {
				return
			}
			conn, err := dev.accept()
			if err != nil {
				rep.err = fmt.Errorf("nobody connects: %w", err)
				return
			}
			defer conn.Close()
			time.Sleep(time.Duration(c.Delay) * time.Microsecond * time.Duration(min(1, len(c.How))))
			switch c.Fault {
			case "before handshake":
				end(conn, nil, c.How)
				return
			case "garbage":
				conn.Write([]byte("\x00\x01garbage\r\n\r\nmore\r\n\r\n"))
				return
			case "status":
				if _, _, err := dev.request(conn); err == nil {
					conn.Write([]byte("HTTP/1.1 503 Service Unavailable\r\nContent-Length: 4\r\n\r\nbusy"))
				}
				return
			case "partial handshake":
				if _, _, err := dev.request(conn); err == nil {
					conn.Write([]byte("HTTP/1.1 101 Switching Proto"))
					end(conn, nil, c.How)
				}
				return
			case "wrong accept":
				if _, _, err := dev.request(conn); err == nil {
					conn.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: wrong\r\n\r\n"))
				}
				return
			}

			ws, r, err := dev.upgrade(conn)
			if err != nil {
				rep.err = fmt.Errorf("no websocket: %w", err)
				return
			}
			if !strings.HasSuffix(r.URL.Path, "/SND") {
				rep.err = fmt.Errorf("the client asks for %s", r.URL.Path)
				return
			}
			halt := make(chan struct{})
			var sending sync.WaitGroup
			if c.Flood {
				sending.Add(1)
				go func() {
					defer sending.Done()
					var iqs [][]byte
					for _, size := range c.Sizes {
						iqs = append(iqs, samples{Bulk: size, Seed: 1}.message(make([]byte, 17)))
					}
					ws.WriteMessage(websocket.BinaryMessage, []byte("MSG audio_rate=12000 sample_rate=11998.9"))
					for i := 0; ; i++ {
						select {
						case <-halt:
							return
						default:
						}
						if ws.WriteMessage(websocket.BinaryMessage, iqs[i%len(iqs)]) != nil {
							return
						}
						time.Sleep(200 * time.Microsecond)
					}
				}()
			}
			quiet := sync.OnceFunc(func() { close(halt); sending.Wait() })
			defer quiet()

			done := false
			fault := func() {
				if c.Fault == "none" || done || len(rep.messages) < c.After {
					return
				}
				done = true
				quiet()
				time.Sleep(time.Duration(c.Delay) * time.Microsecond)
				switch c.Fault {
				case "refuse":
					ws.WriteMessage(websocket.BinaryMessage, []byte("MSG "+[]string{"too_busy=1", "badp=1", "down=1"}[c.After%3]))
				case "end":
					end(conn, ws, c.How)
				case "bad frame":
					conn.Write([]byte{0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8})
				case "silent":
					// reads on, but never sends anything again
				}
			}
			fault()
			// reads until the connection ends
			ended := make(chan error, 1)
			messages := make(chan string, 100)
			go func() {
				for {
					_, raw, err := ws.ReadMessage()
					if err != nil {
						ended <- err
						return
					}
					messages <- string(raw)
				}
			}()
			closing := false
			var deadline <-chan time.Time
			for {
				select {
				case m := <-messages:
					if m != "SET keepalive" {
						rep.messages = append(rep.messages, m)
						fault()
					}
				case <-ended:
					for len(messages) > 0 {
						if m := <-messages; m != "SET keepalive" {
							rep.messages = append(rep.messages, m)
						}
					}
					rep.complete = closing && !done
					return
				case <-failed:
					failed = nil
					deadline = time.After(patience)
				case <-opened:
					opened = nil
					closing = true
					deadline = time.After(patience)
				case <-deadline:
					rep.err = fmt.Errorf("the connection stays open after Close")
					return
				}
			}
		}()

		var client closer
		var openErr error
		if err := vk.Returns("Open", func() {
			if c.Process {
				var p *kiwi.Process
				if p, openErr = kiwi.New(host, c.User, c.Password, float64(c.Center), c.Bandwidth, noSpots{}); openErr == nil {
					client = p
				}
			} else {
				var cl *kiwi.Client
				if cl, openErr = kiwi.Open(host, c.User, c.Password, float64(c.Center), c.Bandwidth, &recorder{}); openErr == nil {
					client = cl
				}
			}
		}); err != nil {
			return err
		}
		if openErr != nil {
			close(failed)
			dev.listener.Close()
		} else {
			time.Sleep(time.Duration(c.CloseAfter) * time.Microsecond)
			results := make(chan error, c.Closers)
			for i := 0; i < c.Closers; i++ {
				go func() { results <- vk.Returns("Close", client.Close) }()
			}
			for i := 0; i < c.Closers; i++ {
				if err := <-results; err != nil {
					return err
				}
			}
			close(opened)
		}
		rep := <-served
		if rep.err != nil {
			return rep.err
		}
		if err := vk.Returns("Close again", func() {
			if client != nil {
				client.Close()
			}
		}); err != nil {
			return err
		}
		if err := vk.NothingLeft(`github\.com/ftl/sdrainer/(rx|kiwi|cw)\.`, patience); err != nil {
			return fmt.Errorf("after the client was closed (process: %v, open: %v): %w", c.Process, openErr, err)
		}
		switch c.Fault {
		case "none", "silent":
			if openErr != nil {
				return fmt.Errorf("open %s: %v", host, openErr)
			}
			k.NonTrivial()
			rep.complete = true
		case "port closed", "before handshake", "garbage", "status", "partial handshake", "wrong accept":
			if openErr == nil && !(c.How == "frame" || c.How == "half") {
				return fmt.Errorf("no error although the device cannot be reached")
			}
			return nil
		default:
			k.NonTrivial()
			rep.complete = false
		}
		return c.judge(rep.messages, rep.complete)
	})
}

// ---- keepalive

type aliveCase struct {
	Traffic []string // what the device sends on each connection
	Seconds int
}

func genAlive(t *rapid.T) aliveCase {
	return aliveCase{
		Traffic: rapid.SliceOfN(rapid.SampledFrom([]string{"nothing", "iq", "iq", "pings", "conf", "late rate", "malformed"}), 1, 12).Draw(t, "traffic"),
		Seconds: rapid.SampledFrom([]int{12, 17}).Draw(t, "seconds"),
	}
}

func TestVerif_C29_Keepalive(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 1, Rule: "every case"}, genAlive, func(k *vk.K, c aliveCase) error {
		k.NonTrivial()
		results := make(chan error, len(c.Traffic))
		for _, traffic := range c.Traffic {
			traffic := traffic
			k.Label("%s", traffic)
			go func() { results <- alive(traffic, time.Duration(c.Seconds)*time.Second) }()
		}
		var result error
		for range c.Traffic {
			if err := <-results; err != nil {
				result = err
			}
		}
		return result
	})
}

func alive(traffic string, duration time.Duration) error {
	dev, err := listen("127.0.0.1:0")
	if err != nil {
		vk.Inconclusive("no listener: %v", err)
	}
	defer dev.listener.Close()
	type keepalives struct {
		at    []time.Time
		start time.Time
		early error
	}
	served := make(chan keepalives, 1)
	end := make(chan struct{})
	go func() {
		var result keepalives
		defer func() { served <- result }()
		conn, err := dev.accept()
		if err != nil {
			result.early = err
			return
		}
		defer conn.Close()
		ws, _, err := dev.upgrade(conn)
		if err != nil {
			result.early = err
			return
		}
		result.start = time.Now()
		go func() {
			iq := samples{Bulk: 1024, Seed: 1}.message(make([]byte, 17))
			if traffic == "iq" {
				ws.WriteMessage(websocket.BinaryMessage, []byte("MSG audio_rate=12000"))
			}
			for i := 0; ; i++ {
				select {
				case <-end:
					return
				case <-time.After(43 * time.Millisecond):
				}
				switch traffic {
				case "iq":
					ws.WriteMessage(websocket.BinaryMessage, iq)
				case "pings":
					ws.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Second))
				case "conf":
					ws.WriteMessage(websocket.BinaryMessage, []byte("MSG freq_offset=0.000"))
				case "late rate":
					if i == 150 {
						ws.WriteMessage(websocket.BinaryMessage, []byte("MSG audio_rate=12000"))
					}
					ws.WriteMessage(websocket.BinaryMessage, iq)
				case "malformed":
					ws.WriteMessage(websocket.BinaryMessage, [][]byte{[]byte("SND"), []byte("S"), []byte("MSG audio_rate=x"), []byte("XYZ"), nil}[i%5])
				}
			}
		}()
		for {
			_, raw, err := ws.ReadMessage()
			if err != nil {
				select {
				case <-end:
				default:
					result.early = fmt.Errorf("the connection ended: %v", err)
				}
				return
			}
			if string(raw) == "SET keepalive" {
				result.at = append(result.at, time.Now())
			}
		}
	}()
	client, err := kiwi.Open(dev.listener.Addr().String(), "", "", 7020000, 10000, &recorder{})
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	time.Sleep(duration)
	close(end)
	if err := vk.Returns("Close", client.Close); err != nil {
		return err
	}
	got := <-served
	if got.early != nil {
		return fmt.Errorf("%s: %w", traffic, got.early)
	}
	// KiwiSDRs drop a client that is silent for longer; a busy machine may add some time
	if want := int(duration/(5*time.Second)) - 1; len(got.at) < want {
		return fmt.Errorf("%s: %d keepalives in %v", traffic, len(got.at), duration)
	}
	last := got.start
	for _, at := range got.at {
		if at.Sub(last) > 9*time.Second {
			return fmt.Errorf("%s: no keepalive for %v", traffic, at.Sub(last))
		}
		last = at
	}
	return nil
}
