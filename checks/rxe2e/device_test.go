//go:build go1.25

package rxe2e

import (
	"bufio"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"

	vk "github.com/ftl/sdrainer/internal/verifkit"
)

const deviceHost = "10.1.2.3:40001"

// deviceBubble is a bubble for processes with a TCI client: the client library has no way to end all its goroutines.
func deviceBubble(t *testing.T, f func() error) error {
	warmUp()
	log.SetOutput(io.Discard)
	var result error
	ended := false
	err := vk.Bubble(t, func() error {
		result = f()
		ended = true
		return nil
	})
	if ended && err != nil && strings.Contains(err.Error(), "blocked goroutines remain") {
		err = nil
	}
	if err != nil {
		return err
	}
	return result
}

type command struct {
	T    time.Duration
	Conn int
	Text string
}

// tciDevice is a TCI device within the bubble.
type tciDevice struct {
	start    time.Time
	init     []string // the messages before ready;
	echo     string   // all, some, none
	silent   bool     // never ready
	deafFrom int      // stops reading after that many commands of a connection, if > 0
	cutAt    int      // breaks the first connection instead of an answer to that command, if > 0

	mu       sync.Mutex
	up       bool
	over     bool
	conns    int
	current  *deviceConn
	commands []command
}

type deviceConn struct {
	conn net.Conn
	ws   *websocket.Conn
	out  chan any // string or []byte
	n    int
	iq   bool // iq_start was received
}

type hijacked struct {
	conn   net.Conn
	rw     *bufio.ReadWriter
	header http.Header
}

func (h *hijacked) Header() http.Header                          { return h.header }
func (h *hijacked) Write(b []byte) (int, error)                  { return h.conn.Write(b) }
func (h *hijacked) WriteHeader(int)                              {}
func (h *hijacked) Hijack() (net.Conn, *bufio.ReadWriter, error) { return h.conn, h.rw, nil }

type namedConn struct{ net.Conn }

func (namedConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 40001}
}

// install makes the device reachable for websocket clients
func (d *tciDevice) install() {
	d.start = time.Now()
	d.up = true
	never := make(chan struct{})
	serveAt(deviceHost, d.serve, func() error {
		d.mu.Lock()
		over, up := d.over, d.up
		d.mu.Unlock()
		if over {
			<-never
		}
		if !up {
			return errors.New("connection refused")
		}
		return nil
	})
}

// serveAt lets websocket clients connect to the given host
func serveAt(host string, serve func(net.Conn), accept func() error) {
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDialContext = func(_ context.Context, network, addr string) (net.Conn, error) {
		if addr != host {
			return nil, fmt.Errorf("no route to %s", addr)
		}
		if err := accept(); err != nil {
			return nil, err
		}
		client, device := net.Pipe()
		go serve(device)
		return namedConn{client}, nil
	}
}

func upgrade(conn net.Conn) (*websocket.Conn, error) {
	rw := bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
	r, err := http.ReadRequest(rw.Reader)
	if err != nil {
		return nil, err
	}
	upgrader := websocket.Upgrader{ReadBufferSize: 4096, WriteBufferSize: 1 << 16, CheckOrigin: func(*http.Request) bool { return true }}
	return upgrader.Upgrade(&hijacked{conn: conn, rw: rw, header: http.Header{}}, r, nil)
}

// stop lets the clients wait for ever
func (d *tciDevice) stop() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.over = true
}

func (d *tciDevice) serve(conn net.Conn) {
	ws, err := upgrade(conn)
	if err != nil {
		return
	}
	c := &deviceConn{conn: conn, ws: ws, out: make(chan any, 100000)}
	go c.write()
	for _, m := range d.init {
		c.out <- m
	}
	d.mu.Lock()
	d.conns++
	c.n = d.conns
	d.current = c
	d.mu.Unlock()
	if !d.silent {
		c.out <- "ready;"
	}
	count := 0
	for {
		typ, raw, err := ws.ReadMessage()
		if err != nil {
			d.lost(c)
			return
		}
		if typ != websocket.TextMessage {
			continue
		}
		count++
		text := string(raw)
		d.mu.Lock()
		d.commands = append(d.commands, command{T: time.Since(d.start), Conn: c.n, Text: text})
		switch {
		case strings.HasPrefix(text, "iq_start:"):
			c.iq = true
		case strings.HasPrefix(text, "iq_stop:"):
			c.iq = false
		}
		deafFrom, cutAt := d.deafFrom, d.cutAt
		d.mu.Unlock()
		if c.n == 1 && cutAt == count {
			d.lost(c)
			return
		}
		if deafFrom > 0 && count >= deafFrom {
			return
		}
		if d.echo == "all" || (d.echo == "some" && len(text)%2 == 0) {
			c.out <- text
		}
	}
}

func (c *deviceConn) write() {
	for m := range c.out {
		var err error
		switch m := m.(type) {
		case string:
			err = c.ws.WriteMessage(websocket.TextMessage, []byte(m))
		case []byte:
			err = c.ws.WriteMessage(websocket.BinaryMessage, m)
		}
		if err != nil {
			return
		}
	}
}

func (d *tciDevice) lost(c *deviceConn) {
	c.conn.Close()
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.current == c {
		d.current = nil
	}
}

// breakConnection ends the connection, with a close frame or without
func (d *tciDevice) breakConnection(politely bool) {
	c := d.connection()
	if c == nil {
		return
	}
	if politely {
		c.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, ""), time.Now().Add(time.Second))
	}
	d.lost(c)
	synctest.Wait()
}

func (d *tciDevice) connection() *deviceConn {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.current
}

func (d *tciDevice) streaming() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.current != nil && d.current.iq
}

// number of the current connection
func (d *tciDevice) connected() int {
	if c := d.connection(); c != nil {
		return c.n
	}
	return 0
}

func (d *tciDevice) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.conns
}

func (d *tciDevice) setUp(up bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.up = up
}

func (d *tciDevice) received() []command {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]command{}, d.commands...)
}

// wait until the condition holds
func (d *tciDevice) wait(limit time.Duration, condition func() bool) bool {
	for end := time.Now().Add(limit); ; time.Sleep(100 * time.Millisecond) {
		synctest.Wait()
		if condition() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func (d *tciDevice) sendText(m string) {
	if c := d.connection(); c != nil {
		c.out <- m
		synctest.Wait()
	}
}

// iqPacket is a binary message with IQ data
func iqPacket(trx int, rate int, kind int, data []float32) []byte {
	result := make([]byte, 64+4*len(data))
	for i, v := range []int{trx, rate, 4, 0, 0, len(data), kind} {
		binary.LittleEndian.PutUint32(result[4*i:], uint32(v))
	}
	for i, v := range data {
		binary.LittleEndian.PutUint32(result[64+4*i:], math.Float32bits(v))
	}
	return result
}

func (d *tciDevice) sendIQ(packet []byte) {
	if c := d.connection(); c != nil {
		c.out <- packet
	}
}

type spot struct {
	T         time.Duration
	Call      string
	Frequency float64
	Msg       string
	Time      time.Time
}

type spotter struct {
	mu    sync.Mutex
	start time.Time
	spots []spot
}

func (s *spotter) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.spots = append(s.spots, spot{T: time.Since(s.start), Call: callsign, Frequency: frequency, Msg: msg, Time: timestamp})
}

func (s *spotter) list() []spot {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]spot{}, s.spots...)
}
