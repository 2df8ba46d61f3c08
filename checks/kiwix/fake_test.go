package kiwix

import (
	"bufio"
	"fmt"
	"math"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	vk "github.com/ftl/sdrainer/internal/verifkit"
)

// how long something may take that needs milliseconds
const patience = 40 * time.Second

// device is a fake KiwiSDR that serves one connection
type device struct {
	listener net.Listener
	upgrader websocket.Upgrader
}

func listen(address string) (*device, error) {
	l, err := net.Listen("tcp", address)
	for end := time.Now().Add(100 * time.Second); err != nil && strings.HasSuffix(address, ":0") && time.Now().Before(end); {
		time.Sleep(time.Second) // connections of other checks may still be in TIME_WAIT
		l, err = net.Listen("tcp", address)
	}
	if err != nil {
		return nil, err
	}
	return &device{listener: l, upgrader: websocket.Upgrader{ReadBufferSize: 4096, WriteBufferSize: 1000, CheckOrigin: func(*http.Request) bool { return true }}}, nil
}

func (d *device) accept() (*net.TCPConn, error) {
	d.listener.(*net.TCPListener).SetDeadline(time.Now().Add(patience))
	conn, err := d.listener.Accept()
	if err != nil {
		return nil, err
	}
	return conn.(*net.TCPConn), nil
}

// hijacked makes a plain connection look like one of an HTTP server
type hijacked struct {
	conn   net.Conn
	rw     *bufio.ReadWriter
	header http.Header
	status int
}

func (h *hijacked) Header() http.Header                          { return h.header }
func (h *hijacked) Write(b []byte) (int, error)                  { return h.conn.Write(b) }
func (h *hijacked) WriteHeader(status int)                       { h.status = status }
func (h *hijacked) Hijack() (net.Conn, *bufio.ReadWriter, error) { return h.conn, h.rw, nil }

func (d *device) request(conn net.Conn) (*http.Request, *bufio.ReadWriter, error) {
	rw := bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
	conn.SetReadDeadline(time.Now().Add(patience))
	r, err := http.ReadRequest(rw.Reader)
	conn.SetReadDeadline(time.Time{})
	return r, rw, err
}

func (d *device) upgrade(conn net.Conn) (*websocket.Conn, *http.Request, error) {
	r, rw, err := d.request(conn)
	if err != nil {
		return nil, nil, err
	}
	ws, err := d.upgrader.Upgrade(&hijacked{conn: conn, rw: rw, header: http.Header{}}, r, nil)
	return ws, r, err
}

// ---- a handler that keeps everything

type event struct {
	Connected bool
	Rate      int
	Data      []float32 // as the handler got it
	Copy      []float32 // its content at that time
}

type recorder struct {
	mu     sync.Mutex
	events []event
	slow   time.Duration
}

func (r *recorder) Connected(rate int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, event{Connected: true, Rate: rate})
}

func (r *recorder) IQData(rate int, data []float32) {
	if r.slow > 0 {
		time.Sleep(r.slow)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, event{Rate: rate, Data: data, Copy: append([]float32{}, data...)})
}

func (r *recorder) all() []event {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]event{}, r.events...)
}

// samples of 16 bits
type samples struct {
	Values []int // given values
	Bulk   int   // that many more
	Seed   uint64
}

func (s samples) all() []int16 {
	var result []int16
	for _, v := range s.Values {
		result = append(result, int16(v))
	}
	r := vk.NewRand(s.Seed)
	for i := 0; i < s.Bulk; i++ {
		result = append(result, int16(r.Uint64()))
	}
	return result
}

func (s samples) message(header []byte) []byte {
	result := append([]byte("SND"), header...)
	for _, v := range s.all() {
		result = append(result, byte(uint16(v)>>8), byte(v))
	}
	return result
}

func sameSamples(sent []int16, got []float32) error {
	if len(sent) != len(got) {
		return fmt.Errorf("%d values of %d", len(got), len(sent))
	}
	for i, v := range sent {
		want := float64(v) / 32767
		if !(math.Abs(float64(got[i])-want) <= 4e-5*math.Abs(want)+1e-9) {
			return fmt.Errorf("value %d: %v instead of %v (%d)", i, got[i], want, v)
		}
	}
	return nil
}
