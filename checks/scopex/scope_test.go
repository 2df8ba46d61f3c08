package scopex

import (
	"context"
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/scope/pb"
)

// how long something may take that needs milliseconds
const patience = 40 * time.Second

func startServer(address string) (*scope.ScopeServer, string, error) {
	s := scope.NewScopeServer(address)
	if err := s.Start(); err != nil {
		return nil, "", fmt.Errorf("start: %w", err)
	}
	addr, err := listening(s)
	return s, addr, err
}

// the address of the running server
func listening(s *scope.ScopeServer) (string, error) {
	deadline := time.Now().Add(patience)
	for time.Now().Before(deadline) {
		if s.Active() {
			if a := s.Addr(); a != nil && !isNil(a) {
				return a.String(), nil
			}
		}
		time.Sleep(time.Millisecond)
	}
	return "", fmt.Errorf("the server was started, but is not active")
}

func isNil(a net.Addr) bool {
	t, ok := a.(*net.TCPAddr)
	return ok && t == nil
}

// ---------------------------------------------------------------- C26

type marker struct {
	Name  string
	Value vk.F
}

type shownFrame struct {
	Spectral bool
	Stream   string
	Sec      int64
	Nano     int
	From, To vk.F
	Values   []vk.F // spectral values
	Bulk     int    // that many more values
	Seed     uint64
	Time     []marker // values of a time frame
	Freq     []marker
	Mag      []marker
	NilMaps  bool
	Wait     bool // all clients have it before the next is shown
}

type framesCase struct {
	Frames   []shownFrame
	Joins    []int // a client joins before this frame
	Parallel bool  // spectral frames are shown by another goroutine
	Mutate   bool  // the frame is used again after it was shown
}

func genValue(t *rapid.T) vk.F {
	switch rapid.IntRange(0, 6).Draw(t, "value kind") {
	case 0:
		return vk.F(rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777217, 14012345.678}).Draw(t, "special"))
	case 1:
		return vk.F(rapid.Float64().Draw(t, "any"))
	case 2:
		return vk.F(rapid.Float64Range(1e5, 1e9).Draw(t, "frequency"))
	default:
		return vk.F(rapid.Float64Range(-200, 200).Draw(t, "dB"))
	}
}

func genName(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "name kind") == 0 {
		return rapid.String().Draw(t, "any name")
	}
	return rapid.SampledFrom([]string{"", "spectrum", "demod", "demod-1", "DEMOD", "threshold", "noise floor", "a", "b"}).Draw(t, "name")
}

func genMarkers(t *rapid.T, what string) []marker {
	var result []marker
	seen := map[string]bool{}
	for i := rapid.IntRange(0, 5).Draw(t, what); i > 0; i-- {
		m := marker{genName(t), genValue(t)}
		if !seen[m.Name] {
			seen[m.Name] = true
			result = append(result, m)
		}
	}
	return result
}

func genFrames(t *rapid.T) framesCase {
	c := framesCase{Parallel: rapid.IntRange(0, 3).Draw(t, "parallel") == 0, Mutate: rapid.Bool().Draw(t, "mutate")}
	n := rapid.IntRange(1, 40).Draw(t, "frames")
	for i := 0; i < n; i++ {
		f := shownFrame{Spectral: rapid.Bool().Draw(t, "spectral"), Stream: genName(t), NilMaps: rapid.IntRange(0, 3).Draw(t, "nil") == 0, Wait: rapid.IntRange(0, 5).Draw(t, "wait") == 0}
		f.Sec = rapid.OneOf(rapid.Int64Range(1700000000, 1800000000), rapid.Int64Range(-62135596800, 253402300799), rapid.SampledFrom([]int64{-62135596800, 0, -1, 253402300799})).Draw(t, "sec")
		f.Nano = rapid.OneOf(rapid.IntRange(0, 999999999), rapid.SampledFrom([]int{0, 1, 999999999, 500000000})).Draw(t, "nano")
		if f.Spectral {
			f.From, f.To = genValue(t), genValue(t)
			f.Values = rapid.SliceOfN(rapid.Custom(genValue), 0, 12).Draw(t, "values")
			f.Bulk = rapid.SampledFrom([]int{0, 0, 0, 100, 512, 513, 8192, 40000}).Draw(t, "bulk")
			f.Seed = rapid.Uint64().Draw(t, "seed")
			f.Freq, f.Mag = genMarkers(t, "freq"), genMarkers(t, "mag")
		} else {
			f.Time = genMarkers(t, "time")
		}
		c.Frames = append(c.Frames, f)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "clients"); i > 0; i-- {
		c.Joins = append(c.Joins, rapid.OneOf(rapid.Just(0), rapid.IntRange(0, n)).Draw(t, "join"))
	}
	return c
}

func toMap[K ~string](ms []marker) map[K]float64 {
	result := map[K]float64{}
	for _, m := range ms {
		result[K(m.Name)] = float64(m.Value)
	}
	return result
}

func (f shownFrame) frame() scope.Frame {
	return scope.Frame{Stream: scope.StreamID(f.Stream), Timestamp: time.Unix(f.Sec, int64(f.Nano))}
}

func (f shownFrame) time() *scope.TimeFrame {
	result := &scope.TimeFrame{Frame: f.frame(), Values: toMap[scope.ChannelID](f.Time)}
	if f.NilMaps && len(f.Time) == 0 {
		result.Values = nil
	}
	return result
}

func (f shownFrame) spectral() *scope.SpectralFrame {
	result := &scope.SpectralFrame{Frame: f.frame(), FromFrequency: float64(f.From), ToFrequency: float64(f.To),
		FrequencyMarkers: toMap[scope.MarkerID](f.Freq), MagnitudeMarkers: toMap[scope.MarkerID](f.Mag)}
	for _, v := range f.Values {
		result.Values = append(result.Values, float64(v))
	}
	r := vk.NewRand(f.Seed)
	for i := 0; i < f.Bulk; i++ {
		result.Values = append(result.Values, r.Norm()*100)
	}
	if f.NilMaps && len(f.Freq) == 0 {
		result.FrequencyMarkers = nil
	}
	if f.NilMaps && len(f.Mag) == 0 {
		result.MagnitudeMarkers = nil
	}
	return result
}

// the number of 32 bits that comes closest
func is32(sent, received float64) bool {
	want := float64(float32(sent))
	return want == received || math.IsNaN(want) && math.IsNaN(received)
}

func sameMap[K comparable](what string, sent, received map[K]float64) error {
	if len(sent) != len(received) {
		return fmt.Errorf("%s: %d entries arrived of %d", what, len(received), len(sent))
	}
	for name, v := range sent {
		r, ok := received[name]
		if !ok || !is32(v, r) {
			return fmt.Errorf("%s %v: shown %v, received %v (%v)", what, name, v, r, ok)
		}
	}
	return nil
}

func sameHead(sent, received scope.Frame) error {
	if sent.Stream != received.Stream {
		return fmt.Errorf("stream: shown %q, received %q", sent.Stream, received.Stream)
	}
	if !sent.Timestamp.Equal(received.Timestamp) {
		return fmt.Errorf("time: shown %v, received %v", sent.Timestamp, received.Timestamp)
	}
	return nil
}

func sameTime(sent, received *scope.TimeFrame) error {
	if err := sameHead(sent.Frame, received.Frame); err != nil {
		return err
	}
	return sameMap("channel", sent.Values, received.Values)
}

func sameSpectral(sent, received *scope.SpectralFrame) error {
	if err := sameHead(sent.Frame, received.Frame); err != nil {
		return err
	}
	if !is32(sent.FromFrequency, received.FromFrequency) || !is32(sent.ToFrequency, received.ToFrequency) {
		return fmt.Errorf("range: shown %v - %v, received %v - %v", sent.FromFrequency, sent.ToFrequency, received.FromFrequency, received.ToFrequency)
	}
	if len(sent.Values) != len(received.Values) {
		return fmt.Errorf("%d values arrived of %d", len(received.Values), len(sent.Values))
	}
	for i := range sent.Values {
		if !is32(sent.Values[i], received.Values[i]) {
			return fmt.Errorf("value %d: shown %v, received %v", i, sent.Values[i], received.Values[i])
		}
	}
	if err := sameMap("frequency marker", sent.FrequencyMarkers, received.FrequencyMarkers); err != nil {
		return err
	}
	return sameMap("magnitude marker", sent.MagnitudeMarkers, received.MagnitudeMarkers)
}

// viewer is a client of the scope that reads all the time
type viewer struct {
	client *scope.Client

	mu        sync.Mutex
	times     []*scope.TimeFrame
	spectrals []*scope.SpectralFrame
	ended     bool
	changed   chan struct{}
}

func view(addr string) (*viewer, error) {
	v := &viewer{client: scope.NewClient(addr), changed: make(chan struct{}, 1)}
	if err := v.client.Open(); err != nil {
		return nil, err
	}
	times, spectrals, err := v.client.GetFrames()
	if err != nil {
		return nil, err
	}
	go func() {
		for times != nil || spectrals != nil {
			select {
			case f, ok := <-times:
				if !ok {
					times = nil
					break
				}
				v.mu.Lock()
				v.times = append(v.times, f)
				v.mu.Unlock()
			case f, ok := <-spectrals:
				if !ok {
					spectrals = nil
					break
				}
				v.mu.Lock()
				v.spectrals = append(v.spectrals, f)
				v.mu.Unlock()
			}
			v.notify()
		}
		v.mu.Lock()
		v.ended = true
		v.mu.Unlock()
		v.notify()
	}()
	return v, nil
}

func (v *viewer) notify() {
	select {
	case v.changed <- struct{}{}:
	default:
	}
}

// waits until the condition holds, the stream ends, or patience is over
func (v *viewer) wait(cond func() bool, patience time.Duration) bool {
	deadline := time.After(patience)
	for {
		v.mu.Lock()
		ok, ended := cond(), v.ended
		v.mu.Unlock()
		if ok {
			return true
		}
		if ended {
			return false
		}
		select {
		case <-v.changed:
		case <-deadline:
			return false
		}
	}
}

func (v *viewer) has(stream scope.StreamID) bool {
	return len(v.times) > 0 && v.times[len(v.times)-1].Stream == stream
}

const syncPrefix = "\x01sync "

func TestVerif_C26_Frames(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 500, Rule: "a client received frames of both kinds"}, genFrames, func(k *vk.K, c framesCase) error {
		server, addr, err := startServer("127.0.0.1:0")
		if err != nil {
			vk.Inconclusive("no server: %v", err)
		}
		defer server.Stop()

		var viewers []*viewer
		defer func() {
			for _, v := range viewers {
				v.client.Close()
			}
		}()
		var times []*scope.TimeFrame // all that were shown
		var spectrals []*scope.SpectralFrame
		type start struct{ times, spectrals int }
		var starts []start
		syncs := 0
		sync1 := func() scope.StreamID {
			syncs++
			f := &scope.TimeFrame{Frame: scope.Frame{Stream: scope.StreamID(fmt.Sprintf("%s%d", syncPrefix, syncs)), Timestamp: time.Unix(int64(syncs), 0)}}
			times = append(times, f)
			server.ShowTimeFrame(f)
			return f.Stream
		}
		// all viewers have everything that was shown up to now
		settle := func() error {
			id := sync1()
			for i, v := range viewers {
				i, v := i, v
				done := v.wait(func() bool {
					return v.has(id) && len(v.spectrals) >= len(spectrals)-starts[i].spectrals
				}, patience)
				if !done {
					v.mu.Lock()
					defer v.mu.Unlock()
					if v.ended {
						return fmt.Errorf("the stream of client %d ended while it was reading", i)
					}
					return fmt.Errorf("client %d received %d time frames and %d spectral frames of %d and %d",
						i, len(v.times), len(v.spectrals), len(times)-starts[i].times, len(spectrals)-starts[i].spectrals)
				}
			}
			return nil
		}
		join := func() error {
			v, err := view(addr)
			if err != nil {
				return fmt.Errorf("a client cannot connect: %w", err)
			}
			viewers = append(viewers, v)
			deadline := time.Now().Add(patience)
			for pause := 5 * time.Millisecond; ; pause = min(2*pause, 2*time.Second) { // its buffer must not run over before it reads
				index := len(times)
				id := sync1()
				if v.wait(func() bool { return len(v.times) > 0 }, pause) {
					v.wait(func() bool { return v.has(id) }, patience)
					first := v.times[0]
					for i, f := range times {
						if f.Stream == first.Stream && strings.HasPrefix(string(f.Stream), syncPrefix) {
							starts = append(starts, start{i, len(spectrals)})
							return settle()
						}
					}
					_ = index
					return fmt.Errorf("client received a frame that was not shown: %+v", first)
				}
				for i, other := range viewers[:len(viewers)-1] { // nobody falls back behind
					if !other.wait(func() bool { return other.has(id) }, patience) {
						return fmt.Errorf("client %d received nothing", i)
					}
				}
				if time.Now().After(deadline) {
					return fmt.Errorf("a new client receives nothing")
				}
			}
		}

		var wg sync.WaitGroup
		other := make(chan func(), 100)
		go func() {
			for f := range other {
				f()
				wg.Done()
			}
		}()
		defer close(other)
		show := func(f func()) { f() }
		showSpectral := show
		if c.Parallel {
			showSpectral = func(f func()) { wg.Add(1); other <- f }
			k.Label("two goroutines")
		}

		pending := 0
		for i, f := range c.Frames {
			for _, at := range c.Joins {
				if at == i {
					wg.Wait()
					pending = 0
					if err := settle(); err != nil {
						return err
					}
					if err := join(); err != nil {
						return err
					}
				}
			}
			if f.Spectral {
				spectrals = append(spectrals, f.spectral())
				shown := f.spectral()
				showSpectral(func() {
					server.ShowSpectralFrame(shown)
					if c.Mutate {
						shown.Stream = "changed"
						for i := range shown.Values {
							shown.Values[i] = -1
						}
						for m := range shown.FrequencyMarkers {
							shown.FrequencyMarkers[m] = -1
						}
						for m := range shown.MagnitudeMarkers {
							shown.MagnitudeMarkers[m] = -1
						}
					}
				})
			} else {
				times = append(times, f.time())
				shown := f.time()
				server.ShowTimeFrame(shown)
				if c.Mutate {
					shown.Stream = "changed"
					for m := range shown.Values {
						shown.Values[m] = -1
					}
				}
			}
			pending++
			if f.Wait || pending >= 5 { // the buffer of a client has ten places
				wg.Wait()
				pending = 0
				if err := settle(); err != nil {
					return err
				}
			}
		}
		wg.Wait()
		for _, at := range c.Joins {
			if at >= len(c.Frames) {
				if err := settle(); err != nil {
					return err
				}
				if err := join(); err != nil {
					return err
				}
			}
		}
		if err := settle(); err != nil {
			return err
		}

		for i, v := range viewers {
			v.mu.Lock()
			gotTimes, gotSpectrals := v.times, v.spectrals
			v.mu.Unlock()
			wantTimes, wantSpectrals := times[starts[i].times:], spectrals[starts[i].spectrals:]
			for j, want := range wantTimes {
				if j >= len(gotTimes) {
					return fmt.Errorf("client %d: %d time frames of %d", i, len(gotTimes), len(wantTimes))
				}
				if err := sameTime(want, gotTimes[j]); err != nil {
					return fmt.Errorf("client %d, time frame %d: %w", i, j, err)
				}
			}
			for j, want := range wantSpectrals {
				if err := sameSpectral(want, gotSpectrals[j]); err != nil {
					return fmt.Errorf("client %d, spectral frame %d: %w", i, j, err)
				}
			}
			if len(gotTimes) != len(wantTimes) || len(gotSpectrals) != len(wantSpectrals) {
				return fmt.Errorf("client %d: %d + %d frames instead of %d + %d", i, len(gotTimes), len(gotSpectrals), len(wantTimes), len(wantSpectrals))
			}
			if len(wantSpectrals) > 0 && len(wantTimes) > 1 {
				k.NonTrivial()
			}
			k.Label("%d clients", len(viewers))
		}
		for i := 0; len(viewers) > 0; i++ { // a client that is closed receives nothing anymore, the others do
			v := viewers[0]
			viewers, starts = viewers[1:], starts[1:]
			if err := v.client.Close(); err != nil {
				return fmt.Errorf("Close of client %d: %w", i, err)
			}
			if !v.wait(func() bool { return v.ended }, patience) {
				return fmt.Errorf("the frames of client %d do not end with its Close", i)
			}
			if err := settle(); err != nil {
				return fmt.Errorf("after client %d was closed: %w", i, err)
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C27

type scopeOp struct {
	Op   string // join, stall, leave, resume, show, burst, start, stop
	N    int    // clients or frames
	Size int    // values of each frame
	Pick int    // which client
	How  int
	Show int // goroutines that show frames during the stop
	Stop int // goroutines that stop
}

type clientsCase struct {
	Ops []scopeOp
}

func genClients(t *rapid.T) clientsCase {
	var c clientsCase
	ops := []string{"join", "join", "stall", "stall", "leave", "resume", "show", "show", "show", "flood", "burst", "start", "stop"}
	for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
		op := scopeOp{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		switch op.Op {
		case "join":
			op.N = rapid.IntRange(1, 3).Draw(t, "n")
		case "stall":
			op.N = rapid.IntRange(1, 4).Draw(t, "n")
		case "leave":
			op.Pick, op.How = rapid.IntRange(0, 9).Draw(t, "pick"), rapid.IntRange(0, 1).Draw(t, "how")
		case "resume":
			op.Pick = rapid.IntRange(0, 9).Draw(t, "pick")
		case "show":
			op.N, op.Size = rapid.IntRange(1, 30).Draw(t, "n"), rapid.SampledFrom([]int{0, 10, 512, 4096}).Draw(t, "size")
		case "flood": // more than the network takes from a client that does not read
			op.N, op.Size = rapid.IntRange(15, 40).Draw(t, "n"), rapid.SampledFrom([]int{16384, 65536}).Draw(t, "size")
			op.Op = "show"
		case "burst":
			op.N, op.Size = rapid.IntRange(1, 100).Draw(t, "n"), rapid.SampledFrom([]int{0, 10, 512}).Draw(t, "size")
		case "stop":
			op.Show, op.Stop = rapid.IntRange(0, 3).Draw(t, "show"), rapid.IntRange(1, 3).Draw(t, "stop")
			op.N = rapid.IntRange(0, 30).Draw(t, "n")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// rawClient reads only when it is told to
type rawClient struct {
	conn   *grpc.ClientConn
	cancel context.CancelFunc
	stream pb.Scope_GetFramesClient
	reads  bool
	left   bool

	mu      sync.Mutex
	serials map[string][]int // per goroutine that shows frames
	last    string
	ended   error
	changed chan struct{}
}

func connect(addr string) (*rawClient, error) {
	dial := func(ctx context.Context, addr string) (net.Conn, error) {
		conn, err := (&net.Dialer{}).DialContext(ctx, "tcp", addr)
		if tcp, ok := conn.(*net.TCPConn); ok {
			tcp.SetLinger(0) // leaves nothing in TIME_WAIT
		}
		return conn, err
	}
	conn, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithContextDialer(dial))
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	stream, err := pb.NewScopeClient(conn).GetFrames(ctx, &pb.GetScopeRequest{})
	if err != nil {
		cancel()
		conn.Close()
		return nil, err
	}
	return &rawClient{conn: conn, cancel: cancel, stream: stream, serials: map[string][]int{}, changed: make(chan struct{}, 1)}, nil
}

func (c *rawClient) read() {
	c.reads = true
	go func() {
		for {
			frame, err := c.stream.Recv()
			c.mu.Lock()
			if err != nil {
				c.ended = err
			} else {
				id := frame.GetSpectralFrame().GetStreamId() + frame.GetTimeFrame().GetStreamId()
				who, serial, _ := strings.Cut(id, " ")
				n, _ := strconv.Atoi(serial)
				c.serials[who] = append(c.serials[who], n)
				c.last = id
			}
			c.mu.Unlock()
			select {
			case c.changed <- struct{}{}:
			default:
			}
			if err != nil {
				return
			}
		}
	}()
}

func (c *rawClient) wait(cond func() bool, patience time.Duration) bool {
	deadline := time.After(patience)
	for {
		c.mu.Lock()
		ok, ended := cond(), c.ended
		c.mu.Unlock()
		if ok {
			return true
		}
		if ended != nil {
			return false
		}
		select {
		case <-c.changed:
		case <-deadline:
			return false
		}
	}
}

func (c *rawClient) unbroken() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	for who, serials := range c.serials {
		for i := 1; i < len(serials); i++ {
			if serials[i] != serials[i-1]+1 {
				return fmt.Errorf("frame %d of %s followed by frame %d", serials[i-1], who, serials[i])
			}
		}
	}
	return nil
}

func (c *rawClient) close() {
	c.left = true
	c.cancel()
	c.conn.Close()
}

type showing struct {
	server *scope.ScopeServer
	mu     sync.Mutex
	serial map[string]int
}

func (s *showing) show(who string, size int) (string, error) {
	s.mu.Lock()
	s.serial[who]++
	serial := s.serial[who]
	s.mu.Unlock()
	id := fmt.Sprintf("%s %d", who, serial)
	err := vk.Returns("showing a frame", func() {
		if serial%3 == 0 {
			f := &scope.TimeFrame{Frame: scope.Frame{Stream: scope.StreamID(id), Timestamp: time.Now()}, Values: map[scope.ChannelID]float64{}}
			for i := 0; i < min(size, 50); i++ {
				f.Values[scope.ChannelID(strconv.Itoa(i))] = float64(i)
			}
			s.server.ShowTimeFrame(f)
		} else {
			s.server.ShowSpectralFrame(&scope.SpectralFrame{Frame: scope.Frame{Stream: scope.StreamID(id), Timestamp: time.Now()}, Values: make([]float64, size)})
		}
	})
	return id, err
}

func freeAddress(seed int) string {
	r := vk.NewRand(uint64(time.Now().UnixNano()) + uint64(seed))
	for try := 0; try < 20; try++ {
		host := fmt.Sprintf("127.%d.%d.%d", 1+r.Intn(250), r.Intn(250), 1+r.Intn(250))
		if try > 10 {
			host = "127.0.0.1"
		}
		l, err := net.Listen("tcp", host+":0")
		if err != nil {
			continue
		}
		addr := l.Addr().String()
		l.Close()
		return addr
	}
	vk.Inconclusive("no free address")
	return ""
}

func TestVerif_C27_Clients(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 300, Rule: "a client that reads received frames while another did not read or had left, or the server was stopped while frames were shown"}, genClients, func(k *vk.K, c clientsCase) error {
		address := freeAddress(len(c.Ops))
		server, addr, err := startServer(address)
		if err != nil {
			vk.Inconclusive("no server: %v", err)
		}
		s := &showing{server: server, serial: map[string]int{}}
		defer vk.Returns("Stop", server.Stop)

		var clients []*rawClient
		defer func() {
			for _, cl := range clients {
				cl.close()
			}
		}()
		readers := func() []*rawClient {
			var result []*rawClient
			for _, cl := range clients {
				if cl.reads && !cl.left {
					result = append(result, cl)
				}
			}
			return result
		}
		disturbed := func() bool {
			for _, cl := range clients {
				if cl.left || !cl.reads {
					return true
				}
			}
			return false
		}
		settle := func(id string) error {
			for i, cl := range clients {
				if !cl.reads || cl.left {
					continue
				}
				cl := cl
				if !cl.wait(func() bool { return cl.last == id }, patience) {
					cl.mu.Lock()
					defer cl.mu.Unlock()
					if cl.ended != nil {
						return fmt.Errorf("the stream of client %d that reads ended: %v", i, cl.ended)
					}
					return fmt.Errorf("client %d did not receive frame %q, but %q last", i, id, cl.last)
				}
			}
			return nil
		}
		// frames at a pace that every client that reads can follow
		show := func(n, size int) error {
			for i := 0; i < n; i++ {
				id, err := s.show("main", size)
				if err != nil {
					return err
				}
				if i%6 == 5 || i == n-1 {
					if err := settle(id); err != nil {
						return err
					}
				}
			}
			if n > 0 && disturbed() && len(readers()) > 0 {
				k.NonTrivial()
				k.Label("readers beside others")
			}
			return nil
		}
		join := func() error {
			cl, err := connect(addr)
			if err != nil {
				return fmt.Errorf("a client cannot connect: %w", err)
			}
			clients = append(clients, cl)
			cl.read()
			deadline := time.Now().Add(patience)
			for pause := 5 * time.Millisecond; !cl.wait(func() bool { return cl.last != "" }, pause); pause = min(2*pause, 2*time.Second) {
				if cl.ended != nil {
					return fmt.Errorf("the stream of a new client ended: %v", cl.ended)
				}
				if time.Now().After(deadline) {
					return fmt.Errorf("a new client receives nothing")
				}
				cl.reads = false
				if err := show(1, 0); err != nil {
					return err
				}
				cl.reads = true
			}
			id, err := s.show("main", 0)
			if err != nil {
				return err
			}
			return settle(id)
		}

		for _, op := range c.Ops {
			k.Label("%s", op.Op)
			switch op.Op {
			case "join":
				for i := 0; i < op.N; i++ {
					if err := join(); err != nil {
						return err
					}
				}
			case "stall":
				for i := 0; i < op.N; i++ {
					cl, err := connect(addr)
					if err != nil {
						return fmt.Errorf("a client cannot connect: %w", err)
					}
					clients = append(clients, cl)
				}
				time.Sleep(5 * time.Millisecond)
			case "leave":
				if len(clients) == 0 {
					break
				}
				cl := clients[op.Pick%len(clients)]
				cl.left = true
				if op.How == 0 {
					cl.cancel()
				} else {
					cl.conn.Close()
				}
			case "resume":
				for i := range clients {
					cl := clients[(i+op.Pick)%len(clients)]
					if cl.reads || cl.left {
						continue
					}
					k.Label("resumed")
					cl.read()
					// either it is still served, or its stream ends; a client
					// that connected just now may miss the first frame
					var id string
					for deadline := time.Now().Add(patience); ; {
						var err error
						if id, err = s.show("main", 0); err != nil {
							return err
						}
						if cl.wait(func() bool { return cl.last == id }, 100*time.Millisecond) || time.Now().After(deadline) {
							break
						}
						cl.mu.Lock()
						ended := cl.ended
						cl.mu.Unlock()
						if ended != nil {
							break
						}
					}
					cl.mu.Lock()
					last, ended := cl.last, cl.ended
					cl.mu.Unlock()
					if ended != nil {
						cl.left = true
					} else if last != id {
						return fmt.Errorf("a client that reads again neither receives frames nor is its stream ended")
					}
					if err := settle(id); err != nil {
						return err
					}
					break
				}
			case "show":
				if err := show(op.N, op.Size); err != nil {
					return err
				}
			case "burst":
				for i := 0; i < op.N; i++ {
					if _, err := s.show("main", op.Size); err != nil {
						return err
					}
				}
				id, err := s.show("main", 0)
				if err != nil {
					return err
				}
				for _, cl := range readers() {
					cl.wait(func() bool { return cl.last == id }, patience)
					cl.mu.Lock()
					if cl.ended != nil { // too slow for the burst
						cl.left = true
						k.Label("burst ended a stream")
					}
					cl.mu.Unlock()
				}
				if err := settle(id); err != nil {
					return err
				}
			case "start":
				var err error
				if e := vk.Returns("Start", func() { err = server.Start() }); e != nil {
					return e
				}
				if err == nil {
					return fmt.Errorf("a running server was started again")
				}
				if err := show(1, 0); err != nil {
					return err
				}
			case "stop":
				if op.Show > 0 {
					k.NonTrivial()
				}
				results := make(chan error, 10)
				halt := make(chan struct{})
				for g := 0; g < op.Show; g++ {
					g := g
					go func() {
						for i := 0; ; i++ {
							if _, err := s.show(fmt.Sprintf("show%d", g), 10); err != nil {
								results <- err
								return
							}
							select {
							case <-halt:
								if i > op.N {
									results <- nil
									return
								}
							default:
							}
						}
					}()
				}
				if op.Show > 0 {
					time.Sleep(time.Duration(op.N) * 100 * time.Microsecond)
				}
				stopped := make(chan error, 10)
				for g := 0; g < op.Stop; g++ {
					go func() { stopped <- vk.Returns("Stop", server.Stop) }()
				}
				for g := 0; g < op.Stop; g++ {
					if err := <-stopped; err != nil {
						return err
					}
				}
				close(halt)
				for g := 0; g < op.Show; g++ {
					if err := <-results; err != nil {
						return err
					}
				}
				deadline := time.Now().Add(patience)
				for server.Active() {
					if time.Now().After(deadline) {
						return fmt.Errorf("the server is active after Stop")
					}
					time.Sleep(time.Millisecond)
				}
				if _, err := s.show("main", 10); err != nil {
					return err
				}
				for i, cl := range clients {
					if !cl.reads {
						cl.read()
					}
					if cl.wait(func() bool { return false }, patience); cl.ended == nil {
						return fmt.Errorf("the stream of client %d goes on after Stop", i)
					}
					if err := cl.unbroken(); err != nil {
						return fmt.Errorf("client %d: %w", i, err)
					}
					cl.close()
				}
				clients = nil
				if err := vk.NothingLeft(`github\.com/ftl/sdrainer/scope\.\(`, patience); err != nil {
					return fmt.Errorf("after the stop: %w", err)
				}
				var err error
				if e := vk.Returns("Start", func() { err = server.Start() }); e != nil {
					return e
				}
				if err != nil {
					return fmt.Errorf("the server cannot be started again: %v", err)
				}
				again, err := listening(server)
				if err != nil {
					return fmt.Errorf("started again: %w", err)
				}
				if again != addr {
					return fmt.Errorf("the server listens on %s after a restart, before on %s", again, addr)
				}
			}
			for i, cl := range clients {
				if err := cl.unbroken(); err != nil {
					return fmt.Errorf("client %d: %w", i, err)
				}
			}
		}
		return join()
	})
}
