//go:build go1.25

// Package telnetx checks the telnet cluster interface.
package telnetx

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/telnet"
)

// ---------------------------------------------------------------- C25

// fakeConn is a peer in virtual time.
type fakeConn struct {
	mu     sync.Mutex
	out    []byte
	closes int
	closed chan struct{}

	in       chan []byte
	rest     []byte
	readErr  error
	piece    int           // at most so many bytes are accepted at once, 0: no limit
	delay    time.Duration // for each write
	breakAt  int           // number of bytes after which writing fails, -1: never
	stallAt  int           // number of bytes after which writing blocks until the close, -1: never
	breakErr error
}

func (c *fakeConn) Read(p []byte) (int, error) {
	for len(c.rest) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, c.readErr
			}
			c.rest = b
			if len(b) == 0 {
				return 0, nil
			}
		case <-c.closed:
			return 0, net.ErrClosed
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *fakeConn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, net.ErrClosed
	default:
	}
	if c.delay > 0 {
		time.Sleep(c.delay)
	}
	n := len(p)
	if c.piece > 0 {
		n = min(n, c.piece)
	}
	c.mu.Lock()
	have := len(c.out)
	if c.breakAt >= 0 && have+n > c.breakAt {
		n = max(0, c.breakAt-have)
		c.out = append(c.out, p[:n]...)
		c.mu.Unlock()
		return n, c.breakErr
	}
	if c.stallAt >= 0 && have+n > c.stallAt {
		n = max(0, c.stallAt-have)
		c.out = append(c.out, p[:n]...)
		c.mu.Unlock()
		<-c.closed
		return n, net.ErrClosed
	}
	c.out = append(c.out, p[:n]...)
	c.mu.Unlock()
	return n, nil
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closes > 1 {
		return net.ErrClosed
	}
	close(c.closed)
	return nil
}

func (c *fakeConn) output() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return string(c.out)
}

type dialogOp struct {
	Op   string // input, message, wait, eof, close
	Data []byte `json:",omitempty"`
	N    int    `json:",omitempty"`
}

type dialogCase struct {
	Welcome string
	Piece   int
	DelayMS int
	BreakAt int
	StallAt int
	Ops     []dialogOp
	Others  [][]dialogOp // of other goroutines: message, close, wait
	EOF     string       // what the end of the input is
}

func genDialogOp(t *rapid.T, main bool) dialogOp {
	kinds := []string{"message", "message", "wait"}
	if main {
		kinds = []string{"input", "input", "input", "message", "message", "wait", "wait", "settle", "eof"}
	}
	op := dialogOp{Op: rapid.SampledFrom(kinds).Draw(t, "op")}
	switch op.Op {
	case "input":
		op.Data = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte("\r\n\r\ndl1abcDL1ABC /-0123456789")), rapid.Byte()), 0, 30).Draw(t, "data")
		if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
			op.N = rapid.IntRange(2, 200).Draw(t, "times")
		}
	case "message":
		op.N = rapid.IntRange(1, 20).Draw(t, "n")
	case "wait":
		op.N = rapid.IntRange(1, 50).Draw(t, "ms")
	}
	return op
}

func genDialog(t *rapid.T) dialogCase {
	c := dialogCase{Welcome: rapid.SampledFrom([]string{"SDRainer Version 1\n", "hello\n", "x"}).Draw(t, "welcome"), BreakAt: -1, StallAt: -1,
		Piece: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 7, 20}).Draw(t, "piece"), DelayMS: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "delay"),
		EOF: rapid.SampledFrom([]string{"eof", "closed", "other"}).Draw(t, "eof")}
	if c.Piece > 0 {
		c.DelayMS = 0 // not slower than a connection may be
	}
	switch rapid.IntRange(0, 5).Draw(t, "fault") {
	case 0:
		c.BreakAt = rapid.IntRange(0, 400).Draw(t, "breakat")
	case 1:
		c.StallAt = rapid.IntRange(20, 400).Draw(t, "stallat")
	}
	for i := rapid.IntRange(1, 20).Draw(t, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, genDialogOp(t, true))
	}
	if rapid.IntRange(0, 2).Draw(t, "early close") == 0 {
		c.Ops = append(c.Ops, dialogOp{Op: "close"}, genDialogOp(t, true), genDialogOp(t, true), genDialogOp(t, true))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "others"); i > 0; i-- {
		var ops []dialogOp
		for j := rapid.IntRange(1, 6).Draw(t, "oops"); j > 0; j-- {
			ops = append(ops, genDialogOp(t, false))
		}
		if rapid.IntRange(0, 3).Draw(t, "oclose") == 0 {
			ops = append(ops, dialogOp{Op: "close"})
		}
		c.Others = append(c.Others, ops)
	}
	return c
}

// the replies to the input, unit by unit
func dialogModel(welcome string, input []byte) []string {
	units := []string{welcome, "Enter your callsign: "}
	line := []byte{}
	first := true
	for _, b := range input {
		if b != '\r' && b != '\n' {
			line = append(line, b)
			continue
		}
		if first {
			units = append(units, "welcome "+string(line)+"\n")
		} else {
			units = append(units, "\n")
		}
		first = false
		line = line[:0]
	}
	return units
}

// takeApart matches the output with the dialog and the messages of several writers, each in its order.
func takeApart(out string, dialog []string, writers [][]string) (rest int, restMessages []int, err error) {
	pos, d := 0, 0
	next := make([]int, len(writers))
	for pos < len(out) {
		matched := false
		for w := range writers {
			if next[w] < len(writers[w]) && strings.HasPrefix(out[pos:], writers[w][next[w]]) {
				pos += len(writers[w][next[w]])
				next[w]++
				matched = true
				break
			}
		}
		if matched {
			continue
		}
		if d < len(dialog) && strings.HasPrefix(out[pos:], dialog[d]) {
			pos += len(dialog[d])
			d++
			continue
		}
		break
	}
	left := out[pos:]
	if left != "" { // at most the beginning of one unit
		ok := d < len(dialog) && strings.HasPrefix(dialog[d], left)
		for w := range writers {
			ok = ok || next[w] < len(writers[w]) && strings.HasPrefix(writers[w][next[w]], left)
		}
		if !ok {
			return 0, nil, fmt.Errorf("at byte %d the output goes on with %.60q", pos, left)
		}
		return -1, next, nil
	}
	return len(dialog) - d, next, nil
}

func TestVerif_C25_Dialog(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 2500, Rule: "a message is written and a line is entered"}, genDialog, func(k *vk.K, c dialogCase) error {
		return vk.Bubble(t, func() error {
			errs := map[string]error{"eof": io.EOF, "closed": net.ErrClosed, "other": errors.New("connection reset")}
			fc := &fakeConn{in: make(chan []byte, 1000), closed: make(chan struct{}), piece: c.Piece, delay: time.Duration(c.DelayMS) * time.Millisecond,
				breakAt: c.BreakAt, stallAt: c.StallAt, readErr: errs[c.EOF], breakErr: errors.New("broken pipe")}
			conn := telnet.NewConnection(fc, c.Welcome)

			var mu sync.Mutex
			closed := false // a close has returned
			closing := false
			var input []byte
			eof := false
			sent := make([][]string, 1+len(c.Others))
			run := func(who int, ops []dialogOp) error {
				for _, op := range ops {
					switch op.Op {
					case "input":
						if eof {
							continue
						}
						for i := 0; i < max(1, op.N); i++ {
							input = append(input, op.Data...)
							fc.in <- append([]byte{}, op.Data...)
						}
					case "message":
						for i := 0; i < op.N; i++ {
							m := fmt.Sprintf("DX de local-#: %d.%d  %s\n", who, len(sent[who]), strings.Repeat("#", i%5))
							mu.Lock()
							wasClosed := closed
							mu.Unlock()
							before := time.Now()
							n, err := conn.Write([]byte(m))
							if d := time.Since(before); d > 60*time.Second {
								return fmt.Errorf("a write took %v", d)
							}
							if err == nil {
								if wasClosed {
									return fmt.Errorf("a write after the close had no error")
								}
								if n != len(m) {
									return fmt.Errorf("a write of %d bytes returned %d", len(m), n)
								}
								sent[who] = append(sent[who], m)
							} else {
								mu.Lock()
								// what fails is not tried again: nothing of it, or nothing after it may be written
								ok := closing || c.BreakAt >= 0 || c.StallAt >= 0
								mu.Unlock()
								if !ok {
									return fmt.Errorf("a write failed without any reason: %v", err)
								}
								return nil
							}
						}
					case "wait":
						time.Sleep(time.Duration(op.N) * time.Millisecond)
					case "settle":
						synctest.Wait()
					case "eof":
						if !eof {
							close(fc.in)
						}
						eof = true
					case "close":
						mu.Lock()
						closing = true
						mu.Unlock()
						before := time.Now()
						conn.Close()
						if d := time.Since(before); d > 60*time.Second {
							return fmt.Errorf("a close took %v", d)
						}
						mu.Lock()
						closed = true
						mu.Unlock()
					}
				}
				return nil
			}
			results := make(chan error, len(sent))
			for i, ops := range c.Others {
				go func() { results <- run(i+1, ops) }()
			}
			err := run(0, c.Ops)
			for range c.Others {
				if e := <-results; err == nil {
					err = e
				}
			}
			if err != nil {
				return err
			}
			time.Sleep(10 * time.Minute) // everything is written
			synctest.Wait()

			out := fc.output()
			dialog := dialogModel(c.Welcome, input)
			rest, next, err := takeApart(out, dialog, sent)
			if err != nil {
				return fmt.Errorf("%v\noutput: %q\ndialog: %q", err, out, dialog)
			}
			disturbed := closing || c.BreakAt >= 0 || c.StallAt >= 0
			if !disturbed {
				if rest != 0 {
					return fmt.Errorf("%d units of the dialog %q are missing in %q", rest, dialog, out)
				}
				for w := range sent {
					if next[w] != len(sent[w]) {
						return fmt.Errorf("%d of %d messages are missing in %q", len(sent[w])-next[w], len(sent[w]), out)
					}
				}
			}
			total := 0
			for w := range sent {
				total += len(sent[w])
			}
			if total > 0 && len(dialog) > 2 {
				k.NonTrivial()
			}
			k.Label("disturbed %v", disturbed)
			k.Label("pieces %v", c.Piece > 0)

			conn.Close()
			conn.Close()
			for i := 0; i < 3; i++ {
				if _, err := conn.Write([]byte("x")); err == nil {
					return fmt.Errorf("a write after the close had no error")
				}
			}
			select {
			case <-fc.closed:
			default:
				return fmt.Errorf("the connection is not closed")
			}
			if got := fc.output(); got != out {
				return fmt.Errorf("written after the close: %q", got[len(out):])
			}
			return nil
		})
	})
}
