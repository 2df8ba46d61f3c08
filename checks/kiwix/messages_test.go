package kiwix

import (
	"fmt"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/kiwi"
)

// ---------------------------------------------------------------- C28

type message struct {
	Kind  string // rate, bad rate, conf, iq, short, tiny, tag, text, ping, refuse
	Rate  int
	Text  string // configuration parts, or the whole message
	Flags []byte // header of IQ messages
	IQ    samples
	Pause int // us before this message
}

type messagesCase struct {
	Messages []message
	Slow     int // us the handler needs for IQ data
}

func genPair(t *rapid.T) string {
	switch rapid.IntRange(0, 10).Draw(t, "pair") {
	case 9:
		return rapid.SampledFrom([]string{"max_audio_rate=20250", "audio_rates=4", "audio_rate_true=12001.2", "AUDIO_RATE=7", "compressions=1", "max_down=1", "downs=1", "down_x=1", "xbadp=1", "badpw=1", "not_too_busy=1", "too_busy2=1", "DOWN=1"}).Draw(t, "similar")
	case 10:
		return rapid.SampledFrom([]string{"load_cfg=%zz", "load_adm=a%2", "load_x=%"}).Draw(t, "malformed")
	case 0:
		return "center_freq=15000000"
	case 1:
		return "load_cfg=" + url.QueryEscape(rapid.String().Draw(t, "cfg"))
	case 2:
		return rapid.StringMatching(`[a-z_]{1,10}`).Draw(t, "key")
	case 3:
		return rapid.SampledFrom([]string{"too_busy=0", "badp=0", "down=0"}).Draw(t, "no refusal")
	case 4:
		return rapid.SampledFrom([]string{"sample_rate=11998.936", "audio_init=1", "version_maj=1", "compression=0", "compression=1", "audio_rate_x=5", "x=audio_rate"}).Draw(t, "other")
	case 5:
		return rapid.StringMatching(`[a-z]{1,8}=[A-Za-z0-9=%&+.]{0,12}`).Draw(t, "free")
	case 6:
		return rapid.SampledFrom([]string{"", "=", "=x", "==", "a==b"}).Draw(t, "empty")
	default:
		return "freq_offset=0.000"
	}
}

func joined(t *rapid.T, part string) string {
	var parts []string
	at := rapid.IntRange(0, 3).Draw(t, "before")
	for i := 0; i < at; i++ {
		parts = append(parts, genPair(t))
	}
	if part != "" {
		parts = append(parts, part)
	}
	for i := rapid.IntRange(0, 3).Draw(t, "after"); i > 0; i-- {
		parts = append(parts, genPair(t))
	}
	// parts with escapes that cannot be decoded end the message
	for i, p := range parts[:at] {
		if key, value, ok := strings.Cut(p, "="); ok && strings.HasPrefix(key, "load_") {
			if _, err := url.QueryUnescape(value); err != nil {
				parts[i] = "replaced=1"
			}
		}
	}
	return strings.Join(parts, " ")
}

func genSamples(t *rapid.T) samples {
	s := samples{Bulk: rapid.SampledFrom([]int{0, 0, 2, 100, 1024, 1024, 1024, 2048, 5000}).Draw(t, "bulk"), Seed: rapid.Uint64().Draw(t, "seed")}
	s.Values = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int{0, 1, -1, 127, 128, 255, 256, -256, -257, 32767, -32767, -32768, 258, 4660}), rapid.IntRange(-32768, 32767)), 0, 8).Draw(t, "values")
	if len(s.Values)%2 == 1 {
		s.Values = s.Values[:len(s.Values)-1]
	}
	return s
}

func genMessage(t *rapid.T) message {
	m := message{Kind: rapid.SampledFrom([]string{"rate", "rate", "bad rate", "conf", "iq", "iq", "iq", "iq", "short", "tiny", "tag", "text", "ping", "bad conf"}).Draw(t, "kind"),
		Pause: rapid.SampledFrom([]int{0, 0, 0, 0, 100, 1000}).Draw(t, "pause")}
	switch m.Kind {
	case "rate":
		m.Rate = rapid.OneOf(rapid.SampledFrom([]int{12000, 12000, 20250, 8000, 1, 48000}), rapid.IntRange(1, 200000)).Draw(t, "rate")
		m.Text = joined(t, fmt.Sprintf("audio_rate=%d", m.Rate))
	case "bad rate":
		m.Text = joined(t, "audio_rate="+rapid.SampledFrom([]string{"", "abc", "0", "-1", "-12000", "12000.5", "1e4", "0x2ee0", "99999999999999999999", "--5", "00"}).Draw(t, "rate"))
	case "conf":
		m.Text = joined(t, "")
	case "bad conf":
		m.Text = rapid.SampledFrom([]string{"load_cfg=%zz", "load_x=%", "load_cfg=%4", "load_ads=abc%2"}).Draw(t, "text")
	case "iq":
		m.Flags = rapid.SliceOfN(rapid.Byte(), 17, 17).Draw(t, "header")
		m.IQ = genSamples(t)
	case "short":
		m.Flags = rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "header")
	case "tiny":
		m.Flags = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 2), rapid.SampledFrom([][]byte{{}, []byte("S"), []byte("SN"), []byte("MS")})).Draw(t, "bytes")
	case "tag":
		m.Text = rapid.OneOf(rapid.SampledFrom([]string{"W/F", "EXT", "snd", "msg", "SNX", "\x00\x00\x00"}), rapid.StringMatching(`[A-LT-Z]{3}`)).Draw(t, "tag")
		m.Flags = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "payload")
	case "text":
		m.Text = rapid.OneOf(rapid.StringMatching(`[a-z0-9 =]{0,30}`), rapid.Just("")).Draw(t, "text")
	}
	return m
}

func genMessages(t *rapid.T) messagesCase {
	c := messagesCase{Slow: rapid.SampledFrom([]int{0, 0, 0, 100, 500}).Draw(t, "slow")}
	for i := rapid.IntRange(0, 25).Draw(t, "n"); i > 0; i-- {
		c.Messages = append(c.Messages, genMessage(t))
	}
	if rapid.IntRange(0, 2).Draw(t, "refused") == 0 {
		m := message{Kind: "refuse", Text: joined(t, rapid.SampledFrom([]string{"too_busy=1", "badp=1", "down=1"}).Draw(t, "refusal"))}
		at := rapid.IntRange(0, len(c.Messages)).Draw(t, "at")
		rest := append([]message{m}, c.Messages[at:]...)
		c.Messages = append(c.Messages[:at:at], rest...)
	}
	return c
}

func (m message) bytes() []byte {
	switch m.Kind {
	case "rate", "bad rate", "conf", "bad conf", "refuse":
		return []byte("MSG " + m.Text)
	case "iq":
		return m.IQ.message(m.Flags)
	case "short":
		return append([]byte("SND"), m.Flags...)
	case "tiny":
		return m.Flags
	case "tag":
		return append([]byte(m.Text), m.Flags...)
	}
	return []byte(m.Text)
}

func TestVerif_C28_Messages(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 3000, Rule: "IQ data is delivered and other messages are skipped, or the connection is refused"}, genMessages, func(k *vk.K, c messagesCase) error {
		dev, err := listen("127.0.0.1:0")
		if err != nil {
			vk.Inconclusive("no listener: %v", err)
		}
		defer dev.listener.Close()

		type expectation struct {
			connected bool
			rate      int
			data      []int16
		}
		var want []expectation
		rate, connected, refused, skipped, iq := 0, false, false, 0, 0
		for _, m := range c.Messages {
			k.Label("%s", m.Kind)
			switch m.Kind {
			case "rate":
				rate = m.Rate
				if !connected {
					connected = true
					want = append(want, expectation{connected: true, rate: rate})
				}
			case "iq":
				if rate != 0 {
					iq++
					want = append(want, expectation{rate: rate, data: m.IQ.all()})
				}
			case "refuse":
				refused = true
			default:
				skipped++
			}
			if refused {
				break
			}
		}
		if refused || iq > 0 && skipped > 0 {
			k.NonTrivial()
		}

		served := make(chan error, 1)
		opened := make(chan struct{})
		go func() {
			served <- func() error {
				conn, err := dev.accept()
				if err != nil {
					return fmt.Errorf("nobody connects: %w", err)
				}
				ws, _, err := dev.upgrade(conn)
				if err != nil {
					return fmt.Errorf("no websocket: %w", err)
				}
				defer func() {
					conn.SetLinger(0) // leaves nothing in TIME_WAIT
					conn.Close()
				}()
				pong := make(chan struct{})
				ended := make(chan struct{})
				ws.SetPongHandler(func(data string) error {
					if data == "all" {
						close(pong)
					}
					return nil
				})
				go func() {
					defer close(ended)
					for {
						if _, _, err := ws.ReadMessage(); err != nil {
							return
						}
					}
				}()
				for _, m := range c.Messages {
					if m.Pause > 0 {
						time.Sleep(time.Duration(m.Pause) * time.Microsecond)
					}
					var err error
					switch m.Kind {
					case "ping":
						err = ws.WriteControl(websocket.PingMessage, []byte("hello"), time.Now().Add(patience))
					case "text":
						err = ws.WriteMessage(websocket.TextMessage, m.bytes())
					default:
						raw := m.bytes()
						var w interface {
							Write([]byte) (int, error)
							Close() error
						}
						if w, err = ws.NextWriter(websocket.BinaryMessage); err == nil { // in several frames when it is long
							if _, err = w.Write(raw); err == nil {
								err = w.Close()
							}
						}
					}
					if err != nil && !refused {
						return fmt.Errorf("the client ended the connection: %v", err)
					}
				}
				if refused {
					select {
					case <-ended:
						return nil
					case <-time.After(patience):
						return fmt.Errorf("the connection is not ended after the device refused")
					}
				}
				if err := ws.WriteControl(websocket.PingMessage, []byte("all"), time.Now().Add(patience)); err != nil {
					return fmt.Errorf("the client ended the connection: %v", err)
				}
				defer func() { <-opened }() // the connection lasts at least until Open returns
				select {
				case <-pong:
				case <-ended:
					return fmt.Errorf("the client ended the connection")
				case <-time.After(patience):
					return fmt.Errorf("the client does not read any more")
				}
				return nil
			}()
		}()
		handler := &recorder{slow: time.Duration(c.Slow) * time.Microsecond}
		var client *kiwi.Client
		var openErr error
		if err := vk.Returns("Open", func() {
			client, openErr = kiwi.Open(dev.listener.Addr().String(), "user", "secret", 7020000, 10000, handler)
		}); err != nil {
			close(opened)
			return err
		}
		close(opened)
		if openErr != nil && !refused {
			return fmt.Errorf("open: %v", openErr)
		}
		if err := <-served; err != nil {
			return err
		}
		if client != nil {
			if err := vk.Returns("Close", client.Close); err != nil {
				return err
			}
		}

		// when refused, the last callbacks may still be under way
		events := handler.all()
		for deadline := time.Now().Add(3 * time.Second); len(events) < len(want) && time.Now().Before(deadline); events = handler.all() {
			time.Sleep(time.Millisecond)
		}
		if refused {
			time.Sleep(2 * time.Millisecond)
			events = handler.all()
		}
		for i, w := range want {
			if i >= len(events) {
				return fmt.Errorf("%d of %d callbacks, next is %+v", len(events), len(want), w)
			}
			e := events[i]
			if e.Connected != w.connected {
				return fmt.Errorf("callback %d: connected %v, expected %v", i, e.Connected, w.connected)
			}
			if e.Rate != w.rate {
				return fmt.Errorf("callback %d: audio rate %d, announced %d", i, e.Rate, w.rate)
			}
			if w.connected {
				continue
			}
			if err := sameSamples(w.data, e.Copy); err != nil {
				return fmt.Errorf("callback %d: IQ data: %w", i, err)
			}
			if err := sameSamples(w.data, e.Data); err != nil {
				return fmt.Errorf("callback %d: IQ data was altered after it was delivered: %w", i, err)
			}
		}
		if len(events) > len(want) {
			return fmt.Errorf("unexpected callback %d: connected %v, rate %d, %d values", len(want), events[len(want)].Connected, events[len(want)].Rate, len(events[len(want)].Copy))
		}
		return nil
	})
}
