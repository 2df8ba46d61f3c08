//go:build go1.25

package rxe2e

import (
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	vk "github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

const kiwiHost = "10.1.2.4:8073"

type kiwiBurst struct {
	Packets []int  // blocks in each packet
	Pause   int    // ms
	Before  string // what happens before
	Value   int
}

type kiwiCase struct {
	Band      band
	Center    int
	Bandwidth int
	RX        int // initial offset of the receive frequency
	Early     map[string]int
	Bursts    []kiwiBurst
}

var kiwiSettings = []string{"threshold", "debounce", "silence", "attachment"}

func genKiwi(t *rapid.T) kiwiCase {
	c := kiwiCase{
		Band:   band{Rate: 12000, Block: 512, Sigma: rapid.SampledFrom([]float64{8e-3, 16e-3}).Draw(t, "sigma"), Seed: rapid.Uint64().Draw(t, "seed")},
		Center: genCenter(t),
		Early:  map[string]int{},
	}
	// no bandwidth for which the edge is a whole number of bins
	if k := rapid.IntRange(0, 100).Draw(t, "bandwidth"); k%15 != 0 {
		c.Bandwidth = 12000 - 100*k
	} else {
		c.Bandwidth = 12000
	}
	for _, name := range kiwiSettings {
		if rapid.Bool().Draw(t, "early") {
			c.Early[name] = genSetting(t, name)
		}
	}
	s := source{Kind: "text", Text: rapid.SampledFrom([]string{"cq cq dl1abc dl1abc", "vvv test de k1abc", "paris paris paris"}).Draw(t, "text"),
		Offset: float64(rapid.IntRange(-5500, 5500).Draw(t, "offset")), SNR: float64(rapid.IntRange(25, 32).Draw(t, "snr")), WPM: float64(rapid.IntRange(4, 10).Draw(t, "wpm")), Pause: 1}
	s.Offset = math.Round(s.Offset/c.Band.binWidth()) * c.Band.binWidth() // one peak only
	if rapid.Bool().Draw(t, "carrier") {
		s.Kind = "carrier"
	}
	c.Band.Sources = append(c.Band.Sources, s)
	offset := func() int {
		if rapid.Bool().Draw(t, "on signal") {
			return int(s.Offset)
		}
		return rapid.IntRange(-6000, 6000).Draw(t, "rx")
	}
	if rapid.Bool().Draw(t, "rx?") {
		c.RX = offset()
	}
	for total := rapid.IntRange(1, 1500).Draw(t, "blocks"); total > 0; {
		b := kiwiBurst{Before: rapid.SampledFrom([]string{"", "", "", "", "conf", "waterfall", "ping", "rx", "rx", "threshold", "debounce", "silence", "attachment", "scope"}).Draw(t, "before")}
		n := rapid.IntRange(1, 100).Draw(t, "burst")
		total -= n
		for n > 0 {
			k := min(n, rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7, 20}).Draw(t, "packet"))
			b.Packets = append(b.Packets, k)
			n -= k
		}
		b.Pause = rapid.SampledFrom([]int{1, 50, 1000, 4267, 30000}).Draw(t, "pause")
		switch b.Before {
		case "threshold", "debounce", "silence", "attachment":
			b.Value = genSetting(t, b.Before)
		case "rx":
			b.Value = offset()
		}
		c.Bursts = append(c.Bursts, b)
	}
	return c
}

type noSpots struct{}

func (noSpots) Spot(string, float64, string, time.Time) {}

func (c kiwiCase) run(k *vk.K) error {
	out := make(chan any, 100000)
	serveAt(kiwiHost, func(conn net.Conn) {
		ws, err := upgrade(conn)
		if err != nil {
			return
		}
		go func() {
			for m := range out {
				switch m := m.(type) {
				case string:
					err = ws.WriteMessage(websocket.BinaryMessage, []byte(m))
				case []byte:
					err = ws.WriteMessage(websocket.BinaryMessage, m)
				case time.Time:
					err = ws.WriteControl(websocket.PingMessage, []byte("x"), m)
				}
				if err != nil {
					conn.Close()
					return
				}
			}
		}()
		out <- "MSG client_public_ip=10.0.0.1 version_maj=1 version_min=578"
		out <- "MSG audio_init=0 audio_rate=12000"
		for {
			if _, _, err := ws.ReadMessage(); err != nil {
				conn.Close()
				return
			}
		}
	}, func() error { return nil })
	defer close(out)

	gotFrames, wantFrames := &frames{}, &frames{}
	var seen []scope.SpectralFrame // on former scopes
	var model spectra
	var p *kiwi.Process
	var ref *rx.Receiver[float32, int]
	var err error
	gotOut, fileErr := stdoutTo(func() {
		p, err = kiwi.New(kiwiHost, "user", "password", float64(c.Center), c.Bandwidth, noSpots{})
	})
	if fileErr != nil {
		vk.Inconclusive("%v", fileErr)
	}
	if err != nil {
		return err
	}
	defer p.Close()
	wantOut, fileErr := stdoutTo(func() { ref = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock) })
	if fileErr != nil {
		vk.Inconclusive("%v", fileErr)
	}
	defer ref.Stop()

	set := func(name string, v int) {
		switch name {
		case "threshold":
			p.SetThreshold(v)
			ref.SetPeakThreshold(float32(v))
		case "debounce":
			p.SetSignalDebounce(v)
			ref.SetSignalDebounce(v)
		case "silence":
			p.SetSilenceTimeout(time.Duration(v) * time.Second)
			ref.SetSilenceTimeout(time.Duration(v) * time.Second)
		case "attachment":
			p.SetAttachmentTimeout(time.Duration(v) * time.Second)
			ref.SetAttachmentTimeout(time.Duration(v) * time.Second)
		}
	}
	ref.SetEdgeWidth(int(float64((12000-c.Bandwidth)/2) * 512 / 12000))
	ref.Start(12000, 512)
	ref.SetVFOOffset(0)
	for _, name := range kiwiSettings {
		if v, ok := c.Early[name]; ok {
			set(name, v)
		}
	}
	p.SetScope(gotFrames)
	ref.SetScope(wantFrames)
	if c.RX != 0 {
		p.SetRXFrequency(float64(c.Center + c.RX))
		ref.SetVFOOffset(c.RX)
	}
	synctest.Wait()

	g := newGenerator(c.Band)
	for _, b := range c.Bursts {
		switch b.Before {
		case "":
		case "conf":
			out <- "MSG center_freq=15000000 bandwidth=30000000 freq_offset=0.000"
		case "waterfall":
			out <- "W/F" + string(make([]byte, 1024))
		case "ping":
			out <- time.Now().Add(time.Second)
		case "rx":
			p.SetRXFrequency(float64(c.Center + b.Value))
			ref.SetVFOOffset(b.Value)
		case "scope":
			synctest.Wait()
			if err := wantFrames.compare(gotFrames); err != nil {
				return err
			}
			seen = append(seen, gotFrames.spectral...)
			gotFrames, wantFrames = &frames{}, &frames{}
			p.SetScope(gotFrames)
			ref.SetScope(wantFrames)
		default:
			set(b.Before, b.Value)
		}
		synctest.Wait()
		for _, n := range b.Packets {
			raw := append([]byte("SND"), make([]byte, 17)...)
			for i := 0; i < n; i++ {
				block := g.next()
				for j := range block {
					v := int16(max(-32767, min(32767, block[j]*32767)))
					raw = binary.BigEndian.AppendUint16(raw, uint16(v))
					block[j] = float32(v) / 32767
				}
				model.put(block)
				ref.IQData(12000, block)
			}
			out <- raw
		}
		synctest.Wait()
		time.Sleep(time.Duration(b.Pause) * time.Millisecond)
		synctest.Wait()
	}
	if err := model.compare(append(seen, gotFrames.spectral...)); err != nil {
		return fmt.Errorf("compared with the spectra of the blocks: %w", err)
	}
	if len(wantFrames.spectral) > 0 && len(wantFrames.time) > 0 {
		k.NonTrivial()
	}
	if err := wantFrames.compare(gotFrames); err != nil {
		return err
	}
	p.Close()
	ref.Stop()
	if g, w := content(gotOut), content(wantOut); g != w {
		return fmt.Errorf("text %q instead of %q", g, w)
	}
	return nil
}

func TestVerif_C31_Kiwi(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 60, Rule: "a listener was attached and spectra were seen"}, genKiwi, func(k *vk.K, c kiwiCase) error {
		return deviceBubble(t, func() error {
			k.Label("kiwi")
			return c.run(k)
		})
	})
}
