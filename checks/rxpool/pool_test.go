package rxpool

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

// ---------------------------------------------------------------- C14

type tableOp struct {
	Op   string `json:"op"` // put, force, next, activate, deactivate, cleanup, step, reset, stale
	From int    `json:"from,omitempty"`
	To   int    `json:"to,omitempty"`
	N    int    `json:"n,omitempty"` // which of the known peaks, or steps of 7 seconds
}

type tableCase struct {
	Size int       `json:"size"`
	Ops  []tableOp `json:"ops"`
}

func genTable(t *rapid.T) tableCase {
	c := tableCase{Size: rapid.OneOf(rapid.IntRange(2, 24), rapid.IntRange(2, 200)).Draw(t, "size")}
	maxWidth := rapid.SampledFrom([]int{1, 3, 6, c.Size}).Draw(t, "width")
	op := rapid.Custom(func(t *rapid.T) tableOp {
		kind := rapid.SampledFrom([]string{"put", "put", "put", "put", "force", "next", "next+", "activate", "deactivate", "deactivate", "cleanup", "step", "step", "reset?", "stale"}).Draw(t, "op")
		o := tableOp{Op: kind}
		switch kind {
		case "put", "force":
			o.From = rapid.IntRange(0, c.Size-1).Draw(t, "from")
			o.To = min(c.Size-1, o.From+rapid.IntRange(0, maxWidth-1).Draw(t, "w"))
		case "activate", "deactivate", "stale":
			o.N = rapid.IntRange(0, 50).Draw(t, "n")
		case "step":
			o.N = rapid.SampledFrom([]int{1, 3, 8, 9, 16, 17, 18, 40}).Draw(t, "n") // 17 steps are 119 seconds
		case "reset?":
			o.Op = "cleanup"
			if rapid.IntRange(0, 9).Draw(t, "reset") == 0 {
				o.Op = "reset"
			}
		}
		return o
	})
	c.Ops = rapid.SliceOfN(op, 1, 60).Draw(t, "ops")
	return c
}

type modelPeak struct {
	p        *dsp.Peak[float32, int]
	from, to int
	state    int // 0 new, 1 active, 2 inactive
	since    time.Time
}

func TestVerif_C14_PeaksTable(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 15000, Rule: "a put was refused or displaced another peak, and a peak was activated"}, genTable,
		func(k *verifkit.K, c tableCase) error {
			now := time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)
			table := rx.NewPeaksTable[float32, int](c.Size, rx.ClockFunc(func() time.Time { return now }))
			var model []*modelPeak // the peaks in the table
			var gone []*modelPeak
			conflicts, activated := 0, 0

			overlapping := func(from, to int) []*modelPeak {
				var result []*modelPeak
				for _, m := range model {
					if m.from <= to && from <= m.to {
						result = append(result, m)
					}
				}
				return result
			}
			remove := func(peaks []*modelPeak) {
				for _, r := range peaks {
					for i, m := range model {
						if m == r {
							model = append(model[:i:i], model[i+1:]...)
							gone = append(gone, m)
							break
						}
					}
				}
			}
			put := func(o tableOp) *modelPeak {
				p := &dsp.Peak[float32, int]{From: o.From, To: o.To, SignalBin: (o.From + o.To) / 2}
				m := &modelPeak{p: p, from: o.From, to: o.To, since: now}
				return m
			}
			for i, o := range c.Ops {
				switch o.Op {
				case "put":
					m := put(o)
					table.Put(m.p)
					others := overlapping(o.From, o.To)
					refused := false
					for _, x := range others {
						refused = refused || x.state != 0
					}
					if len(others) > 0 {
						conflicts++
					}
					if !refused {
						remove(others)
						model = append(model, m)
					} else {
						k.Label("put refused")
					}
				case "force":
					m := put(o)
					table.ForcePut(m.p)
					others := overlapping(o.From, o.To)
					if len(others) > 0 {
						conflicts++
						k.Label("forced put displaces")
					}
					remove(others)
					model = append(model, m)
				case "next", "next+":
					got := table.FindNext()
					var found *modelPeak
					any := false
					for _, m := range model {
						any = any || m.state == 0
						if m.p == got {
							found = m
						}
					}
					if got == nil && any {
						return fmt.Errorf("op %d: no peak is handed out, although there are new ones", i)
					}
					if got != nil && found == nil {
						return fmt.Errorf("op %d: a peak is handed out that is not in the table: %+v", i, *got)
					}
					if found != nil && found.state != 0 {
						return fmt.Errorf("op %d: a peak is handed out that is not new: %+v (state %d)", i, *got, found.state)
					}
					if found != nil && o.Op == "next+" {
						table.Activate(found.p)
						found.state = 1
						activated++
					}
				case "activate":
					if len(model) == 0 {
						continue
					}
					m := model[o.N%len(model)]
					table.Activate(m.p)
					m.state = 1
					activated++
				case "deactivate":
					if len(model) == 0 {
						continue
					}
					m := model[o.N%len(model)]
					table.Deactivate(m.p)
					if m.state == 1 {
						m.state = 2
						k.Label("deactivated")
					}
				case "stale":
					// a peak that is no longer in the table: no effect (unless its exact range is taken by another one)
					if len(gone) == 0 {
						continue
					}
					g := gone[o.N%len(gone)]
					same := false
					for _, m := range model {
						same = same || (m.to == g.to && m.from <= g.from)
					}
					if same {
						continue
					}
					table.Activate(g.p)
					table.Deactivate(g.p)
					k.Label("operation on a peak that is gone")
				case "cleanup":
					table.Cleanup()
					var old []*modelPeak
					for _, m := range model {
						if m.state != 1 && now.Sub(m.since) > 2*time.Minute {
							old = append(old, m)
						}
					}
					if len(old) > 0 {
						k.Label("cleaned up")
					}
					remove(old)
				case "step":
					now = now.Add(time.Duration(7*o.N) * time.Second)
				case "reset":
					table.Reset()
					gone = append(gone, model...)
					model = nil
				}
				for bin := -2; bin < c.Size+2; bin++ {
					var want *dsp.Peak[float32, int]
					for _, m := range model {
						if bin >= m.from && bin <= m.to {
							want = m.p
						}
					}
					if got := table.Get(bin); got != want {
						return fmt.Errorf("op %d (%s): bin %d belongs to %v, want %v", i, o.Op, bin, describe(got), describe(want))
					}
				}
			}
			// states left behind: every new peak can still be found, one after the other, nothing else
			rest := 0
			for _, m := range model {
				if m.state == 0 {
					rest++
				}
			}
			for ; rest >= 0; rest-- {
				got := table.FindNext()
				if (got != nil) != (rest > 0) {
					return fmt.Errorf("at the end: %d new peaks are left, handed out: %v", rest, describe(got))
				}
				if got != nil {
					table.Activate(got)
				}
			}
			if conflicts > 0 && activated > 0 {
				k.NonTrivial()
			}
			return nil
		})
}

func describe(p *dsp.Peak[float32, int]) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%d-%d", p.From, p.To)
}

// ---------------------------------------------------------------- C15

type poolOp struct {
	Op string `json:"op"` // bind, release, foreign, stale, reset
	N  []int  `json:"n,omitempty"`
}

type poolCase struct {
	Size   int      `json:"size"`
	Prefix string   `json:"prefix"`
	Ops    []poolOp `json:"ops"`
}

func genPool(t *rapid.T) poolCase {
	c := poolCase{
		Size:   rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 30)).Draw(t, "size"),
		Prefix: rapid.SampledFrom([]string{"rx", "L", "strain", "1"}).Draw(t, "prefix"),
	}
	op := rapid.Custom(func(t *rapid.T) poolOp {
		o := poolOp{Op: rapid.SampledFrom([]string{"bind", "bind", "bind", "bind", "release", "release", "foreign", "stale", "reset?"}).Draw(t, "op")}
		if o.Op == "reset?" {
			o.Op = "bind"
			if rapid.IntRange(0, 3).Draw(t, "reset") == 0 {
				o.Op = "reset"
			}
		}
		if o.Op == "release" || o.Op == "stale" {
			o.N = rapid.SliceOfN(rapid.IntRange(0, 40), 1, 4).Draw(t, "n")
		}
		return o
	})
	c.Ops = rapid.SliceOfN(op, 1, 50).Draw(t, "ops")
	return c
}

type nullReporter struct{}

func (nullReporter) ListenerActivated(string, int)                 {}
func (nullReporter) ListenerDeactivated(string, int)               {}
func (nullReporter) CallsignDecoded(string, string, int, int, int) {}
func (nullReporter) CallsignSpotted(string, string, int)           {}
func (nullReporter) SpotTimeout(string, string, int)               {}

type listener = rx.Listener[float32, int]

// the listeners are expensive: each one is created once per identity and purpose and kept
var (
	spareLock sync.Mutex
	spare     = map[string][]*listener{}
)

func TestVerif_C15_ListenerPool(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "the pool was exhausted once and a listener was released and bound again"}, genPool,
		func(k *verifkit.K, c poolCase) (err error) {
			var created []*listener
			factory := func(id string) *listener {
				spareLock.Lock()
				defer spareLock.Unlock()
				var l *listener
				if n := len(spare[id]); n > 0 {
					l = spare[id][n-1]
					spare[id] = spare[id][:n-1]
				} else {
					l = rx.NewListener[float32, int](id, nil, rx.WallClock, nullReporter{}, 48000, 512)
				}
				created = append(created, l)
				return l
			}
			var bound, stale []*listener
			defer func() {
				for _, l := range created {
					if l.Attached() {
						l.Detach()
					}
				}
				spareLock.Lock()
				defer spareLock.Unlock()
				for _, l := range created {
					spare[l.ID()] = append(spare[l.ID()], l)
				}
			}()
			pool := rx.NewListenerPool[float32, int](c.Size, c.Prefix, factory)
			foreign := factory(c.Prefix + "x")
			allowed := map[string]bool{}
			for i := 1; i <= c.Size; i++ {
				allowed[fmt.Sprintf("%s%d", c.Prefix, i)] = true
			}
			if pool.Size() != c.Size {
				return fmt.Errorf("size is %d, want %d", pool.Size(), c.Size)
			}
			exhausted, rebound := false, false
			for i, o := range c.Ops {
				switch o.Op {
				case "bind":
					before := len(created)
					l, ok := pool.BindNext()
					if ok != (len(bound) < c.Size) {
						return fmt.Errorf("op %d: bind with %d of %d bound returns %v", i, len(bound), c.Size, ok)
					}
					if !ok {
						exhausted = true
						if l != nil {
							return fmt.Errorf("op %d: refused bind returns a listener", i)
						}
						break
					}
					if len(created) != before+1 || created[before] != l {
						return fmt.Errorf("op %d: bind does not return a new listener", i)
					}
					rebound = rebound || len(stale) > 0
					peak := &dsp.Peak[float32, int]{From: i, To: i, SignalFrequency: 1000 * i}
					l.Attach(peak)
					bound = append(bound, l)
				case "release":
					var release []*listener
					for _, n := range o.N {
						if len(bound) > 0 {
							release = append(release, bound[n%len(bound)]) // may contain the same one twice
						}
					}
					for _, l := range release {
						if l.Attached() {
							l.Detach()
						}
					}
					pool.Release(release...)
					for _, l := range release {
						for j, b := range bound {
							if b == l {
								bound = append(bound[:j:j], bound[j+1:]...)
								stale = append(stale, l)
								break
							}
						}
					}
				case "foreign":
					pool.Release(foreign)
				case "stale":
					for _, n := range o.N {
						if len(stale) > 0 {
							pool.Release(stale[n%len(stale)])
							k.Label("release of a listener that was released before")
						}
					}
				case "reset":
					pool.Reset()
					for _, b := range bound {
						if b.Attached() {
							return fmt.Errorf("op %d: listener %s is still attached after a reset", i, b.ID())
						}
					}
					stale = append(stale, bound...)
					bound = nil
				}
				// compare
				seen := map[*listener]int{}
				pool.ForEach(func(l *listener) { seen[l]++ })
				ids := map[string]bool{}
				for _, b := range bound {
					if seen[b] != 1 {
						return fmt.Errorf("op %d (%s): bound listener %s is visited %d times", i, o.Op, b.ID(), seen[b])
					}
					if ids[b.ID()] || !allowed[b.ID()] {
						return fmt.Errorf("op %d (%s): listener id %s is handed out twice or not one of %s1 to %s%d", i, o.Op, b.ID(), c.Prefix, c.Prefix, c.Size)
					}
					ids[b.ID()] = true
				}
				if len(seen) != len(bound) {
					return fmt.Errorf("op %d (%s): %d listeners are visited, %d are bound", i, o.Op, len(seen), len(bound))
				}
				if pool.Available() != (len(bound) < c.Size) {
					return fmt.Errorf("op %d (%s): available is %v with %d of %d bound", i, o.Op, pool.Available(), len(bound), c.Size)
				}
				first, ok := pool.First()
				if ok != (len(bound) > 0) || (ok && seen[first] != 1) {
					return fmt.Errorf("op %d (%s): first is %v with %d bound", i, o.Op, ok, len(bound))
				}
			}
			if exhausted && rebound {
				k.NonTrivial()
			}
			return nil
		})
}

type idsCase struct {
	Size int   `json:"size"`
	Ops  []int `json:"ops"` // -1 pop, otherwise push back the n-th id taken
}

func TestVerif_C15_IDPool(t *testing.T) {
	verifkit.Run(t, verifkit.Opts{Checks: 3000, Rule: "an id was given back and the pool was empty once"},
		func(t *rapid.T) idsCase {
			return idsCase{
				Size: rapid.IntRange(0, 12).Draw(t, "size"),
				Ops:  rapid.SliceOfN(rapid.IntRange(-4, 5), 1, 50).Draw(t, "ops"),
			}
		},
		func(k *verifkit.K, c idsCase) error {
			pool := rx.NewIDPool(c.Size, "rx")
			free := map[string]bool{}
			for i := 1; i <= c.Size; i++ {
				free[fmt.Sprintf("rx%d", i)] = true
			}
			var taken []string
			empty, given := false, false
			for i, o := range c.Ops {
				if o < 0 {
					id, ok := pool.Pop()
					if ok != (len(free) > 0) {
						return fmt.Errorf("op %d: pop with %d free ids returns %v", i, len(free), ok)
					}
					if !ok {
						empty = true
						continue
					}
					if !free[id] {
						return fmt.Errorf("op %d: id %q is not free", i, id)
					}
					delete(free, id)
					taken = append(taken, id)
				} else if len(taken) > 0 {
					n := o % len(taken)
					pool.Push(taken[n])
					free[taken[n]] = true
					taken = append(taken[:n], taken[n+1:]...)
					given = true
				}
			}
			if empty && given {
				k.NonTrivial()
			}
			return nil
		})
}
