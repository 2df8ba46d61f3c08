package rxtext

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/hamradio/callsign"
	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/internal/verifkit"
	"github.com/ftl/sdrainer/rx"
)

type event struct {
	Kind   string // decoded, spotted, timeout
	Call   string
	Count  int
	Weight int
}

type recorder struct {
	mu     sync.Mutex
	events []event
}

func (r *recorder) add(e event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, e)
}
func (r *recorder) CallsignDecoded(call string, count int, weight int) {
	r.add(event{"decoded", call, count, weight})
}
func (r *recorder) CallsignSpotted(call string) { r.add(event{Kind: "spotted", Call: call}) }
func (r *recorder) SpotTimeout(call string)     { r.add(event{Kind: "timeout", Call: call}) }
func (r *recorder) len() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.events)
}
func (r *recorder) from(i int) []event {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]event(nil), r.events[i:]...)
}
func (r *recorder) decoded(from int) []string {
	var result []string
	for _, e := range r.from(from) {
		if e.Kind == "decoded" {
			result = append(result, e.Call)
		}
	}
	return result
}

// newProcessor is always called first outside of a bubble, so that shared resources of the HTTP client do not belong to a bubble
var warm sync.Once

func warmUp() {
	warm.Do(func() { rx.NewTextProcessor(nil, rx.WallClock, &recorder{}) })
}

const letters = "abcdefghijklmnopqrstuvwxyz"
const alnum = letters + "0123456789"

var containsCall = regexp.MustCompile(`([a-z]{1,2}|[0-9][a-z]{1,2})[0-9][a-z0-9]*[a-z]`)

func chars(set string, min, max int) *rapid.Generator[string] {
	return rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte(set)), min, max), func(b []byte) string { return string(b) })
}

// plainCall draws a callsign without prefix and suffix whose part after the digits is letters only.
func plainCall(t *rapid.T) string {
	var prefix string
	switch rapid.IntRange(0, 4).Draw(t, "form") {
	case 0:
		prefix = chars(letters, 1, 1).Draw(t, "prefix")
	case 1:
		prefix = chars("0123456789", 1, 1).Draw(t, "prefix0") + chars(letters, 1, 2).Draw(t, "prefix")
	default:
		prefix = chars(letters, 2, 2).Draw(t, "prefix")
	}
	digits := chars("0123456789", 1, 1).Draw(t, "digit")
	if rapid.IntRange(0, 9).Draw(t, "special") == 0 {
		digits = chars("0123456789", 1, 4).Draw(t, "digits")
	}
	return prefix + digits + chars(letters, 1, 3).Draw(t, "rest")
}

func canonical(word string) bool {
	if len(word) > 9 || strings.HasPrefix(word, "tu5nn") {
		return false
	}
	call, err := callsign.Parse(word)
	return err == nil && strings.EqualFold(call.String(), word)
}

func genCall(t *rapid.T) string {
	word := plainCall(t)
	if rapid.IntRange(0, 7).Draw(t, "digitrest") == 0 {
		word = word[:len(word)-1] + chars(alnum, 0, 2).Draw(t, "mixed") + word[len(word)-1:]
	}
	switch rapid.IntRange(0, 7).Draw(t, "parts") {
	case 0, 1:
		word += rapid.SampledFrom([]string{"/p", "/m", "/a", "/mm", "/am", "/9", "/0", "/qrp", "/ea8"}).Draw(t, "suffix")
	case 2:
		word = chars(alnum, 1, 3).Draw(t, "portable") + "/" + word
	case 3:
		word = chars(letters, 1, 2).Draw(t, "portable") + "/" + word + "/" + rapid.SampledFrom([]string{"p", "m", "4"}).Draw(t, "suffix")
	}
	if !canonical(word) {
		return "dl1abc"
	}
	return word
}

func genOther(t *rapid.T) string {
	var word string
	switch rapid.IntRange(0, 6).Draw(t, "other") {
	case 0:
		word = rapid.SampledFrom([]string{"cq", "de", "test", "pse", "k", "5nn", "599", "tu", "73", "=", "?", "qrl?", "e", "t", "+", "r", "dl", "dl1", "/p", "1/2", "a/b/c"}).Draw(t, "usual")
	case 1:
		word = chars(letters, 1, 30).Draw(t, "letters")
	case 2:
		word = chars("0123456789", 1, 25).Draw(t, "digits")
	case 3:
		word = chars(letters+"0123456789/?=.,+-", 1, 14).Draw(t, "any")
	case 4:
		word = chars(letters, 0, 6).Draw(t, "a") + "¦" + chars(letters, 0, 6).Draw(t, "b")
	case 5:
		word = chars("0123456789", 1, 3).Draw(t, "d") + chars(letters, 1, 8).Draw(t, "l")
	default:
		word = chars("et5n", 1, 8).Draw(t, "noise")
	}
	if containsCall.MatchString(word) || strings.HasPrefix(word, "tu5nn") {
		return "cq"
	}
	if rapid.IntRange(0, 15).Draw(t, "joined") == 0 {
		word = "tu5nn" + chars(alnum, 0, 3).Draw(t, "tail") // looks like a callsign
	}
	return word
}

// ---------------------------------------------------------------- C11

type wordItem struct {
	Word  string `json:"w"`
	Call  bool   `json:"call,omitempty"`
	Space string `json:"s"` // white space after the word
}

type textCase struct {
	Lead  string     `json:"lead"`
	Words []wordItem `json:"words"`
	Cuts  string     `json:"cuts"` // runes, one, pieces
	Piece []int      `json:"piece,omitempty"`
}

func genText(t *rapid.T) textCase {
	item := rapid.Custom(func(t *rapid.T) wordItem {
		i := wordItem{Space: rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "   ", "\n"}).Draw(t, "space")}
		if rapid.IntRange(0, 2).Draw(t, "call") > 0 {
			i.Call = true
			i.Word = genCall(t)
		} else {
			i.Word = genOther(t)
		}
		return i
	})
	c := textCase{
		Lead:  rapid.SampledFrom([]string{" ", "cq ", "e ", "\n"}).Draw(t, "lead"),
		Words: rapid.SliceOfN(item, 1, 20).Draw(t, "words"),
		Cuts:  rapid.SampledFrom([]string{"runes", "runes", "one", "pieces", "pieces"}).Draw(t, "cuts"),
	}
	if c.Cuts == "pieces" {
		c.Piece = rapid.SliceOfN(rapid.IntRange(1, 45), 1, 12).Draw(t, "piece")
	}
	return c
}

func (c textCase) text() string {
	s := c.Lead
	for _, w := range c.Words {
		s += w.Word + w.Space
	}
	return s
}

func pieces(text string, cuts string, piece []int) []string {
	var result []string
	switch cuts {
	case "runes":
		for _, r := range text {
			result = append(result, string(r))
		}
	case "one":
		result = []string{text}
	default:
		for i := 0; len(text) > 0; i++ {
			n := min(piece[i%len(piece)], len(text))
			result = append(result, text[:n])
			text = text[n:]
		}
	}
	return result
}

func TestVerif_C11_Callsigns(t *testing.T) {
	warmUp()
	verifkit.Run(t, verifkit.Opts{Checks: 5000, Rule: "text with at least two callsigns"}, genText,
		func(k *verifkit.K, c textCase) error {
			return verifkit.Bubble(t, func() error {
				r := &recorder{}
				out := new(bytes.Buffer)
				p := rx.NewTextProcessor(out, rx.WallClock, r)
				p.Start()
				defer p.Stop()
				for _, s := range pieces(c.text(), c.Cuts, c.Piece) {
					buf := []byte(s)
					n, err := p.Write(buf)
					if n != len(s) || err != nil {
						return fmt.Errorf("write of %q returns %d, %v", s, n, err)
					}
					for i := range buf {
						buf[i] = '#' // the caller may reuse its buffer
					}
				}
				synctest.Wait()
				if out.String() != c.text() {
					return fmt.Errorf("output is %q, want %q", out.String(), c.text())
				}
				var want []string
				for _, w := range c.Words {
					if w.Call {
						want = append(want, w.Word)
						if strings.Contains(w.Word, "/") {
							k.Label("callsign with prefix or suffix")
						}
					} else if len(w.Word) > 9 {
						k.Label("long word")
					}
				}
				got := r.decoded(0)
				if len(want) > 1 {
					k.NonTrivial()
				}
				k.Label("cut: %s", c.Cuts)
				for i := 0; i < len(want) || i < len(got); i++ {
					if i >= len(want) {
						return fmt.Errorf("text %q (%s): callsign %q is reported although it was not sent; reported %v, sent %v", c.text(), c.Cuts, got[i], got, want)
					}
					if i >= len(got) {
						return fmt.Errorf("text %q (%s): callsign %q is not reported; reported %v, sent %v", c.text(), c.Cuts, want[i], got, want)
					}
					if !strings.EqualFold(got[i], want[i]) || !upperBase(got[i]) {
						return fmt.Errorf("text %q (%s): callsign %q is reported as %q; reported %v, sent %v", c.text(), c.Cuts, want[i], got[i], got, want)
					}
				}
				return nil
			})
		})
}

// upperBase tells if the callsign is in upper case, except for a working condition like /p
func upperBase(call string) bool {
	for i, part := range strings.Split(call, "/") {
		if i > 0 && (part == "p" || part == "a" || part == "m" || part == "mm" || part == "am") {
			continue
		}
		if part != strings.ToUpper(part) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C12

type spotCase struct {
	Calls []string  `json:"calls"`
	Seq   []int     `json:"seq"`             // indexes into calls
	DXCC  *[]string `json:"dxcc"`            // known prefixes, nil: no database
	Exact []string  `json:"exact,omitempty"` // full callsigns in the prefix database
	SCP   *[]int    `json:"scp"`             // indexes of the known calls, nil: no database
}

func genSpots(t *rapid.T) spotCase {
	c := spotCase{Calls: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		w := genCall(t)
		return w
	}), 1, 5).Draw(t, "calls")}
	c.Seq = rapid.SliceOfN(rapid.IntRange(0, len(c.Calls)-1), 1, 30).Draw(t, "seq")
	if rapid.Bool().Draw(t, "dxcc") {
		known := []string{"XX"}
		for _, call := range c.Calls {
			switch rapid.IntRange(0, 5).Draw(t, "known") {
			case 0, 1, 2:
				n := rapid.IntRange(1, min(3, len(call))).Draw(t, "len")
				if p := strings.ToUpper(call[:n]); !strings.Contains(p, "/") {
					known = append(known, p)
				}
			case 3:
				if !strings.Contains(call, "/") {
					c.Exact = append(c.Exact, strings.ToUpper(call))
				}
			}
		}
		c.DXCC = &known
	}
	if rapid.Bool().Draw(t, "scp") {
		known := rapid.SliceOfNDistinct(rapid.IntRange(0, len(c.Calls)-1), 0, len(c.Calls), rapid.ID[int]).Draw(t, "known_calls")
		c.SCP = &known
	}
	return c
}

func dataDir(t testing.TB) string {
	return filepath.Join(os.Getenv("HOME"), ".config", "hamradio")
}

func writeDatabases(c spotCase) error {
	dir := dataDir(nil)
	os.MkdirAll(dir, 0o755)
	cty, scp := filepath.Join(dir, "cty.dat"), filepath.Join(dir, "MASTER.SCP")
	os.Remove(cty)
	os.Remove(scp)
	if c.DXCC != nil {
		list := append([]string(nil), *c.DXCC...)
		for _, e := range c.Exact {
			list = append(list, "="+e)
		}
		content := "Testland:                 14:  28:  EU:   41.90:   -12.43:    -1.0:  XX:\n    " + strings.Join(list, ",") + ";\n"
		if err := os.WriteFile(cty, []byte(content), 0o644); err != nil {
			return err
		}
	}
	if c.SCP != nil {
		content := "# supercheck\nXX9XXX\n"
		for _, i := range *c.SCP {
			content += strings.ToUpper(c.Calls[i]) + "\n"
		}
		if err := os.WriteFile(scp, []byte(content), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func TestVerif_C12_Spotting(t *testing.T) {
	warmUp()
	verifkit.Run(t, verifkit.Opts{Checks: 4000, Rule: "a callsign is spotted and another one has at least one point"}, genSpots,
		func(k *verifkit.K, c spotCase) error {
			if err := writeDatabases(c); err != nil {
				verifkit.Inconclusive("cannot write the databases: %v", err)
			}
			return verifkit.Bubble(t, func() error {
				r := &recorder{}
				p := rx.NewTextProcessor(nil, rx.WallClock, r)
				p.Start()
				defer p.Stop()
				p.Write([]byte("cq "))

				known := func(call string) bool {
					if c.DXCC == nil {
						return true
					}
					call = strings.ToUpper(call)
					for _, prefix := range *c.DXCC {
						if strings.HasPrefix(call, prefix) {
							return true
						}
					}
					for _, e := range c.Exact {
						if call == e {
							return true
						}
					}
					return false
				}
				counts := map[string]int{}
				weight := map[string]int{}
				if c.SCP != nil {
					for _, i := range *c.SCP {
						// the database is about the callsign as written; working conditions are not part of it
						weight[strings.ToUpper(c.Calls[i])] = 1
					}
				}
				last := ""
				for step, i := range c.Seq {
					call := c.Calls[i]
					from := r.len()
					for _, ch := range call + " " {
						p.Write([]byte(string(ch)))
					}
					synctest.Wait()
					got := r.from(from)
					fail := func(format string, args ...any) error {
						return fmt.Errorf("callsign %d (%s): %s; reports: %+v", step, call, fmt.Sprintf(format, args...), got)
					}
					up := strings.ToUpper(call)
					if !known(call) {
						if len(got) > 0 {
							return fail("it has no known prefix, but something is reported")
						}
						k.Label("unknown prefix")
						continue
					}
					counts[up]++
					w := weight[up]
					conditioned := strings.ContainsAny(lower(call), "/")
					if len(got) == 0 || got[0].Kind != "decoded" || !strings.EqualFold(got[0].Call, call) {
						return fail("it is not reported as decoded first")
					}
					if got[0].Count != counts[up] {
						return fail("count is %d, want %d", got[0].Count, counts[up])
					}
					if conditioned && w == 1 {
						w = got[0].Weight // entries with / are not part of the real database
						weight[up] = w
					}
					if got[0].Weight != w {
						return fail("weight is %d, want %d", got[0].Weight, w)
					}
					if w == 1 {
						k.Label("known to the supercheck database")
					}
					most := 0
					others := 0
					for x, n := range counts {
						most = max(most, n+weight[x])
						if n+weight[x] > 0 {
							others++
						}
					}
					rest := got[1:]
					if most < 3 {
						if len(rest) > 0 {
							return fail("no callsign has three points, but there is more than the decoding")
						}
						continue
					}
					if others > 1 {
						k.NonTrivial()
					}
					if len(rest) == 0 || rest[len(rest)-1].Kind != "spotted" {
						return fail("the best callsign has %d points, but nothing is spotted", most)
					}
					spotted := strings.ToUpper(rest[len(rest)-1].Call)
					if counts[spotted] == 0 || counts[spotted]+weight[spotted] != most {
						return fail("%s with %d points is spotted, the best has %d", spotted, counts[spotted]+weight[spotted], most)
					}
					rest = rest[:len(rest)-1]
					if last != "" && last != spotted {
						if len(rest) != 1 || rest[0].Kind != "timeout" || strings.ToUpper(rest[0].Call) != last {
							return fail("%s is spotted now, %s before: it has to be timed out", spotted, last)
						}
						k.Label("superseded")
						rest = rest[1:]
					}
					if len(rest) > 0 {
						return fail("there are more reports than expected")
					}
					last = spotted
					k.Label("spotted")
				}
				return nil
			})
		})
}

func lower(s string) string { return strings.ToLower(s) }

// ---------------------------------------------------------------- C13

type lifeOp struct {
	Op   string `json:"op"` // write, wait, check, restart, sync
	Text string `json:"text,omitempty"`
	MS   int    `json:"ms,omitempty"`
}

type lifeCase struct {
	Ops   []lifeOp `json:"ops"`
	Runes bool     `json:"runes"`
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Runes: rapid.Bool().Draw(t, "runes")}
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		w := plainCall(t)
		if !canonical(w) {
			return "k1a"
		}
		return w
	}), 1, 3).Draw(t, "pool")
	op := rapid.Custom(func(t *rapid.T) lifeOp {
		switch k := rapid.SampledFrom([]string{"write", "write", "write", "wait", "check", "restart", "sync", "late"}).Draw(t, "op"); k {
		case "write":
			s := ""
			n := rapid.IntRange(1, 4).Draw(t, "words")
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 3).Draw(t, "call") > 0 {
					s += rapid.SampledFrom(pool).Draw(t, "word")
				} else {
					s += rapid.SampledFrom([]string{"cq", "test", "k", "de", "pse"}).Draw(t, "other")
				}
				s += " "
			}
			// without the last blank, or even cut in the word
			s = s[:len(s)-rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "cut")%len(s)]
			if rapid.Bool().Draw(t, "blank") {
				s = " " + s
			}
			return lifeOp{Op: "write", Text: s}
		case "wait":
			return lifeOp{Op: "wait", MS: rapid.SampledFrom([]int{1, 500, 1000, 2500, 4999, 5000, 5001, 7000}).Draw(t, "ms")}
		case "late":
			return lifeOp{Op: "check", MS: rapid.SampledFrom([]int{4990, 5001, 5500, 9000}).Draw(t, "late")}
		default:
			return lifeOp{Op: k}
		}
	})
	c.Ops = rapid.SliceOfN(op, 1, 25).Draw(t, "ops")
	return c
}

var tailCall = regexp.MustCompile(`^([a-z]{1,2}|[0-9][a-z]{1,2})[0-9][a-z0-9]*[a-z]$`)

func TestVerif_C13_Lifecycle(t *testing.T) {
	warmUp()
	verifkit.Run(t, verifkit.Opts{Checks: 6000, Rule: "a callsign at the end of the text is reported by the timeout, or a restart follows reported callsigns"}, genLife,
		func(k *verifkit.K, c lifeCase) error {
			return verifkit.Bubble(t, func() error {
				r := &recorder{}
				p := rx.NewTextProcessor(nil, rx.WallClock, r)
				p.Restart()
				defer p.Stop()
				from := 0         // reports before this one belong to the time before the restart
				var want []string // decoded callsigns since the restart
				word := ""        // the word at the end of the text
				inWord := false   // it is preceded by white space
				consumed := false // it was reported already
				lastWrite := time.Now()
				synced := true
				pending := 0 // operations given without a pause: the queue of the processor holds 10
				restarted := false
				for i, o := range c.Ops {
					switch o.Op {
					case "write":
						list := []string{o.Text}
						if c.Runes {
							list = pieces(o.Text, "runes", nil)
						}
						for _, s := range list {
							p.Write([]byte(s))
						}
						pending += len(list)
						synced = false
						lastWrite = time.Now()
						for _, ch := range o.Text {
							if len(word) > 9 || (ch == ' ' && containsCall.MatchString(word) && !tailCall.MatchString(word)) {
								return nil // no claim about words that merely contain a callsign
							}
							if ch == ' ' {
								if inWord && !consumed && tailCall.MatchString(word) && len(word) <= 9 {
									want = append(want, word)
								}
								word, inWord, consumed = "", true, false
							} else {
								word += string(ch)
							}
						}
					case "wait":
						time.Sleep(time.Duration(o.MS) * time.Millisecond)
						synced, pending = true, 0
					case "sync":
						synctest.Wait()
						synced, pending = true, 0
					case "check":
						if o.MS > 0 {
							time.Sleep(time.Duration(o.MS) * time.Millisecond)
							synced = true
						}
						if containsCall.MatchString(word) && !tailCall.MatchString(word) {
							return nil
						}
						late := time.Since(lastWrite) > 5*time.Second
						p.CheckWriteTimeout()
						if late && inWord && !consumed && tailCall.MatchString(word) {
							want = append(want, word)
							consumed = true
							k.NonTrivial()
							k.Label("reported by the timeout")
						} else if !late && inWord && !consumed && tailCall.MatchString(word) {
							k.Label("too early for the timeout")
						}
						synced = false
					case "restart":
						if !synced {
							k.Label("restart with work pending")
						}
						if len(want) > 0 {
							k.NonTrivial()
							restarted = true
						}
						p.Restart()
						from = r.len()
						want, word, inWord, consumed = nil, "", false, false
						lastWrite = time.Now()
						synced, pending = true, 0
					}
					if len(word) > 9 {
						return nil
					}
					if !synced && i < len(c.Ops)-1 && c.Ops[i+1].Op == "restart" {
						continue // leave it pending
					}
					if o.Op == "write" || o.Op == "check" {
						synctest.Wait()
						synced, pending = true, 0
					}
					got := r.decoded(from)
					if len(got) != len(want) {
						return fmt.Errorf("op %d (%s): decoded since the restart: %v, want %v", i, o.Op, got, want)
					}
					for j := range want {
						if !strings.EqualFold(want[j], got[j]) {
							return fmt.Errorf("op %d (%s): decoded since the restart: %v, want %v", i, o.Op, got, want)
						}
					}
					// counts and spots since the restart are those of a new processor
					counts := map[string]int{}
					for _, e := range r.from(from) {
						switch e.Kind {
						case "decoded":
							counts[e.Call]++
							if e.Count != counts[e.Call] {
								return fmt.Errorf("op %d (%s): callsign %s has count %d, it was decoded %d times since the restart", i, o.Op, e.Call, e.Count, counts[e.Call])
							}
						case "spotted":
							if counts[e.Call] < 3 {
								return fmt.Errorf("op %d (%s): callsign %s is spotted, it was decoded %d times since the restart", i, o.Op, e.Call, counts[e.Call])
							}
							if restarted {
								k.Label("spotted after a restart")
							}
						case "timeout":
							if counts[e.Call] < 3 {
								return fmt.Errorf("op %d (%s): spot of %s timed out, it was not spotted since the restart", i, o.Op, e.Call)
							}
						}
					}
				}
				return nil
			})
		})
}
