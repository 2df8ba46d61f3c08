// Package verifkit is the shared harness of the generated-input checks in /verif.
// It is compiled into a build of /repo through 'go test -overlay' and is never part of /repo.
//
// A check is a generator (a rapid generator of a JSON-able case), and an oracle (a function that
// runs the real code on the case and returns an error when the property is broken).
// rapid drives and shrinks; the smallest failing case is written as the replay file.
package verifkit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// K collects what is known about one evaluated case.
type K struct {
	mu         sync.Mutex
	labels     map[string]int
	nontrivial bool
}

// NonTrivial marks the current case as non-trivial by the rule given to Run.
func (k *K) NonTrivial() {
	k.mu.Lock()
	k.nontrivial = true
	k.mu.Unlock()
}

// Label counts a class the current case belongs to.
func (k *K) Label(format string, args ...any) {
	k.mu.Lock()
	k.labels[fmt.Sprintf(format, args...)]++
	k.mu.Unlock()
}

// Opts of one generated check.
type Opts struct {
	Checks int                                     // number of cases in the quick tier
	Rule   string                                  // what makes a case non-trivial
	Known  func(caseJSON []byte, err error) string // name of a listed known finding, or ""
}

type failure struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type stats struct {
	Test        string            `json:"test"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"distinct_nontrivial"`
	Planned     int               `json:"planned"`
	Skipped     int               `json:"skipped_by_time_budget"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Hashes      []uint64          `json:"hashes"`
	Known       map[string]int    `json:"known"`
	WallS       float64           `json:"wall_s"`
}

func outDir() string { return os.Getenv("VERIF_OUT") }

func envFloat(name string, def float64) float64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return v
		}
	}
	return def
}

// Thorough tells if this is a run of the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
}

// Run drives one generated check.
func Run[C any](t *testing.T, opts Opts, gen func(*rapid.T) C, check func(*K, C) error) {
	t.Helper()
	name := t.Name()
	guarded := func(k *K, c C) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return check(k, c)
	}

	if replay := os.Getenv("VERIF_REPLAY"); replay != "" {
		raw, err := os.ReadFile(replay)
		if err != nil {
			t.Fatalf("VERIF-HARNESS: cannot read replay: %v", err)
		}
		var f failure
		if err := json.Unmarshal(raw, &f); err != nil {
			t.Fatalf("VERIF-HARNESS: cannot parse replay: %v", err)
		}
		if f.Test != name {
			t.Skip("other test")
		}
		var c C
		if err := json.Unmarshal(f.Case, &c); err != nil {
			t.Fatalf("VERIF-HARNESS: cannot parse replayed case: %v", err)
		}
		k := &K{labels: map[string]int{}}
		if err := guarded(k, c); err != nil {
			t.Fatalf("VERIF-FAIL: %v", err)
		}
		fmt.Printf("VERIF-REPLAY-PASS %s %v nontrivial=%v\n", name, k.labels, k.nontrivial)
		return
	}

	start := time.Now()
	budget := time.Duration(envFloat("VERIF_BUDGET", 60) * float64(time.Second))
	planned := int(math.Ceil(float64(opts.Checks) * envFloat("VERIF_SCALE", 1)))
	if planned < 1 {
		planned = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(planned))
	flag.Set("rapid.nofailfile", "true")

	st := &stats{Test: name, Rule: opts.Rule, Planned: planned, Labels: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	var best []byte
	var bestErr string
	failed := false

	curFile := filepath.Join(outDir(), "cur-"+strings.ReplaceAll(name, "/", "_")+".json")
	defer func() {
		st.WallS = time.Since(start).Seconds()
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		st.Nontrivial = len(seen)
		writeJSON(filepath.Join(outDir(), "stats-"+strings.ReplaceAll(name, "/", "_")+".json"), st)
		if best != nil {
			writeJSON(filepath.Join(outDir(), "fail-"+strings.ReplaceAll(name, "/", "_")+".json"),
				failure{Property: os.Getenv("VERIF_PROPERTY"), Test: name, Error: bestErr, Case: best})
		}
		os.Remove(curFile)
	}()

	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			st.Skipped++
			return
		}
		c := gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("VERIF-HARNESS: case cannot be marshalled: %v", err))
		}
		writeJSON(curFile, failure{Property: os.Getenv("VERIF_PROPERTY"), Test: name, Error: "process ended while running this case", Case: raw})
		k := &K{labels: map[string]int{}}
		err = guarded(k, c)
		if err != nil && opts.Known != nil {
			if known := opts.Known(raw, err); known != "" {
				st.Known[known]++
				err = nil
			}
		}
		if !failed {
			st.Evaluations++
			for l := range k.labels {
				st.Labels[l]++
			}
			if k.nontrivial {
				h := fnv.New64a()
				h.Write(raw)
				sum := h.Sum64()
				if !seen[sum] {
					seen[sum] = true
					if len(st.Samples) < 4 && len(raw) < 1500 {
						st.Samples = append(st.Samples, raw)
					} else if len(st.Samples) < 1 {
						s, _ := json.Marshal(string(raw[:1500]) + "... (truncated)")
						st.Samples = append(st.Samples, s)
					}
				}
			}
		}
		if err != nil {
			failed = true
			if best == nil || len(raw) <= len(best) {
				best = raw
				bestErr = err.Error()
			}
			rt.Fatalf("VERIF-FAIL: %v", err)
		}
	})
}

func writeJSON(path string, v any) {
	raw, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintf(os.Stderr, "VERIF-HARNESS: %v\n", err)
		return
	}
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		fmt.Fprintf(os.Stderr, "VERIF-HARNESS: %v\n", err)
	}
}

// F is a float64 that survives JSON also when it is not finite.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return []byte(strconv.Quote(strconv.FormatFloat(v, 'g', -1, 64))), nil
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(raw []byte) error {
	s := strings.Trim(string(raw), `"`)
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// Rand is a small deterministic generator (splitmix64) for bulk signal data whose seed is drawn by the case generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Intn(n int) int { return int(r.Uint64() % uint64(n)) }
func (r *Rand) Norm() float64 {
	u := r.Float()
	for u == 0 {
		u = r.Float()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.Float())
}

// Returns waits for f to return. When it does not, it returns an error only if goroutine dumps taken
// apart show the call blocked (not running, not runnable) inside the code of the repository;
// otherwise the run is ended as inconclusive, because slowness is no violation.
func Returns(what string, f func()) error {
	done := make(chan any, 1)
	started := make(chan string, 1)
	go func() {
		started <- goid()
		defer func() { done <- recover() }()
		f()
	}()
	id := <-started
	wait := time.Duration(envFloat("VERIF_HANG_S", 12) * float64(time.Second))
	select {
	case r := <-done:
		if r != nil {
			return fmt.Errorf("panic in %s: %v", what, r)
		}
		return nil
	case <-time.After(wait):
	}
	var last string
	for i := 0; i < 4; i++ {
		stack := stackOf(id)
		if stack == "" { // it has ended
			<-done
			return nil
		}
		if !blockedInRepo(stack) || (i > 0 && frames(stack) != frames(last)) {
			select {
			case <-done:
				return nil
			case <-time.After(60 * time.Second):
			}
			fmt.Printf("VERIF-INCONCLUSIVE: %s did not return in time\n%s\n", what, stack)
			os.Exit(77)
		}
		last = stack
		select {
		case <-done:
			return nil
		case <-time.After(1 * time.Second):
		}
	}
	return fmt.Errorf("%s never returns: blocked for %v in\n%s", what, wait, last)
}

func goid() string {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	return strings.Fields(string(buf))[1]
}

func stackOf(id string) string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.HasPrefix(g, "goroutine "+id+" ") {
			return g
		}
	}
	return ""
}

func frames(stack string) string {
	_, rest, _ := strings.Cut(stack, "\n")
	return rest
}

func blockedInRepo(stack string) bool {
	head, rest, _ := strings.Cut(stack, "\n")
	blocked := false
	for _, s := range []string{"[chan send", "[chan receive", "[select", "[semacquire", "[sync.", "[IO wait"} {
		if strings.Contains(head, s) {
			blocked = true
		}
	}
	return blocked && strings.Contains(rest, "github.com/ftl/sdrainer/") && hasRepoFrame(rest)
}

func hasRepoFrame(stack string) bool {
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "github.com/ftl/sdrainer/") && !strings.Contains(line, "/internal/verif") {
			return true
		}
	}
	return false
}

// GoroutinesIn counts the goroutines whose stack contains a frame of the repository matching one of the given fragments.
func GoroutinesIn(fragments ...string) []string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var result []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, f := range fragments {
			if strings.Contains(g, f) {
				result = append(result, g)
				break
			}
		}
	}
	return result
}

// Inconclusive ends the process with the exit code that the runner maps to "no answer".
func Inconclusive(format string, args ...any) {
	fmt.Printf("VERIF-INCONCLUSIVE: "+format+"\n", args...)
	os.Exit(77)
}
