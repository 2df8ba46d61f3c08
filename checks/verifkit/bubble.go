//go:build go1.25

package verifkit

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// A case that has not ended after this (virtual) time is blocked for ever.
const bubbleLimit = 72 * time.Hour

// Stacks returns the stacks of all goroutines with code of the repository on them (and not only that of the checks).
func Stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var own []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, line := range strings.Split(g, "\n") {
			if strings.HasPrefix(line, "github.com/ftl/sdrainer/") && !strings.Contains(line, "/internal/verif") {
				own = append(own, g)
				break
			}
		}
	}
	if len(own) > 12 {
		own = own[:12]
	}
	return strings.Join(own, "\n\n")
}

// Bubble runs f in a synctest bubble (virtual time, own goroutines). Panics of f become errors, and so does an f
// that does not end.
func Bubble(t *testing.T, f func() error) (err error) {
	defer func() {
		// synctest panics in the caller when goroutines of the bubble are left blocked for ever
		if r := recover(); r != nil && err == nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	// Blocked on a mutex, virtual time stands still: the process ends.
	finished := make(chan struct{})
	defer close(finished)
	go func() {
		select {
		case <-finished:
		case <-time.After(realLimit()):
			stacks := Stacks()
			if stacks == "" {
				fmt.Fprintf(os.Stderr, "VERIF-INCONCLUSIVE: no end and no goroutine in the repository\n")
			} else {
				fmt.Fprintf(os.Stderr, "\nVERIF-BLOCKED: goroutines in the repository that do not end:\n%s\n\nVERIF-BLOCKED-END\n", stacks)
			}
			os.Exit(9)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		done := make(chan error, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			done <- f()
		}()
		select {
		case err = <-done:
		case <-time.After(bubbleLimit):
			err = fmt.Errorf("blocked for ever:\n%s", Stacks())
		}
	})
	return err
}

func realLimit() time.Duration { return 150 * time.Second }
