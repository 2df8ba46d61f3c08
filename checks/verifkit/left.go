package verifkit

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// NothingLeft waits until no goroutine has the pattern on its stack anymore.
func NothingLeft(pattern string, limit time.Duration) error {
	expression := regexp.MustCompile(pattern)
	buf := make([]byte, 4<<20)
	for end := time.Now().Add(limit); ; time.Sleep(5 * time.Millisecond) {
		left := ""
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if expression.MatchString(g) {
				left = g
			}
		}
		if left == "" {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("a goroutine is left:\n%s", left)
		}
	}
}
