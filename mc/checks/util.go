// Package checks holds one model-checking harness per property.
package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/mc/core"
)

// eachString enumerates all concatenations of minLen..maxLen atoms, shortest first.
func eachString(c *core.C, atoms []string, minLen, maxLen int, f func(s string)) {
	for n := minLen; n <= maxLen; n++ {
		var rec func(prefix string, left int)
		rec = func(prefix string, left int) {
			if c.Stopped() {
				return
			}
			if left == 0 {
				f(prefix)
				return
			}
			for _, a := range atoms {
				rec(prefix+a, left-1)
			}
		}
		rec("", n)
	}
}

// eachIdx enumerates all index sequences of length minLen..maxLen over [0,n).
// The slice is reused; f must copy what it keeps.
func eachIdx(c *core.C, n, minLen, maxLen int, f func(ix []int)) {
	for l := minLen; l <= maxLen; l++ {
		ix := make([]int, l)
		var rec func(i int)
		rec = func(i int) {
			if c.Stopped() {
				return
			}
			if i == l {
				f(ix)
				return
			}
			for k := 0; k < n; k++ {
				ix[i] = k
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func cp(ix []int) []int { return append([]int(nil), ix...) }

func rep(s string, n int) string { return strings.Repeat(s, n) }

// clip shortens long values in messages.
func clip(s string) string {
	if len(s) > 400 {
		return s[:300] + "..." + s[len(s)-60:] + fmt.Sprintf(" (%d bytes)", len(s))
	}
	return s
}

// pumps are sizes around the places where implementations tend to change behaviour.
var pumps = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129,
	255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193}

func pumpsUpTo(n int) (out []int) {
	for _, p := range pumps {
		if p <= n {
			out = append(out, p)
		}
	}
	return
}

// try runs f and returns what it panicked with.
func try(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

// repoDir is where the code under test lives.
func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
