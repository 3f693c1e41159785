package readline

// Shared parts of the replay harnesses: these search for a concrete input on which the code under /repo breaks a
// property, after the verifier has rejected an obligation. They never decide a property.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

func vSeed() int64 {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return 1
}

func vRand() *rand.Rand { return rand.New(rand.NewSource(vSeed())) }

func vFound(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING-INPUT: "+format+"\n", args...)
	t.FailNow()
}

// vDeadline ends the search quietly after d
func vDeadline(d time.Duration) func() bool {
	end := time.Now().Add(d)
	return func() bool { return time.Now().After(end) }
}

// vGuard runs f; a panic or a call that does not return in 5 s is reported
func vGuard(desc func() string, f func()) (panicked interface{}) {
	tm := time.AfterFunc(5*time.Second, func() {
		fmt.Printf("FAILING-INPUT: does not return within 5 s: %s\n", desc())
		os.Exit(1)
	})
	defer tm.Stop()
	defer func() {
		if r := recover(); r != nil {
			panicked = r
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return nil
}

func vEq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vCat(xs ...[]rune) []rune {
	var r []rune
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// vTexts: all texts over the alphabet up to length n
func vTexts(alpha []rune, n int) [][]rune {
	out := [][]rune{{}}
	last := out
	for i := 0; i < n; i++ {
		var next [][]rune
		for _, p := range last {
			for _, a := range alpha {
				next = append(next, vCat(p, []rune{a}))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func vRandText(r *rand.Rand, alpha []rune, n int) []rune {
	k := r.Intn(n + 1)
	out := make([]rune, k)
	for i := range out {
		out[i] = alpha[r.Intn(len(alpha))]
	}
	return out
}

type vNullPainter struct{}

func (vNullPainter) Paint(line []rune, pos int) []rune { return line }

func vConfig(interactive bool) *Config {
	return &Config{FuncIsTerminal: func() bool { return interactive }, Painter: vNullPainter{}}
}

func vBuffer(text []rune, idx int, interactive bool, width int) (*RuneBuffer, *bytes.Buffer) {
	var w bytes.Buffer
	rb := NewRuneBuffer(&w, "> ", vConfig(interactive), width)
	rb.SetWithIdx(idx, text)
	return rb, &w
}
