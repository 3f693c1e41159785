package readline

import (
	"fmt"
	"testing"
	"time"

	dep "github.com/chzyer/readline/runes"
)

func TestReplayC08(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	check := func(in [][]rune) {
		for v, f := range []func([][]rune) ([]rune, int){runes.Aggregate, dep.Aggregate} {
			cand := make([][]rune, len(in))
			shown := ""
			for i := range in {
				b := make([]rune, len(in[i]), len(in[i])+rnd.Intn(3))
				copy(b, in[i])
				cand[i] = b
				shown += fmt.Sprintf(" %q", string(in[i]))
			}
			orig := append([][]rune{}, cand...)
			n := len(in[0])
			for _, c := range in {
				k := 0
				for k < n && k < len(c) && c[k] == in[0][k] {
					k++
				}
				n = k
			}
			var same []rune
			var size int
			name := []string{"Aggregate", "runes.Aggregate"}[v]
			if p := vGuard(func() string { return name + shown }, func() { same, size = f(cand) }); p != nil {
				vFound(t, "%s panics on%s: %v", name, shown, p)
			}
			if size != n || !vEq(same, in[0][:n]) {
				vFound(t, "%s of%s = %q, %d, want %d", name, shown, string(same), size, n)
			}
			for i := range in {
				if !vEq(cand[i], in[i][n:]) {
					vFound(t, "%s of%s leaves candidate %d as %q", name, shown, i, string(cand[i]))
				}
				if !vEq(orig[i], in[i]) {
					vFound(t, "%s of%s changes the data of candidate %d to %q", name, shown, i, string(orig[i]))
				}
			}
		}
	}
	ts := vTexts([]rune{'a', 'b'}, 4)
	for _, a := range ts {
		check([][]rune{a})
		for _, b := range ts {
			check([][]rune{a, b})
			for _, c := range ts[:15] {
				check([][]rune{a, b, c})
				check([][]rune{a, c, b})
			}
		}
	}
	for !over() {
		n := 1 + rnd.Intn(6)
		p := vRandText(rnd, []rune{'a', 'b', '世', -1}, 6)
		var in [][]rune
		for i := 0; i < n; i++ {
			in = append(in, vCat(p, vRandText(rnd, []rune{'a', 'b'}, 4)))
		}
		check(in)
	}
}
