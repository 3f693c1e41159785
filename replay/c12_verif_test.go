package readline

import (
	"fmt"
	"testing"
	"time"
)

type vSegCompleter struct {
	segs  [][]rune
	n     int
	calls int
	cands [][]rune
}

func (v *vSegCompleter) DoSegment(segs [][]rune, n int) [][]rune {
	v.calls++
	v.segs, v.n = nil, n
	for _, s := range segs {
		v.segs = append(v.segs, append([]rune{}, s...))
	}
	return v.cands
}

func vSplit(line []rune) [][]rune {
	out := [][]rune{{}}
	for _, r := range line {
		if r == ' ' {
			out = append(out, []rune{})
		} else {
			out[len(out)-1] = append(out[len(out)-1], r)
		}
	}
	return out
}

func vShow(ls [][]rune) string {
	s := "["
	for _, l := range ls {
		s += fmt.Sprintf("%q,", string(l))
	}
	return s + "]"
}

func vEqs(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func TestReplayC12(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	check := func(line []rune, pos int, cands [][]rune) {
		want := vSplit(line[:pos])
		last := want[len(want)-1]
		desc := func() string {
			return fmt.Sprintf("segment completion of %q at %d with candidates %s", string(line), pos, vShow(cands))
		}
		given := append([]rune(nil), line...)
		spare := make([][]rune, len(cands))
		for i, c := range cands {
			b := append(append(make([]rune, 0, len(c)+2), c...), 'S', 'T')
			spare[i] = b
		}
		offered := make([][]rune, len(cands))
		for i := range cands {
			offered[i] = spare[i][:len(cands[i])]
		}
		var segs [][]rune
		var off int
		if p := vGuard(desc, func() { segs, off = SplitSegment(given, pos) }); p != nil {
			vFound(t, "SplitSegment(%q, %d) panics: %v", string(line), pos, p)
		}
		if !vEqs(segs, want) || off != len(last) {
			vFound(t, "SplitSegment(%q, %d) = %s, %d, want %s, %d", string(line), pos, vShow(segs), off, vShow(want), len(last))
		}
		v := &vSegCompleter{cands: offered}
		var res [][]rune
		if p := vGuard(desc, func() { res, off = SegmentAutoComplete(v).Do(given, pos) }); p != nil {
			vFound(t, "%s panics: %v", desc(), p)
		}
		if v.calls != 1 || !vEqs(v.segs, want) || v.n != len(last) {
			vFound(t, "%s gives the application %s, %d", desc(), vShow(v.segs), v.n)
		}
		var exp [][]rune
		for _, c := range cands {
			if len(c) >= len(last) && vEq(c[:len(last)], last) {
				exp = append(exp, vCat(c[len(last):], []rune{' '}))
			}
		}
		if !vEqs(res, exp) || off != len(last) {
			vFound(t, "%s offers %s, %d, want %s, %d", desc(), vShow(res), off, vShow(exp), len(last))
		}
		if !vEq(given, line) {
			vFound(t, "%s changes the line to %q", desc(), string(given))
		}
		for i := range cands {
			if !vEq(spare[i], vCat(cands[i], []rune("ST"))) {
				vFound(t, "%s changes the data of candidate %d to %q", desc(), i, string(spare[i]))
			}
		}
	}
	ts := vTexts([]rune{'a', ' '}, 5)
	for _, l := range ts {
		for pos := 0; pos <= len(l); pos++ {
			check(l, pos, [][]rune{[]rune("a"), []rune("aab"), []rune("b"), {}, []rune("aa a")})
		}
	}
	for i := 0; i < 200000 && !over(); i++ {
		l := vRandText(rnd, []rune("ab  c"), 40)
		pos := rnd.Intn(len(l) + 1)
		s := vSplit(l[:pos])
		last := s[len(s)-1]
		var c [][]rune
		for k := rnd.Intn(12); k > 0; k-- {
			x := vRandText(rnd, []rune("abc "), 6)
			if rnd.Intn(2) == 0 {
				x = vCat(last, x)
			}
			c = append(c, x)
		}
		check(l, pos, c)
	}
}
