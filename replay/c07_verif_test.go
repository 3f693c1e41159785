package readline

import (
	"testing"
	"time"
	"unicode"

	dep "github.com/chzyer/readline/runes"
)

func v07lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

func v07feq(a, b rune, fold bool) bool { return a == b || fold && v07lower(a) == v07lower(b) }

func v07at(r, sub []rune, i int, fold bool) bool {
	if i < 0 || i+len(sub) > len(r) {
		return false
	}
	for k := range sub {
		if !v07feq(r[i+k], sub[k], fold) {
			return false
		}
	}
	return true
}

func v07idx(r, sub []rune, fold, back bool) int {
	if back {
		for i := len(r) - len(sub); i >= 0; i-- {
			if v07at(r, sub, i, fold) {
				return i
			}
		}
		return -1
	}
	if len(r) == 0 {
		return -2 // not pinned down
	}
	for i := 0; i+len(sub) <= len(r); i++ {
		if v07at(r, sub, i, fold) {
			return i
		}
	}
	return -1
}

func TestReplayC07(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	check := func(a, b []rune) {
		ca, cb := vCat(a), vCat(b)
		var name string
		p := vGuard(func() string { return name }, func() {
			b1 := func(n string, got, want bool) {
				if got != want {
					vFound(t, "%s(%q, %q) = %v", n, string(a), string(b), got)
				}
			}
			i1 := func(n string, got, want int) {
				if want != -2 && got != want {
					vFound(t, "%s(%q, %q) = %d, want %d", n, string(a), string(b), got, want)
				}
			}
			eq := len(a) == len(b) && v07at(a, b, 0, false)
			eqf := len(a) == len(b) && v07at(a, b, 0, true)
			name = "Equal"
			b1("Equal", runes.Equal(a, b), eq)
			b1("runes.Equal", dep.Equal(a, b), eq)
			name = "EqualFold"
			b1("EqualFold", runes.EqualFold(a, b), eqf)
			name = "HasPrefix"
			b1("HasPrefix", runes.HasPrefix(a, b), v07at(a, b, 0, false))
			b1("runes.HasPrefix", dep.HasPrefix(a, b), v07at(a, b, 0, false))
			name = "HasPrefixFold"
			b1("HasPrefixFold", runes.HasPrefixFold(a, b), v07at(a, b, 0, true))
			name = "IndexAll"
			i1("IndexAll", runes.IndexAll(a, b), v07idx(a, b, false, false))
			i1("runes.IndexAll", dep.IndexAll(a, b), v07idx(a, b, false, false))
			name = "IndexAllBck"
			i1("IndexAllBck", runes.IndexAllBck(a, b), v07idx(a, b, false, true))
			i1("runes.IndexAllBck", dep.IndexAllBck(a, b), v07idx(a, b, false, true))
			for _, f := range []bool{false, true} {
				name = "IndexAllEx"
				i1("IndexAllEx", runes.IndexAllEx(a, b, f), v07idx(a, b, f, false))
				name = "IndexAllBckEx"
				i1("IndexAllBckEx", runes.IndexAllBckEx(a, b, f), v07idx(a, b, f, true))
			}
			name = "Index"
			for _, c := range b {
				w := -1
				for i := range a {
					if a[i] == c {
						w = i
						break
					}
				}
				i1("Index", runes.Index(c, a), w)
				i1("runes.Index", dep.Index(c, a), w)
			}
			name = "TrimSpaceLeft"
			k := 0
			for k < len(a) && unicode.IsSpace(a[k]) {
				k++
			}
			if g := runes.TrimSpaceLeft(a); !vEq(g, a[k:]) {
				vFound(t, "TrimSpaceLeft(%q) = %q", string(a), string(g))
			}
			name = "Copy"
			if g := runes.Copy(a); !vEq(g, a) || len(a) > 0 && &g[0] == &a[0] {
				vFound(t, "Copy(%q) = %q", string(a), string(g))
			}
			for _, x := range a {
				for _, y := range b {
					if runes.EqualRune(x, y, false) != (x == y) || runes.EqualRune(x, y, true) != v07feq(x, y, true) || runes.EqualRuneFold(x, y) != v07feq(x, y, true) {
						vFound(t, "EqualRune(%q, %q)", x, y)
					}
				}
			}
		})
		if p != nil {
			vFound(t, "%s panics on (%q, %q): %v", name, string(a), string(b), p)
		}
		if !vEq(a, ca) || !vEq(b, cb) {
			vFound(t, "arguments (%q, %q) modified to (%q, %q)", string(ca), string(cb), string(a), string(b))
		}
	}
	ts := vTexts([]rune{'a', 'A', ' ', '['}, 3)
	ts = append(ts, vTexts([]rune{'a', 'b'}, 5)...)
	for _, a := range ts {
		for _, b := range ts {
			check(a, b)
		}
	}
	special := []rune{0, -1, 1, 8, 9, 13, 31, 32, '@', 'A', 'Z', '[', '`', 'a', 'z', '{', 133, 160, 0x130, 0x131, 0x212a, 0x2003, 0x3000, 0x10ffff, 1 << 30, -1 << 31}
	for _, x := range special {
		for _, y := range special {
			check([]rune{x}, []rune{y})
			check([]rune{x, y}, []rune{y})
			check([]rune{x, y, x}, []rune{y, x})
		}
	}
	for !over() {
		al := special[:2+rnd.Intn(len(special)-2)]
		if rnd.Intn(2) == 0 {
			al = []rune{'a', 'A', 'b'}
		}
		check(vRandText(rnd, al, 12), vRandText(rnd, al, 4))
		// long texts with a pattern that occurs, possibly with one rune changed
		long := vRandText(rnd, al, 80)
		i := rnd.Intn(len(long) + 1)
		j := i + rnd.Intn(len(long)+1-i)
		sub := vCat(long[i:j])
		check(long, sub)
		if len(sub) > 0 {
			sub[rnd.Intn(len(sub))] = al[rnd.Intn(len(al))]
			check(long, sub)
		}
	}
}
