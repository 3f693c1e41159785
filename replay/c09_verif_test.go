package readline

import (
	"bytes"
	"fmt"
	"testing"
	"time"
	"unicode"

	dep "github.com/chzyer/readline/runes"
)

func v09width(r rune, tab int) int {
	if r == '\t' && tab >= 0 {
		return tab
	}
	if unicode.IsOneOf([]*unicode.RangeTable{unicode.Mn, unicode.Me, unicode.Cc, unicode.Cf}, r) {
		return 0
	}
	if unicode.IsOneOf([]*unicode.RangeTable{unicode.Han, unicode.Hangul, unicode.Hiragana, unicode.Katakana}, r) {
		return 2
	}
	return 1
}

func v09filter(r []rune) []rune {
	var out []rune
	for i := 0; i < len(r); {
		if r[i] == 27 && i+1 < len(r) && r[i+1] == '[' {
			j := i + 2
			for j < len(r) && r[j] != 'm' {
				j++
			}
			if j < len(r) {
				i = j + 1
			} else {
				i++
			}
			continue
		}
		out = append(out, r[i])
		i++
	}
	return out
}

func TestReplayC09(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	one := func(r rune) {
		if g, w := runes.Width(r), v09width(r, TabWidth); g != w {
			vFound(t, "Width(%U) = %d, want %d", r, g, w)
		}
		if g, w := dep.Width(r), v09width(r, -1); g != w {
			vFound(t, "runes.Width(%U) = %d, want %d", r, g, w)
		}
	}
	for r := rune(-3); r < 0x30000; r++ {
		one(r)
	}
	text := func(a []rune) {
		name := ""
		p := vGuard(func() string { return fmt.Sprintf("%s on %q", name, string(a)) }, func() {
			w, dw := 0, 0
			for _, r := range a {
				w += v09width(r, TabWidth)
				dw += v09width(r, -1)
			}
			name = "WidthAll"
			if g := runes.WidthAll(a); g != w {
				vFound(t, "WidthAll(%q) = %d, want %d", string(a), g, w)
			}
			if g := dep.WidthAll(a); g != dw {
				vFound(t, "runes.WidthAll(%q) = %d, want %d", string(a), g, dw)
			}
			name = "ColorFilter"
			if g := runes.ColorFilter(a); !vEq(g, v09filter(a)) {
				vFound(t, "ColorFilter(%q) = %q", string(a), string(g))
			}
			if g := dep.ColorFilter(a); !vEq(g, v09filter(a)) {
				vFound(t, "runes.ColorFilter(%q) = %q", string(a), string(g))
			}
			name = "Backspace"
			if g := runes.Backspace(a); !bytes.Equal(g, bytes.Repeat([]byte{8}, w)) {
				vFound(t, "Backspace(%q) = %q", string(a), g)
			}
			if g := dep.Backspace(a); !bytes.Equal(g, bytes.Repeat([]byte{8}, dw)) {
				vFound(t, "runes.Backspace(%q) = %q", string(a), g)
			}
		})
		if p != nil {
			vFound(t, "%s panics on %q: %v", name, string(a), p)
		}
	}
	screen := func(prompt, a []rune, idx, width int) {
		desc := func() string {
			return fmt.Sprintf("prompt %q line %q cursor %d width %d", string(prompt), string(a), idx, width)
		}
		p := vGuard(desc, func() {
			var w bytes.Buffer
			rb := NewRuneBuffer(&w, string(prompt), vConfig(true), width)
			rb.buf, rb.idx = vCat(a), idx
			rb.output()
			rb.getBackspaceSequence()
			pl := runes.WidthAll(v09filter([]rune(string(prompt))))
			if g := rb.PromptLen(); g != pl {
				vFound(t, "PromptLen() = %d, want %d: %s", g, pl, desc())
			}
			total := pl + runes.WidthAll(a)
			want := 1
			if width > 0 {
				want = (total + width - 1) / width
			}
			if g := rb.LineCount(width); g != want {
				vFound(t, "LineCount(%d) = %d, want %d: %s", width, g, want, desc())
			}
			if g := LineCount(width, total); g != want {
				vFound(t, "LineCount(%d, %d) = %d, want %d", width, total, g, want)
			}
			rb.IdxLine(width)
			rb.CursorLineCount()
			rb.Refresh(nil)
			for x := 0; x <= len(a); x++ {
				if rb.CurrentWidth(x) != runes.WidthAll(a[:x]) {
					vFound(t, "CurrentWidth(%d) = %d: %s", x, rb.CurrentWidth(x), desc())
				}
			}
		})
		if p != nil {
			vFound(t, "panic %v: %s", p, desc())
		}
	}
	al := []rune{'a', 27, '[', 'm', '3'}
	for _, a := range vTexts(al, 5) {
		text(a)
	}
	wide := []rune{'a', '世', '\t', 0x301, 27, '[', 'm', '\n', 0xac00, 0x3042}
	for _, a := range vTexts([]rune{'a', '世', 0x301}, 3) {
		for _, pr := range [][]rune{nil, []rune("> "), []rune("ab\x1b[1mc"), []rune("a\x1b"), []rune("x世")} {
			for idx := 0; idx <= len(a); idx++ {
				for width := -2; width < 8; width++ {
					screen(pr, a, idx, width)
				}
			}
		}
	}
	for !over() {
		a := vRandText(rnd, wide, 12)
		text(a)
		screen(vRandText(rnd, wide, 8), a, rnd.Intn(len(a)+1), rnd.Intn(14)-2)
	}
}
