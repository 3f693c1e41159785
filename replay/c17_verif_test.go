package readline

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

func vFoldEq(a, b string, fold bool) bool {
	if fold {
		f := func(r rune) rune {
			if 'A' <= r && r <= 'Z' {
				return r + 32
			}
			return r
		}
		return strings.Map(f, a) == strings.Map(f, b)
	}
	return a == b
}

func TestReplayC17(t *testing.T) {
	over := vDeadline(40 * time.Second)
	rnd := vRand()
	alpha := []rune("abA世 ")
	for round := 0; round < 20000 && !over(); round++ {
		fold := rnd.Intn(2) == 0
		text := vRandText(rnd, alpha, 6)
		rb, w := vBuffer(text, rnd.Intn(len(text)+1), true, 20+rnd.Intn(60))
		cfg := &Config{HistoryLimit: 500, HistorySearchFold: fold}
		h := newOpHistory(cfg)
		h.historyVer = 1
		h.Push(nil)
		var lines [][]rune
		for k := rnd.Intn(6); k > 0; k-- {
			l := vRandText(rnd, alpha, 6)
			h.New(l)
		}
		for e := h.history.Front(); e != nil; e = e.Next() {
			lines = append(lines, e.Value.(*hisItem).Source)
		}
		h.Update(text, false)
		lines[len(lines)-1] = text
		cur := len(lines) - 1
		for k := rnd.Intn(len(lines)); k > 0 && h.Prev() != nil; k-- {
			cur--
		}
		if rnd.Intn(3) == 0 { // an edited entry
			e := vRandText(rnd, alpha, 6)
			h.Update(e, false)
			lines[cur] = e
		}
		shown := lines[cur]
		rb.SetWithIdx(rnd.Intn(len(shown)+1), shown)
		s := newOpSearch(w, rb, h, cfg, 80)
		hist := fmt.Sprintf("history %q at %d, cursor %d, fold %v: ", lines, cur, rb.idx, fold)
		begin, beginIdx, beginCur := rb.Runes(), rb.idx, h.current
		var pat []rune
		dir := rnd.Intn(2)
		check := func(what string, change bool, f func()) {
			start := rb.idx
			old, oldIdx, oldEl := rb.Runes(), rb.idx, h.current
			hist += what
			if x := vGuard(func() string { return hist }, f); x != nil {
				vFound(t, "%spanics: %v", hist, x)
			}
			if string(s.data) != string(pat) {
				vFound(t, "%sthe pattern is %q, want %q", hist, string(s.data), string(pat))
			}
			if len(pat) == 0 {
				return
			}
			want, wantIdx := -1, -1
			if dir == S_DIR_BCK {
				if change {
					start += len(pat)
				}
				for p := cur; p >= 0 && want < 0; p-- {
					tx := lines[p]
					if p == cur && len(tx) > start {
						tx = tx[:start]
					}
					for i := len(tx) - len(pat); i >= 0; i-- {
						if vFoldEq(string(tx[i:i+len(pat)]), string(pat), fold) {
							want, wantIdx = p, i
							break
						}
					}
				}
			} else {
				if change {
					start -= len(pat)
					if start < 0 {
						start = 0
					}
				}
				for p := cur; p < len(lines) && want < 0; p++ {
					tx, o := lines[p], 0
					if p == cur {
						if start > len(tx) {
							continue
						}
						tx, o = tx[start:], start
					}
					for i := 0; i+len(pat) <= len(tx); i++ {
						if vFoldEq(string(tx[i:i+len(pat)]), string(pat), fold) {
							want, wantIdx = p, i+o+len(pat)
							break
						}
					}
				}
			}
			if want < 0 {
				if s.state != S_STATE_FAILING || !vEq(rb.buf, old) || rb.idx != oldIdx || h.current != oldEl {
					vFound(t, "%sno entry matches, but state is %d, the line %q cursor %d (before: %q, %d), entry changed %v", hist, s.state, string(rb.buf), rb.idx, string(old), oldIdx, h.current != oldEl)
				}
				return
			}
			if s.state != S_STATE_FOUND || !vEq(rb.buf, lines[want]) || rb.idx != wantIdx {
				vFound(t, "%sstate %d, line %q cursor %d; the nearest match is in entry %d (%q) with cursor %d", hist, s.state, string(rb.buf), rb.idx, want, string(lines[want]), wantIdx)
			}
			cur = want
			i := 0
			for e := h.history.Front(); e != nil; e = e.Next() {
				if e == h.current && i != want {
					vFound(t, "%sthe current entry is %d, want %d", hist, i, want)
				}
				i++
			}
		}
		s.SearchMode(dir)
		hist += fmt.Sprintf("search direction %d; ", dir)
		for k := 1 + rnd.Intn(5); k > 0; k-- {
			switch rnd.Intn(6) {
			case 0:
				if len(pat) > 0 {
					pat = pat[:len(pat)-1]
					check("delete a pattern character; ", true, func() { s.SearchBackspace() })
				}
			case 1:
				dir = rnd.Intn(2)
				check(fmt.Sprintf("again in direction %d; ", dir), false, func() { s.SearchMode(dir) })
			default:
				r := alpha[rnd.Intn(len(alpha))]
				pat = vCat(pat, []rune{r})
				check(fmt.Sprintf("type %q; ", r), true, func() { s.SearchChar(r) })
			}
		}
		i := 0
		for e := h.history.Front(); e != nil; e = e.Next() {
			if !vEq(h.showItem(e.Value), lines[i]) {
				vFound(t, "%sentry %d became %q, want %q", hist, i, string(h.showItem(e.Value)), string(lines[i]))
			}
			i++
		}
		if x := vGuard(func() string { return hist + "cancel" }, func() { s.ExitSearchMode(true) }); x != nil {
			vFound(t, "%scancel panics: %v", hist, x)
		}
		if !vEq(rb.buf, begin) || rb.idx != beginIdx || h.current != beginCur || s.IsSearchMode() {
			vFound(t, "%scancel: line %q cursor %d, entry restored %v, want %q, %d", hist, string(rb.buf), rb.idx, h.current == beginCur, string(begin), beginIdx)
		}
	}
}
