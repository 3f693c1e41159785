package readline

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"
)

// vHist is the reference: recorded lines, the line being entered last, in-progress edits by position
type vHist struct {
	lines []string // recorded
	edit  map[int]string
	cur   int // len(lines) is the line being entered
}

func vHistText(h *opHistory) (recorded []string) {
	n := h.history.Len()
	i := 0
	for e := h.history.Front(); e != nil; e = e.Next() {
		i++
		if i < n {
			recorded = append(recorded, string(e.Value.(*hisItem).Source))
		}
	}
	return
}

func (v *vHist) text(i int) string {
	if t, ok := v.edit[i]; ok {
		return t
	}
	if i == len(v.lines) {
		return ""
	}
	return v.lines[i]
}

func vSame(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b) }

// vHistSearch drives a history with random operations against the reference; kind names the property looked at
func vHistSearch(t *testing.T, kind string) {
	over := vDeadline(30 * time.Second)
	rnd := vRand()
	words := []string{"", "a", "b", "ab", "ba", "aab", "abab", "bb", "世a", "a b", "A", "xyz"}
	dir := t.TempDir()
	for round := 0; round < 4000 && !over(); round++ {
		limit := []int{500, 500, 3, 2, 5, 1}[rnd.Intn(6)]
		h := newOpHistory(&Config{HistoryLimit: limit})
		file := ""
		if rnd.Intn(3) == 0 {
			file = fmt.Sprintf("%s/h%d", dir, round)
			f, err := os.OpenFile(file, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
			if err == nil {
				h.fd = f
			}
		}
		h.historyVer = 1
		v := &vHist{edit: map[int]string{}}
		h.Push(nil)
		hist := fmt.Sprintf("limit %d: ", limit)
		wrote := ""
		desc := func() string { return hist }
		for step := 0; step < 25; step++ {
			w := words[rnd.Intn(len(words))]
			switch op := rnd.Intn(8); op {
			case 0, 1: // previous
				hist += "prev; "
				var got []rune
				if x := vGuard(desc, func() { got = h.Prev() }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				if v.cur == 0 {
					if got != nil {
						vFound(t, "%sthere is no older entry but %q is returned", hist, string(got))
					}
					break
				}
				v.cur--
				if got == nil || string(got) != v.text(v.cur) {
					vFound(t, "%sshows %q (nil %v), want %q", hist, string(got), got == nil, v.text(v.cur))
				}
				for i := range got {
					got[i] = '!'
				}
			case 2: // next
				hist += "next; "
				var got []rune
				var ok bool
				if x := vGuard(desc, func() { got, ok = h.Next() }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				if ok != (v.cur < len(v.lines)) {
					vFound(t, "%sreports %v at position %d of %d", hist, ok, v.cur, len(v.lines))
				}
				if ok {
					v.cur++
					if string(got) != v.text(v.cur) {
						vFound(t, "%sshows %q, want %q", hist, string(got), v.text(v.cur))
					}
					for i := range got {
						got[i] = '!'
					}
				}
			case 3, 4: // edit the line shown
				if len(v.lines)+1 > limit { // shortening by an edit is looked at with the recorded lines only
					break
				}
				hist += fmt.Sprintf("edit %q; ", w)
				s := []rune(w)
				if x := vGuard(desc, func() { h.Update(s, false) }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				for i := range s {
					s[i] = '?'
				}
				v.edit[v.cur] = w
			case 5, 6: // submit
				off := rnd.Intn(8) == 0
				if off {
					h.Disable()
					hist += "disabled, "
				}
				hist += fmt.Sprintf("submit %q; ", w)
				s := []rune(w)
				if x := vGuard(desc, func() { h.New(s) }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				for i := range s {
					s[i] = '?'
				}
				if off {
					h.Enable()
					break
				}
				if w != "" && (len(v.lines) == 0 || v.lines[len(v.lines)-1] != w) {
					v.lines = append(v.lines, w)
					if file != "" {
						wrote += w + "\n"
					}
				}
				if n := len(v.lines) - limit; n > 0 {
					v.lines = append([]string{}, v.lines[n:]...)
				}
				v.edit = map[int]string{}
				v.cur = len(v.lines)
			case 7:
				hist += "revert; "
				h.Revert()
				v.edit = map[int]string{}
				v.cur = len(v.lines)
			}
			if got := vHistText(h); !vSame(got, v.lines) {
				vFound(t, "%srecorded lines are %q, want %q", hist, got, v.lines)
			}
			i := 0
			for e := h.history.Front(); e != nil; e = e.Next() {
				if got := string(h.showItem(e.Value)); got != v.text(i) {
					vFound(t, "%sentry %d shows %q, want %q", hist, i, got, v.text(i))
				}
				i++
			}
			if file != "" {
				if b, err := os.ReadFile(file); err != nil || string(b) != wrote {
					vFound(t, "%sthe file holds %q, want %q", hist, b, wrote)
				}
			}
		}
		if h.fd != nil {
			h.fd.Close()
			os.Remove(file)
		}
	}
}

