package readline

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

type vMenuCompleter struct {
	lines [][]rune
	off   int
}

func (v *vMenuCompleter) Do(line []rune, pos int) ([][]rune, int) { return v.lines, v.off }

func TestReplayC13(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	alpha := []rune("ab世\t ")
	keys := []rune{CharEnter, CharCtrlJ, CharLineStart, CharLineEnd, CharBackspace, CharTab, CharForward, CharBell, CharInterrupt, CharNext, CharBackward, CharPrev, 'x'}
	for round := 0; round < 200000 && !over(); round++ {
		text := vRandText(rnd, alpha, 6)
		width := rnd.Intn(40)
		rb, _ := vBuffer(text, rnd.Intn(len(text)+1), true, width)
		comp := &vMenuCompleter{}
		next := func() {
			comp.lines = [][]rune{}
			for k := rnd.Intn(7); k > 0; k-- {
				comp.lines = append(comp.lines, vRandText(rnd, alpha, 4))
			}
			comp.off = rnd.Intn(len(rb.buf) + 2)
		}
		op := &Operation{cfg: &Config{AutoComplete: comp, FuncGetWidth: func() int { return width }}, buf: rb}
		var out bytes.Buffer
		o := newOpCompleter(&out, op, width)
		op.opCompleter = o
		hist := fmt.Sprintf("width %d, line %q, cursor %d: ", width, string(text), rb.idx)
		desc := func() string { return hist }
		for step := rnd.Intn(12); step >= 0; step-- {
			line, idx := rb.Runes(), rb.idx
			same := func() bool { return vEq(line, rb.buf) && idx == rb.idx }
			inserted := func(s []rune) bool {
				return vEq(vCat(line[:idx], s, line[idx:]), rb.buf) && rb.idx == idx+len(s)
			}
			if !o.IsInCompleteSelectMode() {
				next()
				hist += fmt.Sprintf("Tab (completer offers %q, %d) ", comp.lines, comp.off)
				var res bool
				if x := vGuard(desc, func() { res = o.OnComplete() }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				n := rb.idx - idx
				if n < 0 || !inserted(append([]rune{}, rb.buf[idx:idx+n]...)) {
					vFound(t, "%sthe line is %q, cursor %d", hist, string(rb.buf), rb.idx)
				}
				if res != (width != 0) {
					vFound(t, "%sreturns %v", hist, res)
				}
			} else {
				key := keys[rnd.Intn(len(keys))]
				var cand []rune
				all := o.candidate
				if !o.IsInCompleteMode() || o.candidateChoise < 0 || o.candidateChoise >= len(all) {
					vFound(t, "%shighlights %d of %d candidates, menu %v", hist, o.candidateChoise, len(all), o.IsInCompleteMode())
				}
				cand = append(cand, all[o.candidateChoise]...)
				hist += fmt.Sprintf("key %d ", key)
				var res bool
				if x := vGuard(desc, func() { res = o.HandleCompleteSelect(key) }); x != nil {
					vFound(t, "%spanics: %v", hist, x)
				}
				left := !o.IsInCompleteMode() && !o.IsInCompleteSelectMode()
				switch key {
				case CharEnter, CharCtrlJ:
					if res || !left || !inserted(cand) {
						vFound(t, "%saccepting %q: line %q, cursor %d, left the menu: %v", hist, string(cand), string(rb.buf), rb.idx, left)
					}
				case CharBell, CharInterrupt:
					if res || !left || !same() {
						vFound(t, "%scancelling: line %q, cursor %d, left the menu: %v", hist, string(rb.buf), rb.idx, left)
					}
				case CharTab, CharForward:
					if !res || len(all) == 1 && !(left && inserted(all[0])) || len(all) > 1 && (!o.inSelectMode || !same()) {
						vFound(t, "%sselecting the next candidate: line %q, cursor %d, left the menu: %v", hist, string(rb.buf), rb.idx, left)
					}
				case CharLineStart, CharLineEnd, CharNext, CharPrev, CharBackward:
					if !res || !o.inSelectMode || !same() {
						vFound(t, "%sselecting: line %q, cursor %d", hist, string(rb.buf), rb.idx)
					}
				default:
					if res || o.inSelectMode || !same() {
						vFound(t, "%sleaving: line %q, cursor %d", hist, string(rb.buf), rb.idx)
					}
				}
			}
			if o.inSelectMode && (o.candidateChoise < 0 || o.candidateChoise >= len(o.candidate)) {
				vFound(t, "%shighlights %d of %d candidates", hist, o.candidateChoise, len(o.candidate))
			}
			switch rnd.Intn(6) {
			case 0:
				width = rnd.Intn(40)
				hist += fmt.Sprintf("width %d ", width)
				rb.OnWidthChange(width)
				o.OnWidthChange(width)
			case 1:
				if !o.inSelectMode {
					hist += "Home "
					rb.MoveToLineStart()
				}
			}
		}
	}
}
