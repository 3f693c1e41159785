package readline

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

// vimModel: the documented vim commands over the reference line model
func vimModel(m *lineModel, mode *int, r, next rune) (t rune, reads int, bell bool) {
	do := func(n string) { m.apply(lineOp{name: n}) }
	op2 := func(whole rune) {
		switch next {
		case whole:
			do("Erase")
		case 'w':
			do("DeleteWord")
		case 'h':
			do("Backspace")
		case 'l':
			do("Delete")
		}
	}
	if *mode != VIM_NORMAL {
		if r == CharEsc {
			*mode = VIM_NORMAL
			return 0, 0, false
		}
		return r, 0, false
	}
	switch r {
	case CharEnter, CharInterrupt:
		*mode = VIM_INSERT
		return r, 0, false
	case 'h':
		return CharBackward, 0, false
	case 'j':
		return CharNext, 0, false
	case 'k':
		return CharPrev, 0, false
	case 'l':
		return CharForward, 0, false
	case '0', '^':
		m.idx = 0
	case '$':
		m.idx = len(m.text)
	case 'x':
		do("Delete")
		if m.idx >= len(m.text)-0 && m.idx > 0 {
			m.idx--
		} else if m.idx == len(m.text)-0 && m.idx > 0 {
			m.idx--
		}
	case 'r':
		reads = 1
		m.apply(lineOp{name: "Replace", ch: next})
	case 'd':
		reads = 1
		op2('d')
	case 'p':
		do("Yank")
	case 'b', 'B':
		do("MoveToPrevWord")
	case 'w', 'W':
		do("MoveToNextWord")
	case 'e', 'E':
		do("MoveToEndWord")
	case 'f', 'F', 't', 'T':
		reads = 1
		if next != CharEsc {
			m.apply(lineOp{name: "MoveTo", ch: next, b1: r == 't' || r == 'T', b2: r == 'F' || r == 'T'})
		}
	case 'i':
		*mode = VIM_INSERT
	case 'I':
		m.idx, *mode = 0, VIM_INSERT
	case 'a':
		do("MoveForward")
		*mode = VIM_INSERT
	case 'A':
		m.idx, *mode = len(m.text), VIM_INSERT
	case 's':
		do("Delete")
		*mode = VIM_INSERT
	case 'S':
		do("Erase")
		*mode = VIM_INSERT
	case 'c':
		reads = 1
		op2('c')
		*mode = VIM_INSERT
	default:
		return 0, 0, true
	}
	return 0, reads, false
}

func TestReplayC19(t *testing.T) {
	r := vRand()
	over := vDeadline(40 * time.Second)
	keys := []rune("hjkl0^$xrdpbBwWeEfFtTiIaAsScqzZ1-~ %\n\r\x1b\x03\x01\x05\x08\x09\x7fé世")
	nexts := []rune("dwhlcxab .\x1b世$0")
	texts := vTexts([]rune{'a', ' ', 'b'}, 4)
	texts = append(texts, []rune("foo bar.baz qux"), []rune("世 界a "))
	check := func(text []rune, idx int, kill []rune, seq []rune) {
		var out bytes.Buffer
		cfg := vConfig(true)
		cfg.Stdout = &out
		cfg.VimMode = true
		rb, _ := vBuffer(text, idx, true, 80)
		rb.lastKill = vCat(kill)
		op := &Operation{t: &Terminal{cfg: cfg}, buf: rb, cfg: cfg}
		v := newVimMode(op)
		if v.vimMode != VIM_INSERT {
			vFound(t, "vim mode does not start in insert mode")
		}
		if len(seq)%2 == 0 || seq[0] != CharEsc {
			v.vimMode = VIM_NORMAL
		}
		m := &lineModel{text: vCat(text), idx: idx, kill: vCat(kill)}
		mode := v.vimMode
		for i := 0; i < len(seq); i++ {
			k := seq[i]
			next := nexts[(i+len(seq)+int(k))%len(nexts)]
			if i+1 < len(seq) {
				next = seq[i+1]
			}
			reads := 0
			out.Reset()
			before := fmt.Sprintf("mode %d line %q cursor %d key %q next %q", mode, string(m.text), m.idx, k, next)
			wt, wr, wb := vimModel(m, &mode, k, next)
			var got rune
			if p := vGuard(func() string { return before }, func() {
				got = v.HandleVim(k, func() rune { reads++; return next })
			}); p != nil {
				vFound(t, "panic %v: %s", p, before)
			}
			if got != wt || reads != wr || v.vimMode != mode || rb.idx != m.idx || !vEq(rb.buf, m.text) || !vEq(rb.lastKill, m.kill) || (out.String() == "\a") != wb {
				vFound(t, "%s: returned %q (expected %q), read %d keys (%d), mode %d (%d), line %q cursor %d (%q cursor %d), killed %q (%q), wrote %q (bell %v)", before, got, wt, reads, wr, v.vimMode, mode, string(rb.buf), rb.idx, string(m.text), m.idx, string(rb.lastKill), string(m.kill), out.String(), wb)
			}
			i += wr
		}
	}
	for _, text := range texts {
		for idx := 0; idx <= len(text); idx++ {
			for _, k := range keys {
				for _, n := range nexts {
					check(text, idx, []rune("kk"), []rune{k, n})
				}
				check(text, idx, []rune("kk"), []rune{CharEsc, k, 'w'})
			}
			if over() {
				return
			}
		}
	}
	for !over() {
		text := vRandText(r, []rune("ab .世"), 12)
		check(text, r.Intn(len(text)+1), vRandText(r, []rune("xyz"), 3), append([]rune{keys[r.Intn(len(keys))]}, vRandText(r, keys, 8)...))
	}
	for _, on := range []bool{true, false} {
		for _, was := range []bool{true, false} {
			cfg := vConfig(true)
			cfg.VimMode = was
			v := newVimMode(&Operation{cfg: cfg})
			if cfg.VimMode != was {
				vFound(t, "starting vim mode changes the setting %v", was)
			}
			v.vimMode = VIM_NORMAL
			v.SetVimMode(on)
			if v.IsEnableVimMode() != on || v.vimMode != VIM_INSERT {
				vFound(t, "SetVimMode(%v) from %v: %v, mode %d", on, was, v.IsEnableVimMode(), v.vimMode)
			}
		}
	}
}
