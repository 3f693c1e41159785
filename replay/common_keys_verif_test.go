package readline

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"
)

type keyAnswer struct {
	err  bool
	eof  bool
	text []rune
	of   error
}

type keyListener struct{ seen func(line []rune, pos int, key rune) ([]rune, int, bool) }

func (l keyListener) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	return l.seen(line, pos, key)
}

var keyOps = map[rune]string{
	CharLineStart: "MoveToLineStart", CharLineEnd: "MoveToLineEnd", CharBackward: "MoveBackward", CharForward: "MoveForward",
	MetaBackward: "MoveToPrevWord", MetaForward: "MoveToNextWord", CharKill: "Kill", CharCtrlU: "KillFront", CharCtrlY: "Yank",
	CharCtrlW: "BackEscapeWord", MetaBackspace: "BackEscapeWord", MetaDelete: "DeleteWord", CharTranspose: "Transpose",
	CharBackspace: "Backspace", CharCtrlH: "Backspace",
}

// vKeys types random keys into a key loop and compares the line after each key, and each answer, with the reference
// model; prop selects what is compared (C20: answers, C21: the line)
func vKeys(t *testing.T, prop string) {
	r := vRand()
	over := vDeadline(40 * time.Second)
	plain := []rune("ab .-éZ世!?")
	ctl := []rune{CharLineStart, CharLineEnd, CharBackward, CharForward, MetaBackward, MetaForward, CharKill, CharCtrlU, CharCtrlY,
		CharCtrlW, MetaBackspace, MetaDelete, CharTranspose, MetaTranspose, CharBackspace, CharCtrlH, CharDelete, CharCtrlL, CharBell, CharTab}
	fin := []rune{CharEnter, CharCtrlJ, CharInterrupt, CharDelete, 0}
	for !over() {
		var keys []rune
		for n := 1 + r.Intn(14); n > 0; n-- {
			switch x := r.Intn(10); {
			case x < 5:
				keys = append(keys, plain[r.Intn(len(plain))])
			case x < 9:
				keys = append(keys, ctl[r.Intn(len(ctl))])
			default:
				keys = append(keys, fin[r.Intn(4)])
			}
		}
		keys = append(keys, fin[r.Intn(len(fin))])
		var out bytes.Buffer
		cfg := vConfig(r.Intn(2) == 0)
		cfg.Stdout, cfg.AutoComplete = &out, &TabCompleter{}
		cfg.FuncMakeRaw, cfg.FuncExitRaw = func() error { return nil }, func() error { return nil }
		cfg.FuncOnWidthChanged, cfg.FuncGetWidth = func(func()) {}, func() int { return 80 }
		cfg.UniqueEditLine = r.Intn(2) == 0
		cfg.InterruptPrompt = []string{"", "^C", "é\xff^"}[r.Intn(3)]
		cfg.EOFPrompt = []string{"", "^D"}[r.Intn(2)]
		cfg.HistoryLimit = 5
		cfg.DisableAutoSaveHistory = r.Intn(2) == 0
		desc := func() string {
			return fmt.Sprintf("keys %q, UniqueEditLine %v, InterruptPrompt %q, DisableAutoSaveHistory %v", keys, cfg.UniqueEditLine, cfg.InterruptPrompt, cfg.DisableAutoSaveHistory)
		}
		m := &lineModel{}
		var want []keyAnswer
		var before []lineModel
		eof := false
		lsn := r.Intn(2) == 0
		for i, k := range keys {
			if k == CharTranspose && len(m.text) < 2 { // where the cursor goes is not specified
				k, keys[i] = CharCtrlL, CharCtrlL
			}
			before = append(before, lineModel{text: vCat(m.text), idx: m.idx})
			switch {
			case k == 'Z':
				continue // rejected by the filter
			case k == '-' || k == CharBell:
				k = CharLineStart
			}
			if k == 0 && len(m.text) == 0 {
				want = append(want, keyAnswer{err: true, eof: true})
				eof = true
				break
			}
			if op := keyOps[k]; op != "" {
				m.apply(lineOp{name: op})
			} else {
				switch k {
				case 0, CharEnter, CharCtrlJ:
					want = append(want, keyAnswer{text: m.text})
					m.text, m.idx = nil, 0
				case CharInterrupt:
					want = append(want, keyAnswer{err: true, text: m.text})
					m.text, m.idx = nil, 0
				case CharDelete:
					if len(m.text) > 0 {
						m.apply(lineOp{name: "Delete"})
					} else {
						want = append(want, keyAnswer{err: true, eof: true})
					}
				case CharTab:
					m.apply(lineOp{name: "WriteRune", ch: '\t'})
				case MetaTranspose, CharBell, CharCtrlL:
				default:
					m.apply(lineOp{name: "WriteRune", ch: k})
				}
			}
			if lsn && k == '!' {
				m.text, m.idx = vCat([]rune("<"), m.text, []rune(">")), 1
			} else if lsn && k == '?' {
				m.text, m.idx = nil, 0
			}
		}
		before = append(before, lineModel{text: vCat(m.text), idx: m.idx})

		tm := &Terminal{cfg: cfg, kickChan: make(chan struct{}, 1), outchan: make(chan rune), stopChan: make(chan struct{}, 1), sizeChan: make(chan string, 1)}
		op := &Operation{t: tm, buf: NewRuneBuffer(&out, "> ", cfg, 80), outchan: make(chan []rune), errchan: make(chan error, 1)}
		op.w = op.buf.w
		op.SetConfig(cfg)
		op.opVim = newVimMode(op)
		op.opCompleter = newOpCompleter(op.buf.w, op, 80)
		op.opPassword = newOpPassword(op)
		var lines []lineModel
		cfg.FuncFilterInputRune = func(k rune) (rune, bool) {
			lines = append(lines, lineModel{text: vCat(op.buf.buf), idx: op.buf.idx})
			if k == '-' || k == CharBell {
				k = CharLineStart
			}
			return k, k != 'Z'
		}
		if lsn {
			cfg.Listener = keyListener{func(line []rune, pos int, k rune) ([]rune, int, bool) {
				if k == '?' {
					return nil, 0, true
				} else if k != '!' {
					return []rune("not used"), 3, false
				}
				return vCat([]rune("<"), line, []rune(">")), 1, true
			}}
		}
		var got []keyAnswer
		stop := make(chan bool)
		go func() {
			for {
				select {
				case l := <-op.outchan:
					got = append(got, keyAnswer{text: vCat(l)})
				case e := <-op.errchan:
					a := keyAnswer{err: true, eof: e == io.EOF, of: e}
					if i, ok := e.(*InterruptError); ok {
						a.text = vCat(i.Line)
					}
					got = append(got, a)
				case <-stop:
					stop <- true
					return
				}
			}
		}()
		p := vGuard(desc, func() {
			fin := make(chan interface{}, 1)
			go func() {
				defer func() { fin <- recover() }()
				op.ioloop()
			}()
			for _, k := range append(vCat(keys), 'Z') {
				select {
				case tm.outchan <- k:
				case x := <-fin:
					if x != nil {
						panic(x)
					}
					return
				}
			}
			if !eof {
				select { // the rejected key has been looked at once the next one is accepted
				case tm.outchan <- 'Z':
				case x := <-fin:
					if x != nil {
						panic(x)
					}
				}
			}
		})
		time.Sleep(time.Millisecond)
		stop <- true
		<-stop
		if p != nil {
			if prop == "C21" {
				vFound(t, "the key loop panics with %v: %s", p, desc())
			}
			continue
		}
		if prop == "C21" {
			for i, b := range before {
				if i < len(lines) && (!vEq(lines[i].text, b.text) || lines[i].idx != b.idx) {
					vFound(t, "after the keys %q the line is %q with the cursor at %d, expected %q at %d (%s)", keys[:i], string(lines[i].text), lines[i].idx, string(b.text), b.idx, desc())
				}
			}
			continue
		}
		if len(got) != len(want) {
			vFound(t, "%d answers, expected %d: %s", len(got), len(want), desc())
		}
		// lines and errors come over two channels: each has its own order
		order := func(as []keyAnswer) (out []keyAnswer) {
			for _, e := range []bool{false, true} {
				for _, a := range as {
					if a.err == e {
						out = append(out, a)
					}
				}
			}
			return out
		}
		got, want = order(got), order(want)
		for i, w := range want {
			g := got[i]
			if _, intr := g.of.(*InterruptError); g.err != w.err || g.eof != w.eof || !vEq(g.text, w.text) || g.err && !g.eof && !intr {
				vFound(t, "answer %d is %q (%v), expected %q (error %v, end of input %v): %s", i, string(g.text), g.of, string(w.text), w.err, w.eof, desc())
			}
		}
	}
}
