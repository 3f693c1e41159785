package readline

import (
	"fmt"
	"math/rand"
	"testing"
	"time"
)

// a reference model of the line buffer
type lineModel struct {
	text []rune
	idx  int
	kill []rune
	bck  []rune
	bidx int
	hasB bool
}

func mWB(r rune) bool {
	return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
}

func (m *lineModel) wstart(i int) bool { return !mWB(m.text[i]) && mWB(m.text[i-1]) }

func (m *lineModel) prevWord() int {
	for i := m.idx - 1; i > 0; i-- {
		if m.wstart(i) {
			return i
		}
	}
	return 0
}

func (m *lineModel) cut(a, b int) { m.text = vCat(m.text[:a], m.text[b:]) }

type lineOp struct {
	name string
	prop string // the property of the effect
	rs   []rune
	ch   rune
	n    int
	b1   bool
	b2   bool
}

func (o lineOp) String() string {
	switch o.name {
	case "WriteRunes", "WriteString", "Set":
		return fmt.Sprintf("%s(%q)", o.name, string(o.rs))
	case "SetWithIdx":
		return fmt.Sprintf("%s(%d, %q)", o.name, o.n, string(o.rs))
	case "WriteRune", "Replace":
		return fmt.Sprintf("%s(%q)", o.name, o.ch)
	case "MoveTo":
		return fmt.Sprintf("MoveTo(%q, %v, %v)", o.ch, o.b1, o.b2)
	}
	return o.name + "()"
}

// apply performs the operation on the model; the result is the expected boolean result (or nil)
func (m *lineModel) apply(o lineOp) (res interface{}) {
	n := len(m.text)
	kill := func(a, b int) {
		if a < b {
			m.kill = vCat(m.text[a:b])
		}
		m.cut(a, b)
	}
	ins := func(rs []rune) {
		m.text = vCat(m.text[:m.idx], rs, m.text[m.idx:])
		m.idx += len(rs)
	}
	switch o.name {
	case "WriteRunes":
		ins(o.rs)
	case "WriteString":
		ins([]rune(string(o.rs)))
	case "WriteRune":
		ins([]rune{o.ch})
	case "Replace":
		if m.idx < n {
			m.text = vCat(m.text)
			m.text[m.idx] = o.ch
		}
	case "Set":
		m.text, m.idx = vCat(o.rs), len(o.rs)
	case "SetWithIdx":
		m.text, m.idx = vCat(o.rs), o.n
	case "Reset":
		m.text, m.idx = nil, 0
	case "Delete":
		if m.idx == n {
			return false
		}
		kill(m.idx, m.idx+1)
		return true
	case "Backspace":
		if m.idx > 0 {
			m.cut(m.idx-1, m.idx)
			m.idx--
		}
	case "Kill":
		kill(m.idx, n)
	case "KillFront":
		kill(0, m.idx)
		m.idx = 0
	case "Erase":
		kill(0, n)
		m.idx = 0
	case "DeleteWord":
		i := m.idx
		for i < n && mWB(m.text[i]) {
			i++
		}
		end := n
		for j := i + 1; j < n; j++ {
			if m.wstart(j) {
				end = j - 1
				break
			}
		}
		kill(m.idx, end)
	case "BackEscapeWord":
		if m.idx > 0 {
			p := m.prevWord()
			kill(p, m.idx)
			m.idx = p
		}
	case "Yank":
		ins(vCat(m.kill))
	case "MoveToLineStart":
		m.idx = 0
	case "MoveToLineEnd":
		m.idx = n
	case "MoveBackward":
		if m.idx > 0 {
			m.idx--
		}
	case "MoveForward":
		if m.idx < n {
			m.idx++
		}
	case "MoveToPrevWord":
		if m.idx == 0 {
			return false
		}
		m.idx = m.prevWord()
		return true
	case "MoveToNextWord":
		for i := m.idx + 1; i < n; i++ {
			if m.wstart(i) {
				m.idx = i
				return
			}
		}
		m.idx = n
	case "MoveToEndWord":
		if m.idx == n {
			return
		}
		for i := m.idx + 1; i+1 < n; i++ {
			if !mWB(m.text[i]) && mWB(m.text[i+1]) {
				m.idx = i
				return
			}
		}
		m.idx = n
	case "MoveTo":
		if o.b2 {
			for i := m.idx - 1; i >= 0; i-- {
				if m.text[i] == o.ch {
					m.idx = i
					if o.b1 {
						m.idx++
					}
					return true
				}
			}
			return false
		}
		for i := m.idx + 1; i < n; i++ {
			if m.text[i] == o.ch {
				m.idx = i
				if o.b1 {
					m.idx--
				}
				return true
			}
		}
		return false
	case "Transpose":
		if n < 2 {
			return "any"
		}
		i := m.idx
		if i == 0 {
			i = 1
		} else if i >= n {
			i = n - 1
		}
		m.text = vCat(m.text)
		m.text[i], m.text[i-1] = m.text[i-1], m.text[i]
		m.idx = i + 1
	case "Backup":
		m.bck, m.bidx, m.hasB = vCat(m.text), m.idx, true
	case "Restore":
		if m.hasB {
			m.text, m.idx = vCat(m.bck), m.bidx
		}
	}
	return nil
}

func lineDo(rb *RuneBuffer, o lineOp, ret *[]rune) interface{} {
	switch o.name {
	case "WriteRunes":
		rb.WriteRunes(o.rs)
	case "WriteString":
		rb.WriteString(string(o.rs))
	case "WriteRune":
		rb.WriteRune(o.ch)
	case "Replace":
		rb.Replace(o.ch)
	case "Set":
		rb.Set(o.rs)
	case "SetWithIdx":
		rb.SetWithIdx(o.n, o.rs)
	case "Reset":
		*ret = rb.Reset()
	case "Delete":
		return rb.Delete()
	case "Backspace":
		rb.Backspace()
	case "Kill":
		rb.Kill()
	case "KillFront":
		rb.KillFront()
	case "Erase":
		rb.Erase()
	case "DeleteWord":
		rb.DeleteWord()
	case "BackEscapeWord":
		rb.BackEscapeWord()
	case "Yank":
		rb.Yank()
	case "MoveToLineStart":
		rb.MoveToLineStart()
	case "MoveToLineEnd":
		rb.MoveToLineEnd()
	case "MoveBackward":
		rb.MoveBackward()
	case "MoveForward":
		rb.MoveForward()
	case "MoveToPrevWord":
		return rb.MoveToPrevWord()
	case "MoveToNextWord":
		rb.MoveToNextWord()
	case "MoveToEndWord":
		rb.MoveToEndWord()
	case "MoveTo":
		return rb.MoveTo(o.ch, o.b1, o.b2)
	case "Transpose":
		rb.Transpose()
	case "Backup":
		rb.Backup()
	case "Restore":
		rb.Restore()
	}
	return nil
}

var lineOpNames = []struct{ name, prop string }{
	{"WriteRunes", "C02"}, {"WriteString", "C02"}, {"WriteRune", "C02"}, {"Replace", "C02"}, {"Set", "C02"},
	{"SetWithIdx", "C02"}, {"Reset", "C02"}, {"Delete", "C03"}, {"Backspace", "C03"}, {"Kill", "C03"},
	{"KillFront", "C03"}, {"Erase", "C03"}, {"DeleteWord", "C03"}, {"BackEscapeWord", "C03"}, {"Yank", "C04"},
	{"MoveToLineStart", "C05"}, {"MoveToLineEnd", "C05"}, {"MoveBackward", "C05"}, {"MoveForward", "C05"},
	{"MoveToPrevWord", "C05"}, {"MoveToNextWord", "C05"}, {"MoveToEndWord", "C05"}, {"MoveTo", "C05"},
	{"Transpose", "C05"}, {"Backup", "C06"}, {"Restore", "C06"},
}

// a slice of somebody else that must never change
type lineWatch struct {
	what string
	s    []rune
	copy []rune
}

type lineRun struct {
	t       *testing.T
	prop    string
	rb      *RuneBuffer
	m       *lineModel
	hist    []string
	watches []lineWatch
	bad     bool // model and code have drifted apart in a way not asked for
}

func (l *lineRun) watch(what string, s []rune) {
	f := s[:cap(s)]
	l.watches = append(l.watches, lineWatch{what, f, vCat(f)})
}

func (l *lineRun) found(prop, format string, args ...interface{}) {
	l.bad = true
	if prop == l.prop {
		vFound(l.t, "%s after %v", fmt.Sprintf(format, args...), l.hist)
	}
}

func (l *lineRun) step(o lineOp) {
	rb, m := l.rb, l.m
	l.hist = append(l.hist, o.String())
	before := vCat(m.text)
	bi := m.idx
	kb := vCat(m.kill)
	want := m.apply(o)
	var got interface{}
	var ret []rune
	switch o.name {
	case "WriteRunes", "Set", "SetWithIdx":
		l.watch("argument of "+o.String(), o.rs)
	}
	if p := vGuard(func() string { return fmt.Sprint(l.hist) }, func() { got = lineDo(rb, o, &ret) }); p != nil {
		l.found("C01", "panic %v on %q cursor %d", p, string(before), bi)
		l.bad = true
		return
	}
	if rb.idx < 0 || rb.idx > len(rb.buf) {
		l.found("C01", "cursor %d outside the line %q", rb.idx, string(rb.buf))
		l.bad = true
		return
	}
	if o.name == "Transpose" && want == "any" {
		if !vEq(rb.buf, m.text) {
			l.found("C05", "%s on %q cursor %d changed the text to %q", o, string(before), bi, string(rb.buf))
		}
		m.idx = rb.idx
		want = nil
	}
	prop := o.prop
	if !vEq(rb.buf, m.text) || rb.idx != m.idx {
		l.found(prop, "%s on %q cursor %d (killed %q) gives %q cursor %d, want %q cursor %d", o, string(before), bi, string(kb), string(rb.buf), rb.idx, string(m.text), m.idx)
		if o.name == "Restore" || o.name == "Backup" {
			l.found("C06", "%s gives %q cursor %d, want %q cursor %d", o, string(rb.buf), rb.idx, string(m.text), m.idx)
		}
	}
	if want != nil && want != got {
		l.found(prop, "%s on %q cursor %d reports %v", o, string(before), bi, got)
	}
	if o.name == "Reset" && !vEq(ret, before) {
		l.found("C02", "Reset returns %q, want %q", string(ret), string(before))
	}
	if !vEq(rb.lastKill, m.kill) {
		l.found("C04", "%s on %q cursor %d: killed text is %q, want %q", o, string(before), bi, string(rb.lastKill), string(m.kill))
	}
	if got := rb.Runes(); !vEq(got, rb.buf) {
		l.found("C06", "Runes() returns %q for %q", string(got), string(rb.buf))
	} else {
		l.watch("Runes() after "+o.String(), got)
	}
	if ret != nil {
		l.watch("result of Reset", ret)
	}
	if rb.Pos() != rb.idx || rb.Len() != len(rb.buf) || rb.IsCursorInEnd() != (rb.idx == len(rb.buf)) {
		l.found("C02", "Pos/Len/IsCursorInEnd wrong on %q cursor %d", string(rb.buf), rb.idx)
	}
	for i := -m.idx; i <= len(m.text)-m.idx && !l.bad; i++ {
		var rs []rune
		if p := vGuard(func() string { return "RuneSlice" }, func() { rs = rb.RuneSlice(i) }); p != nil {
			l.found("C01", "RuneSlice(%d) panics: %v", i, p)
			break
		}
		exp := m.text[m.idx:]
		if i > 0 {
			exp = exp[:i]
		} else {
			exp = m.text[m.idx+i : m.idx]
		}
		if !vEq(rs, exp) {
			l.found("C02", "RuneSlice(%d) = %q on %q cursor %d", i, string(rs), string(m.text), m.idx)
		}
		if len(rs) > 0 {
			l.watch("RuneSlice", rs)
		}
	}
	if rb.bck != nil && m.hasB && !(vEq(rb.bck.buf, m.bck) && rb.bck.idx == m.bidx) {
		l.found("C06", "the backup changed to %q cursor %d, saved was %q cursor %d", string(rb.bck.buf), rb.bck.idx, string(m.bck), m.bidx)
	}
	for _, w := range l.watches {
		if !vEq(w.s, w.copy) {
			l.found("C06", "%s changed from %q to %q", w.what, string(w.copy), string(w.s))
			break
		}
	}
}

func lineArgs(name, prop string, r *rand.Rand, m *lineModel, alpha []rune) lineOp {
	o := lineOp{name: name, prop: prop}
	rs := vRandText(r, alpha, 6)
	if r.Intn(2) == 0 { // spare capacity
		b := make([]rune, len(rs), len(rs)+r.Intn(20))
		copy(b, rs)
		rs = b
	}
	o.rs = rs
	o.ch = alpha[r.Intn(len(alpha))]
	if name == "SetWithIdx" {
		o.n = r.Intn(len(rs) + 1)
	}
	o.b1, o.b2 = r.Intn(2) == 0, r.Intn(2) == 0
	return o
}

func lineSearch(t *testing.T, prop string) {
	r := vRand()
	over := vDeadline(100 * time.Second)
	alpha := []rune{'a', 'B', '1', ' ', '.', '世'}
	start := func(text []rune, idx int, kill []rune, inter bool, width int) *lineRun {
		rb, _ := vBuffer(text, idx, inter, width)
		if kill != nil {
			rb.lastKill = vCat(kill)
		}
		l := &lineRun{t: t, prop: prop, rb: rb, m: &lineModel{text: vCat(text), idx: idx, kill: vCat(kill)}}
		l.hist = []string{fmt.Sprintf("start %q cursor %d killed %q interactive %v width %d", string(text), idx, string(kill), inter, width)}
		return l
	}
	// every operation on every short text
	for _, text := range vTexts([]rune{'a', '1', ' ', '.'}, 5) {
		for idx := 0; idx <= len(text); idx++ {
			for _, op := range lineOpNames {
				n := 1
				if op.prop == "C02" || op.name == "MoveTo" {
					n = 4
				}
				for k := 0; k < n; k++ {
					l := start(text, idx, []rune("xy"), false, 80)
					o := lineArgs(op.name, op.prop, r, l.m, []rune{'a', '1', ' ', '.'})
					o.b1, o.b2 = k&1 != 0, k&2 != 0
					l.step(o)
					if !l.bad {
						l.step(lineOp{name: "Yank", prop: "C04"})
					}
				}
			}
		}
	}
	// random histories
	for it := 0; it < 400000 && !over(); it++ {
		n := 12
		if it%16 == 5 {
			n = 300
		}
		text := vRandText(r, alpha, n)
		l := start(text, r.Intn(len(text)+1), nil, it%4 == 0, []int{80, 5, 1, 0, -1, 2}[r.Intn(6)])
		for k := 0; k < 14 && !l.bad; k++ {
			op := lineOpNames[r.Intn(len(lineOpNames))]
			if prop == "C04" && r.Intn(3) == 0 {
				op.name, op.prop = "Yank", "C04"
			}
			l.step(lineArgs(op.name, op.prop, r, l.m, alpha))
		}
	}
}
