RED = '''package readline

import (
	"bytes"
	"strings"
	"testing"
)

var _ = strings.Count

func redraw(text string, idx int, width int, mask bool, m rune) string {
	var w bytes.Buffer
	cfg := &Config{FuncIsTerminal: func() bool { return true }, Painter: &defaultPainter{}, EnableMask: mask, MaskRune: m}
	rb := NewRuneBuffer(&w, "> ", cfg, width)
	rb.SetWithIdx(idx, []rune(text))
	rb.Clean()
	w.Reset()
	rb.Refresh(nil)
	return w.String()
}

'''
SEEDS = [
 ('C10-wide', 'C10', [('runebuf.go', '''		buf.Write([]byte(strings.Repeat(string(r.cfg.MaskRune), len(r.buf)-1)))''', '''		n := runes.WidthAll(r.buf[:len(r.buf)-1])
		buf.Write([]byte(strings.Repeat(string(r.cfg.MaskRune), n)))''')],
  'a secret with runes that are not one column wide', 'the number of mask runes is the width of the secret instead of its length',
  RED + '''func TestDemo(t *testing.T) {
	if s := redraw("\\u4e16\\u754cx", 3, 80, true, '*'); s != "> ***" {
		t.Fatalf("%q", s)
	}
}
'''),
 ('C10-sep', 'C10', [('runebuf.go', '''		buf = append(buf, '\\b')
		if sep[i] {
			// up one line, go to the start of the line and move cursor right to the end (r.width)
			buf = append(buf,''', '''		if !sep[i] {
			buf = append(buf, '\\b')
		} else {
			// up one line, go to the start of the line and move cursor right to the end (r.width)
			buf = append(buf,''')],
  'a line that wraps, and the cursor before the screen boundary', 'the cursor is moved left once too little for every boundary it crosses',
  RED + '''func TestDemo(t *testing.T) {
	s := redraw("abcdefghijkl", 1, 8, true, '*')
	if strings.Count(s, "\\b") != 11 {
		t.Fatalf("%q", s)
	}
}
'''),
 ('C10-zero', 'C10', [('runebuf.go', '''	if r.cfg.EnableMask && len(r.buf) > 0 {''', '''	if r.cfg.EnableMask && r.cfg.MaskRune != 0 && len(r.buf) > 0 {''')],
  'masking switched on with the zero mask rune', 'the secret is shown',
  RED + '''func TestDemo(t *testing.T) {
	if s := redraw("secret", 6, 80, true, 0); strings.Contains(s, "secret") {
		t.Fatalf("%q", s)
	}
}
'''),
 ('C10-tab', 'C10', [('runebuf.go', '''		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
			if e == '\\t' {
				buf.WriteString(strings.Repeat(" ", TabWidth))
			} else {''', '''		for i, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
			if e == '\\t' && i < len(r.buf) {
				buf.WriteString(strings.Repeat(" ", TabWidth))
			} else {''')],
  'a painter that adds runes before a tab at the end of the line', 'the tab is written as a tab',
  RED + '''type bold struct{}

func (bold) Paint(line []rune, pos int) []rune {
	return append(append([]rune("\\033[1m"), line...), []rune("\\033[0m")...)
}

func TestDemo(t *testing.T) {
	var w bytes.Buffer
	cfg := &Config{FuncIsTerminal: func() bool { return true }, Painter: bold{}}
	rb := NewRuneBuffer(&w, "> ", cfg, 80)
	rb.SetWithIdx(3, []rune("ab\\t"))
	if s := w.String(); !strings.Contains(s, "ab    \\033[0m") {
		t.Fatalf("%q", s)
	}
}
'''),
]
