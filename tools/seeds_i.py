KEY = '''package readline

import (
	"bytes"
	"io"
	"testing"
	"time"
)

type say struct {
	line string
	err  error
}

// typed: what the reads answer when these keys are typed one chunk after another
func typed(t *testing.T, mod func(*Config), n int, chunks ...string) (out []say) {
	r, w := io.Pipe()
	cfg := &Config{Prompt: "> ", Stdin: r, Stdout: &bytes.Buffer{}, Stderr: &bytes.Buffer{},
		FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil },
		FuncIsTerminal: func() bool { return true }, FuncGetWidth: func() int { return 80 },
		FuncOnWidthChanged: func(func()) {}, ForceUseInteractive: true}
	if mod != nil {
		mod(cfg)
	}
	rl, err := NewEx(cfg)
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for _, c := range chunks {
			if c == "EOF" {
				w.Close()
				return
			}
			w.Write([]byte(c))
			time.Sleep(30 * time.Millisecond)
		}
	}()
	done := make(chan say)
	for i := 0; i < n; i++ {
		go func() {
			l, err := rl.Readline()
			done <- say{l, err}
		}()
		select {
		case s := <-done:
			out = append(out, s)
		case <-time.After(5 * time.Second):
			t.Fatal("no answer")
		}
	}
	return out
}

'''
SEEDS = [
 ('C20-eofpos', 'C20', [('operation.go', '''			if o.buf.Len() == 0 {
				o.buf.Clean()
				select {''', '''			if o.buf.Pos() == 0 {
				o.buf.Clean()
				select {''')],
  'the input ends while the line is not empty and the cursor is at its start', 'the read answers end of input and the line is lost',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, nil, 1, "abc", "\\x01", "EOF")
	if s[0].line != "abc" || s[0].err != nil {
		t.Fatal(s)
	}
}
'''),
 ('C20-end', 'C20', [('operation.go', '''			o.buf.MoveToLineEnd()
			var data []rune
			if !o.GetConfig().UniqueEditLine {
''', '''			var data []rune
			if !o.GetConfig().UniqueEditLine {
				if !o.buf.IsCursorInEnd() && o.buf.Pos() > 0 {
					o.buf.MoveToLineEnd()
				}
''')],
  'Enter with the cursor at the very start of the line', 'the newline goes to the cursor, and the last rune is cut off instead of it',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, nil, 1, "abc", "\\x01", "\\r")
	if s[0].line != "abc" || s[0].err != nil {
		t.Fatal(s)
	}
}
'''),
 ('C20-hint', 'C20', [('operation.go', '''			remain := o.buf.Reset()
			if !o.GetConfig().UniqueEditLine {
				remain = remain''', '''			remain := o.buf.Reset()
			if len(remain) > len([]rune(hint)) {
				remain = remain''')],
  'an interrupt on an empty line', 'the hint is answered as the text',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, func(c *Config) { c.InterruptPrompt = "^C" }, 1, "\\x03")
	if s[0].line != "" || s[0].err != ErrInterrupt {
		t.Fatal(s)
	}
}
'''),
 ('C21-listen', 'C21', [('operation.go', '''			if ok {
				o.buf.SetWithIdx(newPos, newLine)
			}''', '''			if ok && len(newLine) > 0 {
				o.buf.SetWithIdx(newPos, newLine)
			}''')],
  'a listener that rewrites the line to the empty line', 'the line stays as it was',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, func(c *Config) {
		c.Listener = FuncListener(func(line []rune, pos int, key rune) ([]rune, int, bool) { return nil, 0, key == '!' })
	}, 1, "abc", "!", "d\\r")
	if s[0].line != "d" {
		t.Fatal(s)
	}
}
'''),
 ('C21-filter', 'C21', [('operation.go', '''			var process bool
			r, process = o.GetConfig().FuncFilterInputRune(r)
			if !process {''', '''			nr, process := o.GetConfig().FuncFilterInputRune(r)
			if r >= ' ' {
				r = nr
			}
			if !process {''')],
  'a filter that maps one control key to another', 'the original key is used',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, func(c *Config) {
		c.FuncFilterInputRune = func(r rune) (rune, bool) {
			if r == CharBell {
				r = CharLineStart
			}
			return r, true
		}
	}, 1, "abc", "\\x07", "x\\r")
	if s[0].line != "xabc" {
		t.Fatal(s)
	}
}
'''),
 ('C21-metabs', 'C21', [('operation.go', '''		case MetaBackspace, CharCtrlW:
			o.buf.BackEscapeWord()''', '''		case MetaBackspace, CharCtrlW:
			if r == MetaBackspace && !o.buf.IsCursorInEnd() {
				o.buf.KillFront()
				break
			}
			o.buf.BackEscapeWord()''')],
  'Meta-Backspace in the middle of a line of several words', 'everything before the cursor is cut',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, nil, 1, "one two three", "\\x02", "\\x1b\\x7f", "\\r")
	if s[0].line != "one two e" {
		t.Fatal(s)
	}
}
'''),
 ('C21-search', 'C21', [('operation.go', '''		if !keepInSearchMode && o.IsSearchMode() {
			o.ExitSearchMode(false)''', '''		if !keepInSearchMode && o.IsSearchMode() {
			o.ExitSearchMode(listener != nil)''')],
  'a listener, and a key that ends a search and edits the line found', 'the edit and the line found are dropped',
  KEY + '''func TestDemo(t *testing.T) {
	s := typed(t, func(c *Config) {
		c.Listener = FuncListener(func(line []rune, pos int, key rune) ([]rune, int, bool) { return nil, 0, false })
	}, 2, "abc\\r", "\\x12", "b", "\\x01", "x", "\\r")
	if s[1].line != "xabc" {
		t.Fatal(s)
	}
}
'''),
]
