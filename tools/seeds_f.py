DEC = '''package readline

import (
	"errors"
	"fmt"
	"io"
	"testing"
	"time"
)

type chunks []string

func (c *chunks) Close() error { return nil }
func (c *chunks) Read(b []byte) (int, error) {
	if len(*c) == 0 {
		return 0, io.EOF
	}
	s := (*c)[0]
	*c = (*c)[1:]
	if s == "" {
		return 0, errors.New("interrupted system call")
	}
	return copy(b, s), nil
}

func keys(t *testing.T, vim bool, in ...string) string {
	c := chunks(in)
	term, err := NewTerminal(&Config{Stdin: &c, VimMode: vim, FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil },
		FuncGetWidth: func() int { return 80 }, FuncIsTerminal: func() bool { return true }, FuncOnWidthChanged: func(func()) {}})
	if err != nil {
		t.Fatal(err)
	}
	var out []rune
	end := time.After(2 * time.Second)
	for {
		term.KickRead()
		select {
		case r, ok := <-term.outchan:
			if !ok {
				return fmt.Sprint(out)
			}
			out = append(out, r)
		case <-end:
			return fmt.Sprint(out, " and hangs")
		}
	}
}

'''
SEEDS = [
 ('C18-params', 'C18', [('utils.go', 'if key.attr == "3" {', 'if strings.HasPrefix(key.attr, "3") {')],
  'a modified delete key or another ~ sequence whose number starts with 3', 'unknown CSI sequences such as ESC[3;5~ and ESC[34~ delete a rune',
  DEC + '''func TestDemo(t *testing.T) {
	if s := keys(t, false, "\\033[34~x"); s != "[120]" {
		t.Fatal(s)
	}
}
'''),
 ('C18-ss3', 'C18', [('terminal.go', '''				r = escapeSS3Key(key)
			}
			if r == 0 {
				expectNextChar = true
				continue
			}''', '''				if k := escapeSS3Key(key); k != 0 {
					r = k
				}
			}
			if r == 0 {
				expectNextChar = true
				continue
			}''')],
  'a function key sent in its SS3 form (ESC O P)', 'the final rune of an unknown SS3 sequence is inserted into the line',
  DEC + '''func TestDemo(t *testing.T) {
	if s := keys(t, false, "\\033OPx"); s != "[120]" {
		t.Fatal(s)
	}
}
'''),
 ('C18-intr', 'C18', [('terminal.go', '''			if strings.Contains(err.Error(), "interrupted system call") {
				expectNextChar = true
''', '''			if strings.Contains(err.Error(), "interrupted system call") {
				expectNextChar = true
				isEscape, isEscapeEx, isEscapeSS3 = false, false, false
''')],
  'a signal interrupts the read between the runes of an arrow key', 'the rest of the sequence is delivered as text',
  DEC + '''func TestDemo(t *testing.T) {
	if s := keys(t, false, "\\033", "", "[", "", "A"); s != "[16]" {
		t.Fatal(s)
	}
}
'''),
 ('C18-vim', 'C18', [('terminal.go', '''			if t.cfg.VimMode {
				t.outchan <- r
				break
			}
			isEscape = true''', '''			if t.cfg.VimMode {
				t.outchan <- r
				isEscape = buf.Buffered() > 0
				break
			}
			isEscape = true''')],
  'vim mode, and Escape arriving together with the next rune', 'Escape is delivered and the rune after it is taken for a meta key',
  DEC + '''func TestDemo(t *testing.T) {
	if s := keys(t, true, "\\033b"); s != "[27 98]" {
		t.Fatal(s)
	}
}
'''),
 ('C18-semi', 'C18', [('utils.go', '''		if r == ';' {
		} else if unicode.IsNumber(r) {
		} else {''', '''		if r == ';' && buf.Len() > 0 {
		} else if unicode.IsNumber(r) {
		} else {''')],
  'a sequence whose first parameter is left out (ESC[;5A)', 'the sequence ends at the semicolon and its rest is typed into the line',
  DEC + '''func TestDemo(t *testing.T) {
	if s := keys(t, false, "\\033[;5Hx"); s != "[1 120]" {
		t.Fatal(s)
	}
}
'''),
]
