H16 = '''package readline

import (
	"os"
	"strings"
	"testing"
)

func file(t *testing.T, content string) string {
	p := t.TempDir() + "/history"
	if err := os.WriteFile(p, []byte(content), 0600); err != nil {
		t.Fatal(err)
	}
	return p
}

func open(p string, limit int) *opHistory {
	h := newOpHistory(&Config{HistoryFile: p, HistoryLimit: limit})
	h.Init()
	return h
}

func content(t *testing.T, p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

// lines is what is loaded, without the entry in progress
func lines(h *opHistory) string {
	var s []string
	for e := h.history.Front(); e != nil && e != h.history.Back(); e = e.Next() {
		s = append(s, string(e.Value.(*hisItem).Source))
	}
	return strings.Join(s, "|")
}

'''
SEEDS = [
 ('C16-append', 'C16', [('history.go', 'os.O_APPEND|os.O_CREATE|os.O_RDWR', 'os.O_CREATE|os.O_RDWR')],
  'two sessions that share one history file and record lines in turn', 'a line recorded in one session overwrites the line of the other instead of being appended', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\n")
	x, y := open(p, 10), open(p, 10)
	x.New([]rune("first"))
	y.New([]rune("2nd"))
	if c := content(t, p); c != "a\\nfirst\\n2nd\\n" {
		t.Fatalf("%q", c)
	}
	_ = lines
}
'''),
 ('C16-trimmed', 'C16', [('history.go', 'o.fd.Write([]byte(string(r.Source) + "\\n"))', 'o.fd.Write([]byte(strings.TrimSpace(string(r.Source)) + "\\n"))')],
  'a recorded line that begins or ends with blanks', 'the line in the file is not the text that was recorded', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "")
	h := open(p, 10)
	h.New([]rune("  x "))
	if c := content(t, p); c != "  x \\n" {
		t.Fatalf("%q", c)
	}
	_ = lines
}
'''),
 ('C16-oldest', 'C16', [('history.go', '''		o.Push([]rune(line))
		o.Compact()
''', '''		if o.history.Len() < o.cfg.HistoryLimit {
			o.Push([]rune(line))
		}
''')], 'a file with more lines than the limit', 'the oldest lines are kept and the newest dropped, from the file as well', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nc\\nd\\n")
	if l := lines(open(p, 2)); l != "c|d" {
		t.Fatal(l)
	}
	_ = content
}
'''),
 ('C16-torn', 'C16', [('history.go', '''		if err != nil {
			break
		}
		// ignore''', '''		if err != nil && len(line) == 0 {
			break
		}
		// ignore''')], 'a file whose last line has no newline, as a crash while appending leaves it', 'the torn line is loaded as a recorded one', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nto")
	if l := lines(open(p, 10)); l != "a|b" {
		t.Fatal(l)
	}
	_ = content
}
'''),
 ('C16-leftover', 'C16', [('history.go', 'os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_APPEND', 'os.O_CREATE|os.O_WRONLY|os.O_APPEND')],
  'a temporary file left behind by an earlier rewriting that was interrupted', 'what it holds ends up in the new history file', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nc\\n")
	os.WriteFile(p+".tmp", []byte("junk\\n"), 0600)
	open(p, 2)
	if c := content(t, p); strings.Contains(c, "junk") {
		t.Fatalf("%q", c)
	}
	_ = lines
}
'''),
 ('C16-inplace', 'C16', [('history.go', '''	tmpFile := o.cfg.HistoryFile + ".tmp"
''', '''	tmpFile := o.cfg.HistoryFile + ".tmp"
	if _, err := os.Stat(tmpFile); err == nil {
		tmpFile = o.cfg.HistoryFile
	}
''')], 'a temporary file left behind by an earlier rewriting that was interrupted', 'the history file itself is emptied and written, so a failed write loses it', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nc\\n")
	os.WriteFile(p+".tmp", nil, 0600)
	before, _ := os.Stat(p)
	open(p, 2)
	after, _ := os.Stat(p)
	if os.SameFile(before, after) {
		t.Fatal("written in place")
	}
	_, _ = content, lines
}
'''),
 ('C16-late', 'C16', [('history.go', '''	// replace history file
	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
		fd.Close()
		return
	}

''', ''), ('history.go', '''	buf := bufio.NewWriter(fd)
''', '''	// replace history file
	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
		fd.Close()
		return
	}

	buf := bufio.NewWriter(fd)
''')], 'a device that is full while the file is rewritten', 'the history file was already replaced by the incomplete one', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nc\\n")
	os.Symlink("/dev/full", p+".tmp")
	open(p, 2)
	if i, err := os.Lstat(p); err != nil || !i.Mode().IsRegular() {
		t.Fatal("replaced")
	}
	_, _ = content, lines
}
'''),
 ('C16-handle', 'C16', [('history.go', '''	// fd is write only, just satisfy what we need.
	o.fd = fd
''', '''	// fd is write only, just satisfy what we need.
	if o.fd == nil {
		o.fd = fd
	}
''')], 'a line recorded after the file was rewritten because it was over the limit', 'it is written to the closed old file and lost', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\nb\\nc\\n")
	h := open(p, 2)
	h.New([]rune("new"))
	if c := content(t, p); c != "b\\nc\\nnew\\n" {
		t.Fatalf("%q", c)
	}
	_ = lines
}
'''),
 ('C16-swallow', 'C16', [('history.go', '''			_, err = o.fd.Write([]byte(string(r.Source) + "\\n"))
''', '''			if _, err = o.fd.Write([]byte(string(r.Source))); err == nil && len(r.Source) > 1 {
				_, err = o.fd.Write([]byte("\\n"))
			}
''')], 'a recorded line of one rune', 'its newline is missing, it runs into the next line', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "")
	h := open(p, 9)
	h.New([]rune("x"))
	h.New([]rune("yz"))
	if c := content(t, p); c != "x\\nyz\\n" {
		t.Fatalf("%q", c)
	}
	_ = lines
}
'''),
 ('C16-blanks', 'C16', [('history.go', '''		if len(line) == 0 {
			continue
		}
''', '''		if len(line) == 0 {
			break
		}
''')], 'a file with a blank line in the middle', 'everything after the blank line is not loaded', H16 + '''func TestDemo(t *testing.T) {
	p := file(t, "a\\n \\nb\\n")
	if l := lines(open(p, 9)); l != "a|b" {
		t.Fatal(l)
	}
	_ = content
}
'''),
]
