package readline

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"
)

// vLoaded is what a file with this content loads as
func vLoaded(content string, limit int) (lines []string) {
	for {
		i := strings.Index(content, "\n")
		if i < 0 {
			break
		}
		if l := strings.TrimSpace(content[:i]); l != "" {
			lines = append(lines, l)
		}
		content = content[i+1:]
	}
	if limit < 0 {
		limit = 0
	}
	if len(lines) > limit {
		lines = lines[len(lines)-limit:]
	}
	return
}

func TestReplayC16(t *testing.T) {
	over := vDeadline(30 * time.Second)
	r := vRand()
	dir := t.TempDir()
	parts := []string{"a\n", "b\n", "\n", " \t\n", "  x y \n", "世\n", "a\n", "\r\n", "c\r\n", "torn", " "}
	for round := 0; round < 3000 && !over(); round++ {
		path := fmt.Sprintf("%s/h%d", dir, round)
		content := ""
		for n := r.Intn(7); n > 0; n-- {
			content += parts[r.Intn(len(parts))]
		}
		limit := []int{500, 500, 1, 2, 3, 0, -1}[r.Intn(7)]
		os.WriteFile(path, []byte(content), 0600)
		fault := "none"
		switch r.Intn(6) {
		case 0:
			fault = "a temporary file left behind"
			os.WriteFile(path+".tmp", []byte("junk\n"), 0600)
		case 1:
			if len(vLoaded(content, limit)) == 0 {
				break // nothing to write, nothing fails
			}
			fault = "the temporary file cannot be written"
			os.Symlink("/dev/full", path+".tmp")
		case 2:
			fault = "the temporary file cannot be opened"
			os.Mkdir(path+".tmp", 0700)
		}
		what := func(f string, a ...interface{}) {
			vFound(t, "history file %q, limit %d, fault: %s: %s", content, limit, fault, fmt.Sprintf(f, a...))
		}
		read := func() string {
			if i, err := os.Lstat(path); err != nil || !i.Mode().IsRegular() {
				what("the file is gone (%v)", err)
			}
			b, err := os.ReadFile(path)
			if err != nil {
				what("the file cannot be read: %v", err)
			}
			return string(b)
		}
		before, _ := os.Stat(path)
		h := newOpHistory(&Config{HistoryFile: path, HistoryLimit: limit})
		if p := vGuard(func() string { return "opHistory.Init" }, func() { h.Init() }); p != nil {
			what("panic: %v", p)
		}
		want := vLoaded(content, limit)
		if got := vHistText(h); !vSame(got, want) {
			what("loaded %q, expected %q", got, want)
		}
		if h.current == nil || h.current != h.history.Back() || len(h.current.Value.(*hisItem).Source) != 0 {
			what("no blank entry in progress at the end")
		}
		now := read()
		after, _ := os.Stat(path)
		rewritten := strings.Join(append(append([]string{}, want...), ""), "\n")
		if now != content && now != rewritten {
			what("the file now holds %q", now)
		}
		if now != content && os.SameFile(before, after) {
			what("rewritten in place")
		}
		if now != content && (fault == "the temporary file cannot be written" || fault == "the temporary file cannot be opened") {
			what("the failed rewriting changed the file to %q", now)
		}
		h2 := newOpHistory(&Config{HistoryFile: path, HistoryLimit: limit})
		both := limit == 500 && r.Intn(3) == 0 && !strings.HasSuffix(fault, "ed")
		if both {
			h2.fd, _ = os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_RDWR, 0666)
			h2.historyUpdatePath(path)
		}
		now = read()
		for k := 0; k < r.Intn(4); k++ {
			line := []string{"x", " y ", "zz", "世 界"}[k]
			who := h
			if both && r.Intn(2) == 0 {
				who = h2
			}
			recorded := !vSame(vHistText(who), nil) && vHistText(who)[len(vHistText(who))-1] == line
			if err := who.New([]rune(line)); err != nil {
				what("recording %q: %v", line, err)
			}
			if !recorded {
				now += line + "\n"
			}
			if got := read(); got != now {
				what("after recording %q the file holds %q, expected %q", line, got, now)
			}
		}
		lines := vHistText(h)
		h.Close()
		h.Init()
		if got := vHistText(h); !vSame(got, lines) && limit > 0 {
			what("opened again: %q, expected %q", got, lines)
		}
		if r.Intn(2) == 0 {
			old, all := read(), ""
			for e := h.history.Front(); e != nil; e = e.Next() {
				all += string(e.Value.(*hisItem).Source) + "\n"
			}
			h.Rewrite()
			if got := read(); got != all && got != old {
				what("after Rewrite the file holds %q, expected %q or as before %q", got, all, old)
			} else if got == all && got != old {
				h.New([]rune("after"))
				if end := read(); end != all+"after\n" {
					what("after Rewrite and recording a line the file holds %q", end)
				}
			}
		}
		h.Close()
		h2.Close()
		os.RemoveAll(path + ".tmp")
		os.Remove(path)
	}
}
