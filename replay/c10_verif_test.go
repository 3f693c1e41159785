package readline

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"
)

type vStarPainter struct{}

func (vStarPainter) Paint(line []rune, pos int) []rune {
	out := []rune("\033[1m")
	out = append(out, line...)
	return append(out, []rune("\033[0m")...)
}

func TestReplayC10(t *testing.T) {
	over := vDeadline(40 * time.Second)
	rnd := vRand()
	alpha := []rune("ab世\té ")
	motion := func(s string) bool { return strings.Trim(s, "\b\r\033[0123456789AC") == "" }
	for round := 0; round < 300000 && !over(); round++ {
		text := vRandText(rnd, alpha, 12)
		if rnd.Intn(3) == 0 {
			text = append(text, '\n')
		}
		idx := rnd.Intn(len(text) + 1)
		width := rnd.Intn(14)
		prompt := string(vRandText(rnd, []rune(">世 "), 4))
		cfg := vConfig(true)
		if rnd.Intn(3) == 0 {
			cfg.Painter = vStarPainter{}
		}
		cfg.EnableMask = rnd.Intn(2) == 0
		cfg.MaskRune = []rune("*世.\x00")[rnd.Intn(4)]
		var w bytes.Buffer
		rb := NewRuneBuffer(&w, prompt, cfg, width)
		desc := func() string {
			return fmt.Sprintf("prompt %q, line %q, cursor %d, width %d, mask %v %q, painter %T", prompt, string(text), idx, width, cfg.EnableMask, cfg.MaskRune, cfg.Painter)
		}
		var out string
		if x := vGuard(desc, func() {
			rb.SetWithIdx(idx, text)
			rb.Clean()
			w.Reset()
			rb.Refresh(nil)
			out = w.String()
		}); x != nil {
			vFound(t, "%s: panics: %v", desc(), x)
		}
		want := prompt
		masked := cfg.EnableMask && len(text) > 0
		if masked {
			m := strings.Repeat(string(cfg.MaskRune), len(text))
			if text[len(text)-1] == '\n' {
				m = strings.Repeat(string(cfg.MaskRune), len(text)-1) + "\n"
			}
			want += m
		} else {
			want += strings.Replace(string(cfg.Painter.Paint(text, idx)), "\t", strings.Repeat(" ", TabWidth), -1)
		}
		rest := strings.TrimPrefix(out, want)
		if !strings.HasPrefix(out, want) {
			vFound(t, "%s: writes %q, want %q first", desc(), out, want)
		}
		lefts := len(text) - idx
		if !masked && strings.HasPrefix(rest, " \b") {
			rest = rest[2:]
		}
		if !motion(rest) || strings.Count(rest, "\b") != lefts {
			vFound(t, "%s: after the line it writes %q, want %d times left", desc(), rest, lefts)
		}
		w.Reset()
		rb.Clean()
		if s := w.String(); strings.Trim(s, "\b\r\033[0123456789ACJK") != "" {
			vFound(t, "%s: erasing writes %q", desc(), s)
		}
	}
}
