package readline

import (
	"errors"
	"fmt"
	"io"
	"testing"
	"time"
	"unicode"
)

// vChunks hands out its chunks one read at a time, with an interrupted read before some of them
type vChunks struct {
	parts []string
	intr  []bool
}

func (c *vChunks) Read(b []byte) (int, error) {
	if len(c.parts) == 0 {
		return 0, io.EOF
	}
	if c.intr[0] {
		c.intr[0] = false
		return 0, errors.New("interrupted system call")
	}
	n := copy(b, c.parts[0])
	c.parts[0] = c.parts[0][n:]
	if c.parts[0] == "" {
		c.parts, c.intr = c.parts[1:], c.intr[1:]
	}
	return n, nil
}

func (c *vChunks) Close() error { return nil }

func vDecode(in []rune, vim bool) (out []rune) {
	state, lead, params := 0, rune(0), []rune{}
	for _, r := range in {
		switch state {
		case 0, 1:
			if state == 1 {
				state = 0
				if r == '[' || r == 'O' {
					state, lead, params = 2, r, nil
					continue
				}
				if m, ok := map[rune]rune{'b': MetaBackward, 'f': MetaForward, 'd': MetaDelete, CharTranspose: MetaTranspose, CharBackspace: MetaBackspace}[r]; ok {
					r = m
				}
			}
			if r == CharEsc && !vim {
				state = 1
				continue
			}
			out = append(out, r)
		case 2:
			if r == ';' || unicode.IsNumber(r) {
				params = append(params, r)
				continue
			}
			state = 0
			k := map[rune]rune{'D': CharBackward, 'C': CharForward, 'A': CharPrev, 'B': CharNext, 'H': CharLineStart, 'F': CharLineEnd}[r]
			if r == '~' && lead == '[' && string(params) == "3" {
				k = CharDelete
			}
			if k != 0 {
				out = append(out, k)
			}
		}
	}
	return out
}

func TestReplayC18(t *testing.T) {
	rnd := vRand()
	done := vDeadline(25 * time.Second)
	final := []rune("ABCDEFGHMPQRSZ~abcz \x1b\x7f\x14\n")
	pieces := func() []rune {
		e := []rune{CharEsc}
		switch rnd.Intn(8) {
		case 0:
			return []rune{rune(rnd.Intn(128))}
		case 1:
			return []rune{[]rune("aé日\U0001F600")[rnd.Intn(4)]}
		case 2:
			return append(e, rune(1+rnd.Intn(127)))
		case 3, 4:
			return vCat(e, []rune("["), vRandText(rnd, []rune("3312;٣"), 3), []rune{final[rnd.Intn(len(final))]})
		case 5:
			return vCat(e, []rune("O"), vRandText(rnd, []rune("3312;"), 1), []rune{final[rnd.Intn(len(final))]})
		case 6:
			return vCat(e, []rune("["), []rune(fmt.Sprint(rnd.Intn(50))), []rune(";"), []rune(fmt.Sprint(rnd.Intn(200))), []rune("R"))
		}
		return vCat(e, []rune("[3~"))
	}
	for i := 0; !done(); i++ {
		var in []rune
		for k := 1 + rnd.Intn(5); k > 0; k-- {
			in = append(in, pieces()...)
		}
		vim := rnd.Intn(4) == 0
		src := &vChunks{}
		rest := in
		for len(rest) > 0 {
			// a read may be interrupted anywhere except inside the parameters of a sequence
			k := 1 + rnd.Intn(len(rest))
			src.parts = append(src.parts, string(rest[:k]))
			src.intr = append(src.intr, len(src.parts) == 1 && rnd.Intn(3) == 0 || rest[0] == '[' && rnd.Intn(3) == 0 && len(rest) < len(in) && in[len(in)-len(rest)-1] == CharEsc)
			rest = rest[k:]
		}
		want := vDecode(in, vim)
		term := &Terminal{cfg: &Config{Stdin: src, VimMode: vim}, kickChan: make(chan struct{}, 1), outchan: make(chan rune), stopChan: make(chan struct{}, 1), sizeChan: make(chan string, 1)}
		var got []rune
		fin := make(chan bool)
		go func() {
			for r := range term.outchan {
				got = append(got, r)
				term.KickRead()
			}
			close(fin)
		}()
		term.KickRead()
		go term.ioloop()
		select {
		case <-fin:
		case <-time.After(3 * time.Second):
			vFound(t, "input %q (vim %v) is not decoded to its end", string(in), vim)
		}
		if !vEq(got, want) {
			vFound(t, "input %q (vim %v) decodes to %v, want %v", string(in), vim, got, want)
		}
	}
}
