BUF = '''type nullW struct{}

func (nullW) Write(p []byte) (int, error) { return len(p), nil }

type nullP struct{}

func (nullP) Paint(l []rune, _ int) []rune { return l }

func mk(text string, idx int) *RuneBuffer {
	rb := NewRuneBuffer(nullW{}, "", &Config{FuncIsTerminal: func() bool { return false }, Painter: nullP{}}, 80)
	rb.SetWithIdx(idx, []rune(text))
	return rb
}

func want(t *testing.T, rb *RuneBuffer, text string, idx int) {
	if string(rb.Runes()) != text || rb.Pos() != idx {
		t.Fatalf("got %q at %d, want %q at %d", string(rb.Runes()), rb.Pos(), text, idx)
	}
}

'''
SEEDS = [
 ('C01-runeslice', 'C01', [('runebuf.go', '''	copy(rs, r.buf[r.idx+i:r.idx])
	return rs''', '''	copy(rs, r.buf[r.idx+i-1:r.idx-1])
	return rs''')],
  'RuneSlice called with a negative offset reaching the start of the line (vim r or a Home-edge use)',
  'RuneSlice slices from -1 when asked for the whole text before the cursor and panics; before that it returns the wrong runes',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abc", 3)\n\tif g := string(rb.RuneSlice(-3)); g != "abc" {\n\t\tt.Fatal(g)\n\t}\n}\n'),
 ('C01-movetoprev', 'C01', [('runebuf.go', '''				if prevChar {
					r.idx--
				}
				success = true''', '''				if prevChar {
					r.idx -= 2
				}
				success = true''')],
  'a forward "till" search (MoveTo with prevChar) whose match is the second rune of the line with the cursor at 0',
  'the cursor is put at -1, outside the line, and the next operation panics',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("ab", 0)\n\trb.MoveTo(\'b\', true, false)\n\twant(t, rb, "ab", 0)\n\trb.WriteRune(\'x\')\n\twant(t, rb, "xab", 1)\n}\n'),
 ('C02-width', 'C02', [('runebuf.go', '''		r.buf = append(r.buf[:r.idx], tail...)
		r.idx += len(s)''', '''		r.buf = append(r.buf[:r.idx], tail...)
		r.idx += runes.WidthAll(s)
		if r.idx > len(r.buf) {
			r.idx = len(r.buf)
		}''')],
  'inserting runes that are not one column wide (Han, combining marks, tabs) in front of existing text',
  'the cursor advances by columns rather than runes and ends up away from the end of the inserted text',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abc", 1)\n\trb.WriteRune(0x4e16)\n\twant(t, rb, "a\\u4e16bc", 2)\n}\n'),
 ('C02-replace', 'C02', [('runebuf.go', '''		r.buf[r.idx] = ch
	})''', '''		r.buf = append(r.buf[:r.idx], append([]rune{ch}, r.buf[r.idx+runes.Width(r.buf[r.idx]):]...)...)
	})''')],
  'replacing a rune whose display width is not one (a Han rune, a combining mark or a tab)',
  'replace removes as many runes as the replaced one is wide, losing the following rune or keeping the old one',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("\\u4e16bc", 0)\n\trb.Replace(\'x\')\n\twant(t, rb, "xbc", 0)\n}\n'),
 ('C03-killfront', 'C03', [('runebuf.go', '''		copy(r.buf[:length], r.buf[r.idx:])
		r.idx = 0''', '''		for i := len(r.buf) - 1; i >= r.idx; i-- {
			r.buf[i-r.idx] = r.buf[i]
		}
		r.idx = 0''')],
  'killing to the start of the line when the text after the cursor is longer than the text before it (the two regions overlap)',
  'the remaining text is overwritten while it is being moved down',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abcdef", 2)\n\trb.KillFront()\n\twant(t, rb, "cdef", 0)\n}\n'),
 ('C03-deleteword', 'C03', [('runebuf.go', '''	init := r.idx
	for init < len(r.buf) && IsWordBreak(r.buf[init]) {
		init++
	}
	for i := init + 1;''', '''	init := r.idx
	for init < len(r.buf) && r.buf[init] == ' ' {
		init++
	}
	for i := init + 1;''')],
  'forward word delete with the cursor on a separator other than a space that is followed by a word',
  'only the separators are deleted, not the word up to the next separator',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("a--bc de", 1)\n\trb.DeleteWord()\n\twant(t, rb, "a de", 1)\n}\n'),
 ('C04-alias', 'C04', [('runebuf.go', '''	r.lastKill = append([]rune{}, text...)''', '''	if cap(r.lastKill) < len(text) {
		r.lastKill = make([]rune, len(text))
	}
	copy(r.lastKill[:cap(r.lastKill)], text)
	if len(r.lastKill) > 1 {
		r.lastKill = r.lastKill[:len(text)]
	}''')],
  'two kills of which the second is longer than one rune after a kill of exactly one rune with spare capacity, or a shorter kill after a one-rune kill',
  'the saved text keeps the length of an earlier kill', BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abcdef", 0)\n\trb.Kill()\n\trb.Set([]rune("xy"))\n\trb.MoveToLineStart()\n\trb.Delete()\n\trb.Yank()\n\twant(t, rb, "xy", 1)\n\trb.Kill()\n\trb.Set([]rune("pqr"))\n\trb.KillFront()\n\trb.Yank()\n\twant(t, rb, "pqr", 3)\n}\n'),
 ('C04-kill-share', 'C04', [('runebuf.go', '''		r.pushKill(r.buf[r.idx:])
		r.buf = r.buf[:r.idx]''', '''		r.lastKill = r.buf[r.idx:]
		r.buf = r.buf[:r.idx]''')],
  'kill to the end of line, then type, then yank',
  'the killed text shares storage with the line and is overwritten by typing',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abcdef", 3)\n\trb.Kill()\n\trb.WriteString("xyz")\n\trb.Yank()\n\twant(t, rb, "abcxyzdef", 9)\n}\n'),
 ('C05-nextword', 'C05', [('runebuf.go', '''		for i := r.idx + 1; i < len(r.buf); i++ {
			if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
				r.idx = i
				return
			}
		}

		r.idx = len(r.buf)''', '''		for i := r.idx + 2; i < len(r.buf); i++ {
			if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
				r.idx = i
				return
			}
		}

		r.idx = len(r.buf)''')],
  'the next word starts directly at the rune after the cursor',
  'forward word motion skips that word',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("a b c", 1)\n\trb.MoveToNextWord()\n\twant(t, rb, "a b c", 2)\n}\n'),
 ('C05-transpose', 'C05', [('runebuf.go', '''		} else if r.idx >= len(r.buf) {
			r.idx = len(r.buf) - 1
		}''', '''		} else if r.idx >= len(r.buf)-1 {
			r.idx = len(r.buf) - 1
			if len(r.buf) > 4 {
				r.idx--
			}
		}''')],
  'transpose at the end of a line longer than four runes',
  'the wrong pair of runes is exchanged',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abcde", 5)\n\trb.Transpose()\n\twant(t, rb, "abced", 5)\n}\n'),
 ('C06-runes', 'C06', [('runebuf.go', '''	newr := make([]rune, len(r.buf))
	copy(newr, r.buf)
	r.Unlock()
	return newr''', '''	newr := r.buf[:len(r.buf):len(r.buf)]
	r.Unlock()
	return newr''')],
  'the application keeps the slice returned by Runes (or a listener argument) and the line is edited in place afterwards',
  'the returned slice is the line itself; an append to it is safe but a replace, transpose or backspace changes it',
  BUF + 'func TestDemo(t *testing.T) {\n\trb := mk("abc", 1)\n\tg := rb.Runes()\n\trb.Replace(\'x\')\n\trb.Transpose()\n\tif string(g) != "abc" {\n\t\tt.Fatal(string(g))\n\t}\n}\n'),
 ('C06-reset', 'C06', [('runebuf.go', '''	ret := runes.Copy(r.buf)
	r.buf = r.buf[:0]''', '''	ret := r.buf
	if len(ret) < 64 {
		ret = runes.Copy(ret)
	}
	r.buf = r.buf[:0]''')],
  'submitting a line of 64 or more runes and editing the next line before the first is used',
  'the returned line shares storage with the edit buffer and is overwritten by the next line',
  BUF + 'func TestDemo(t *testing.T) {\n\tb := make([]rune, 70)\n\tfor i := range b {\n\t\tb[i] = \'a\'\n\t}\n\trb := mk(string(b), 0)\n\tg := rb.Reset()\n\trb.WriteString("zz")\n\tif string(g) != string(b) {\n\t\tt.Fatal(string(g))\n\t}\n}\n'),
 ('C07-bck', 'C07', [('runes.go', '''	for i := len(r) - len(sub); i >= 0; i-- {''', '''	for i := len(r) - len(sub); i >= 0; i -= 1 + len(sub)>>3 {''')],
  'backward search for a pattern of eight or more runes occurring at a position of the wrong parity',
  'the backward search skips positions', 'func TestDemo(t *testing.T) {\n\tif g := runes.IndexAllBck([]rune("abcdefghi"), []rune("abcdefgh")); g != 0 {\n\t\tt.Fatal(g)\n\t}\n}\n'),
 ('C07-dep-index', 'C07', [('runes/runes.go', '''func Index(r rune, rs []rune) int {
	for i := 0; i < len(rs); i++ {''', '''func Index(r rune, rs []rune) int {
	for i := len(rs) - 1; i >= 0; i-- {''')],
  'a rune that occurs more than once', 'the deprecated Index returns the last position instead of the first',
  'func TestDemo(t *testing.T) {\n\tif g := dep.Index(\'a\', []rune("bab a")); g != 1 {\n\t\tt.Fatal(g)\n\t}\n}\n', ['testing"\n\n\tdep "github.com/chzyer/readline/runes']),
 ('C08-agg', 'C08', [('runes.go', '''		for j := 0; j < len(candicate)-1; j++ {''', '''		for j := 0; j < len(candicate)-1-size>>2; j++ {''')],
  'candidates that share at least four runes and where only the last one differs afterwards',
  'the last candidate is no longer compared beyond the fourth rune', 'func TestDemo(t *testing.T) {\n\tc := [][]rune{[]rune("abcdef"), []rune("abcdef"), []rune("abcdxy")}\n\tsame, n := runes.Aggregate(c)\n\tif n != 4 || string(same) != "abcd" {\n\t\tt.Fatal(n, string(same))\n\t}\n}\n'),
 ('C09-linecount', 'C09', [('utils.go', '''	if w%screenWidth != 0 {
		r++
	}''', '''	if w%screenWidth != 0 || screenWidth == 1 {
		r++
	}''')], 'a screen one column wide', 'the number of lines is one too many',
  'func TestDemo(t *testing.T) {\n\tif g := LineCount(1, 5); g != 5 {\n\t\tt.Fatal(g)\n\t}\n}\n'),
 ('C09-width', 'C09', [('runes.go', '''	unicode.Hangul,
''', '''	unicode.Hiragana,
	unicode.Hanunoo,
''')], '', '', ''),
]
SEEDS = [s for s in SEEDS if s[3]]
