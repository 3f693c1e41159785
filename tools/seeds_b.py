SEEDS = [
 ('C12-ret', 'C12', [('complete_segment.go', '''		if !runes.HasPrefix(cand, lastSegment) {
			continue''', '''		if !runes.HasPrefix(cand, lastSegment) || len(ret) > 0 && len(cand) == len(lastSegment) {
			continue''')],
  'a candidate that equals the typed segment and is not the first match', 'the exact match is not offered',
  'func TestDemo(t *testing.T) {\n\tr, _ := RetSegment([][]rune{[]rune("a")}, [][]rune{[]rune("ab"), []rune("a")}, 1)\n\tif len(r) != 2 {\n\t\tt.Fatal(len(r))\n\t}\n}\n'),
 ('C12-split', 'C12', [('complete_segment.go', '''		if l == ' ' {
			pos = 0''', '''		if l == ' ' && (idx == 0 || lastIdx != idx-1 || len(segs) < 2) {
			pos = 0''')],
  'two consecutive spaces after the second segment', 'an empty segment is lost and the next segment starts with a space',
  'func TestDemo(t *testing.T) {\n\tl := []rune("a b  c")\n\tif s, _ := SplitSegment(l, len(l)); len(s) != 4 {\n\t\tt.Fatal(len(s))\n\t}\n}\n'),
 ('C25-order', 'C25', [('std.go', '''			s.buf = append(s.buf, bufR[:n]...)''', '''			if len(s.buf) > 3*len(bufR) {
				s.buf = append(bufR[:n], s.buf...)
			} else {
				s.buf = append(s.buf, bufR[:n]...)
			}''')],
  'more than 300 bytes pending when the next block arrives', 'later bytes are delivered before earlier ones',
  '''func TestDemo(t *testing.T) {
	r, w := NewFillableStdin(strings.NewReader(""))
	for i := 0; i < 8; i++ {
		w.Write(bytes.Repeat([]byte{byte('a' + i)}, 80))
	}
	time.Sleep(100 * time.Millisecond)
	p := make([]byte, 1000)
	n, _ := r.Read(p)
	for i := 1; i < n; i++ {
		if p[i] < p[i-1] {
			t.Fatal(i, string(p[:n]))
		}
	}
}
''', ['bytes', 'strings', 'testing', 'time']),
 ('C25-retry', 'C25', [('std.go', '''	n, err = s.stdin.Read(p)
	return n, err''', '''	n, err = s.stdin.Read(p)
	if n == 0 && err == nil {
		n, err = s.stdin.Read(p)
	}
	return n, err''')],
  'a real input whose read returns no data and no error', 'the result of the real input is not passed through and a second read is made',
  '''type zr int

func (z *zr) Read(p []byte) (int, error) {
	*z++
	if *z == 1 {
		return 0, nil
	}
	p[0] = 'x'
	return 1, nil
}

func TestDemo(t *testing.T) {
	var z zr
	r, _ := NewFillableStdin(&z)
	if n, err := r.Read(make([]byte, 4)); n != 0 || err != nil || z != 1 {
		t.Fatal(n, err, z)
	}
}
'''),
 ('C24-short', 'C24', [('remote.go', '''	if _, err := io.ReadFull(r, m.Data); err != nil {''', '''	if _, err := r.Read(m.Data); err != nil && len(m.Data) > 0 {''')],
  'a payload that arrives in several pieces', 'the message is cut short and the rest is read as the next message',
  '''func TestDemo(t *testing.T) {
	d := bytes.Repeat([]byte("x"), 1000)
	var w bytes.Buffer
	NewMessage(T_DATA, d).WriteTo(&w)
	all := w.Bytes()
	m, err := ReadMessage(io.MultiReader(bytes.NewReader(all[:700]), bytes.NewReader(all[700:])))
	if err != nil || !bytes.Equal(m.Data, d) {
		t.Fatal(err)
	}
}
''', ['bytes', 'io', 'testing']),
 ('C24-width', 'C24', [('remote.go', '''	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))''', '''	atomic.StoreInt32(&r.width, int32(int16(binary.BigEndian.Uint16(data))))''')],
  'a reported width of 32768 or more', 'the width is read back as a negative number',
  '''func TestDemo(t *testing.T) {
	r := &RemoteSvr{}
	r.GotReportWidth([]byte{0x80, 1})
	if r.GetWidth() != 0x8001 {
		t.Fatal(r.GetWidth())
	}
}
'''),
 ('C14-blank', 'C14', [('history.go', '''	if item.Version == o.historyVer {
		return item.Tmp''', '''	if item.Version == o.historyVer && len(item.Tmp) > 0 {
		return item.Tmp''')],
  'an entry edited to the empty line, left and visited again', 'the recorded text comes back instead of the edit',
  '''func TestDemo(t *testing.T) {
	h := newOpHistory(&Config{HistoryLimit: 10})
	h.New([]rune("one"))
	h.New([]rune("two"))
	h.Prev()
	h.Update(nil, false)
	h.Prev()
	if l, ok := h.Next(); !ok || len(l) != 0 {
		t.Fatal(string(l), ok)
	}
}
'''),
 ('C14-alias', 'C14', [('history.go', '''	return runes.Copy(o.showItem(current.Value)), true''', '''	return append(o.showItem(current.Value)[:0], o.showItem(current.Value)...), true''')],
  'changing the text returned for a newer entry', 'the recorded entry changes with it',
  '''func TestDemo(t *testing.T) {
	h := newOpHistory(&Config{HistoryLimit: 10})
	h.New([]rune("one"))
	h.New([]rune("two"))
	h.Prev()
	h.Prev()
	l, _ := h.Next()
	l[0] = 'X'
	h.Prev()
	if l, _ := h.Next(); string(l) != "two" {
		t.Fatal(string(l))
	}
}
'''),
 ('C15-recall', 'C15', [('history.go', '''	if o.current != o.history.Back() {
''', '''	if o.current == nil {
''')],
  'submitting a line after recalling an older entry', 'the recalled entry is overwritten instead of a new one added',
  '''func TestDemo(t *testing.T) {
	h := newOpHistory(&Config{HistoryLimit: 10})
	h.New([]rune("one"))
	h.New([]rune("two"))
	h.Prev()
	h.Prev()
	h.New([]rune("three"))
	if got := string(h.history.Front().Value.(*hisItem).Source); got != "one" {
		t.Fatal(got)
	}
}
'''),
 ('C15-fold', 'C15', [('history.go', '''			if runes.Equal(current, prev.Value.(*hisItem).Source) {''', '''			if runes.EqualFold(current, prev.Value.(*hisItem).Source) {''')],
  'a line that differs from the newest entry in letter case only', 'the line is not recorded',
  '''func TestDemo(t *testing.T) {
	h := newOpHistory(&Config{HistoryLimit: 10})
	h.New([]rune("one"))
	h.New([]rune("One"))
	if h.history.Len() != 3 {
		t.Fatal(h.history.Len())
	}
}
'''),
 ('C17-cancel', 'C17', [('search.go', '''	if revert {
		o.history.current = o.source''', '''	if revert {
		if o.state == S_STATE_FOUND {
			o.history.current = o.source
		}''')],
  'cancelling a search whose last pattern has no match after an earlier one had', 'the entry the search began at is not restored',
  BUF + '''func TestDemo(t *testing.T) {
	rb := mk("", 0)
	cfg := &Config{HistoryLimit: 10}
	h := newOpHistory(cfg)
	h.New([]rune("one"))
	h.New([]rune("two"))
	s := newOpSearch(rb.w, rb, h, cfg, 80)
	at := h.current
	s.SearchMode(S_DIR_BCK)
	s.SearchChar('o')
	s.SearchChar('z')
	s.ExitSearchMode(true)
	if h.current != at {
		t.Fatal("not restored")
	}
}
'''),
 ('C17-end', 'C17', [('history.go', '''			if len(item)-1 >= start {''', '''			if len(item)-len(rs) > start {''')],
  'a forward search whose only match in the current entry ends it', 'the match is passed over',
  '''func TestDemo(t *testing.T) {
	h := newOpHistory(&Config{HistoryLimit: 10})
	h.New([]rune("xxab"))
	h.Prev()
	if i, e := h.FindFwd(false, []rune("ab"), 2); e == nil || i != 2 {
		t.Fatal(i, e)
	}
}
'''),
]
