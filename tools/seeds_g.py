MENU = '''package readline

import (
	"bytes"
	"testing"
)

type offer [][]rune

func (o offer) Do([]rune, int) ([][]rune, int) { return o, 0 }

// menu opens the menu over the candidates and highlights the first one
func menu(line string, width int, cands ...string) *opCompleter {
	var of offer
	for _, c := range cands {
		of = append(of, []rune(c))
	}
	var out bytes.Buffer
	cfg := &Config{AutoComplete: of, FuncGetWidth: func() int { return width }, FuncIsTerminal: func() bool { return true }, HistoryLimit: -1, Painter: &defaultPainter{}}
	op := &Operation{cfg: cfg, buf: NewRuneBuffer(&out, "", cfg, width)}
	op.opCompleter = newOpCompleter(&out, op, width)
	op.buf.WriteRunes([]rune(line))
	op.OnComplete()
	op.OnComplete()
	return op.opCompleter
}

func valid(t *testing.T, o *opCompleter) {
	if o.IsInCompleteSelectMode() && (o.candidateChoise < 0 || o.candidateChoise >= len(o.candidate)) {
		t.Fatal(o.candidateChoise, len(o.candidate))
	}
}

'''
SEEDS = [
 ('C13-prev', 'C13', [('complete.go', '''			if tmpChoise >= len(o.candidate) {
				tmpChoise -= o.candidateColNum
			}
''', '''			if tmpChoise > len(o.candidate) {
				tmpChoise -= o.candidateColNum
			}
''')],
  'previous row from the first row, in the column just after the last candidate of a ragged last row', 'the highlight leaves the candidates',
  MENU + '''func TestDemo(t *testing.T) {
	o := menu("", 12, "aa", "ba", "ca", "da", "ea")
	for i := 0; i < 4; i++ {
		valid(t, o)
		o.HandleCompleteSelect(CharLineStart)
		for k := 0; k < i; k++ {
			o.HandleCompleteSelect(CharForward)
		}
		o.HandleCompleteSelect(CharPrev)
		valid(t, o)
		for o.candidateChoise != 0 {
			o.HandleCompleteSelect(CharForward)
		}
	}
}
'''),
 ('C13-wide', 'C13', [('complete.go', '''		w := runes.WidthAll(c)
		if w > colWidth {''', '''		w := len(c)
		if w > colWidth {''')],
  'candidates of wide runes on a narrow terminal', 'drawing the menu panics with a negative repeat count',
  MENU + '''func TestDemo(t *testing.T) {
	o := menu("", 7, "\u4e16\u754c\u4e16\u754c", "\u754c\u754c")
	valid(t, o)
}
'''),
 ('C13-end', 'C13', [('complete.go', '''		num := o.candidateColNum - o.candidateChoise%o.candidateColNum - 1
		o.candidateChoise += num
		if o.candidateChoise >= len(o.candidate) {
			o.candidateChoise = len(o.candidate) - 1
		}
''', '''		num := o.candidateColNum - o.candidateChoise%o.candidateColNum - 1
		if rows := o.getMatrixSize(); o.candidateChoise+num >= rows {
			num = rows - 1 - o.candidateChoise
		}
		o.candidateChoise += num
''')],
  'line end in a ragged last row', 'the highlight goes past the last candidate',
  MENU + '''func TestDemo(t *testing.T) {
	o := menu("", 12, "aa", "ba", "ca", "da", "ea", "fa", "ga")
	for o.candidateChoise != 6 {
		o.HandleCompleteSelect(CharForward)
	}
	o.HandleCompleteSelect(CharLineEnd)
	valid(t, o)
}
'''),
 ('C13-fresh', 'C13', [('complete.go', '''	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
	if len(newLines) == 0 {
		o.ExitCompleteMode(false)
		return true
	}
''', '''	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
	if newLines == nil {
		o.ExitCompleteMode(false)
		return true
	}
'''), ('complete.go', '''		same, size := runes.Aggregate(newLines)
		if size > 0 {''', '''		same, size := []rune(nil), 0
		if len(newLines) > 0 {
			same, size = runes.Aggregate(newLines)
		}
		if size > 0 {''')],
  'a completer that answers with an empty list instead of nil, and Tab pressed twice', 'the menu opens over no candidates and the second Tab divides by zero',
  MENU + '''func TestDemo(t *testing.T) {
	var out bytes.Buffer
	cfg := &Config{AutoComplete: offer{}, FuncGetWidth: func() int { return 40 }, FuncIsTerminal: func() bool { return true }, HistoryLimit: -1, Painter: &defaultPainter{}}
	op := &Operation{cfg: cfg, buf: NewRuneBuffer(&out, "", cfg, 40)}
	op.opCompleter = newOpCompleter(&out, op, 40)
	op.buf.WriteRunes([]rune("x"))
	op.OnComplete()
	op.OnComplete()
	if op.IsInCompleteMode() {
		t.Fatal("a menu over no candidates")
	}
}
'''),
 ('C13-cancel', 'C13', [('complete.go', '''	case CharBell, CharInterrupt:
		o.ExitCompleteMode(true)
		next = false
''', '''	case CharBell, CharInterrupt:
		if o.candidateOff >= 0 && o.candidateOff < o.op.buf.Pos() {
			o.op.buf.SetWithIdx(o.op.buf.Pos(), o.candidateSource)
		} else {
			o.op.buf.Set(o.candidateSource)
		}
		o.ExitCompleteMode(true)
		next = false
''')],
  'cancelling with the cursor inside the line, when the completer matched nothing before it', 'cancelling moves the cursor to the end of the line',
  MENU + '''func TestDemo(t *testing.T) {
	var out bytes.Buffer
	cfg := &Config{AutoComplete: offer{[]rune("a"), []rune("b")}, FuncGetWidth: func() int { return 40 }, FuncIsTerminal: func() bool { return true }, HistoryLimit: -1, Painter: &defaultPainter{}}
	op := &Operation{cfg: cfg, buf: NewRuneBuffer(&out, "", cfg, 40)}
	op.opCompleter = newOpCompleter(&out, op, 40)
	op.buf.WriteRunes([]rune("xyz"))
	op.buf.MoveToLineStart()
	op.OnComplete()
	op.OnComplete()
	if !op.IsInCompleteSelectMode() {
		t.Fatal("no menu")
	}
	op.HandleCompleteSelect(CharBell)
	if op.buf.Pos() != 0 || string(op.buf.Runes()) != "xyz" {
		t.Fatal(op.buf.Pos(), string(op.buf.Runes()))
	}
}
'''),
]
