// The completion menu: C13

package readline

// the application's completer does not touch package memory
iface AutoCompleter.Do(me, line, pos) -> (newLine, length)
  modifies nothing

def menuOK(o) = o.op != nil && o.op.opCompleter == o && o.op.buf != nil && ok(o.op.buf) && tag(o.w) != 0
// the highlighted index designates a candidate (from: -1 before the first one was chosen)
def chosen(o, from) = o.inCompleteMode && len(o.candidate) > 0 && from <= o.candidateChoise && o.candidateChoise < len(o.candidate) && o.candidateColNum >= 1
def menu(o) = (o.inSelectMode ==> chosen(o, 0)) && (o.inCompleteMode && arr(o.candidateSource) != 0 ==> len(o.candidate) > 0 && o.candidateColNum >= 1)
def left(o) = !o.inCompleteMode && !o.inSelectMode
def mstate(o) = [o.inCompleteMode, o.inSelectMode, o.candidate, o.candidateSource, o.candidateOff, o.candidateChoise]
def mdraw(o) = [o.candidateColNum, out(o.w)]
def lineKept(o) = kept(o.op.buf) && o.op.buf.idx == old(o.op.buf.idx)
def inserted(b, s) = seq(b.buf) == old(seq(b.buf)[:b.idx]) ++ s ++ old(b.buf)[old(b.idx):] && b.idx == old(b.idx) + len(s)
// something was inserted at the cursor, the rest is as it was
def grown(b) = b.idx >= old(b.idx) && len(b.buf) - old(len(b.buf)) == b.idx - old(b.idx) && (forall i in 0..old(b.idx) : b.buf[i] == old(b.buf)[i]) && (forall i in old(b.idx)..old(len(b.buf)) : b.buf[i + b.idx - old(b.idx)] == old(b.buf)[i])

func newOpCompleter(w, op, width) -> (o)
  ensures [C13: no menu] fresh(o) && left(o) && menu(o) && len(o.candidate) == 0
  ensures [C13: drawn on] same(o.w, w) && o.op == op && o.width == width
  modifies nothing
  panics C13
  frame C13

func (*opCompleter).nextCandidate(o, i)
  requires len(o.candidate) > 0
  ensures [C13: designates a candidate] 0 <= o.candidateChoise && o.candidateChoise < len(o.candidate)
  ensures [C13: the next one] old(0 <= o.candidateChoise + i && o.candidateChoise + i < len(o.candidate)) ==> o.candidateChoise == old(o.candidateChoise) + i
  modifies o.candidateChoise
  panics C13
  frame C13

func (*opCompleter).getMatrixSize(o) -> (n)
  requires o.candidateColNum >= 1
  ensures [C13: holds every candidate] n >= len(o.candidate) && n < len(o.candidate) + o.candidateColNum
  ensures [C13: rows] n == (len(o.candidate) / o.candidateColNum + (len(o.candidate) % o.candidateColNum != 0 ? 1 : 0)) * o.candidateColNum
  ensures [C13: whole rows] len(o.candidate) > 0 ==> n >= o.candidateColNum && (n > o.candidateColNum ==> len(o.candidate) > o.candidateColNum)
  modifies nothing
  panics C13
  frame C13

func (*opCompleter).CompleteRefresh(o)
  requires menuOK(o)
  ensures [C13: columns] o.inCompleteMode && len(o.candidate) > 0 ==> o.candidateColNum >= 1
  ensures [C13: nothing to draw] !o.inCompleteMode || len(o.candidate) == 0 ==> o.candidateColNum == old(o.candidateColNum)
  inv forall i in 0..$j + 1 : wsum(o.candidate[i]) <= $i
  inv $i >= 0
  modifies mdraw(o)
  panics C13
  frame C13

func (*opCompleter).doSelect(o)
  requires menuOK(o) && o.inSelectMode && chosen(o, -1)
  ensures [C13: consistent] menu(o)
  ensures [C13: the only candidate] old(len(o.candidate)) == 1 ==> left(o) && inserted(o.op.buf, old(seq(o.candidate[0])))
  ensures [C13: the next candidate] old(len(o.candidate)) > 1 ==> lineKept(o) && o.inSelectMode && chosen(o, 0) && same(o.candidate, old(o.candidate))
  ensures [C13: storage] okline(o.op.buf) && owns(o.op.buf) && ownbuf(o.op.buf) && nokill(o.op.buf)
  modifies mstate(o), mdraw(o), edit(o.op.buf)
  panics C13
  frame C13

func (*opCompleter).EnterCompleteSelectMode(o)
  requires menuOK(o)
  ensures [C13: nothing chosen yet] o.inSelectMode && o.candidateChoise == -1
  ensures [C13: columns] o.inCompleteMode && len(o.candidate) > 0 ==> o.candidateColNum >= 1
  modifies o.inSelectMode, o.candidateChoise, mdraw(o)
  panics C13
  frame C13

func (*opCompleter).EnterCompleteMode(o, offset, candidate)
  requires menuOK(o)
  ensures [C13: offered] o.inCompleteMode && same(o.candidate, candidate) && o.candidateOff == offset
  ensures [C13: columns] len(candidate) > 0 ==> o.candidateColNum >= 1
  modifies o.inCompleteMode, o.candidate, o.candidateOff, mdraw(o)
  panics C13
  frame C13

func (*opCompleter).ExitCompleteSelectMode(o)
  ensures [C13: nothing chosen] !o.inSelectMode && len(o.candidate) == 0 && arr(o.candidateSource) == 0
  modifies o.inSelectMode, o.candidate, o.candidateSource, o.candidateOff, o.candidateChoise
  panics C13
  frame C13

func (*opCompleter).ExitCompleteMode(o, revent)
  ensures [C13: left] left(o) && len(o.candidate) == 0 && menu(o)
  modifies mstate(o)
  panics C13
  frame C13

func (*opCompleter).OnWidthChange(o, newWidth)
  ensures [C13: width] o.width == newWidth
  modifies o.width
  panics C13
  frame C13

func (*opCompleter).HandleCompleteSelect(o, r) -> (res)
  requires menuOK(o) && o.inSelectMode && menu(o)
  let c = o.candidate[o.candidateChoise]
  ensures [C13: a candidate is highlighted] menu(o)
  ensures [C13: still choosing] res && o.inSelectMode ==> lineKept(o) && same(o.candidate, old(o.candidate))
  ensures [C13: accepting] r == CharEnter || r == CharCtrlJ ==> left(o) && !res && inserted(o.op.buf, old(seq(o.candidate[o.candidateChoise])))
  ensures [C13: cancelling] r == CharBell || r == CharInterrupt ==> left(o) && !res && lineKept(o)
  ensures [C13: the menu is left for any other key] !res ==> !o.inSelectMode
  ensures [C13: other keys do not touch the line] !(r == CharEnter || r == CharCtrlJ || r == CharTab || r == CharForward) ==> lineKept(o)
  ensures [C13: the only candidate] r == CharTab || r == CharForward ==> res && (old(len(o.candidate)) == 1 ==> left(o) && inserted(o.op.buf, old(seq(o.candidate[0])))) && (old(len(o.candidate)) > 1 ==> lineKept(o) && o.inSelectMode)
  ensures [C13: choosing keys] r == CharLineStart || r == CharLineEnd || r == CharNext || r == CharPrev || r == CharBackward ==> res && o.inSelectMode
  ensures [C13: storage] okline(o.op.buf) && owns(o.op.buf) && ownbuf(o.op.buf) && nokill(o.op.buf)
  modifies mstate(o), mdraw(o), edit(o.op.buf)
  panics C13
  frame C13

func (*opCompleter).OnComplete(o) -> (res)
  requires menuOK(o) && menu(o) && o.op.cfg != nil && o.op.cfg.AutoComplete != nil
  ensures [C13: consistent] menu(o)
  ensures [C13: only insertion] grown(o.op.buf)
  ensures [C13: no width, no completion] res == (old(o.width) != 0)
  ensures [C13: storage] okline(o.op.buf) && owns(o.op.buf) && ownbuf(o.op.buf) && nokill(o.op.buf)
  modifies mstate(o), mdraw(o), edit(o.op.buf), allelems("[]rune")
  panics C13
  frame C13
