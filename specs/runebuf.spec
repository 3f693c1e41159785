// The line buffer: C01 (no panic, cursor in range), C02-C05 (effects), C06 (storage), C09 (wrapping), C10 (redraw)

package readline

// ---- state of a line buffer
def okline(r) = 0 <= r.idx && r.idx <= len(r.buf)
def okterm(r) = r.cfg != nil && tag(r.cfg.Painter) != 0 && tag(r.w) != 0 && TabWidth >= 0
def sep(a, b) = cap(a) == 0 || cap(b) == 0 || arr(a) != arr(b)
// the line's storage is its own: not the killed text's, the prompt's or the backup's
def owns(r) = sep(r.buf, r.lastKill) && sep(r.buf, r.prompt) && (r.bck != nil ==> sep(r.buf, r.bck.buf))
def ok(r) = okline(r) && okterm(r) && owns(r) && !held(r.Mutex)
def screen(r) = [r.hadClean, out(r.w)]
def text(r) = seq(r.buf)
// the text storage after an operation: the old array or a new one
def ownbuf(r) = fresh(r.buf) || arr(r.buf) == old(arr(r.buf)) && cap(r.buf) <= old(cap(r.buf)) || cap(r.buf) == 0
def wb(c) = !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9')
// a word starts at i (i > 0)
def wstart(b, i) = !wb(b[i]) && wb(b[i - 1])
def wend(b, i) = wb(b[i]) && !wb(b[i - 1])
def kept(r) = seq(r.buf) == old(seq(r.buf))
def nokill(r) = same(r.lastKill, old(r.lastKill))
def killed(r, a, b) = seq(r.lastKill) == old(r.buf)[a:b] && (fresh(r.lastKill) || cap(r.lastKill) == 0)
def cut(r, a, b) = seq(r.buf) == old(r.buf)[:a] ++ old(r.buf)[b:]

func IsWordBreak(i) -> (res)
  ensures [C03 C05] res <==> wb(i)
  modifies nothing
  panics C01 C03 C05
  frame C03 C05
  term C01

func LineCount(screenWidth, w) -> (res)
  ensures [C09: quotient] w >= 0 && screenWidth > 0 ==> (res - 1) * screenWidth < w && w <= res * screenWidth
  ensures [C09: nowrap] screenWidth <= 0 ==> res == 1
  modifies nothing
  panics C09
  frame C09
  term C09

func SplitByLine(start, screenWidth, rs) -> (res)
  requires TabWidth >= 0
  ensures [C09: nonempty] len(res) >= 1
  ensures [C09: lines] start >= 0 && screenWidth > 0 ==> (len(res) - 1) * screenWidth <= start + wsum(rs)
  inv screenWidth > 0 ==> len($s) * screenWidth + $j <= start + wsum(rs[:$i])
  inv start >= 0 ==> $j >= 0
  modifies nothing
  panics C09
  frame C09
  term C09

// the width of a prompt is a function of the prompt slice (its runes are never rewritten in place)
uf promptW
def pw(r) = promptW(arr(r.prompt), off(r.prompt), len(r.prompt))
func (*RuneBuffer).promptLen(me) -> (res)
  requires TabWidth >= 0
  ensures [C09] res >= 0
  assume res == pw(me)
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).getSplitByLine(me, rs) -> (res)
  requires TabWidth >= 0
  ensures [C09: lines] me.width > 0 ==> (len(res) - 1) * me.width <= pw(me) + wsum(rs)
  ensures [C09: nonempty] len(res) >= 1
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).idxLine(me, width) -> (res)
  requires okline(me) && TabWidth >= 0
  ensures [C09] res >= 0
  ensures [C09: lines] width > 0 && me.width > 0 ==> res * me.width <= pw(me) + wsum(me.buf[:me.idx])
  ensures [C09: nowrap] width <= 0 ==> res == 0
  modifies nothing
  panics C01 C09
  frame C09
  term C09

// what erases: cursor motion and the letters of the two erasing sequences
def emotion(c) = cmotion(c) || c == 'J' || c == 'K'

func (*RuneBuffer).cleanOutput(me, w, idxLine)
  requires tag(w) != 0 && TabWidth >= 0
  shows [C10: erasing shows nothing] forall k in len(old(out(w)))..len(out(w)) : emotion(out(w)[k])
  inv forall k in 0..len(content($m)) : emotion(content($m)[k])
  modifies out(w)
  panics C01 C09 C10
  frame C01 C09 C10
  term C01 C09

func (*RuneBuffer).clean(me)
  requires okline(me) && okterm(me)
  modifies me.hadClean, out(me.w)
  panics C01 C09
  frame C01 C09
  term C09

func (*RuneBuffer).print(me)
  requires okline(me) && okterm(me)
  ensures [C10: drawn] !me.hadClean
  shows [C10: the prompt is written] promptAt(drawn(me), me)
  shows [C10: one mask rune per rune] masked(me) ==> maskAt(drawn(me), me, len(me.prompt))
  shows [C10: nothing else of a masked line] masked(me) ==> forall k in len(me.prompt) + len(me.buf)..len(drawn(me)) : cmotion(drawn(me)[k])
  shows [C10: left once per rune after the cursor, masked] masked(me) ==> count(drawn(me)[len(me.prompt) + len(me.buf):], 8) == len(me.buf) - me.idx
  shows [C10: the painted line] !masked(me) ==> forall k in 0..plen() : at_pp(k) ==> paintAt(drawn(me), k)
  shows [C10: left once per rune after the cursor] !masked(me) ==> leftOnce(drawn(me), me)
  modifies me.hadClean, out(me.w)
  panics C01 C09 C10
  frame C01 C09 C10
  term C09

// plen/prune name the line the painter answered with
uf plen
uf prune
uf ppos local
uf at_pp bool
iface Painter.Paint(me, line, pos) -> (res)
  ensures len(res) == plen() && forall i in 0..len(res) : res[i] == prune(i)
  modifies nothing

func (*defaultPainter).Paint(p, line, pos) -> (res)
  ensures [C10: unpainted] same(res, line)
  modifies nothing
  panics C10
  frame C10

def masked(r) = r.cfg.EnableMask && len(r.buf) > 0
// what moves the cursor: backspace, carriage return, escape, digits and the letters of the two sequences
def cmotion(c) = c == 8 || c == 13 || c == 27 || c == '[' || c == 'A' || c == 'C' || c == '-' || '0' <= c && c <= '9'
def pw1(i) = prune(i) == 9 ? TabWidth : 1
def promptAt(T, r) = len(T) >= len(r.prompt) && forall i in 0..len(r.prompt) : T[i] == vr(r.prompt[i])
def maskAt(T, r, p) = len(T) >= p + len(r.buf) && (forall i in 0..len(r.buf) - 1 : T[p + i] == vr(r.cfg.MaskRune)) && T[p + len(r.buf) - 1] == (r.buf[len(r.buf) - 1] == 10 ? 10 : vr(r.cfg.MaskRune))
def paintAt(T, k) = 0 <= ppos(k) && ppos(k) + pw1(k) <= len(T) && (prune(k) == 9 ? (forall j in 0..TabWidth : T[ppos(k) + j] == 32) : T[ppos(k)] == vr(prune(k)))

def leftOnce(T, r) = 0 <= ppos(plen()) && ppos(plen()) <= len(T) && (count(T[ppos(plen()):], 8) == len(r.buf) - r.idx || ppos(plen()) + 2 <= len(T) && T[ppos(plen())] == 32 && T[ppos(plen()) + 1] == 8 && count(T[ppos(plen()):], 8) == len(r.buf) - r.idx + 1)
// what was written to the terminal
def drawn(r) = out(r.w)[len(old(out(r.w))):]

func (*RuneBuffer).output(me) -> (res)
  requires okline(me) && okterm(me)
  define ppos(0) == len(me.prompt) && forall i in 0..plen() : at_pp(i) ==> ppos(i + 1) == ppos(i) + pw1(i)
  ensures [C10: its own bytes] fresh(res)
  ensures [C10: the prompt] promptAt(runesof(res), me)
  ensures [C10: one mask rune per rune] masked(me) ==> maskAt(runesof(res), me, len(me.prompt))
  ensures [C10: nothing else of a masked line] masked(me) ==> forall k in len(me.prompt) + len(me.buf)..len(runesof(res)) : cmotion(runesof(res)[k])
  ensures [C10: left once per rune after the cursor, masked] masked(me) ==> count(runesof(res)[len(me.prompt) + len(me.buf):], 8) == len(me.buf) - me.idx
  ensures [C10: the painted line] !masked(me) ==> forall k in 0..plen() : at_pp(k) ==> paintAt(runesof(res), k)
  ensures [C10: left once per rune after the cursor] !masked(me) ==> leftOnce(runesof(res), me)
  inv promptAt(content($m), me)
  inv at_pp($i) && len(content($m)) == ppos($i)
  inv forall k in 0..$i : ppos(k) + pw1(k) <= ppos($i) && paintAt(content($m), k)
  modifies nothing
  panics C01 C09 C10
  frame C01 C09 C10

// ---- editing
def edit(r) = [r.buf, r.idx, when(cap(r.buf) > 0, elems(r.buf)), r.hadClean, out(r.w)]
def kill(r) = [edit(r), r.lastKill]
def move(r) = [r.idx, r.hadClean, out(r.w)]

func (*RuneBuffer).MoveToLineStart(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: target] me.idx == 0
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveToLineEnd(me)
  uses C20 C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: target] me.idx == len(me.buf)
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveBackward(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: target] me.idx == max(0, old(me.idx) - 1)
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveForward(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: target] me.idx == min(len(me.buf), old(me.idx) + 1)
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveToPrevWord(me) -> (success)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: moved] success <==> old(me.idx) > 0
  ensures [C05: left] old(me.idx) > 0 ==> me.idx < old(me.idx)
  ensures [C05: start] me.idx == 0 || wstart(me.buf, me.idx) || me.idx == old(me.idx)
  ensures [C05: nearest] forall k in max(1, me.idx + 1)..old(me.idx) : !wstart(me.buf, k)
  inv forall k in $i + 1..me.idx : !wstart(me.buf, k)
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveToNextWord(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: right] me.idx > old(me.idx) || me.idx == len(me.buf)
  ensures [C05: start] me.idx == len(me.buf) || wstart(me.buf, me.idx)
  ensures [C05: nearest] forall k in old(me.idx) + 1..me.idx : !wstart(me.buf, k)
  inv forall k in me.idx + 1..$i : !wstart(me.buf, k)
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveToEndWord(me)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: right] me.idx > old(me.idx) || old(me.idx) == len(me.buf)
  ensures [C05: end] me.idx == len(me.buf) || !wb(me.buf[me.idx]) && wb(me.buf[me.idx + 1])
  ensures [C05: nearest] forall k in old(me.idx) + 1..min(me.idx, len(me.buf) - 1) : !(!wb(me.buf[k]) && wb(me.buf[k + 1]))
  inv forall k in old(me.idx) + 1..$i - 1 : !(!wb(me.buf[k]) && wb(me.buf[k + 1]))
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).MoveTo(me, ch, prevChar, reverse) -> (success)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C05: fails] !success ==> me.idx == old(me.idx) && (reverse ? (forall k in 0..me.idx : me.buf[k] != ch) : (forall k in me.idx + 1..len(me.buf) : me.buf[k] != ch))
  ensures [C05: back] success && reverse ==> exists p in 0..old(me.idx) : me.buf[p] == ch && (forall k in p + 1..old(me.idx) : me.buf[k] != ch) && me.idx == (prevChar ? p + 1 : p)
  ensures [C05: forward] success && !reverse ==> exists p in old(me.idx) + 1..len(me.buf) : me.buf[p] == ch && (forall k in old(me.idx) + 1..p : me.buf[k] != ch) && me.idx == (prevChar ? p - 1 : p)
  inv forall k in $i + 1..me.idx : me.buf[k] != ch
  inv forall k in me.idx + 1..$i : me.buf[k] != ch
  modifies move(me)
  panics C01
  frame C05 C06
  term C01

func (*RuneBuffer).Transpose(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C05: short] len(me.buf) < 2 ==> kept(me)
  ensures [C05: length] len(me.buf) == old(len(me.buf))
  ensures [C05: swapped] len(me.buf) >= 2 ==> me.buf[me.idx - 1] == old(me.buf)[me.idx - 2] && me.buf[me.idx - 2] == old(me.buf)[me.idx - 1]
  ensures [C05: rest] len(me.buf) >= 2 ==> forall k in 0..len(me.buf) : k != me.idx - 1 && k != me.idx - 2 ==> me.buf[k] == old(me.buf[k])
  ensures [C05: where] len(me.buf) >= 2 ==> me.idx == min(len(me.buf), max(2, old(me.idx) + 1))
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).WriteRunes(me, s)
  uses C20 C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: text] seq(me.buf) == old(seq(me.buf)[:me.idx]) ++ old(seq(s)) ++ old(me.buf)[old(me.idx):]
  ensures [C02: cursor] me.idx == old(me.idx) + len(s)
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).WriteRune(me, s)
  uses C20 C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: text] seq(me.buf) == old(seq(me.buf)[:me.idx]) ++ {1 : k => s} ++ old(me.buf)[old(me.idx):]
  ensures [C02: cursor] me.idx == old(me.idx) + 1
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).WriteString(me, s)
  uses C20
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: text] seq(me.buf) == old(seq(me.buf)[:me.idx]) ++ seq(s) ++ old(me.buf)[old(me.idx):]
  ensures [C02: cursor] me.idx == old(me.idx) + rlen(s)
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Replace(me, ch)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: cursor] me.idx == old(me.idx)
  ensures [C02: text] len(me.buf) == old(len(me.buf)) && forall k in 0..len(me.buf) : me.buf[k] == (k == me.idx ? ch : old(me.buf[k]))
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).SetWithIdx(me, idx, buf)
  uses C21
  requires ok(me)
  requires 0 <= idx && idx <= len(buf)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: text] seq(me.buf) == old(seq(buf))
  ensures [C02: cursor] me.idx == idx
  ensures [C06: copy] fresh(me.buf)
  ensures [C10: redrawn] me.interactive ==> !me.hadClean
  modifies [me.buf, me.idx, me.hadClean, out(me.w)]
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Set(me, buf)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: text] seq(me.buf) == old(seq(buf))
  ensures [C02: cursor] me.idx == len(buf)
  ensures [C06: copy] fresh(me.buf)
  modifies [me.buf, me.idx, me.hadClean, out(me.w)]
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Reset(me) -> (res)
  uses C20
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C02: returned] seq(res) == old(seq(me.buf))
  ensures [C06: copy] fresh(res) || cap(res) == 0
  ensures [C02: empty] len(me.buf) == 0 && me.idx == 0
  modifies [me.buf, me.idx]
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Runes(me) -> (res)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C06 C02: copy] seq(res) == seq(me.buf) && fresh(res)
  modifies nothing
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Pos(me) -> (res)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C02: pos] res == me.idx
  modifies nothing
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Len(me) -> (res)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C02: len] res == len(me.buf)
  modifies nothing
  panics C01
  frame C06
  term C01

func (*RuneBuffer).IsCursorInEnd(me) -> (res)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C02: end] res <==> me.idx == len(me.buf)
  modifies nothing
  panics C01
  frame C06
  term C01

func (*RuneBuffer).RuneSlice(me, i) -> (res)
  requires ok(me)
  requires 0 <= me.idx + i && me.idx + i <= len(me.buf)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C06: copy] fresh(res)
  ensures [C02: part] seq(res) == (i > 0 ? me.buf[me.idx:me.idx + i] : me.buf[me.idx + i:me.idx])
  modifies nothing
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Backup(me)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C06: saved] me.bck != nil && seq(me.bck.buf) == seq(me.buf) && me.bck.idx == me.idx && fresh(me.bck.buf)
  modifies me.bck
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Restore(me)
  requires ok(me)
  requires me.bck != nil ==> 0 <= me.bck.idx && me.bck.idx <= len(me.bck.buf)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C06: restored] me.bck != nil ==> seq(me.buf) == seq(me.bck.buf) && me.idx == me.bck.idx
  ensures [C06: nothing] me.bck == nil ==> kept(me) && me.idx == old(me.idx)
  ensures [C06: copy] me.bck == nil ? same(me.buf, old(me.buf)) : fresh(me.buf)
  modifies [me.buf, me.idx, me.hadClean, out(me.w)]
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Backspace(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C03: removed] old(me.idx) > 0 ==> cut(me, old(me.idx) - 1, old(me.idx)) && me.idx == old(me.idx) - 1
  ensures [C03: nothing] old(me.idx) == 0 ==> kept(me) && me.idx == 0
  modifies edit(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Delete(me) -> (success)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: success] success <==> old(me.idx) < old(len(me.buf))
  ensures [C03: removed] success ==> cut(me, me.idx, me.idx + 1)
  ensures [C04: saved] success ==> killed(me, me.idx, me.idx + 1)
  ensures [C03: cursor] me.idx == old(me.idx)
  ensures [C03: nothing] !success ==> kept(me)
  ensures [C04: nothing] !success ==> nokill(me)
  modifies kill(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Kill(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: removed] seq(me.buf) == old(seq(me.buf))[:me.idx]
  ensures [C03: cursor] me.idx == old(me.idx)
  ensures [C04: saved] old(me.idx) < old(len(me.buf)) ==> killed(me, me.idx, old(len(me.buf)))
  ensures [C04: nothing] old(me.idx) == old(len(me.buf)) ==> nokill(me)
  modifies kill(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).KillFront(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: removed] seq(me.buf) == old(me.buf)[old(me.idx):] && me.idx == 0
  ensures [C04: saved] old(me.idx) > 0 ==> killed(me, 0, old(me.idx))
  ensures [C04: nothing] old(me.idx) == 0 ==> nokill(me)
  modifies kill(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Erase(me)
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: removed] len(me.buf) == 0 && me.idx == 0
  ensures [C04: saved] old(len(me.buf)) > 0 ==> killed(me, 0, old(len(me.buf)))
  ensures [C04: nothing] old(len(me.buf)) == 0 ==> nokill(me)
  modifies kill(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).BackEscapeWord(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: removed] cut(me, me.idx, old(me.idx))
  ensures [C03: left] old(me.idx) > 0 ==> me.idx < old(me.idx)
  ensures [C03: start] me.idx == 0 || wstart(old(me.buf), me.idx)
  ensures [C03: nearest] forall k in max(1, me.idx + 1)..old(me.idx) : !wstart(old(me.buf), k)
  ensures [C04: saved] old(me.idx) > 0 ==> killed(me, me.idx, old(me.idx))
  ensures [C04: nothing] old(me.idx) == 0 ==> nokill(me)
  inv forall k in $i + 1..me.idx : !wstart(me.buf, k)
  modifies kill(me)
  panics C01
  frame C06
  term C01

func (*RuneBuffer).Yank(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C04: kill] nokill(me)
  ensures [C04: yanked] seq(me.buf) == old(seq(me.buf)[:me.idx]) ++ old(seq(me.lastKill)) ++ old(me.buf)[old(me.idx):]
  ensures [C04: cursor] me.idx == old(me.idx) + len(me.lastKill)
  modifies edit(me)
  panics C01
  frame C06
  term C01

def dwEnd(r) = old(r.idx) + old(len(r.buf)) - len(r.buf)
func (*RuneBuffer).DeleteWord(me)
  uses C21
  requires ok(me)
  ensures [C01: cursor] okline(me)
  ensures [C06 C04: storage] owns(me) && ownbuf(me)
  ensures [C03: cursor] me.idx == old(me.idx)
  ensures [C03: length] me.idx <= dwEnd(me) && dwEnd(me) <= old(len(me.buf))
  ensures [C03: removed] cut(me, me.idx, dwEnd(me))
  ensures [C03: start] dwEnd(me) == old(len(me.buf)) || wstart(old(me.buf), dwEnd(me) + 1) && exists k in me.idx..dwEnd(me) : !wb(old(me.buf)[k])
  ensures [C03: nearest] forall j in me.idx + 1..min(dwEnd(me) + 1, old(len(me.buf))) : wstart(old(me.buf), j) ==> forall k in me.idx..j : wb(old(me.buf)[k])
  ensures [C04: saved] old(me.idx) < old(len(me.buf)) ==> killed(me, me.idx, dwEnd(me))
  ensures [C04: nothing] old(me.idx) == old(len(me.buf)) ==> nokill(me)
  inv forall k in me.idx..$i : wb(me.buf[k])
  inv forall k in me.idx..$n : wb(me.buf[k])
  inv forall k in $n..$i : !wstart(me.buf, k)
  modifies kill(me)
  panics C01
  frame C06
  term C01

// ---- queries and settings
func (*RuneBuffer).OnWidthChange(me, newWidth)
  requires !held(me.Mutex)
  ensures [C09: width] me.width == newWidth
  modifies me.width
  panics C01
  frame C06
  term C01

func (*RuneBuffer).SetConfig(me, cfg)
  requires cfg != nil && cfg.FuncIsTerminal != nil && !held(me.Mutex)
  ensures [C23: config] me.cfg == cfg
  modifies me.cfg, me.interactive
  panics C23
  frame C23
  term C23

func (*RuneBuffer).SetMask(me, m)
  requires me.cfg != nil && !held(me.Mutex)
  ensures [C10 C23: mask] me.cfg.MaskRune == m
  modifies me.cfg.MaskRune
  panics C10
  frame C10 C23
  term C10

func (*RuneBuffer).SetPrompt(me, prompt)
  requires !held(me.Mutex)
  ensures [C10: prompt] seq(me.prompt) == seq(prompt)
  ensures [C06: fresh] fresh(me.prompt) || cap(me.prompt) == 0
  modifies me.prompt
  panics C01
  frame C06
  term C01

func (*RuneBuffer).SetOffset(me, offset)
  requires !held(me.Mutex)
  modifies me.offset
  panics C01
  frame C06
  term C01

func (*RuneBuffer).PromptLen(me) -> (res)
  requires TabWidth >= 0 && !held(me.Mutex)
  ensures [C09] res >= 0 && res == pw(me)
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).CurrentWidth(me, x) -> (res)
  requires 0 <= x && x <= len(me.buf) && !held(me.Mutex)
  ensures [C09: width] res == wsum(me.buf[:x])
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).calWidth(me, m) -> (res)
  requires 0 <= me.idx && me.idx <= len(me.buf) && 0 <= me.idx + m && me.idx + m <= len(me.buf)
  ensures [C09: width] res == (m > 0 ? wsum(me.buf[me.idx:me.idx + m]) : wsum(me.buf[me.idx + m:me.idx]))
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).IdxLine(me, width) -> (res)
  requires okline(me) && TabWidth >= 0 && !held(me.Mutex)
  ensures [C09] res >= 0
  ensures [C09: lines] width > 0 && me.width > 0 ==> res * me.width <= pw(me) + wsum(me.buf[:me.idx])
  ensures [C09: nowrap] width <= 0 ==> res == 0
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).LineCount(me, width) -> (res)
  requires TabWidth >= 0 && !held(me.Mutex)
  let w = width == -1 ? me.width : width
  ensures [C09: nowrap] w <= 0 ==> res == 1
  ensures [C09: quotient] w > 0 ==> (res - 1) * w < pw(me) + wsum(me.buf) && pw(me) + wsum(me.buf) <= res * w
  ensures [C09: positive] res >= 0
  modifies nothing
  panics C09
  frame C09
  term C09

func (*RuneBuffer).getBackspaceSequence(me) -> (res)
  requires okline(me) && TabWidth >= 0
  ensures [C10: fresh] fresh(res) || cap(res) == 0
  ensures [C10: one backspace per rune after the cursor] count(res, 8) == len(me.buf) - me.idx
  ensures [C10: only cursor motion] forall k in 0..len(res) : cmotion(res[k])
  inv count($s, 8) == len(me.buf) - $i
  inv forall k in 0..len($s) : cmotion($s[k])
  modifies nothing
  panics C09 C10
  frame C09 C10
  term C09

func (*RuneBuffer).isInLineEdge(me) -> (res)
  requires TabWidth >= 0
  modifies nothing
  panics C09 C10
  frame C09 C10
  term C09

func (*RuneBuffer).Clean(me)
  uses C20
  requires okline(me) && okterm(me) && !held(me.Mutex)
  modifies me.hadClean, out(me.w)
  panics C01 C09
  frame C01 C09
  term C01 C09

func (*RuneBuffer).cleanWithIdxLine(me, idxLine)
  requires okterm(me)
  modifies me.hadClean, out(me.w)
  panics C01 C09
  frame C01 C09
  term C01 C09

func (*RuneBuffer).CursorLineCount(me) -> (res)
  requires okline(me) && TabWidth >= 0 && !held(me.Mutex)
  ensures [C09 C17: nonnegative] res >= 0
  modifies nothing
  panics C09
  frame C09
  term C09
