// Segment completion: C12

package readline

// sst(k), snd(k): where the k-th segment starts and ends (the next space from its start, or the cursor)
uf sst local
uf snd local
uf at_sg bool
uf at_fc bool
uf at_mt bool
// fcnt(i): how many of the first i candidates start with the last segment
uf fcnt local
uf pre bool local
// mis(i): where the i-th candidate differs from the last segment
uf mis local
def notPre(c, s, m) = len(c) < len(s) || 0 <= m && m < len(s) && c[m] != s[m]
def matching(cands, s, n) = forall i in 0..n : at_fc(i) && (at_mt(i) && pre(i) ==> isPre(cands[i], s))
def notMatching(cands, s, n) = forall i in 0..n : at_fc(i) && (!pre(i) ==> notPre(cands[i], s, mis(i)))
def decided(cands, s, n) = matching(cands, s, n) && notMatching(cands, s, n)
def isPre(c, s) = len(s) <= len(c) && forall i in 0..len(s) : c[i] == s[i]
def segEnds(line, pos, a, b) = a <= b && b <= pos && (b < pos ==> line[b] == ' ') && (forall j in a..b : line[j] != ' ')
def splitDef(line, pos) = sst(0) == 0 && (forall k : at_sg(k) && k >= 0 && 0 <= sst(k) && sst(k) <= pos ==> segEnds(line, pos, sst(k), snd(k)) && sst(k + 1) == snd(k) + 1)
def segOK(segs, line, pos) = len(segs) >= 1 && (forall k in 0..len(segs) : seq(segs[k]) == line[sst(k):snd(k)]) && (forall k in 0..len(segs) - 1 : snd(k) < pos) && snd(len(segs) - 1) == pos
def fcntDef(cands, last) = fcnt(0) == 0 && forall i in 0..len(cands) : at_fc(i) ==> (pre(i) ==> isPre(cands[i], last)) && (!pre(i) ==> notPre(cands[i], last, mis(i))) && (pre(i) ==> fcnt(i + 1) == fcnt(i) + 1) && (!pre(i) ==> fcnt(i + 1) == fcnt(i))
def filtered(ret, cands, last, n) = forall i in 0..n : pre(i) ==> 0 <= fcnt(i) && fcnt(i) < len(ret) && seq(ret[fcnt(i)]) == cands[i][len(last):]

func SplitSegment(line, pos) -> (segs, n)
  requires 0 <= pos && pos <= len(line)
  define splitDef(line, pos)
  ensures [C12: pieces in order] segOK(segs, line, pos)
  ensures [C12: offset] n == len(segs[len(segs) - 1])
  ensures [C12: fresh] fresh(segs)
  inv forall k in 0..len($s) : seq($s[k]) == line[sst(k):snd(k)]
  inv forall k in 0..len($s) : snd(k) < pos
  inv at_sg(len($s)) && sst(len($s)) == $j + 1
  inv forall i in $j + 1..$i : line[i] != ' '
  inv $k == $i - $j - 1
  inv $k == $i - $j
  modifies nothing
  panics C12
  frame C12
  term C12

func RetSegment(segments, cands, idx) -> (ret, n)
  requires len(segments) > 0
  define fcntDef(cands, segments[len(segments) - 1])
  ensures [C12: all the matching candidates] at_fc(len(cands)) && len(ret) == fcnt(len(cands))
  ensures [C12: in order, stripped] filtered(ret, cands, segments[len(segments) - 1], len(cands))
  ensures [C12: which match] decided(cands, segments[len(segments) - 1], len(cands))
  ensures [C12: offset] n == idx
  ensures [C12: new list] ref(ret) == 0 || fresh(ref(ret))
  inv at_fc($i) && len($s) == fcnt($i)
  inv filtered($s, cands, segments[len(segments) - 1], $i)
  inv decided(cands, segments[len(segments) - 1], $i)
  modifies nothing
  panics C12
  frame C12
  term C12

// the application's callback: what it is given and what it returned is recorded; it neither modifies nor keeps the line
iface SegmentCompleter.DoSegment(c, segs, n) -> (res)
  requires [C12: offset passed] len(segs) > 0 && n == len(segs[len(segs) - 1])
  assume ghost(dsRes, data(c)) == arr(res) && ghost(dsOff, data(c)) == off(res) && ghost(dsLen, data(c)) == len(res)
  assume ghost(dsSegs, data(c)) == arr(segs) && ghost(dsSegsOff, data(c)) == off(segs) && ghost(dsSegsLen, data(c)) == len(segs)
  modifies ghost(dsRes, data(c)), ghost(dsOff, data(c)), ghost(dsLen, data(c)), ghost(dsSegs, data(c)), ghost(dsSegsOff, data(c)), ghost(dsSegsLen, data(c))

def given(c) = slice("[]rune", ghost(dsSegs, data(c)), ghost(dsSegsOff, data(c)), ghost(dsSegsLen, data(c)))
def offered(c) = slice("[]rune", ghost(dsRes, data(c)), ghost(dsOff, data(c)), ghost(dsLen, data(c)))

func (*SegmentComplete).Do(me, line, pos) -> (newLine, offset)
  requires 0 <= pos && pos <= len(line) && me.SegmentCompleter != nil
  ensures [C12: segments given] segOK(given(me.SegmentCompleter), line, pos)
  ensures [C12: shared length] offset == pos - sst(len(given(me.SegmentCompleter)) - 1)
  ensures [C12: all matching candidates] len(newLine) == fcnt(len(offered(me.SegmentCompleter)))
  ensures [C12: candidates that match] matching(offered(me.SegmentCompleter), line[pos - offset:pos], len(offered(me.SegmentCompleter)))
  ensures [C12: candidates that do not match] notMatching(offered(me.SegmentCompleter), line[pos - offset:pos], len(offered(me.SegmentCompleter)))
  ensures [C12: in order, stripped, with a space] forall i in 0..len(offered(me.SegmentCompleter)) : pre(i) ==> 0 <= fcnt(i) && fcnt(i) < len(newLine) && seq(newLine[fcnt(i)]) == offered(me.SegmentCompleter)[i][offset:] ++ [' ']
  inv forall i in 0..len(offered(me.SegmentCompleter)) : pre(i) && fcnt(i) >= $i ==> 0 <= fcnt(i) && fcnt(i) < len($a) && seq($a[fcnt(i)]) == offered(me.SegmentCompleter)[i][pos - sst(len(given(me.SegmentCompleter)) - 1):]
  inv forall i in 0..len(offered(me.SegmentCompleter)) : pre(i) && fcnt(i) < $i ==> 0 <= fcnt(i) && fcnt(i) < len($a) && seq($a[fcnt(i)]) == offered(me.SegmentCompleter)[i][pos - sst(len(given(me.SegmentCompleter)) - 1):] ++ [' ']
  modifies ghost(dsRes, data(me.SegmentCompleter)), ghost(dsOff, data(me.SegmentCompleter)), ghost(dsLen, data(me.SegmentCompleter)), ghost(dsSegs, data(me.SegmentCompleter)), ghost(dsSegsOff, data(me.SegmentCompleter)), ghost(dsSegsLen, data(me.SegmentCompleter))
  panics C12
  frame C12
  term C12
