// Incremental search: C17 (the searching in the history itself is in history.spec)

package readline

// ---- the search object: the pattern's storage is its own
def apart(o, s) = sepr(o.data, s)
def dataOwn(o) = apart(o, o.buf.buf) && apart(o, o.buf.lastKill) && apart(o, o.buf.prompt) && (o.buf.bck != nil ==> apart(o, o.buf.bck.buf)) && forall e : own(o.history, e) ==> apart(o, it(elem(e)).Tmp) && apart(o, it(elem(e)).Source)
def markOK(o) = 0 <= o.markStart && o.markStart <= o.markEnd
def srchOK(o) = o.buf != nil && ok(o.buf) && tag(o.w) != 0 && o.history != nil && inv(o.history) && markOK(o) && dataOwn(o)

func (*RuneBuffer).SetStyle(me, start, end, style)
  requires ok(me) && 0 <= start && start <= end && end <= len(me.buf)
  modifies out(me.w)
  panics C17
  frame C17

func (*opSearch).OnWidthChange(me, newWidth)
  ensures [C17] me.width == newWidth
  modifies me.width
  panics C17
  frame C17

func (*opSearch).IsSearchMode(me) -> (res)
  ensures [C17] res == me.inMode
  modifies nothing
  panics C17
  frame C17

func (*opSearch).SearchRefresh(me, x)
  requires srchOK(me) && x <= len(me.buf.buf)
  ensures [C17: state] me.state == (x == -2 ? 1 : x >= 0 ? 0 : old(me.state))
  modifies me.state, out(me.w), out(me.buf.w)
  panics C17
  frame C17

func (*opSearch).findHistoryBy(me, isNewSearch) -> (idx, elem)
  inline

func (*opSearch).search(me, isChange) -> (res)
  requires srchOK(me)
  let h = me.history
  let l = h.history
  let cur = h.current
  let at = me.buf.idx
  let n = len(me.data)
  let sb = isChange ? at + n : at
  let sf = isChange ? max(at - n, 0) : at
  let back = me.dir == 0
  let listed = cur != nil && llist(cur) == l
  ensures [C17: nothing to look for] n == 0 ==> res && seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == at && h.current == cur && me.state == 0
  ensures [C17: not found, nothing changes] !res ==> seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == at && h.current == cur && me.state == 1
  ensures [C17: failing only without a match] n > 0 && !res && back && listed ==> forall p in lo(l)..lpos(cur) + 1 : noneB(h, cur, lat(l, p), me.data, sb)
  ensures [C17: failing only without a match, forward] n > 0 && !res && !back && listed ==> forall p in lpos(cur)..hi(l) : noneF(h, cur, lat(l, p), me.data, sf)
  ensures [C17: nearest entry] n > 0 && res && back && listed ==> forall p in lpos(h.current) + 1..lpos(cur) + 1 : noneB(h, cur, lat(l, p), me.data, sb)
  ensures [C17: nearest entry, forward] n > 0 && res && !back && listed ==> forall p in lpos(cur)..lpos(h.current) : noneF(h, cur, lat(l, p), me.data, sf)
  ensures [C17: direction] n > 0 && res ==> h.current == cur || listed && llist(h.current) == l && (back ? lpos(h.current) < lpos(cur) : lpos(h.current) > lpos(cur))
  ensures [C17: line shown] n > 0 && res ==> cur != nil && seq(me.buf.buf) == seq(txt(h, h.current)) && me.state == 0
  ensures [C17: last occurrence] n > 0 && res && back ==> me.buf.idx < endB(h, cur, h.current, me.data, sb) && matchAt(txt(h, h.current), me.data, me.buf.idx, fold(h)) && noMatch(txt(h, h.current), me.data, me.buf.idx + 1, endB(h, cur, h.current, me.data, sb), fold(h))
  ensures [C17: first occurrence] n > 0 && res && !back ==> startF(h, cur, h.current, sf) <= me.buf.idx - n && matchAt(txt(h, h.current), me.data, me.buf.idx - n, fold(h)) && noMatchFrom(txt(h, h.current), me.data, startF(h, cur, h.current, sf), me.buf.idx - n - startF(h, cur, h.current, sf), fold(h))
  ensures [C17: line storage] n > 0 && res ? fresh(me.buf.buf) : same(me.buf.buf, old(me.buf.buf))
  ensures [C17: invariant] srchOK(me)
  modifies me.state, me.markStart, me.markEnd, me.history.current, me.buf.buf, me.buf.idx, me.buf.hadClean, out(me.w), out(me.buf.w)
  panics C17
  frame C17

func (*opSearch).SearchChar(me, r)
  requires srchOK(me)
  ensures [C17: pattern] seq(me.data) == old(seq(me.data)) ++ [r]
  ensures [C17: not found, nothing changes] me.state == 1 ==> seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == old(me.buf.idx) && me.history.current == old(me.history.current)
  ensures [C17: line storage] same(me.buf.buf, old(me.buf.buf)) || fresh(me.buf.buf)
  ensures [C17: invariant] srchOK(me)
  modifies me.data, when(cap(me.data) > 0, elems(me.data)), me.state, me.markStart, me.markEnd, me.history.current, me.buf.buf, me.buf.idx, me.buf.hadClean, out(me.w), out(me.buf.w)
  panics C17
  frame C17

func (*opSearch).SearchBackspace(me)
  requires srchOK(me)
  ensures [C17: pattern] old(len(me.data)) > 0 ==> seq(me.data) == old(seq(me.data))[:old(len(me.data)) - 1]
  ensures [C17: nothing to remove] old(len(me.data)) == 0 ==> same(me.data, old(me.data)) && seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == old(me.buf.idx) && me.history.current == old(me.history.current)
  ensures [C17: line storage] same(me.buf.buf, old(me.buf.buf)) || fresh(me.buf.buf)
  ensures [C17: invariant] srchOK(me)
  modifies me.data, me.state, me.markStart, me.markEnd, me.history.current, me.buf.buf, me.buf.idx, me.buf.hadClean, out(me.w), out(me.buf.w)
  panics C17
  frame C17

func (*opSearch).SearchMode(me, dir) -> (res)
  requires srchOK(me)
  ensures [C17: needs a width] res == (me.width != 0) && (!res ==> me.inMode == old(me.inMode))
  ensures [C17: mode] res ==> me.inMode && me.dir == dir
  ensures [C17: where it began] res && !old(me.inMode) ==> me.source == old(me.history.current) && me.history.current == old(me.history.current) && me.buf.bck != nil && seq(me.buf.bck.buf) == old(seq(me.buf.buf)) && me.buf.bck.idx == old(me.buf.idx) && seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == old(me.buf.idx)
  ensures [C17: where it began stays] old(me.inMode) ==> me.source == old(me.source) && me.buf.bck == old(me.buf.bck)
  ensures [C17: line storage] same(me.buf.buf, old(me.buf.buf)) || fresh(me.buf.buf)
  ensures [C17: invariant] srchOK(me)
  modifies when(me.width != 0, [me.inMode, me.dir, me.state, me.markStart, me.markEnd, me.history.current, me.buf.buf, me.buf.idx, me.buf.hadClean, out(me.w), out(me.buf.w)]), when(me.width != 0 && !me.inMode, [me.source, me.buf.bck])
  panics C17
  frame C17

// the entry the search began at is an entry of this history (nothing is recorded during a search)
def sourceOK(o) = o.source == nil || isItem(o.source) && (llist(o.source) == nil || llist(o.source) == o.history.history)

func (*opSearch).ExitSearchMode(me, revert)
  requires srchOK(me) && sourceOK(me) && (me.buf.bck != nil ==> 0 <= me.buf.bck.idx && me.buf.bck.idx <= len(me.buf.bck.buf))
  ensures [C17: cancelling restores] revert ==> me.history.current == old(me.source) && (me.buf.bck != nil ==> seq(me.buf.buf) == seq(me.buf.bck.buf) && me.buf.idx == me.buf.bck.idx)
  ensures [C17: accepting keeps the line] !revert ==> me.history.current == old(me.history.current) && seq(me.buf.buf) == old(seq(me.buf.buf)) && me.buf.idx == old(me.buf.idx)
  ensures [C17: line storage] same(me.buf.buf, old(me.buf.buf)) || fresh(me.buf.buf)
  ensures [C17: line well formed] okline(me.buf) && owns(me.buf)
  ensures [C17: mode] !me.inMode && me.source == nil && len(me.data) == 0 && cap(me.data) == 0 && me.markStart == 0 && me.markEnd == 0 && me.state == 0
  modifies me.inMode, me.source, me.data, me.state, me.markStart, me.markEnd, when(revert, [me.history.current, me.buf.buf, me.buf.idx, me.buf.hadClean, out(me.buf.w)])
  panics C17
  frame C17
