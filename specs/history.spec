// History: C14 (navigation), C15 (recording), C17 (search in the history)

package readline

// ---- the history object. The list holds the recorded lines, oldest first, and at its end the line being entered.
def it(e) = e.Value.(*hisItem)
def isItem(e) = is(e.Value, *hisItem) && data(e.Value) != 0
def shown(o, h) = h.Version == o.historyVer ? seq(h.Tmp) : seq(h.Source)
def sepr(a, b) = cap(a) == 0 || cap(b) == 0 || arr(a) != arr(b)
def listOK(l) = l != nil && lo(l) <= hi(l) && (forall p in lo(l)..hi(l) : lat(l, p) != nil && alloc(lat(l, p)) && llist(lat(l, p)) == l && lpos(lat(l, p)) == p) && (forall e : llist(elem(e)) == l ==> lo(l) <= lpos(elem(e)) && lpos(elem(e)) < hi(l) && lat(l, lpos(elem(e))) == elem(e))
def curOK(o) = o.current == nil || isItem(o.current) && alloc(o.current) && (llist(o.current) == nil || llist(o.current) == o.history)
def itemsOK(o) = forall p in lo(o.history)..hi(o.history) : isItem(lat(o.history, p))
def histOK(o) = o.cfg != nil && listOK(o.history) && itemsOK(o) && curOK(o)
// every element carries an item of its own, and the text being edited in one is stored apart from all other texts
def elem(e) = typed("*list.Element", e)
def own(o, e) = elem(e) != nil && (llist(elem(e)) == o.history || elem(e) == o.current)
def ownItems(o) = forall e : forall f : own(o, e) && own(o, f) && e != f ==> data(elem(e).Value) != data(elem(f).Value)
def ownTmps(o) = forall e : forall f : own(o, e) && own(o, f) ==> (e != f ==> sepr(it(elem(e)).Tmp, it(elem(f)).Tmp)) && sepr(it(elem(e)).Tmp, it(elem(f)).Source)
def vers(o) = (forall p in lo(o.history)..hi(o.history) : it(lat(o.history, p)).Version <= o.historyVer) && (o.current != nil ==> it(o.current).Version <= o.historyVer)
// the recorded lines: all but the last element; nothing is recorded in that one yet
def scratch(o) = lo(o.history) < hi(o.history) ==> len(it(lat(o.history, hi(o.history) - 1)).Source) == 0
def inv(o) = histOK(o) && ownItems(o) && ownTmps(o)
def older(o) = o.current != nil && llist(o.current) != nil && lpos(o.current) > lo(o.history)
def newer(o) = o.current != nil && llist(o.current) != nil && lpos(o.current) < hi(o.history) - 1

func (*opHistory).showItem(me, obj) -> (res)
  requires is(obj, *hisItem) && data(obj) != 0
  ensures [C14 C17: edited or recorded text] same(res, obj.(*hisItem).Version == me.historyVer ? obj.(*hisItem).Tmp : obj.(*hisItem).Source)
  modifies nothing
  panics C14 C17
  frame C14 C17

func (*opHistory).Prev(me) -> (res)
  requires histOK(me)
  let l = me.history
  let p = lpos(me.current) - 1
  ensures [C14: stays at the oldest] !old(older(me)) ==> ref(res) == 0 && me.current == old(me.current)
  ensures [C14: one step older] old(older(me)) ==> me.current == lat(l, p)
  ensures [C14: text shown] old(older(me)) ==> ref(res) != 0 && seq(res) == shown(me, it(me.current))
  ensures [C14: a copy] fresh(res)
  ensures [C14: invariant] histOK(me)
  modifies me.current
  panics C14
  frame C14

func (*opHistory).Next(me) -> (res, ok)
  requires histOK(me)
  let l = me.history
  let p = lpos(me.current) + 1
  ensures [C14: stays at the newest] !old(newer(me)) ==> !ok && me.current == old(me.current)
  ensures [C14: one step newer] old(newer(me)) ==> ok && me.current == lat(l, p)
  ensures [C14: text shown] ok ==> seq(res) == shown(me, it(me.current))
  ensures [C14: a copy] fresh(res)
  ensures [C14: invariant] histOK(me)
  modifies me.current
  panics C14
  frame C14

func newOpHistory(cfg) -> (o)
  requires cfg != nil
  ensures [C14 C15: empty] histOK(o) && lo(o.history) == hi(o.history) && o.current == nil && fresh(o) && fresh(o.history)
  ensures [C15 C16: nothing recorded] inv(o) && vers(o) && o.historyVer >= 0
  ensures [C15: enabled] o.enable && o.fd == nil && o.cfg == cfg && o.historyVer == 0 && !held(o.fdLock)
  modifies nothing
  panics C14 C15
  frame C14 C15

func (*opHistory).Reset(me) -> ()
  ensures [C14 C15: empty] listOK(me.history) && lo(me.history) == hi(me.history) && me.current == nil && fresh(me.history)
  modifies me.history, me.current
  panics C15
  frame C15

func (*opHistory).Disable(me) -> ()
  ensures [C15] !me.enable
  modifies me.enable
  panics C15
  frame C15

func (*opHistory).Enable(me) -> ()
  ensures [C15] me.enable
  modifies me.enable
  panics C15
  frame C15

func (*opHistory).Revert(me) -> ()
  requires histOK(me) && vers(me)
  ensures [C14 C15: edits discarded] forall p in lo(me.history)..hi(me.history) : it(lat(me.history, p)).Version < me.historyVer
  ensures [C14 C15: at the newest] lo(me.history) < hi(me.history) ==> me.current == lat(me.history, hi(me.history) - 1)
  ensures [C14 C15: invariant] histOK(me) && vers(me)
  modifies me.current, me.historyVer
  panics C15
  frame C15

func (*opHistory).Push(me, s) -> ()
  requires inv(me)
  let l = me.history
  ensures [C15: appended] hi(l) == old(hi(l)) + 1 && lo(l) == old(lo(l)) && me.current == lat(l, hi(l) - 1) && fresh(me.current) && fresh(it(me.current))
  ensures [C15: text] seq(it(me.current).Source) == seq(s) && fresh(it(me.current).Source) && cap(it(me.current).Tmp) == 0 && len(it(me.current).Tmp) == 0 && it(me.current).Version == 0
  ensures [C15: others stay] forall p in lo(l)..old(hi(l)) : lat(l, p) == old(lat(l, p))
  ensures [C14 C15: invariant] histOK(me)
  ensures [C14 C15: own items] ownItems(me)
  ensures [C14 C15: own texts] ownTmps(me)
  ensures [C15 C16: other lists stay] forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == me.history || llist(elem(e)) == nil
  modifies me.current, list(me.history)
  panics C15
  frame C15

func (*opHistory).Compact(me) -> ()
  requires histOK(me)
  let l = me.history
  inv forall p in lo(l)..hi(l) : lat(l, p) == old(lat(l, p))
  inv lo(l) >= old(lo(l)) && hi(l) == old(hi(l))
  inv histOK(me)
  inv forall e : lpos(elem(e)) == old(lpos(elem(e)))
  inv forall e : llist(elem(e)) == old(llist(elem(e))) || old(llist(elem(e))) == l && llist(elem(e)) == nil
  inv old(me.current) != nil && old(llist(me.current)) == l && old(lpos(me.current)) >= lo(l) ==> llist(me.current) == l
  inv lo(l) == old(lo(l)) || hi(l) - lo(l) >= max(me.cfg.HistoryLimit, 0)
  ensures [C15: limit] hi(l) - lo(l) <= max(me.cfg.HistoryLimit, 0)
  ensures [C15: only the oldest are dropped] hi(l) == old(hi(l)) && lo(l) == max(old(lo(l)), hi(l) - max(me.cfg.HistoryLimit, 0))
  ensures [C15: others stay] forall p in lo(l)..hi(l) : lat(l, p) == old(lat(l, p))
  ensures [C15: current] old(me.current) != nil && old(llist(me.current)) == l && old(lpos(me.current)) >= lo(l) ==> llist(me.current) == l && lpos(me.current) == old(lpos(me.current))
  ensures [C14 C15: invariant] histOK(me)
  ensures [C15 C16: other lists stay] forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == me.history || llist(elem(e)) == nil
  modifies list(me.history)
  panics C15
  frame C15
  term C15


func (*opHistory).Update(me, s, commit) -> (err)
  requires inv(me) && vers(me) && !held(me.fdLock)
  let l = me.history
  let had = me.current != nil
  ensures [C15: appended only without a current entry] hi(l) == old(hi(l)) + (had ? 0 : 1)
  ensures [C15: limit] lo(l) == max(old(lo(l)), hi(l) - max(me.cfg.HistoryLimit, 0))
  ensures [C15: others stay] forall p in lo(l)..old(hi(l)) : lat(l, p) == old(lat(l, p))
  ensures [C15: current] had ==> me.current == old(me.current) && same(me.current.Value, old(me.current.Value))
  ensures [C15: current stays listed] had && old(llist(me.current)) == l && old(lpos(me.current)) >= lo(l) ==> llist(me.current) == l && lpos(me.current) == old(lpos(me.current))
  ensures [C15: new entry] !had ==> fresh(me.current) && fresh(it(me.current)) && (lo(l) < hi(l) ==> me.current == lat(l, hi(l) - 1)) && len(it(me.current).Source) == (commit ? len(s) : 0)
  ensures [C15: recorded text] commit ==> seq(it(me.current).Source) == old(seq(s)) && fresh(it(me.current).Source)
  ensures [C14 C15: edited text] !commit ==> seq(it(me.current).Tmp) == old(seq(s))
  ensures [C14 C15: version] it(me.current).Version == me.historyVer && isItem(me.current)
  ensures [C15: text storage] !commit ==> cap(it(me.current).Tmp) == 0 || fresh(it(me.current).Tmp) || had && old(cap(it(me.current).Tmp) > 0) && arr(it(me.current).Tmp) == old(arr(it(me.current).Tmp))
  ensures [C16: what the file held stays] old(me.fd) != nil ==> len(out(old(me.fd))) >= old(len(out(me.fd))) && forall i in 0..old(len(out(me.fd))) : out(old(me.fd))[i] == old(out(me.fd))[i]
  ensures [C16: the line and a newline are appended] commit && old(me.fd) != nil && err == nil ==> len(out(old(me.fd))) == old(len(out(me.fd))) + len(s) + 1 && (forall i in 0..len(s) : out(old(me.fd))[old(len(out(me.fd))) + i] == old(vrs(s))[i]) && out(old(me.fd))[old(len(out(me.fd))) + len(s)] == '\n'
  ensures [C16: a failure is reported] commit && old(me.fd) != nil && len(out(old(me.fd))) != old(len(out(me.fd))) + len(s) + 1 ==> err != nil
  ensures [C16: nothing else is written] !commit && old(me.fd) != nil ==> len(out(old(me.fd))) == old(len(out(me.fd)))
  ensures [C15: lock] !held(me.fdLock)
  ensures [C14 C15: list] histOK(me)
  ensures [C14 C15: own items] ownItems(me)
  ensures [C14 C15: own texts] ownTmps(me)
  ensures [C15: versions] vers(me)
  modifies me.current, list(me.history), held(me.fdLock), when(commit && me.fd != nil, out(me.fd)), when(me.current != nil, me.current.Value), when(me.current != nil, it(me.current).Version), when(me.current != nil && commit, it(me.current).Source), when(me.current != nil && !commit, it(me.current).Tmp), when(me.current != nil && !commit && cap(it(me.current).Tmp) > 0, elems(it(me.current).Tmp))
  panics C15
  frame C15

func (*hisItem).Clean(me) -> ()
  ensures [C15] len(me.Source) == 0 && len(me.Tmp) == 0 && cap(me.Tmp) == 0 && cap(me.Source) == 0
  modifies me.Source, me.Tmp
  panics C15
  frame C15

def nothingNew(o, s) = len(s) == 0 || hi(o.history) - lo(o.history) >= 2 && seq(it(lat(o.history, hi(o.history) - 2)).Source) == seq(s)
def hasLast(o) = lo(o.history) < hi(o.history)
def last(o) = lat(o.history, hi(o.history) - 1)

func (*opHistory).New(me, current) -> (err)
  requires inv(me) && vers(me) && scratch(me) && me.historyVer >= 0 && !held(me.fdLock)
  let l = me.history
  let adds = me.enable && !nothingNew(me, current)
  let a = lo(l)
  let z = hi(l)
  ensures [C15: nothing added] !adds ==> err == nil && lo(l) == a && hi(l) == z && forall p in a..z : lat(l, p) == old(lat(l, p))
  ensures [C15: one entry added] adds ==> hi(l) == max(z, a + 1) + 1
  ensures [C15: newest entry] adds && hi(l) - 2 >= lo(l) ==> seq(it(lat(l, hi(l) - 2)).Source) == old(seq(current))
  ensures [C15: at least one kept] adds && me.cfg.HistoryLimit >= 1 ==> hi(l) - 2 >= lo(l)
  ensures [C15: older entries stay] forall p in lo(l)..z - 1 : lat(l, p) == old(lat(l, p))
  ensures [C15: only the oldest dropped] adds ==> lo(l) == max(a, hi(l) - 1 - max(me.cfg.HistoryLimit, 0))
  ensures [C15: limit] adds ==> hi(l) - 1 - lo(l) <= max(me.cfg.HistoryLimit, 0)
  ensures [C15: edits discarded] me.enable ==> forall p in lo(l)..hi(l) : it(lat(l, p)).Version < me.historyVer
  ensures [C15: ready for the next line] me.enable && lo(l) < hi(l) ==> me.current == lat(l, hi(l) - 1)
  ensures [C15: disabled] !me.enable ==> me.current == old(me.current) && me.historyVer == old(me.historyVer)
  ensures [C16: what the file held stays] me.fd != nil ==> len(out(me.fd)) >= old(len(out(me.fd))) && forall i in 0..old(len(out(me.fd))) : out(me.fd)[i] == old(out(me.fd))[i]
  ensures [C16: the line and a newline are appended] adds && me.fd != nil && err == nil ==> len(out(me.fd)) == old(len(out(me.fd))) + len(current) + 1 && (forall i in 0..len(current) : out(me.fd)[old(len(out(me.fd))) + i] == old(vrs(current))[i]) && out(me.fd)[old(len(out(me.fd))) + len(current)] == '\n'
  ensures [C16: nothing else is written] !adds && me.fd != nil ==> len(out(me.fd)) == old(len(out(me.fd)))
  ensures [C15: lock] !held(me.fdLock)
  ensures [C14 C15: list] histOK(me)
  ensures [C14 C15: own items] ownItems(me)
  ensures [C14 C15: own texts] ownTmps(me)
  ensures [C15: versions] vers(me) && me.historyVer >= 0
  ensures [C15: entry in progress is blank] scratch(me)
  modifies when(me.enable, [me.current, me.historyVer, list(me.history), held(me.fdLock)]), when(me.enable && me.fd != nil, out(me.fd)), when(me.enable && hasLast(me), [last(me).Value, it(last(me)).Version, it(last(me)).Source, it(last(me)).Tmp])
  panics C15
  frame C15

// ---- searching: the texts that count, and where an occurrence may lie
def txt(o, e) = it(e).Version == o.historyVer ? it(e).Tmp : it(e).Source
def fold(o) = o.cfg.HistorySearchFold
def endB(o, cur, e, rs, st) = (e == cur && len(txt(o, e)) >= st ? st : len(txt(o, e))) - len(rs) + 1
def noneB(o, cur, e, rs, st) = noMatch(txt(o, e), rs, 0, endB(o, cur, e, rs, st), fold(o))
def startF(o, cur, e, st) = e == cur ? st : 0
def noMatchFrom(r, sub, a, n, fold) = forall j in 0..n : !matchAt(r, sub, a + j, fold)
def noneF(o, cur, e, rs, st) = noMatchFrom(txt(o, e), rs, startF(o, cur, e, st), len(txt(o, e)) - len(rs) + 1 - startF(o, cur, e, st), fold(o))

func (*opHistory).FindBck(me, isNewSearch, rs, start) -> (idx, elem)
  requires histOK(me) && start >= 0 && len(rs) > 0
  let l = me.history
  let cur = me.current
  let st = isNewSearch ? start + len(rs) : start
  let listed = cur != nil && llist(cur) == l
  inv $e == nil || $e == cur || listed && llist($e) == l && lpos($e) < lpos(cur)
  inv $e != cur && listed ==> forall p in ($e == nil ? lo(l) : lpos($e) + 1)..lpos(cur) + 1 : noneB(me, cur, lat(l, p), rs, st)
  inv $e != cur && cur != nil ==> noneB(me, cur, cur, rs, st)
  inv $e == cur ==> $j == start
  measure $e == nil ? 0 : listed ? lpos($e) - lo(l) + 1 : 1
  ensures [C17: found or not] (elem == nil) == (idx < 0)
  ensures [C17: in that direction] elem != nil ==> cur != nil && (elem == cur || listed && llist(elem) == l && lpos(elem) < lpos(cur) && lpos(elem) >= lo(l) && elem == lat(l, lpos(elem)))
  ensures [C17: contains the pattern] elem != nil ==> 0 <= idx && idx < endB(me, cur, elem, rs, st) && matchAt(txt(me, elem), rs, idx, fold(me))
  ensures [C17: last occurrence] elem != nil ==> noMatch(txt(me, elem), rs, idx + 1, endB(me, cur, elem, rs, st), fold(me))
  ensures [C17: nearest] listed ==> forall p in (elem == nil ? lo(l) : lpos(elem) + 1)..lpos(cur) + 1 : noneB(me, cur, lat(l, p), rs, st)
  modifies nothing
  panics C17
  frame C17

func (*opHistory).FindFwd(me, isNewSearch, rs, start) -> (idx, elem)
  requires histOK(me) && start >= 0 && len(rs) > 0
  let l = me.history
  let cur = me.current
  let st = isNewSearch ? max(start - len(rs), 0) : start
  let listed = cur != nil && llist(cur) == l
  inv $e == nil || $e == cur || listed && llist($e) == l && lpos($e) > lpos(cur)
  inv $e != cur && listed ==> forall p in lpos(cur)..($e == nil ? hi(l) : lpos($e)) : noneF(me, cur, lat(l, p), rs, st)
  inv $e != cur && cur != nil ==> noneF(me, cur, cur, rs, st)
  inv $e == cur ==> $j == start
  measure $e == nil ? 0 : listed ? hi(l) - lpos($e) : 1
  ensures [C17: found or not] (elem == nil) == (idx < 0)
  ensures [C17: in that direction] elem != nil ==> cur != nil && (elem == cur || listed && llist(elem) == l && lpos(elem) > lpos(cur) && lpos(elem) < hi(l) && elem == lat(l, lpos(elem)))
  ensures [C17: contains the pattern] elem != nil ==> startF(me, cur, elem, st) <= idx && idx + len(rs) <= len(txt(me, elem)) && matchAt(txt(me, elem), rs, idx, fold(me))
  ensures [C17: first occurrence] elem != nil ==> noMatchFrom(txt(me, elem), rs, startF(me, cur, elem, st), idx - startF(me, cur, elem, st), fold(me))
  ensures [C17: nearest] listed ==> forall p in lpos(cur)..(elem == nil ? hi(l) : lpos(elem)) : noneF(me, cur, lat(l, p), rs, st)
  modifies nothing
  panics C17
  frame C17
