// Vim mode: C19

package readline

// the key after the current one: read at most once per command (the callback reads the next key from the terminal)
iface param.readNext() -> (res)
  assume ghost(nextKey, 0) == res && ghost(nextReads, 0) == old(ghost(nextReads, 0)) + 1
  modifies ghost(nextKey, 0), ghost(nextReads, 0)

def vimOK(o) = o.cfg != nil && o.op != nil && o.op.t != nil && o.op.buf != nil && ok(o.op.buf)
def reads(n) = ghost(nextReads, 0) == old(ghost(nextReads, 0)) + n
def at(r, i) = kept(r) && nokill(r) && r.idx == i
def unmoved(r) = at(r, old(r.idx))
def backChar(r) = old(r.idx) > 0 ? cut(r, old(r.idx) - 1, old(r.idx)) && r.idx == old(r.idx) - 1 && nokill(r) : unmoved(r)
def delAt(r) = old(r.idx) < old(len(r.buf)) ? cut(r, old(r.idx), old(r.idx) + 1) && killed(r, old(r.idx), old(r.idx) + 1) : kept(r) && nokill(r)
def erased(r) = len(r.buf) == 0 && r.idx == 0 && (old(len(r.buf)) > 0 ? killed(r, 0, old(len(r.buf))) : nokill(r))
// up to the start of the next word (as in DeleteWord)
def wordTo(r) = r.idx == old(r.idx) && r.idx <= dwEnd(r) && dwEnd(r) <= old(len(r.buf)) && cut(r, r.idx, dwEnd(r)) && (old(r.idx) < old(len(r.buf)) ? killed(r, r.idx, dwEnd(r)) : nokill(r))
def wordEnds(r) = dwEnd(r) == old(len(r.buf)) || wstart(old(r.buf), dwEnd(r) + 1) && exists k in r.idx..dwEnd(r) : !wb(old(r.buf)[k])
def wordNearest(r) = forall j in r.idx + 1..min(dwEnd(r) + 1, old(len(r.buf))) : wstart(old(r.buf), j) ==> forall k in r.idx..j : wb(old(r.buf)[k])
def wordCut(r) = wordTo(r) && wordEnds(r) && wordNearest(r)
def prevWord(r) = (old(r.idx) > 0 ==> r.idx < old(r.idx)) && (r.idx == 0 || wstart(r.buf, r.idx) || r.idx == old(r.idx)) && (forall k in max(1, r.idx + 1)..old(r.idx) : !wstart(r.buf, k))
def nextWord(r) = (r.idx > old(r.idx) || r.idx == len(r.buf)) && (r.idx == len(r.buf) || wstart(r.buf, r.idx)) && (forall k in old(r.idx) + 1..r.idx : !wstart(r.buf, k))
def isEnd(r, k) = !wb(r.buf[k]) && wb(r.buf[k + 1])
def endWord(r) = (r.idx > old(r.idx) || old(r.idx) == len(r.buf)) && (r.idx == len(r.buf) || isEnd(r, r.idx)) && (forall k in old(r.idx) + 1..min(r.idx, len(r.buf) - 1) : !isEnd(r, k))
def noneLeft(r, c) = forall k in 0..old(r.idx) : r.buf[k] != c
def noneRight(r, c) = forall k in old(r.idx) + 1..len(r.buf) : r.buf[k] != c
def toLeft(r, c, d) = r.idx == old(r.idx) && noneLeft(r, c) || (exists p in 0..old(r.idx) : r.buf[p] == c && (forall k in p + 1..old(r.idx) : r.buf[k] != c) && r.idx == p + d)
def toRight(r, c, d) = r.idx == old(r.idx) && noneRight(r, c) || (exists p in old(r.idx) + 1..len(r.buf) : r.buf[p] == c && (forall k in old(r.idx) + 1..p : r.buf[k] != c) && r.idx == p - d)
def nk() = ghost(nextKey, 0)
def op2(r, n) = (n == 'w' ==> wordCut(r)) && (n == 'h' ==> backChar(r)) && (n == 'l' ==> delAt(r) && r.idx == old(r.idx)) && (n != 'w' && n != 'h' && n != 'l' ==> unmoved(r))
def find(r) = r == 'f' || r == 'F' || r == 't' || r == 'T'
def motion(r) = r == 'h' || r == 'j' || r == 'k' || r == 'l'
def change(r) = r == '0' || r == '^' || r == '$' || r == 'x' || r == 'r' || r == 'd' || r == 'p' || r == 'b' || r == 'B' || r == 'w' || r == 'W' || r == 'e' || r == 'E' || find(r)
def enter(r) = r == 'i' || r == 'I' || r == 'a' || r == 'A' || r == 's' || r == 'S' || r == 'c'
def accept(r) = r == CharEnter || r == CharInterrupt

func (*opVim).HandleVim(me, r, readNext) -> (t)
  requires me.op.t.cfg != nil && me.op.t.cfg.Stdout != nil
  requires vimOK(me) && readNext != nil
  requires 0 <= me.vimMode && me.vimMode <= VIM_VISUAL
  let b = me.op.buf
  let normal = me.vimMode == VIM_NORMAL
  ensures [C19: cursor] ok(b) && ownbuf(b)
  // insert mode
  ensures [C19: insert, escape] !normal && r == CharEsc ==> t == 0 && me.vimMode == VIM_NORMAL
  ensures [C19: insert, other] !normal && r != CharEsc ==> t == r && me.vimMode == old(me.vimMode)
  ensures [C19: insert, line untouched] !normal ==> same(b.buf, old(b.buf)) && unmoved(b) && reads(0)
  // normal mode
  ensures [C19: accept] normal && accept(r) ==> t == r && me.vimMode == VIM_INSERT && unmoved(b)
  ensures [C19: motions translated] normal && motion(r) ==> t == (r == 'h' ? CharBackward : r == 'j' ? CharNext : r == 'k' ? CharPrev : CharForward) && unmoved(b)
  ensures [C19: consumed] normal && !accept(r) && !motion(r) ==> t == 0
  ensures [C19: mode] normal && !accept(r) ==> me.vimMode == (enter(r) ? VIM_INSERT : VIM_NORMAL)
  ensures [C19: keys read] normal ==> reads((r == 'r' || r == 'd' || r == 'c' || find(r)) ? 1 : 0)
  ensures [C19: line start] normal && (r == '0' || r == '^' || r == 'I') ==> at(b, 0)
  ensures [C19: line end] normal && (r == '$' || r == 'A') ==> at(b, old(len(b.buf)))
  ensures [C19: delete] normal && r == 'x' ==> delAt(b) && b.idx == (old(b.idx) > 0 && old(b.idx) >= old(len(b.buf)) - 1 ? old(b.idx) - 1 : old(b.idx))
  ensures [C19: replace] normal && r == 'r' ==> nokill(b) && b.idx == old(b.idx) && len(b.buf) == old(len(b.buf)) && (forall k in 0..len(b.buf) : b.buf[k] == (k == b.idx ? nk() : old(b.buf[k])))
  ensures [C19: delete line] normal && r == 'd' && nk() == 'd' ==> erased(b)
  ensures [C19: delete with a motion] normal && r == 'd' && nk() != 'd' ==> op2(b, nk())
  ensures [C19: change line] normal && r == 'c' && nk() == 'c' ==> erased(b)
  ensures [C19: change with a motion] normal && r == 'c' && nk() != 'c' ==> op2(b, nk())
  ensures [C19: yank] normal && r == 'p' ==> nokill(b) && seq(b.buf) == old(seq(b.buf)[:b.idx]) ++ old(seq(b.lastKill)) ++ old(b.buf)[old(b.idx):] && b.idx == old(b.idx) + len(b.lastKill)
  ensures [C19: previous word] normal && (r == 'b' || r == 'B') ==> kept(b) && nokill(b) && prevWord(b)
  ensures [C19: next word] normal && (r == 'w' || r == 'W') ==> kept(b) && nokill(b) && nextWord(b)
  ensures [C19: end of word] normal && (r == 'e' || r == 'E') ==> kept(b) && nokill(b) && endWord(b)
  ensures [C19: find, cancelled] normal && find(r) && nk() == CharEsc ==> unmoved(b)
  ensures [C19: find forward] normal && (r == 'f' || r == 't') && nk() != CharEsc ==> kept(b) && nokill(b) && toRight(b, nk(), r == 't' ? 1 : 0)
  ensures [C19: find backward] normal && (r == 'F' || r == 'T') && nk() != CharEsc ==> kept(b) && nokill(b) && toLeft(b, nk(), r == 'T' ? 1 : 0)
  ensures [C19: insert before] normal && r == 'i' ==> unmoved(b)
  ensures [C19: insert after] normal && r == 'a' ==> at(b, min(old(len(b.buf)), old(b.idx) + 1))
  ensures [C19: substitute] normal && r == 's' ==> delAt(b) && b.idx == old(b.idx)
  ensures [C19: substitute line] normal && r == 'S' ==> erased(b)
  ensures [C19: bell] normal && !accept(r) && !motion(r) && !change(r) && !enter(r) ==> unmoved(b) && same(b.buf, old(b.buf)) && out(me.op.t.cfg.Stdout) == old(out(me.op.t.cfg.Stdout)) ++ {1 : k => CharBell}
  modifies me.vimMode, kill(me.op.buf), out(me.op.t.cfg.Stdout), ghost(nextKey, 0), ghost(nextReads, 0)
  panics C19
  frame C19
  term C19

func (*opVim).SetVimMode(me, on)
  requires me.cfg != nil
  ensures [C19: setting] me.cfg.VimMode == on
  ensures [C19: starts in insert mode] me.vimMode == VIM_INSERT
  modifies me.cfg.VimMode, me.vimMode
  panics C19
  frame C19
  term C19

func (*opVim).IsEnableVimMode(me) -> (res)
  requires me.cfg != nil
  ensures [C19: setting] res == me.cfg.VimMode
  modifies nothing
  panics C19
  frame C19
  term C19

func newVimMode(op) -> (res)
  requires op != nil && op.cfg != nil
  ensures [C19: new] fresh(res) && same(res.cfg, old(op.cfg)) && same(res.op, op) && res.vimMode == VIM_INSERT
  ensures [C19: setting kept] op.cfg.VimMode == old(op.cfg.VimMode)
  modifies op.cfg.VimMode
  panics C19
  frame C19
  term C19
