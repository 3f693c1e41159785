// The history file: C16

package readline

// ---- what is done to the file system: every opening and every renaming that succeeds is counted
def nOpen() = ghost(opens, 0)
def openedFile(k) = typed("*os.File", ghost(openFile, k))
def openName(k) = typed("string", ghost(openName, k))
def openFlag(k) = ghost(openFlag, k)
def nRename() = ghost(renames, 0)
def renFrom(k) = typed("string", ghost(renFrom, k))
def renTo(k) = typed("string", ghost(renTo, k))
// how much had been written to the file opened last when the renaming took place
def renLen(k) = ghost(renLen, k)
def opening() = [ghost(opens, 0), ghost(openFile, ghost(opens, 0)), ghost(openName, ghost(opens, 0)), ghost(openFlag, ghost(opens, 0))]
def renaming() = [ghost(renames, 0), ghost(renFrom, ghost(renames, 0)), ghost(renTo, ghost(renames, 0)), ghost(renLen, ghost(renames, 0))]
def truncates(flag) = (flag / 512) % 2 == 1
def appends(flag) = (flag / 1024) % 2 == 1

// the lines of a file as it is opened, and how many of the first k are not blank
def nLines(f) = ghost(rinend, f)
def fileText(f, k) = typed("string", trim(typed("string", ghost(line, f, k))))
def keptBefore(f, k) = ghost(keptlines, f, k)
uf trim

extern os.OpenFile(name, flag, perm) -> (f, err)
  ensures err == nil ==> f != nil && fresh(f) && nOpen() == old(nOpen()) + 1 && openedFile(old(nOpen())) == f && same(openName(old(nOpen())), name) && openFlag(old(nOpen())) == flag
  ensures err != nil ==> f == nil && nOpen() == old(nOpen())
  ensures err == nil ==> ghost(rinpos, f) == 0 && nLines(f) >= 0
  ensures err == nil && truncates(flag) ==> len(out(f)) == 0
  assume err == nil ==> keptBefore(f, 0) == 0 && forall k in 0..nLines(f) : keptBefore(f, k + 1) == keptBefore(f, k) + (rlen(fileText(f, k)) > 0 ? 1 : 0)
  modifies opening()

extern os.Rename(from, to) -> (err)
  ensures err == nil ==> nRename() == old(nRename()) + 1 && same(renFrom(old(nRename())), from) && same(renTo(old(nRename())), to) && renLen(old(nRename())) == len(out(openedFile(nOpen() - 1)))
  ensures err != nil ==> nRename() == old(nRename())
  modifies renaming()

// where the line of the entry at position p starts in the file that is written
uf lineAt
def src(l, p) = it(lat(l, p)).Source
def tmpName(me) = concat(me.cfg.HistoryFile, ".tmp")

def reached(l, e) = e == nil ? hi(l) : lpos(e)

func (*opHistory).rewriteLocked(me)
  requires histOK(me) && nOpen() >= 0 && nRename() >= 0
  let l = me.history
  let o0 = nOpen()
  let r0 = nRename()
  define lineAt(lo(l)) == 0
  define forall p in lo(l)..hi(l) : lineAt(p + 1) == lineAt(p) + len(src(l, p)) + 1
  inv nOpen() == o0 + 1 && nRename() == r0
  inv $elem == nil || llist($elem) == l
  inv len(content($m)) == lineAt(reached(l, $elem)) && bufsrc($m) == openedFile(o0)
  inv forall p in lo(l)..reached(l, $elem) : 0 <= lineAt(p) && lineAt(p) + len(src(l, p)) + 1 <= lineAt(reached(l, $elem))
  inv forall p in lo(l)..reached(l, $elem) : (forall i in 0..len(src(l, p)) : content($m)[lineAt(p) + i] == vrs(src(l, p))[i]) && content($m)[lineAt(p) + len(src(l, p))] == '\n'
  measure hi(l) - reached(l, $elem)
  ensures [C16: only the temporary file is opened] nOpen() == o0 || nOpen() == o0 + 1 && same(openName(o0), tmpName(me))
  ensures [C16: replaced at most once] nRename() == r0 || nRename() == r0 + 1
  ensures [C16: the temporary file takes the place of the history file] nRename() == r0 + 1 ==> nOpen() == o0 + 1 && same(renFrom(r0), tmpName(me)) && same(renTo(r0), me.cfg.HistoryFile)
  ensures [C16: complete before it replaces] nRename() == r0 + 1 ==> renLen(r0) == lineAt(hi(l)) && len(out(openedFile(o0))) == lineAt(hi(l))
  ensures [C16: every line] nRename() == r0 + 1 ==> forall p in lo(l)..hi(l) : (forall i in 0..len(src(l, p)) : out(openedFile(o0))[lineAt(p) + i] == vrs(src(l, p))[i]) && out(openedFile(o0))[lineAt(p) + len(src(l, p))] == '\n'
  ensures [C16: later lines go to the new file] me.fd == (nRename() == r0 + 1 ? openedFile(o0) : old(me.fd))
  modifies me.fd, opening(), renaming()
  panics C16
  frame C16

// the file f has been read up to line n: its non-blank lines, trimmed, follow what was there before position h, as far as the limit allows
func (*opHistory).historyUpdatePath(me, path)
  effort 6
  requires inv(me) && vers(me) && me.historyVer >= 0 && !held(me.fdLock) && nOpen() >= 0 && nRename() >= 0
  let l = me.history
  let o0 = nOpen()
  let r0 = nRename()
  let h = hi(l)
  let had = lo(l) < hi(l)
  inv nOpen() == o0 + 1 && nRename() == r0 && me.fd == openedFile(o0) && bufsrc($m) == openedFile(o0) && held(me.fdLock)
  inv histOK(me) && ownItems(me) && ownTmps(me) && vers(me)
  inv hi(l) == h + keptBefore(openedFile(o0), ghost(rinpos, openedFile(o0)))
  inv 0 <= ghost(rinpos, openedFile(o0)) && ghost(rinpos, openedFile(o0)) <= nLines(openedFile(o0))
  inv lo(l) == max(old(lo(l)), hi(l) - max(me.cfg.HistoryLimit, 0))
  inv forall k in 0..ghost(rinpos, openedFile(o0)) : keptBefore(openedFile(o0), k) + (rlen(fileText(openedFile(o0), k)) > 0 ? 1 : 0) <= keptBefore(openedFile(o0), ghost(rinpos, openedFile(o0)))
  inv forall k in 0..ghost(rinpos, openedFile(o0)) : rlen(fileText(openedFile(o0), k)) > 0 && h + keptBefore(openedFile(o0), k) >= lo(l) ==> seq(src(l, h + keptBefore(openedFile(o0), k))) == seq(fileText(openedFile(o0), k))
  inv me.historyVer == old(me.historyVer)
  inv forall e : llist(elem(e)) == l ==> fresh(elem(e)) || old(llist(elem(e))) == l
  inv forall e : fresh(elem(e)) || old(llist(elem(e))) == l || llist(elem(e)) == old(llist(elem(e))) && lpos(elem(e)) == old(lpos(elem(e)))
  inv forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == l || llist(elem(e)) == nil
  inv forall f : f != openedFile(o0) ==> ghost(rinpos, f) == old(ghost(rinpos, f))
  measure nLines(openedFile(o0)) - ghost(rinpos, openedFile(o0))
  ensures [C16: opened for appending, never truncated] nOpen() == o0 || same(openName(o0), path) && appends(openFlag(o0)) && !truncates(openFlag(o0))
  ensures [C16: cannot be opened] nOpen() == o0 ==> me.fd == old(me.fd) && lo(l) == old(lo(l)) && hi(l) == h && nRename() == r0
  ensures [C16: nothing is loaded twice] nOpen() > o0 && had ==> me.fd == openedFile(o0) && lo(l) == old(lo(l)) && hi(l) == h && nRename() == r0 && (forall p in lo(l)..h : lat(l, p) == old(lat(l, p)))
  ensures [C16: room for the next line] nOpen() > o0 && !had ==> lo(l) < hi(l) && me.current == lat(l, hi(l) - 1) && len(src(l, hi(l) - 1)) == 0
  ensures [C16: every line up to the limit] nOpen() > o0 && !had ==> hi(l) - 1 == h + keptBefore(openedFile(o0), nLines(openedFile(o0))) && lo(l) == max(old(lo(l)), hi(l) - 1 - max(me.cfg.HistoryLimit, 0))
  ensures [C16: its text] nOpen() > o0 && !had ==> forall k in 0..nLines(openedFile(o0)) : rlen(fileText(openedFile(o0), k)) > 0 && h + keptBefore(openedFile(o0), k) >= lo(l) ==> seq(src(l, h + keptBefore(openedFile(o0), k))) == seq(fileText(openedFile(o0), k))
  ensures [C16: no other input is read] forall f : alive(elem(f)) ==> ghost(rinpos, f) == old(ghost(rinpos, f))
  ensures [C16: unlocked] !held(me.fdLock)
  ensures [C16: invariant] inv(me) && vers(me) && me.historyVer >= 0 && nOpen() >= 0 && nRename() >= 0
  ensures [C16: other lists stay] forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == me.history || llist(elem(e)) == nil
  modifies me.fd, me.historyVer, me.current, list(me.history), held(me.fdLock), ghosts(opens, 1), ghosts(openFile, 1), ghosts(openName, 1), ghosts(openFlag, 1), ghosts(rinpos, 1), renaming()
  panics C16
  frame C16

func (*opHistory).Rewrite(me)
  requires histOK(me) && nOpen() >= 0 && nRename() >= 0 && !held(me.fdLock)
  let l = me.history
  let o0 = nOpen()
  let r0 = nRename()
  ensures [C16: only the temporary file is opened] nOpen() == o0 || nOpen() == o0 + 1 && same(openName(o0), tmpName(me))
  ensures [C16: replaced at most once] nRename() == r0 || nRename() == r0 + 1
  ensures [C16: the temporary file takes the place of the history file] nRename() == r0 + 1 ==> nOpen() == o0 + 1 && same(renFrom(r0), tmpName(me)) && same(renTo(r0), me.cfg.HistoryFile)
  ensures [C16: later lines go to the new file] me.fd == (nRename() == r0 + 1 ? openedFile(o0) : old(me.fd))
  ensures [C16: unlocked] !held(me.fdLock)
  modifies me.fd, opening(), renaming(), held(me.fdLock)
  panics C16
  frame C16
