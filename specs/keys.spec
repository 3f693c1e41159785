// The key loop of an operation: C20 (what a read answers), C21 (what each key does)

package readline

// ---- the last key read, and what the application's filter made of it
def key() = ghost(keyRead, 0)
def flt() = ghost(fltOut, 0)
def passed() = ghost(fltPass, 0) == 1
def filters(o) = o.cfg.FuncFilterInputRune != nil
def ek(o) = filters(o) ? flt() : key()
// end of input on a line that is not empty counts as Enter
def kk(o) = ek(o) == 0 ? CharEnter : ek(o)

func (*Terminal).ReadRune(t) -> (r)
  ensures [C21 C20: a decoded key, in order] r == 0 || rcvd(t.outchan) == old(rcvd(t.outchan)) + 1 && r == rcvval(t.outchan, old(rcvd(t.outchan)))
  assume key() == r
  modifies recv(t.outchan), ghost(recvs, 0), ghost(keyRead, 0)
  panics C21
  frame C21

iface field.Config.FuncFilterInputRune(r) -> (r2, process)
  assume ghost(fltIn, 0) == r && flt() == r2 && (passed() <==> process)
  modifies ghost(fltIn, 0), ghost(fltOut, 0), ghost(fltPass, 0)

func (*Operation).IsNormalMode(o) -> (res)
  requires o.opCompleter != nil && o.opSearch != nil
  ensures [C21: neither searching nor completing] res == !(o.opSearch.inMode || o.opCompleter.inCompleteMode)
  modifies nothing
  panics C21
  frame C21

// ---- the parts of an operation belong together
// ---- the parts of an operation belong together
def parts(o) = o.opSearch != nil && o.opCompleter != nil && o.opVim != nil && o.history != nil && o.opCompleter.op == o && o.opSearch.buf == o.buf && o.opSearch.history == o.history && o.opVim.op == o && o.opVim.cfg != nil && o.history.cfg == o.cfg && o.buf.cfg == o.cfg
def callbacks(o) = tag(o.w) != 0 && tag(o.t.cfg.Stdout) != 0 && tag(o.cfg.AutoComplete) != 0 && io.EOF != nil && !is(io.EOF, *InterruptError)
def backup(o) = o.buf.bck != nil ==> 0 <= o.buf.bck.idx && o.buf.bck.idx <= len(o.buf.bck.buf)
def vimMode(o) = 0 <= o.opVim.vimMode && o.opVim.vimMode <= VIM_VISUAL
def normal(o) = !old(o.opSearch.inMode) && !old(o.opCompleter.inCompleteMode) && !old(o.opCompleter.inSelectMode) && !o.opVim.cfg.VimMode
def choosing(o) = old(o.opCompleter.inSelectMode)
// no answer, a line, an error
def silent(o) = sent(o.outchan) == old(sent(o.outchan)) && sent(o.errchan) == old(sent(o.errchan))
def answersLine(o) = sent(o.outchan) == old(sent(o.outchan)) + 1 && sent(o.errchan) == old(sent(o.errchan))
def answersErr(o) = sent(o.outchan) == old(sent(o.outchan)) && sent(o.errchan) == old(sent(o.errchan)) + 1
def answerLine(o) = sentval(o.outchan, old(sent(o.outchan)))
def answerErr(o) = sentval(o.errchan, old(sent(o.errchan)))
def empty(o) = len(o.buf.buf) == 0 && o.buf.idx == 0
// the line before the key, and what the key did to it
def same0(o) = kept(o.buf) && o.buf.idx == old(o.buf.idx) && nokill(o.buf)
def entered(o) = kk(o) == CharEnter || kk(o) == CharCtrlJ
def eofKey(o) = kk(o) == CharDelete && old(len(o.buf.buf)) == 0
def bound(k) = k == CharBell || k == CharTab || k == CharBckSearch || k == CharCtrlU || k == CharFwdSearch || k == CharKill || k == MetaForward || k == CharTranspose || k == MetaTranspose || k == MetaBackward || k == MetaDelete || k == CharLineStart || k == CharLineEnd || k == CharBackspace || k == CharCtrlH || k == CharCtrlZ || k == CharCtrlL || k == MetaBackspace || k == CharCtrlW || k == CharCtrlY || k == CharEnter || k == CharCtrlJ || k == CharBackward || k == CharForward || k == CharPrev || k == CharNext || k == CharDelete || k == CharInterrupt
def key1(o, k) = normal(o) && kk(o) == k

func (*Operation).ioloop(o) -> ()
  requires opOK(o) && parts(o) && callbacks(o) && menuOK(o.opCompleter) && menu(o.opCompleter) && vimOK(o.opVim) && vimMode(o) && nev() >= 0 && backup(o)
  cut Config.Listener
  keeps [C21: parts] parts(o)
  keeps [C21: callbacks] callbacks(o)
  keeps [C20 C21: operation] opOK(o)
  keeps [C21: menu] menuOK(o.opCompleter)
  keeps [C21: menu state] menu(o.opCompleter)
  keeps [C21: vim] vimOK(o.opVim)
  keeps [C21: vim mode] vimMode(o)
  keeps [C21: events] nev() >= 0
  keeps [C21: backup] backup(o)
  holds o.history.current != nil ==> sepr(it(o.history.current).Tmp, o.buf.buf)
  grant (*opHistory).Update, (*opHistory).New, (*opHistory).Prev, (*opHistory).Next, (*opHistory).Revert, (*opSearch).SearchMode, (*opSearch).SearchChar, (*opSearch).SearchBackspace, (*opSearch).ExitSearchMode, (*opSearch).SearchRefresh
  // before the key is looked at
  preinv !o.opVim.cfg.VimMode ==> $r == kk(o)
  pre [C21: the filter sees the key] filters(o) ==> ghost(fltIn, 0) == key() && passed()
  pre [C20 C21: nothing happens before the key is looked at] normal(o) ==> same0(o) && silent(o) && !o.opSearch.inMode && !o.opCompleter.inCompleteMode && !o.opCompleter.inSelectMode
  pre [C20: no answer before the key is looked at] silent(o)
  step [C20: no answer for a key that was consumed] silent(o)
  step [C21: consumed] normal(o) ==> filters(o) && !passed()
  step [C21: a rejected key does nothing] filters(o) && !passed() ==> same0(o)
  // what each key does
  mid [C20: Enter] !o.opVim.cfg.VimMode && entered(o) ==> answersLine(o)
  mid [C20: the answered line is the line] answersLine(o) ==> seq(answerLine(o)) == old(seq(o.buf.buf)) && empty(o)
  mid [C20: an interrupt carries the line] answersErr(o) && is(answerErr(o), *InterruptError) ==> seq(answerErr(o).(*InterruptError).Line) == old(seq(o.buf.buf)) && empty(o)
  mid [C20: interrupt] key1(o, CharInterrupt) ==> answersErr(o) && is(answerErr(o), *InterruptError) && seq(answerErr(o).(*InterruptError).Line) == old(seq(o.buf.buf)) && empty(o)
  mid [C20: end of input] key1(o, CharDelete) && old(len(o.buf.buf)) == 0 ==> answersErr(o) && same(answerErr(o), io.EOF) && empty(o)
  mid [C20: no other key answers] !o.opVim.cfg.VimMode && !entered(o) && kk(o) != CharInterrupt && kk(o) != CharDelete ==> silent(o)
  mid [C20: at most one answer] silent(o) || answersLine(o) || answersErr(o)
  mid [C20: end of input only on an empty line] answersErr(o) && !is(answerErr(o), *InterruptError) ==> old(len(o.buf.buf)) == 0 && empty(o)
  mid [C21: Ctrl-G] key1(o, CharBell) ==> same0(o)
  mid [C21: Ctrl-A] key1(o, CharLineStart) ==> kept(o.buf) && nokill(o.buf) && o.buf.idx == 0
  mid [C21: Ctrl-E] key1(o, CharLineEnd) ==> kept(o.buf) && nokill(o.buf) && o.buf.idx == len(o.buf.buf)
  mid [C21: Ctrl-B] key1(o, CharBackward) ==> kept(o.buf) && nokill(o.buf) && o.buf.idx == max(0, old(o.buf.idx) - 1)
  mid [C21: Ctrl-F] key1(o, CharForward) ==> kept(o.buf) && nokill(o.buf) && o.buf.idx == min(len(o.buf.buf), old(o.buf.idx) + 1)
  mid [C21: Meta-B] key1(o, MetaBackward) ==> kept(o.buf) && nokill(o.buf) && prevWord(o.buf)
  mid [C21: Meta-F] key1(o, MetaForward) ==> kept(o.buf) && nokill(o.buf) && nextWord(o.buf)
  mid [C21: Ctrl-K] key1(o, CharKill) ==> seq(o.buf.buf) == old(seq(o.buf.buf))[:o.buf.idx] && o.buf.idx == old(o.buf.idx) && (old(o.buf.idx) < old(len(o.buf.buf)) ? killed(o.buf, o.buf.idx, old(len(o.buf.buf))) : nokill(o.buf))
  mid [C21: Ctrl-U] key1(o, CharCtrlU) ==> seq(o.buf.buf) == old(o.buf.buf)[old(o.buf.idx):] && o.buf.idx == 0 && (old(o.buf.idx) > 0 ? killed(o.buf, 0, old(o.buf.idx)) : nokill(o.buf))
  mid [C21: Ctrl-Y] key1(o, CharCtrlY) ==> nokill(o.buf) && seq(o.buf.buf) == old(seq(o.buf.buf)[:o.buf.idx]) ++ old(seq(o.buf.lastKill)) ++ old(o.buf.buf)[old(o.buf.idx):] && o.buf.idx == old(o.buf.idx) + len(o.buf.lastKill)
  mid [C21: Ctrl-W, Meta-Backspace] key1(o, CharCtrlW) || key1(o, MetaBackspace) ==> cut(o.buf, o.buf.idx, old(o.buf.idx)) && (old(o.buf.idx) > 0 ? o.buf.idx < old(o.buf.idx) && killed(o.buf, o.buf.idx, old(o.buf.idx)) : nokill(o.buf))
  mid [C21: Ctrl-W, from the start of a word] key1(o, CharCtrlW) || key1(o, MetaBackspace) ==> (o.buf.idx == 0 || wstart(old(o.buf.buf), o.buf.idx)) && forall k in max(1, o.buf.idx + 1)..old(o.buf.idx) : !wstart(old(o.buf.buf), k)
  mid [C21: Meta-D] key1(o, MetaDelete) ==> wordTo(o.buf)
  mid [C21: Meta-D, up to the next word] key1(o, MetaDelete) ==> wordEnds(o.buf)
  mid [C21: Ctrl-T] key1(o, CharTranspose) ==> nokill(o.buf) && (old(len(o.buf.buf)) < 2 ? kept(o.buf) : o.buf.idx == min(len(o.buf.buf), max(2, old(o.buf.idx) + 1)) && len(o.buf.buf) == old(len(o.buf.buf)) && o.buf.buf[o.buf.idx - 1] == old(o.buf.buf)[o.buf.idx - 2] && o.buf.buf[o.buf.idx - 2] == old(o.buf.buf)[o.buf.idx - 1])
  mid [C21: Ctrl-T, the rest] key1(o, CharTranspose) && old(len(o.buf.buf)) >= 2 ==> forall k in 0..len(o.buf.buf) : k != o.buf.idx - 1 && k != o.buf.idx - 2 ==> o.buf.buf[k] == old(o.buf.buf[k])
  mid [C21: Meta-T] key1(o, MetaTranspose) ==> same0(o)
  mid [C21: Backspace] key1(o, CharBackspace) || key1(o, CharCtrlH) ==> backChar(o.buf)
  mid [C21: Ctrl-D] key1(o, CharDelete) && old(len(o.buf.buf)) > 0 ==> delAt(o.buf) && o.buf.idx == old(o.buf.idx) && silent(o)
  mid [C21: Ctrl-L] key1(o, CharCtrlL) ==> same0(o)
  mid [C21: Ctrl-Z] key1(o, CharCtrlZ) ==> same0(o) && (old(o.t.sleeping) == 0 ==> nev() == ev0() + 3)
  mid [C21: Tab] key1(o, CharTab) ==> grown(o.buf) && nokill(o.buf)
  mid [C21: Ctrl-R] key1(o, CharBckSearch) ==> kept(o.buf) && o.buf.idx == old(o.buf.idx) && (o.opSearch.inMode <==> o.opSearch.width != 0) && (o.opSearch.inMode ==> o.opSearch.dir == S_DIR_BCK)
  mid [C21: Ctrl-S] key1(o, CharFwdSearch) ==> kept(o.buf) && o.buf.idx == old(o.buf.idx) && (o.opSearch.inMode <==> o.opSearch.width != 0) && (o.opSearch.inMode ==> o.opSearch.dir == S_DIR_FWD)
  mid [C21: Ctrl-P] key1(o, CharPrev) ==> nokill(o.buf) && (old(older(o.history)) ? o.history.current == lat(o.history.history, old(lpos(o.history.current)) - 1) && seq(o.buf.buf) == shown(o.history, it(o.history.current)) && o.buf.idx == len(o.buf.buf) : same0(o) && o.history.current == old(o.history.current))
  mid [C21: Ctrl-N] key1(o, CharNext) ==> nokill(o.buf) && (old(newer(o.history)) ? o.history.current == lat(o.history.history, old(lpos(o.history.current)) + 1) && seq(o.buf.buf) == shown(o.history, it(o.history.current)) && o.buf.idx == len(o.buf.buf) : same0(o) && o.history.current == old(o.history.current))
  mid [C21: any other rune is inserted] normal(o) && !bound(kk(o)) ==> nokill(o.buf) && seq(o.buf.buf) == old(seq(o.buf.buf)[:o.buf.idx]) ++ {1 : k => kk(o)} ++ old(o.buf.buf)[old(o.buf.idx):] && o.buf.idx == old(o.buf.idx) + 1
  mid [C21: only the search keys start a search] normal(o) && kk(o) != CharBckSearch && kk(o) != CharFwdSearch ==> !o.opSearch.inMode
  mid [C21: only Tab offers completions] normal(o) && kk(o) != CharTab ==> !o.opCompleter.inCompleteMode && !o.opCompleter.inSelectMode
  // the listener, and the end of the iteration
  tail [C20: no answer after the key] silent(o)
  tail [C21: no listener, the line stays] o.cfg.Listener == nil ==> kept(o.buf) && o.buf.idx == old(o.buf.idx)
  tail [C21: the listener sees the line] o.cfg.Listener != nil ==> ghost(lsInPos, 0) == old(o.buf.idx) && ghost(lsInLen, 0) == old(len(o.buf.buf)) && forall i in 0..old(len(o.buf.buf)) : ghost(lsInRune, i) == old(o.buf.buf)[i]
  tail [C21: what the listener rewrote is installed] o.cfg.Listener != nil && ghost(lsOK, 0) == 1 ==> o.buf.idx == ghost(lsPos, 0) && len(o.buf.buf) == ghost(lsLen, 0) && forall i in 0..len(o.buf.buf) : o.buf.buf[i] == ghost(lsRune, i)
  tail [C21: what it left alone stays] o.cfg.Listener != nil && ghost(lsOK, 0) != 1 ==> kept(o.buf) && o.buf.idx == old(o.buf.idx)
  tail [C21: kill] nokill(o.buf)
  shows [C20: the loop ends at end of input on an empty line] ek(o) == 0 && len(o.buf.buf) == 0 && same(sentval(o.errchan, sent(o.errchan) - 1), io.EOF)
  panics C21
  noterm
