// Configuration: C23

package readline

func NewCancelableStdin(r) -> (c)
  ensures [C23: wraps] fresh(c) && same(c.r, r) && c.notify != nil && c.stop != nil
  modifies nothing
  panics C23
  frame C23

def std2(c) = c.Stdin.(*FillableStdin).stdin
def unset(c) = !c.inited
def hint(now, was, dflt) = (was == "" ==> now == dflt) && (was == "\n" ==> now == "") && (was != "" && was != "\n" ==> same(now, was))
// what every configuration in use has
def ready(c) = c.inited && c.Stdin != nil && c.StdinWriter != nil && c.Stdout != nil && c.Stderr != nil && c.AutoComplete != nil && c.Painter != nil && c.FuncGetWidth != nil && c.FuncIsTerminal != nil && c.FuncMakeRaw != nil && c.FuncExitRaw != nil && c.FuncOnWidthChanged != nil

func (*Config).Init(c) -> (err)
  merge
  requires Stdin != nil && Stdout != nil && Stderr != nil
  ensures [C23: no error] err == nil
  ensures [C23: initialized once] old(c.inited) ==> same(c.Stdin, old(c.Stdin)) && same(c.StdinWriter, old(c.StdinWriter)) && same(c.InterruptPrompt, old(c.InterruptPrompt)) && same(c.EOFPrompt, old(c.EOFPrompt)) && c.HistoryLimit == old(c.HistoryLimit)
  ensures [C23: ready] !old(c.inited) ==> ready(c)
  ensures [C23: history limit] !old(c.inited) ==> c.HistoryLimit == (old(c.HistoryLimit) == 0 ? 500 : old(c.HistoryLimit))
  ensures [C23: interrupt hint] !old(c.inited) ==> hint(c.InterruptPrompt, old(c.InterruptPrompt), "^C")
  ensures [C23: end of input hint] !old(c.inited) ==> hint(c.EOFPrompt, old(c.EOFPrompt), "^D")
  ensures [C23: output] (old(c.Stdout) != nil ==> same(c.Stdout, old(c.Stdout))) && (!old(c.inited) && old(c.Stdout) == nil ==> same(c.Stdout, Stdout))
  ensures [C23: error output] (old(c.Stderr) != nil ==> same(c.Stderr, old(c.Stderr))) && (!old(c.inited) && old(c.Stderr) == nil ==> same(c.Stderr, Stderr))
  ensures [C23: the input is the one set] !old(c.inited) && old(c.Stdin) != nil ==> is(c.Stdin, *FillableStdin) && same(std2(c), old(c.Stdin))
  ensures [C23: standard input] !old(c.inited) && old(c.Stdin) == nil ==> is(c.Stdin, *FillableStdin) && is(std2(c), *CancelableStdin) && same(std2(c).(*CancelableStdin).r, Stdin)
  ensures [C23: completer] (old(c.AutoComplete) != nil ==> same(c.AutoComplete, old(c.AutoComplete))) && (!old(c.inited) && old(c.AutoComplete) == nil ==> is(c.AutoComplete, *TabCompleter))
  ensures [C23: painter] (old(c.Painter) != nil ==> same(c.Painter, old(c.Painter))) && (!old(c.inited) && old(c.Painter) == nil ==> is(c.Painter, *defaultPainter))
  ensures [C23: width] c.FuncGetWidth == (!old(c.inited) && old(c.FuncGetWidth) == nil ? fnval("GetScreenWidth") : old(c.FuncGetWidth))
  ensures [C23: terminal] c.FuncIsTerminal == (!old(c.inited) && old(c.FuncIsTerminal) == nil ? fnval("DefaultIsTerminal") : old(c.FuncIsTerminal))
  ensures [C23: width changes] c.FuncOnWidthChanged == (!old(c.inited) && old(c.FuncOnWidthChanged) == nil ? fnval("DefaultOnWidthChanged") : old(c.FuncOnWidthChanged))
  ensures [C23: raw mode] old(c.inited) || old(c.FuncMakeRaw) != nil ==> c.FuncMakeRaw == old(c.FuncMakeRaw)
  ensures [C23: default raw mode] !old(c.inited) && old(c.FuncMakeRaw) == nil ==> closureof(c.FuncMakeRaw, "(*RawMode).Enter")
  ensures [C23: leaving raw mode] old(c.inited) || old(c.FuncExitRaw) != nil ==> c.FuncExitRaw == old(c.FuncExitRaw)
  ensures [C23: default leaving of raw mode] !old(c.inited) && old(c.FuncExitRaw) == nil ==> closureof(c.FuncExitRaw, "(*RawMode).Exit")
  ensures [C23: both use the same terminal state] !old(c.inited) && old(c.FuncMakeRaw) == nil && old(c.FuncExitRaw) == nil ==> bind(c.FuncMakeRaw, 0) == bind(c.FuncExitRaw, 0)
  modifies when(!c.inited, [c.inited, c.Stdin, c.StdinWriter, c.Stdout, c.Stderr, c.HistoryLimit, c.InterruptPrompt, c.EOFPrompt, c.AutoComplete, c.Painter, c.FuncGetWidth, c.FuncIsTerminal, c.FuncMakeRaw, c.FuncExitRaw, c.FuncOnWidthChanged])
  panics C23
  frame C23

func (*Config).SetListener(c, f)
  ensures [C23: listener] is(c.Listener, *DumpListener) && c.Listener.(*DumpListener).f == f
  modifies c.Listener
  panics C23
  frame C23

func (*Config).SetPainter(c, p)
  ensures [C23: painter] same(c.Painter, p)
  modifies c.Painter
  panics C23
  frame C23

// ---- the history file is opened, closed and told apart from a closed one by its descriptor
extern (*os.File).Fd(f) -> (r)
  nilok
  ensures f == nil ==> r == 18446744073709551615
  modifies nothing

extern (*os.File).Close(f) -> (err)
  nilok
  modifies nothing

func (*opHistory).IsHistoryClosed(me) -> (res)
  requires !held(me.fdLock)
  ensures [C23: not open] me.fd == nil ==> res
  modifies nothing
  panics C23
  frame C23

func (*opHistory).Close(me)
  requires !held(me.fdLock)
  modifies nothing
  panics C23
  frame C23

def ready16(me) = inv(me) && vers(me) && me.historyVer >= 0 && !held(me.fdLock) && nOpen() >= 0 && nRename() >= 0
def fileOps() = [ghosts(opens, 1), ghosts(openFile, 1), ghosts(openName, 1), ghosts(openFlag, 1), ghosts(renames, 1), ghosts(renFrom, 1), ghosts(renTo, 1), ghosts(renLen, 1), ghosts(rinpos, 1)]

func (*opHistory).Init(me)
  requires ready16(me)
  let o0 = nOpen()
  ensures [C16: the file of the configuration] nOpen() == o0 || me.cfg.HistoryFile != "" && same(openName(o0), me.cfg.HistoryFile) && appends(openFlag(o0)) && !truncates(openFlag(o0))
  ensures [C16 C23: still fit for use] ready16(me)
  ensures [C16 C23: other lists stay] forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == me.history || llist(elem(e)) == nil
  modifies me.fd, me.historyVer, me.current, list(me.history), held(me.fdLock), fileOps()
  panics C16 C23
  frame C16 C23

func newOpSearch(w, buf, history, cfg, width) -> (o)
  ensures [C23: of this history] fresh(o) && o.buf == buf && o.history == history && o.cfg == cfg && o.width == width && same(o.w, w)
  ensures [C23: not searching] !o.inMode && o.source == nil && len(o.data) == 0
  modifies nothing
  panics C23
  frame C23

// ---- the configuration of an operation: what goes with it
def stds() = nOpen() >= 0 && nRename() >= 0 && Stdin != nil && Stdout != nil && Stderr != nil
def hist(h) = ready16(h)
// a configuration that was in use has its history and search with it
def cfgOK(c) = (c.inited ==> ready(c)) && (c.opHistory != nil ==> hist(c.opHistory) && c.opHistory.cfg == c && c.opSearch != nil && c.opSearch.history == c.opHistory)
def installed(o) = o.cfg != nil && ready(o.cfg) && cfgOK(o.cfg) && o.history == o.cfg.opHistory && o.opSearch == o.cfg.opSearch && o.history != nil && o.buf.cfg == o.cfg

func (*Operation).SetHistoryPath(o, path)
  requires nOpen() >= 0 && nRename() >= 0 && o.cfg != nil && o.cfg.FuncGetWidth != nil && o.buf != nil && (o.history != nil ==> !held(o.history.fdLock))
  ensures [C23 C16: a history of its own] fresh(o.history) && fresh(o.history.history) && o.history.cfg == o.cfg && hist(o.history) && same(o.cfg.HistoryFile, path)
  ensures [C23: goes with the configuration] o.cfg.opHistory == o.history && o.cfg.opSearch == o.opSearch
  ensures [C23: other histories stay] nOpen() >= 0 && nRename() >= 0 && forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == nil || llist(elem(e)) == o.history.history
  ensures [C23: searched] fresh(o.opSearch) && o.opSearch.history == o.history && o.opSearch.buf == o.buf
  modifies o.cfg.HistoryFile, o.cfg.opHistory, o.cfg.opSearch, o.history, o.opSearch, fileOps()
  panics C23
  frame C23

def inits(c) = [c.inited, c.Stdin, c.StdinWriter, c.Stdout, c.Stderr, c.HistoryLimit, c.InterruptPrompt, c.EOFPrompt, c.AutoComplete, c.Painter, c.FuncGetWidth, c.FuncIsTerminal, c.FuncMakeRaw, c.FuncExitRaw, c.FuncOnWidthChanged]
def histState(h) = [h.fd, h.historyVer, h.current, list(h.history), held(h.fdLock)]

func (*Operation).SetConfig(op, cfg) -> (res, err)
  requires cfg != nil && cfgOK(cfg) && op.buf != nil && ok(op.buf) && !held(op.m) && stds() && (op.history != nil ==> !held(op.history.fdLock))
  let was = op.cfg
  ensures [C23: the previous one] err == nil && res == was
  ensures [C23: in place] op.cfg == cfg
  ensures [C23: already in place] was == cfg ==> op.history == old(op.history) && op.opSearch == old(op.opSearch)
  ensures [C23: ready] was != cfg ==> installed(op)
  ensures [C23: its own history and search] was != cfg && old(cfg.opHistory) != nil ==> op.history == old(cfg.opHistory) && op.opSearch == old(cfg.opSearch) && cfg.opHistory == old(cfg.opHistory) && cfg.opSearch == old(cfg.opSearch)
  ensures [C23: a new history and search] was != cfg && old(cfg.opHistory) == nil ==> fresh(op.history) && fresh(op.history.history) && fresh(op.opSearch) && op.opSearch.buf == op.buf
  ensures [C23: fresh prompt] was != cfg ==> fresh(op.buf.prompt) || cap(op.buf.prompt) == 0
  ensures [C23: prompt] was != cfg ==> seq(op.buf.prompt) == seq(cfg.Prompt)
  ensures [C23: mask] was != cfg ==> cfg.MaskRune == old(cfg.MaskRune) && cfg.EnableMask == old(cfg.EnableMask)
  ensures [C23: history file] was != cfg ==> same(cfg.HistoryFile, old(cfg.HistoryFile))
  ensures [C23: other histories stay] nOpen() >= 0 && nRename() >= 0 && forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == nil || op.history != nil && llist(elem(e)) == op.history.history
  ensures [C23: completion starts over] was != cfg ==> fresh(op.opCompleter) && op.opCompleter.op == op && !op.opCompleter.inCompleteMode
  ensures [C23: line] ok(op.buf)
  ensures [C23: unlocked] !held(op.m)
  modifies when(was != cfg, [op.cfg, op.history, op.opSearch, op.opCompleter, op.buf.cfg, op.buf.prompt, op.buf.interactive, cfg.opHistory, cfg.opSearch, cfg.HistoryFile, cfg.MaskRune]), when(was != cfg && !cfg.inited, inits(cfg)), when(was != cfg && cfg.opHistory != nil, histState(cfg.opHistory)), fileOps()
  panics C23
  frame C23

// ---- reading a password: another configuration for one line
def pwOK(o) = o.opPassword != nil && o.opPassword.o == o
// everything SetConfig may touch besides the configuration it puts in place
def swap(o) = [o.cfg, o.history, o.opSearch, o.opCompleter, o.buf.cfg, o.buf.prompt, o.buf.interactive]
def swapped(c) = [c.opHistory, c.opSearch, c.HistoryFile, c.MaskRune]

func newOpPassword(o) -> (p)
  ensures [C23: of this operation] fresh(p) && p.o == o && p.backupCfg == nil
  modifies nothing
  panics C23
  frame C23

func (*opPassword).PasswordConfig(o) -> (c)
  requires o.o != nil && o.o.cfg != nil
  ensures [C23: masked] fresh(c) && c.EnableMask && c.MaskRune == 0
  ensures [C23: no hints] c.InterruptPrompt == "\n" && c.EOFPrompt == "\n"
  ensures [C23: nothing kept] c.HistoryLimit == 0 - 1 && c.HistoryFile == "" && !c.inited && c.opHistory == nil && c.opSearch == nil
  ensures [C23: as given otherwise] c.Listener == nil && c.AutoComplete == nil && c.Stdin == nil && c.FuncGetWidth == nil && c.FuncIsTerminal == nil && c.FuncMakeRaw == nil && c.FuncExitRaw == nil && c.FuncOnWidthChanged == nil && c.FuncFilterInputRune == nil
  ensures [C23: painted as is] is(c.Painter, *defaultPainter)
  ensures [C23: same output] same(c.Stdout, o.o.cfg.Stdout) && same(c.Stderr, o.o.cfg.Stderr)
  modifies nothing
  panics C23
  frame C23

func (*Operation).GenPasswordConfig(o) -> (c)
  requires pwOK(o) && o.cfg != nil
  ensures [C23: masked] fresh(c) && c.EnableMask && c.MaskRune == 0
  ensures [C23: no hints] c.InterruptPrompt == "\n" && c.EOFPrompt == "\n"
  ensures [C23: nothing kept] c.HistoryLimit == 0 - 1 && c.HistoryFile == "" && !c.inited && c.opHistory == nil && c.opSearch == nil
  ensures [C23: same output] same(c.Stdout, o.cfg.Stdout) && same(c.Stderr, o.cfg.Stderr)
  modifies nothing
  panics C23
  frame C23

func (*opPassword).EnterPasswordMode(o, cfg) -> (err)
  requires o.o != nil && cfg != nil && cfgOK(cfg) && o.o.buf != nil && ok(o.o.buf) && !held(o.o.m) && stds() && (o.o.history != nil ==> !held(o.o.history.fdLock))
  let op = o.o
  let was = o.o.cfg
  ensures [C23: other histories stay] nOpen() >= 0 && nRename() >= 0 && forall e : llist(elem(e)) == old(llist(elem(e))) || llist(elem(e)) == nil || op.history != nil && llist(elem(e)) == op.history.history
  ensures [C23: the one to come back] err == nil && o.backupCfg == was
  ensures [C23: in place] op.cfg == cfg && ok(op.buf) && !held(op.m)
  ensures [C23: fresh prompt] was != cfg ==> fresh(op.buf.prompt) || cap(op.buf.prompt) == 0
  ensures [C23: ready] was != cfg ==> installed(op) && seq(op.buf.prompt) == seq(cfg.Prompt)
  ensures [C23: a new history and search] was != cfg && old(cfg.opHistory) == nil ==> fresh(op.history) && fresh(op.history.history) && fresh(op.opSearch) && op.opSearch.buf == op.buf
  ensures [C23: mask] was != cfg ==> cfg.MaskRune == old(cfg.MaskRune) && cfg.EnableMask == old(cfg.EnableMask) && same(cfg.HistoryFile, old(cfg.HistoryFile))
  modifies o.backupCfg, when(was != cfg, [swap(op), swapped(cfg)]), when(was != cfg && !cfg.inited, inits(cfg)), when(was != cfg && cfg.opHistory != nil, histState(cfg.opHistory)), fileOps()
  panics C23
  frame C23

func (*opPassword).ExitPasswordMode(o)
  requires o.o != nil && o.backupCfg != nil && cfgOK(o.backupCfg) && o.o.buf != nil && ok(o.o.buf) && !held(o.o.m) && stds() && (o.o.history != nil ==> !held(o.o.history.fdLock))
  let op = o.o
  let was = o.o.cfg
  let cfg = o.backupCfg
  ensures [C23: back in place] op.cfg == cfg && o.backupCfg == nil && ok(op.buf) && !held(op.m)
  ensures [C23: its own history and search] was != cfg && old(cfg.opHistory) != nil ==> op.history == old(cfg.opHistory) && op.opSearch == old(cfg.opSearch) && installed(op)
  ensures [C23: fresh prompt] was != cfg ==> fresh(op.buf.prompt) || cap(op.buf.prompt) == 0
  ensures [C23: its prompt] was != cfg ==> seq(op.buf.prompt) == seq(cfg.Prompt)
  ensures [C23: mask] was != cfg ==> cfg.MaskRune == old(cfg.MaskRune) && cfg.EnableMask == old(cfg.EnableMask) && same(cfg.HistoryFile, old(cfg.HistoryFile))
  modifies o.backupCfg, when(was != cfg, [swap(op), swapped(cfg)]), when(was != cfg && !cfg.inited, inits(cfg)), when(was != cfg && cfg.opHistory != nil, histState(cfg.opHistory)), fileOps()
  panics C23
  frame C23

func (*Operation).PasswordWithConfig(o, cfg) -> (res, err)
  requires cfg != nil && cfg != o.cfg && cfgOK(cfg) && pwOK(o) && opOK(o) && nev() >= 0 && stds() && installed(o) && (cfg.opHistory != nil ==> cfg.opHistory != o.history && cfg.opHistory.history != o.history.history)
  let was = o.cfg
  ensures [C23: the configuration is back] o.cfg == was && o.buf.cfg == was
  ensures [C23: with its history and search] o.history == old(o.history) && o.opSearch == old(o.opSearch) && installed(o)
  ensures [C23: fresh prompt] fresh(o.buf.prompt) || cap(o.buf.prompt) == 0
  ensures [C23: and its prompt] seq(o.buf.prompt) == seq(was.Prompt)
  ensures [C23: mask as it was] was.MaskRune == old(was.MaskRune) && was.EnableMask == old(was.EnableMask) && same(was.HistoryFile, old(was.HistoryFile))
  ensures [C23: nothing pending] o.opPassword.backupCfg == nil && !held(o.m)
  modifies o.opPassword.backupCfg, swap(o), swapped(cfg), swapped(was), inits(cfg), histState(o.history), when(cfg.opHistory != nil, histState(cfg.opHistory)), events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w), fileOps()
  panics C23
  frame C23

func (*Operation).PasswordEx(o, prompt, l) -> (res, err)
  requires pwOK(o) && opOK(o) && nev() >= 0 && stds() && installed(o)
  let was = o.cfg
  ensures [C23: the configuration is back] o.cfg == was && o.buf.cfg == was
  ensures [C23: with its history and search] o.history == old(o.history) && o.opSearch == old(o.opSearch) && installed(o)
  ensures [C23: fresh prompt] fresh(o.buf.prompt) || cap(o.buf.prompt) == 0
  ensures [C23: and its prompt] seq(o.buf.prompt) == seq(was.Prompt)
  ensures [C23: mask as it was] was.MaskRune == old(was.MaskRune) && was.EnableMask == old(was.EnableMask) && same(was.HistoryFile, old(was.HistoryFile))
  ensures [C23: nothing pending] o.opPassword.backupCfg == nil && !held(o.m)
  modifies o.opPassword.backupCfg, swap(o), swapped(was), histState(o.history), events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w), fileOps()
  panics C23
  frame C23

func (*Operation).Password(o, prompt) -> (res, err)
  requires pwOK(o) && opOK(o) && nev() >= 0 && stds() && installed(o)
  let was = o.cfg
  ensures [C23: the configuration is back] o.cfg == was && o.buf.cfg == was
  ensures [C23: with its history and search] o.history == old(o.history) && o.opSearch == old(o.opSearch) && installed(o)
  ensures [C23: fresh prompt] fresh(o.buf.prompt) || cap(o.buf.prompt) == 0
  ensures [C23: and its prompt] seq(o.buf.prompt) == seq(was.Prompt)
  ensures [C23: mask as it was] was.MaskRune == old(was.MaskRune) && was.EnableMask == old(was.EnableMask) && same(was.HistoryFile, old(was.HistoryFile))
  ensures [C23: nothing pending] o.opPassword.backupCfg == nil && !held(o.m)
  modifies o.opPassword.backupCfg, swap(o), swapped(was), histState(o.history), events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w), fileOps()
  panics C23
  frame C23

func (Config).Clone(c) -> (r)
  ensures [C23: another one] fresh(r) && r.opHistory == nil && r.opSearch == nil
  ensures [C23: with the same options] same(r.Prompt, c.Prompt) && same(r.HistoryFile, c.HistoryFile) && r.HistoryLimit == c.HistoryLimit && r.DisableAutoSaveHistory == c.DisableAutoSaveHistory && r.HistorySearchFold == c.HistorySearchFold && r.VimMode == c.VimMode && same(r.InterruptPrompt, c.InterruptPrompt) && same(r.EOFPrompt, c.EOFPrompt) && r.UniqueEditLine == c.UniqueEditLine && r.EnableMask == c.EnableMask && r.MaskRune == c.MaskRune && r.ForceUseInteractive == c.ForceUseInteractive && r.inited == c.inited
  ensures [C23: and the same parts] same(r.AutoComplete, c.AutoComplete) && same(r.Listener, c.Listener) && same(r.Painter, c.Painter) && same(r.Stdin, c.Stdin) && same(r.StdinWriter, c.StdinWriter) && same(r.Stdout, c.Stdout) && same(r.Stderr, c.Stderr)
  ensures [C23: and functions] r.FuncFilterInputRune == c.FuncFilterInputRune && r.FuncIsTerminal == c.FuncIsTerminal && r.FuncMakeRaw == c.FuncMakeRaw && r.FuncExitRaw == c.FuncExitRaw && r.FuncGetWidth == c.FuncGetWidth && r.FuncOnWidthChanged == c.FuncOnWidthChanged
  modifies nothing
  panics C23
  frame C23

func (*Terminal).SetConfig(t, c) -> (err)
  requires c != nil && stds() && !held(t.m)
  ensures [C23: in place] err == nil && t.cfg == c && !held(t.m)
  modifies t.cfg, when(!c.inited, inits(c))
  panics C23
  frame C23

func (*Instance).SetConfig(i, cfg) -> (res)
  requires cfg != nil && cfgOK(cfg) && i.Operation != nil && i.Terminal != nil && i.Operation.buf != nil && ok(i.Operation.buf) && !held(i.Operation.m) && !held(i.Terminal.m) && stds() && (i.Operation.history != nil ==> !held(i.Operation.history.fdLock)) && (i.Operation.cfg == cfg ==> i.Config == cfg)
  let was = i.Config
  let op = i.Operation
  ensures [C23: the previous one] res == was && i.Config == cfg
  ensures [C23: everywhere] was != cfg ==> installed(op) && op.cfg == cfg && i.Terminal.cfg == cfg
  ensures [C23: its prompt] was != cfg ==> seq(op.buf.prompt) == seq(cfg.Prompt)
  ensures [C23: untouched] was == cfg ==> op.cfg == old(op.cfg) && i.Terminal.cfg == old(i.Terminal.cfg)
  ensures [C23: line] ok(op.buf) && !held(op.m)
  modifies when(was != cfg, [i.Config, i.Terminal.cfg, swap(op), swapped(cfg)]), when(was != cfg && !cfg.inited, inits(cfg)), when(was != cfg && cfg.opHistory != nil, histState(cfg.opHistory)), fileOps()
  panics C23
  frame C23
