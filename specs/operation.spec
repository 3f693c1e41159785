// The operation behind a line read: C22 (raw mode around it), C20 (what it returns)

package readline

// what travels from the key loop to the reader: an interrupt carries its line
iface chan.Operation.errchan(v)
  requires v != nil && (is(v, *InterruptError) ==> data(v) != 0)

// the application's listener does not touch package memory
// and answers with a position inside its line
// what a listener was shown and what it answered
def listened() = [ghost(lsPos, 0), ghost(lsOK, 0), ghost(lsLen, 0), ghosts(lsRune, 1), ghost(lsInPos, 0), ghost(lsInLen, 0), ghosts(lsInRune, 1)]
iface Listener.OnChange(l, line, pos, key) -> (newLine, newPos, ok)
  ensures ok ==> 0 <= newPos && newPos <= len(newLine)
  assume ghost(lsPos, 0) == newPos && (ghost(lsOK, 0) == 1 <==> ok) && ghost(lsLen, 0) == len(newLine) && (forall i in 0..len(newLine) : newLine[i] == ghost(lsRune, i))
  assume ghost(lsInPos, 0) == pos && ghost(lsInLen, 0) == len(line) && (forall i in 0..len(line) : line[i] == ghost(lsInRune, i))
  modifies listened()

def rawOK(t) = t != nil && t.cfg != nil && t.cfg.FuncMakeRaw != nil && t.cfg.FuncExitRaw != nil
def opOK(o) = ErrInterrupt != nil && ref(o.outchan) != ref(o.errchan) && o.cfg != nil && o.buf != nil && ok(o.buf) && rawOK(o.t) && !held(o.m)

def oneOut(o) = rcvd(o.outchan) == old(rcvd(o.outchan)) + 1 && rcvd(o.errchan) == old(rcvd(o.errchan))
def oneErr(o) = rcvd(o.errchan) == old(rcvd(o.errchan)) + 1 && rcvd(o.outchan) == old(rcvd(o.outchan))
def theErr(o) = rcvval(o.errchan, old(rcvd(o.errchan)))
def theLine(o) = rcvval(o.outchan, old(rcvd(o.outchan)))

func (*Operation).Runes(o) -> (res, err)
  requires opOK(o) && nev() >= 0
  ensures [C20: one answer] oneOut(o) || oneErr(o)
  ensures [C20: the submitted line] oneOut(o) ==> same(res, theLine(o)) && err == nil
  ensures [C20: an error exactly when nothing was submitted] err == nil <==> oneOut(o)
  ensures [C20: the interrupted line] oneErr(o) && is(theErr(o), *InterruptError) ==> same(res, theErr(o).(*InterruptError).Line) && err == ErrInterrupt
  ensures [C20: other errors] oneErr(o) && !is(theErr(o), *InterruptError) ==> len(res) == 0 && same(err, theErr(o))
  ensures [C22 C23: unlocked] !held(o.m)
  ensures [C22: entered once before reading, left once after] nev() == ev0() + 2 && evIs(ev0(), 1, rc0()) && evIs(ev0() + 1, 2, rc0() + 1)
  modifies events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w)
  panics C22
  frame C22

func (*Operation).String(o) -> (res, err)
  requires opOK(o) && nev() >= 0
  ensures [C20: one answer] oneOut(o) || oneErr(o)
  ensures [C20: the submitted line] oneOut(o) ==> seq(res) == vrs(theLine(o)) && err == nil
  ensures [C20: the interrupted line] oneErr(o) && is(theErr(o), *InterruptError) ==> seq(res) == vrs(theErr(o).(*InterruptError).Line) && err == ErrInterrupt
  ensures [C20: other errors] oneErr(o) && !is(theErr(o), *InterruptError) ==> rlen(res) == 0 && same(err, theErr(o))
  ensures [C22 C23: unlocked] !held(o.m)
  ensures [C22: entered once before reading, left once after] nev() == ev0() + 2 && evIs(ev0(), 1, rc0()) && evIs(ev0() + 1, 2, rc0() + 1)
  modifies events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w)
  panics C22
  frame C22

func (*Operation).Slice(o) -> (res, err)
  requires opOK(o) && nev() >= 0
  ensures [C20: one answer] oneOut(o) || oneErr(o)
  ensures [C20: the submitted line] oneOut(o) ==> err == nil
  ensures [C20: the interrupted line] oneErr(o) && is(theErr(o), *InterruptError) ==> len(res) == 0 && err == ErrInterrupt
  ensures [C20: other errors] oneErr(o) && !is(theErr(o), *InterruptError) ==> len(res) == 0 && same(err, theErr(o))
  ensures [C22 C23: unlocked] !held(o.m)
  ensures [C22: entered once before reading, left once after] nev() == ev0() + 2 && evIs(ev0(), 1, rc0()) && evIs(ev0() + 1, 2, rc0() + 1)
  modifies events(), chans(), listened(), recv(o.outchan), recv(o.errchan), held(o.m), o.buf.hadClean, out(o.buf.w)
  panics C22
  frame C22
