// Key decoding: C18

package readline

// the runes a buffered reader delivers: at(r, i) is the i-th, pos(r) the next one
def rsrc(b) = bufsrc(b)
def inAt(s, i) = ghost(runein, s, i)
def inPos(s) = ghost(rpos, s)
def inFails(s) = ghost(readfails, s)

uf isNumber bool
def isParam(r) = r == ';' || isNumber(r)

// the commands behind the final rune of a CSI and of an SS3 sequence, and behind Escape and a rune (0: none)
def ss3Code(f) = f == 'D' ? CharBackward : f == 'C' ? CharForward : f == 'A' ? CharPrev : f == 'B' ? CharNext : f == 'H' ? CharLineStart : f == 'F' ? CharLineEnd : 0
def csiCode(f, del) = f == '~' ? (del ? CharDelete : 0) : ss3Code(f)
def metaCode(r) = r == 'b' ? MetaBackward : r == 'f' ? MetaForward : r == 'd' ? MetaDelete : r == CharTranspose ? MetaTranspose : r == CharBackspace ? MetaBackspace : r

func escapeExKey(key) -> (r)
  requires key != nil
  ensures [C18: CSI code] r == csiCode(key.typ, key.attr == "3")
  modifies nothing
  panics C18
  frame C18

func escapeSS3Key(key) -> (r)
  requires key != nil
  ensures [C18: SS3 code] r == ss3Code(key.typ)
  modifies nothing
  panics C18
  frame C18

func escapeKey(r, reader) -> (res)
  requires reader != nil
  ensures [C18: Escape and a rune] r != 'O' ==> res == metaCode(r)
  ensures [C18: nothing more is read] r != 'O' ==> inPos(rsrc(reader)) == old(inPos(rsrc(reader)))
  modifies ghost(rpos, rsrc(reader)), ghost(unreadable, rsrc(reader)), ghost(readfails, rsrc(reader))
  panics C18
  frame C18

// the parameters of a sequence and its final rune; r is its first rune
func readEscKey(r, reader) -> (key)
  requires reader != nil
  let s = rsrc(reader)
  let p = inPos(s)
  assume ghost(escfails, s) == old(ghost(escfails, s)) + inFails(s) - old(inFails(s))
  ensures [C18: a key] key != nil && fresh(key)
  ensures [C18: reads forward] inPos(s) >= p && inFails(s) >= old(inFails(s))
  ensures [C18: final rune] inFails(s) == old(inFails(s)) ==> key.typ == (inPos(s) == p ? r : inAt(s, inPos(s) - 1)) && !isParam(key.typ)
  ensures [C18: parameters] inFails(s) == old(inFails(s)) ==> (forall i in p..inPos(s) - 1 : isParam(inAt(s, i))) && (inPos(s) > p ==> isParam(r))
  ensures [C18: text of the parameters] inFails(s) == old(inFails(s)) ==> rlen(key.attr) == inPos(s) - p && (inPos(s) > p ==> seq(key.attr)[0] == r) && forall i in 1..rlen(key.attr) : seq(key.attr)[i] == inAt(s, p + i - 1)
  inv inPos(s) >= p && inFails(s) >= old(inFails(s))
  inv inFails(s) == old(inFails(s)) ==> $r == (inPos(s) == p ? r : inAt(s, inPos(s) - 1))
  inv inFails(s) == old(inFails(s)) ==> forall i in p..inPos(s) - 1 : isParam(inAt(s, i))
  inv inFails(s) == old(inFails(s)) ==> inPos(s) > p ==> isParam(r)
  inv inFails(s) == old(inFails(s)) ==> len(content($m)) == inPos(s) - p
  inv inFails(s) == old(inFails(s)) ==> inPos(s) > p ==> content($m)[0] == r
  inv inFails(s) == old(inFails(s)) ==> forall i in 1..len(content($m)) : content($m)[i] == inAt(s, p + i - 1)
  noterm
  modifies ghost(rpos, s), ghost(unreadable, s), ghost(readfails, s), ghost(escfails, s)
  panics C18
  frame C18

func (*escapeKeyPair).Get2(e) -> (a, b, ok)
  modifies nothing
  panics C18
  frame C18

// dst(k): what is pending when the rune k is read (0 nothing, 1 Escape, 2 Escape [, 3 Escape O, 9 inside a sequence);
// dcnt(k): how many keys were delivered before it; dout(j): the j-th key delivered
uf dst local
uf dcnt local
uf dout local
uf at_u bool
// pars(i, j): the runes i..j are all parameters of a sequence; npar(i, j): otherwise, one that is not
uf pars bool local
uf npar local
def tin(t) = data(t.cfg.Stdin)
// one unit of input: a rune, or the rest of a sequence up to its final rune
def unitEnd(s, i, j) = 0 <= i && i < j && (dst(i) == 0 || dst(i) == 1 ? j == i + 1 : (dst(i) == 2 || dst(i) == 3) && !isParam(inAt(s, j - 1)) && pars(i, j - 1))
// what a unit decodes to (0: nothing) and what is pending after it
def unitKey(s, vim, i, j) = dst(i) == 0 ? inAt(s, i) : dst(i) == 1 ? metaCode(inAt(s, i)) : dst(i) == 2 ? csiCode(inAt(s, j - 1), j == i + 2 && inAt(s, i) == '3') : ss3Code(inAt(s, j - 1))
def isLead(s, vim, i, j) = dst(i) == 1 && (inAt(s, i) == '[' || inAt(s, i) == 'O') || dst(i) <= 1 && unitKey(s, vim, i, j) == CharEsc && !vim
def delivers(s, vim, i, j) = !isLead(s, vim, i, j) && (dst(i) >= 2 ==> unitKey(s, vim, i, j) != 0)
def nextState(s, vim, i, j) = dst(i) == 1 && inAt(s, i) == '[' ? 2 : dst(i) == 1 && inAt(s, i) == 'O' ? 3 : isLead(s, vim, i, j) ? 1 : 0
def parsDef(s) = forall i, j : at_u(i) && at_u(j) ==> pars(i, j - 1) || i <= npar(i, j - 1) && npar(i, j - 1) < j - 1 && !isParam(inAt(s, npar(i, j - 1)))
def decodes(s, vim, p) = dst(p) == 0 && dcnt(p) == 0 && (forall i, j : at_u(i) && at_u(j) && unitEnd(s, i, j) ==> dst(j) == nextState(s, vim, i, j) && dcnt(j) == dcnt(i) + (delivers(s, vim, i, j) ? 1 : 0) && (delivers(s, vim, i, j) ==> dout(dcnt(i)) == unitKey(s, vim, i, j)))
def sound(t, e0) = ghost(escfails, tin(t)) == e0

func (*Terminal).ioloop(t) -> ()
  requires t.cfg != nil && t.outchan != nil && t.sizeChan != nil && t.kickChan != nil && t.stopChan != nil && t.cfg.Stdin != nil && !held(t.m) && ref(t.outchan) != ref(t.sizeChan)
  let p = inPos(tin(t))
  let n0 = sent(t.outchan)
  let e0 = ghost(escfails, tin(t))
  define parsDef(tin(t))
  define decodes(tin(t), t.cfg.VimMode, p)
  inv at_u(inPos(tin(t))) && inPos(tin(t)) >= p
  inv ghost(escfails, tin(t)) >= old(ghost(escfails, tin(t)))
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> dst(inPos(tin(t))) >= 0 && dst(inPos(tin(t))) <= 3
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> $b == (dst(inPos(tin(t))) == 1)
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> $b == (dst(inPos(tin(t))) == 2)
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> $b == (dst(inPos(tin(t))) == 3)
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> $i == dst(inPos(tin(t)))
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> sent(t.outchan) == n0 + dcnt(inPos(tin(t)))
  inv at_u(inPos(tin(t))) && sound(t, e0) ==> dcnt(inPos(tin(t))) >= 0
  step [C18: every unit of input decodes to its key] at_u(inPos(tin(t))) && sound(t, e0) ==> sent(t.outchan) == n0 + dcnt(inPos(tin(t))) && (forall j in old(sent(t.outchan))..sent(t.outchan) : sentval(t.outchan, j) == dout(j - n0))
  step [C18: keys are delivered in order] sent(t.outchan) >= old(sent(t.outchan)) && forall j in 0..old(sent(t.outchan)) : sentval(t.outchan, j) == old(sentval(t.outchan, j))
  step [C18: at most one key a time] sent(t.outchan) <= old(sent(t.outchan)) + 1
  step [C18: a failed read delivers nothing] inPos(tin(t)) == old(inPos(tin(t))) ==> sent(t.outchan) == old(sent(t.outchan))
  noterm
  modifies t.isReading, held(t.m), chans(), sent(t.sizeChan), ghost(rpos, tin(t)), ghost(unreadable, tin(t)), ghost(readfails, tin(t)), ghost(escfails, tin(t))
  panics C18
  frame C18
