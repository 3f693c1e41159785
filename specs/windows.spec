// The color translation of the windows console: C26

package windows

// ---- the console: what its attribute is set to, in order
def nAttr() = ghost(attrs, 0)
def attrSet(k) = ghost(attr, k)

iface field.Kernel.SetConsoleTextAttribute(u) -> (err)
  ensures nAttr() == old(nAttr()) + 1 && attrSet(old(nAttr())) == u[1]
  modifies ghost(attrs, 0), ghost(attr, ghost(attrs, 0))

// the procedures of kernel32.dll
func NewKernel() -> (k)
  trusted
  ensures fresh(k)
  modifies nothing

func GetConsoleScreenBufferInfo() -> (info, err)
  trusted
  ensures fresh(info)
  modifies nothing

func SetConsoleCursorPosition(c) -> (err)
  trusted
  modifies nothing

func killLines() -> (err)
  trusted
  modifies nothing

func eraseLine() -> (err)
  trusted
  modifies nothing

// red, green and blue are bits 4, 2 and 1 of the foreground, 64, 32 and 16 of the background
def rgb(i) = i == 0 ? 0 : i == 1 ? 4 : i == 2 ? 2 : i == 3 ? 6 : i == 4 ? 1 : i == 5 ? 5 : i == 6 ? 3 : 7
// what one parameter makes of the attribute
def sgr(color, c) = c >= 30 && c <= 37 ? bitor(bitxor(color, 8), rgb(c - 30)) : c >= 40 && c <= 47 ? bitor(bitxor(color, 128), 16 * rgb(c - 40)) : c == 4 ? bitor(color, 32775) : c == 1 ? bitor(color, 15) : 7
// the attribute after the first k parameters
uf attrAfter

func (*ANSIWriterCtx).ioloopEscSeq(a, w, r, argptr) -> (more)
  requires w != nil && argptr != nil && kernel != nil && kernel.SetConsoleTextAttribute != nil && nAttr() >= 0
  let arg = *argptr
  let n = nAttr()
  define attrAfter(0) == 0
  define len(arg) > 0 ==> attrAfter(1) == sgr(0, atoi(arg[0]))
  define forall k in 0..len(arg) : attrAfter(k + 1) == sgr(attrAfter(k), atoi(arg[k]))
  inv 0 <= $i + 1 && $i + 1 <= len(arg) && $j == attrAfter($i + 1)
  inv forall k in 0..$i + 1 : isnum(arg[k])
  ensures [C26: the attribute of the parameters] r == 'm' && (forall k in 0..len(arg) : isnum(arg[k])) ==> nAttr() == n + 1 && attrSet(n) == attrAfter(len(arg)) && len(content(w)) == old(len(content(w)))
  ensures [C26: no other attribute] r != 'm' || !(forall k in 0..len(arg) : isnum(arg[k])) ==> nAttr() == n
  ensures [C26: nothing is printed] r != 'm' ==> len(content(w)) == old(len(content(w)))
  ensures [C26: parameters go on] r == ';' || (r < 'A' || r > 'D') && r != 'J' && r != 'K' && r != 'm' && r != 7 ==> more
  ensures [C26: ends the sequence] r >= 'A' && r <= 'D' || r == 'J' || r == 'K' || r == 'm' || r == 7 ==> !more
  modifies *argptr, elems(arg), content(w), nAttr(), attrSet(nAttr())
  panics C26
  term C26

def console() = kernel != nil && kernel.SetConsoleTextAttribute != nil && nAttr() >= 0
def ctxOK(a) = a.target != nil
// a buffered console is written out when the text is followed by an escape or a zero
def flushes(a, r) = a.wantFlush && (r == 0 || r == 27)
// what is no part of an escape sequence
def plain(a, r) = !a.isEscSeq && r != 27 && !(r == '[' && a.isEsc)

func NewANSIWriterCtx(target) -> (a)
  ensures [C26: nothing pending] fresh(a) && ctxOK(a) && !a.isEsc && !a.isEscSeq && len(a.arg) == 0
  modifies nothing
  panics C26
  frame C26

func NewANSIWriter(w) -> (a)
  ensures [C26: nothing pending] fresh(a) && a.ctx != nil && ctxOK(a.ctx) && !a.ctx.isEsc && !a.ctx.isEscSeq && !held(a.Mutex)
  modifies nothing
  panics C26
  frame C26

func (*ANSIWriterCtx).process(a, r) -> (res)
  requires ctxOK(a) && console()
  let w = a.target
  let n = len(content(*a.target))
  let at = nAttr()
  ensures [C26: text passes] old(plain(a, r)) ==> len(content(*w)) > 0 && content(*w)[len(content(*w)) - 1] == vr(r) && !a.isEsc && !a.isEscSeq
  ensures [C26: what was before it stays] old(plain(a, r)) && !old(flushes(a, r)) ==> len(content(*w)) == n + 1 && forall i in 0..n : content(*w)[i] == old(content(*w)[i])
  ensures [C26: an escape is not printed] !old(plain(a, r)) && !old(a.isEscSeq) ==> len(content(*w)) <= n && nAttr() == at
  ensures [C26: an escape begins] !old(a.isEscSeq) && r == 27 ==> a.isEsc && !a.isEscSeq
  ensures [C26: its parameters begin] !old(a.isEscSeq) && r == '[' && old(a.isEsc) ==> a.isEscSeq && !a.isEsc && len(a.arg) == 0
  ensures [C26: the parameters are consumed] old(a.isEscSeq) && r != 'm' ==> nAttr() == at && len(content(*w)) <= n
  ensures [C26: the sequence ends] old(a.isEscSeq) ==> a.isEscSeq == !(r >= 'A' && r <= 'D' || r == 'J' || r == 'K' || r == 'm' || r == 7)
  ensures [C26: attributes only from escapes] !old(a.isEscSeq) ==> nAttr() == at
  ensures [C26: stays usable] ctxOK(a) && a.target == w && console()
  modifies a.wantFlush, a.isEsc, a.isEscSeq, a.arg, elems(a.arg), content(*a.target), ghost(attrs, 0), ghost(attr, ghost(attrs, 0)), out(typed("*os.File", bufsrc(a.target)))
  panics C26
  frame C26
  term C26

func (*ANSIWriter).Write(a, b) -> (n, err)
  requires a.ctx != nil && ctxOK(a.ctx) && console() && !held(a.Mutex)
  inv ctxOK(a.ctx) && console() && held(a.Mutex)
  inv a.ctx == old(a.ctx) && a.ctx.target == old(a.ctx.target)
  inv 0 <= $i && $i <= len(b)
  measure len(b) - $i
  ensures [C26: everything is taken] n == len(b) && err == nil
  ensures [C26: unlocked] !held(a.Mutex)
  ensures [C26: stays usable] a.ctx == old(a.ctx) && ctxOK(a.ctx) && console()
  modifies held(a.Mutex), a.ctx.wantFlush, a.ctx.isEsc, a.ctx.isEscSeq, a.ctx.arg, allelems("string"), content(*a.ctx.target), ghosts(attrs, 1), ghosts(attr, 1), out(typed("*os.File", bufsrc(a.ctx.target)))
  panics C26
  frame C26
  term C26
