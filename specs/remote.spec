// Remote messages: C24

package readline

uf at_b bool
def nfails(r) = ghost(readfails, data(r))

// the numbers at position p of what a reader delivers, and of a sequence of bytes
def rdec32(r, p) = s32(((rin(r, p) * 256 + rin(r, p + 1)) * 256 + rin(r, p + 2)) * 256 + rin(r, p + 3))
def rdec16(r, p) = s16(rin(r, p) * 256 + rin(r, p + 1))
def dec32(o, p) = s32(((o[p] * 256 + o[p + 1]) * 256 + o[p + 2]) * 256 + o[p + 3])
def dec16(o, p) = s16(o[p] * 256 + o[p + 1])
def s32(v) = v < 2147483648 ? v : v - 4294967296
def s16(v) = v < 32768 ? v : v - 65536
def byteAt(o, p) = 0 <= o[p] && o[p] <= 255

func ReadMessage(r) -> (m, err)
  requires r != nil
  let p = rpos(r)
  ensures [C24: message or error] (m == nil) == (err != nil)
  ensures [C24: type] err == nil ==> m.Type == old(rdec16(r, p + 4))
  ensures [C24: length] err == nil ==> old(rdec32(r, p)) >= 2 && len(m.Data) == old(rdec32(r, p)) - 2
  ensures [C24: data] err == nil ==> forall i in 0..len(m.Data) : m.Data[i] == old(rin(r, p + 6 + i))
  ensures [C24: exactly one message] err == nil ==> rpos(r) == p + 6 + len(m.Data)
  ensures [C24: impossible length rejected] old(rdec32(r, p)) < 2 ==> err != nil
  ensures [C24: nothing else rejected] err != nil && nfails(r) == old(nfails(r)) ==> old(rdec32(r, p)) < 2
  ensures [C24: new] err == nil ==> fresh(m) && fresh(m.Data)
  modifies ghost(rinpos, data(r)), ghost(readfails, data(r))
  panics C24
  frame C24

func NewMessage(t, data) -> (m)
  ensures [C24: message] m.Type == t && same(m.Data, data) && fresh(m)
  modifies nothing
  panics C24
  frame C24

// framed(o, n, t, d): at position n of the bytes o stands the message of type t with the bytes d
def framed(o, n, t, d) = len(o) >= n + 6 + len(d) && byteAt(o, n) && byteAt(o, n + 1) && byteAt(o, n + 2) && byteAt(o, n + 3) && byteAt(o, n + 4) && byteAt(o, n + 5) && dec32(o, n) == len(d) + 2 && dec16(o, n + 4) == t && forall i in 0..len(d) : o[n + 6 + i] == d[i]

func (*Message).WriteTo(me, w) -> (n, err)
  requires len(me.Data) <= 2147483645
  ensures [C24: what was written before] forall i in 0..old(len(out(w))) : out(w)[i] == old(out(w))[i]
  ensures [C24: length on the wire] len(out(w)) == old(len(out(w))) + 6 + len(me.Data)
  ensures [C24: message on the wire] framed(out(w), old(len(out(w))), me.Type, me.Data)
  modifies out(w)
  panics C24
  frame C24

func (*RemoteSvr).GotIsTerminal(me, d) -> ()
  ensures [C24: short report ignored] len(d) < 2 ==> me.isTerminal == old(me.isTerminal)
  ensures [C24: reported value] len(d) >= 2 ==> me.isTerminal == (d[0] != 0 || d[1] != 0)
  modifies me.isTerminal
  panics C24
  frame C24

// the callback may do anything outside this object
iface field.RemoteSvr.funcWidthChan() -> ()
  modifies nothing

func (*RemoteSvr).GotReportWidth(me, d) -> ()
  ensures [C24: short report ignored] len(d) < 2 ==> me.width == old(me.width)
  ensures [C24: reported value] len(d) >= 2 ==> me.width == d[0] * 256 + d[1]
  modifies me.width
  panics C24
  frame C24

func (*RemoteSvr).GetWidth(me) -> (w)
  ensures [C24: reported value] w == me.width
  modifies nothing
  panics C24
  frame C24

func (*RemoteSvr).IsTerminal(me) -> (b)
  ensures [C24: reported value] b == me.isTerminal
  modifies nothing
  panics C24
  frame C24

// the messages a buffered input delivers
def bin(b, i) = ghost(rin, b, i)
def bpos(b) = ghost(rinpos, b)
def bdec32(b, p) = s32(((bin(b, p) * 256 + bin(b, p + 1)) * 256 + bin(b, p + 2)) * 256 + bin(b, p + 3))
def bdec16(b, p) = s16(bin(b, p) * 256 + bin(b, p + 1))
def isSet(b, p) = bin(b, p) != 0 || bin(b, p + 1) != 0

func (*RemoteSvr).init(me, buf) -> (err)
  requires buf != nil
  let p = bpos(buf)
  let q = p + 4 + bdec32(buf, p)
  ensures [C24: terminal report first] err == nil ==> old(bdec16(buf, p + 4)) == 3 && (old(bdec32(buf, p)) >= 4 ==> me.isTerminal == old(isSet(buf, p + 6)))
  ensures [C24: short terminal report ignored] err == nil && old(bdec32(buf, p)) < 4 ==> me.isTerminal == old(me.isTerminal)
  ensures [C24: width report second] err == nil ==> old(bdec16(buf, q + 4)) == 2 && (old(bdec32(buf, q)) >= 4 ==> me.width == old(bin(buf, q + 6) * 256 + bin(buf, q + 7)))
  ensures [C24: short width report ignored] err == nil && old(bdec32(buf, q)) < 4 ==> me.width == old(me.width)
  ensures [C24: exactly two messages] err == nil ==> bpos(buf) == q + 4 + old(bdec32(buf, q))
  modifies me.isTerminal, me.width, ghost(rinpos, buf), ghost(readfails, buf)
  panics C24
  frame C24

func (*RemoteSvr).readLoop(me, buf) -> ()
  requires buf != nil && !held(me.dataBufM) && me.conn != nil && me.stopChan != nil
  inv !held(me.dataBufM)
  step [C24: exactly one message] bpos(buf) == old(bpos(buf)) + 4 + old(bdec32(buf, bpos(buf)))
  step [C24: data queued] old(bdec16(buf, bpos(buf) + 4)) == 0 ==> len(content(me.dataBuf)) == old(len(content(me.dataBuf))) + old(bdec32(buf, bpos(buf))) - 2 && forall i in 0..old(bdec32(buf, bpos(buf))) - 2 : content(me.dataBuf)[old(len(content(me.dataBuf))) + i] == old(bin(buf, bpos(buf) + 6 + i))
  step [C24: earlier data kept] len(content(me.dataBuf)) >= old(len(content(me.dataBuf))) && forall i in 0..old(len(content(me.dataBuf))) : content(me.dataBuf)[i] == old(content(me.dataBuf))[i]
  step [C24: only data queued] old(bdec16(buf, bpos(buf) + 4)) != 0 ==> len(content(me.dataBuf)) == old(len(content(me.dataBuf)))
  step [C24: end of input] me.eof == (old(bdec16(buf, bpos(buf) + 4)) == 6 ? 1 : old(me.eof))
  step [C24: width report] me.width == (old(bdec16(buf, bpos(buf) + 4)) == 2 && old(bdec32(buf, bpos(buf))) >= 4 ? old(bin(buf, bpos(buf) + 6) * 256 + bin(buf, bpos(buf) + 7)) : old(me.width))
  step [C24: terminal report] me.isTerminal == (old(bdec16(buf, bpos(buf) + 4)) == 3 && old(bdec32(buf, bpos(buf))) >= 4 ? old(isSet(buf, bpos(buf) + 6)) : old(me.isTerminal))
  modifies me.isTerminal, me.width, me.eof, me.closed, content(me.dataBuf), held(me.dataBufM), chans(), ghost(rinpos, buf), ghost(readfails, buf)
  noterm
  panics C24
  frame C24

func (*RemoteSvr).Close(me) -> (err)
  requires me.conn != nil && me.stopChan != nil
  ensures [C24: closed] me.closed != 0 && (err == nil)
  modifies me.closed, chans()
  panics C24
  frame C24

func (*RemoteCli).Write(me, b) -> (n, err)
  requires len(b) <= 2147483645 && me.conn != nil && !held(me.dataM)
  ensures [C24: all taken] n == len(b)
  ensures [C24: data message] framed(out(me.conn), old(len(out(me.conn))), 0, b)
  ensures [C24: in order] len(out(me.conn)) == old(len(out(me.conn))) + 6 + len(b) && forall i in 0..old(len(out(me.conn))) : out(me.conn)[i] == old(out(me.conn))[i]
  ensures [C24: lock] !held(me.dataM)
  modifies out(me.conn), held(me.dataM)
  panics C24
  frame C24

func (*RemoteCli).writeMsg(me, m) -> (err)
  requires m != nil && len(m.Data) <= 2147483645 && me.conn != nil && !held(me.dataM)
  ensures [C24: message] framed(out(me.conn), old(len(out(me.conn))), m.Type, m.Data)
  ensures [C24: in order] len(out(me.conn)) == old(len(out(me.conn))) + 6 + len(m.Data) && forall i in 0..old(len(out(me.conn))) : out(me.conn)[i] == old(out(me.conn))[i]
  ensures [C24: lock] !held(me.dataM)
  modifies out(me.conn), held(me.dataM)
  panics C24
  frame C24

func DefaultIsTerminal() -> (b)
  trusted
  modifies nothing

func (*RemoteCli).reportIsTerminal(me) -> (err)
  requires me.conn != nil && !held(me.dataM)
  ensures [C24: report] me.isTerminal != nil ==> dec16(out(me.conn), old(len(out(me.conn))) + 4) == 3 && dec32(out(me.conn), old(len(out(me.conn)))) == 4 && dec16(out(me.conn), old(len(out(me.conn))) + 6) == (*me.isTerminal ? 1 : 0)
  ensures [C24: one message] len(out(me.conn)) == old(len(out(me.conn))) + 8
  ensures [C24: lock] !held(me.dataM)
  modifies out(me.conn), held(me.dataM)
  panics C24
  frame C24

func (*RemoteCli).MarkIsTerminal(me, is_) -> ()
  ensures [C24: marked] me.isTerminal != nil && *me.isTerminal == is_
  modifies me.isTerminal
  panics C24
  frame C24

// data that has arrived is handed out from the front; nothing else is
func (*RemoteSvr).Read(me, b) -> (n, err)
  requires !held(me.dataBufM)
  ensures [C24: as much as fits] old(len(content(me.dataBuf))) > 0 ==> n == min(len(b), old(len(content(me.dataBuf)))) 
  ensures [C24: from the front] n <= old(len(content(me.dataBuf))) && forall i in 0..n : b[i] == old(content(me.dataBuf))[i]
  ensures [C24: the rest stays] len(content(me.dataBuf)) == old(len(content(me.dataBuf))) - n && forall i in 0..len(content(me.dataBuf)) : content(me.dataBuf)[i] == old(content(me.dataBuf))[n + i]
  ensures [C24: end of input] old(len(content(me.dataBuf))) == 0 && me.eof == 1 ==> n == 0 && err != nil
  ensures [C24: no error with data] n > 0 ==> err == nil
  ensures [C24: lock] !held(me.dataBufM)
  modifies content(me.dataBuf), held(me.dataBufM), span(b), chans()
  panics C24
  frame C24

func (*RemoteCli).Close(me) -> ()
  requires me.conn != nil && !held(me.dataM)
  ensures [C24: end of input message] framed(out(me.conn), old(len(out(me.conn))), 6, slice("[]byte", 0, 0, 0))
  modifies out(me.conn), held(me.dataM)
  panics C24
  frame C24

func GetScreenWidth() -> (w)
  trusted
  modifies nothing

func (*RemoteCli).reportWidth(me) -> (err)
  requires me.conn != nil && !held(me.dataM)
  ensures [C24: one width report] len(out(me.conn)) == old(len(out(me.conn))) + 8 && dec16(out(me.conn), old(len(out(me.conn))) + 4) == 2 && dec32(out(me.conn), old(len(out(me.conn)))) == 4
  ensures [C24: lock] !held(me.dataM)
  modifies out(me.conn), held(me.dataM)
  panics C24
  frame C24
