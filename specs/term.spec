// Terminal mode: C22

package readline

// ---- the terminal behind a file descriptor: its state as the kernel reports it, and the last state asked for
def repI(fd) = ghost(tI, fd)
def reported(fd, t) = t.Iflag == ghost(tI, fd) && t.Oflag == ghost(tO, fd) && t.Cflag == ghost(tC, fd) && t.Lflag == ghost(tL, fd) && t.Line == ghost(tN, fd) && t.Ispeed == ghost(tIs, fd) && t.Ospeed == ghost(tOs, fd) && forall i in 0..32 : t.Cc[i] == ghost(tCc, fd, i)
def asked(fd, t) = t.Iflag == ghost(wI, fd) && t.Oflag == ghost(wO, fd) && t.Cflag == ghost(wC, fd) && t.Lflag == ghost(wL, fd) && t.Line == ghost(wN, fd) && t.Ispeed == ghost(wIs, fd) && t.Ospeed == ghost(wOs, fd) && forall i in 0..32 : t.Cc[i] == ghost(wCc, fd, i)
def want(fd) = [ghost(wI, fd), ghost(wO, fd), ghost(wC, fd), ghost(wL, fd), ghost(wN, fd), ghost(wIs, fd), ghost(wOs, fd), ghosts(wCc, 2), ghost(wok, fd), ghost(wn, fd)]

// the ioctl system call: the state of the terminal is what the kernel says, and setting it may fail
func getTermios(fd) -> (t, err)
  trusted
  ensures err == nil ==> fresh(t) && reported(fd, t)
  ensures err != nil ==> t == nil
  modifies nothing

func setTermios(fd, t) -> (err)
  trusted
  requires t != nil
  ensures asked(fd, t) && ghost(wn, fd) == old(ghost(wn, fd)) + 1 && (ghost(wok, fd) == 1 <==> err == nil)
  modifies want(fd)

func IsTerminal(fd) -> (res)
  modifies nothing
  panics C22
  frame C22

func GetState(fd) -> (s, err)
  ensures [C22: state reported] err == nil ==> fresh(s) && reported(fd, s.termios)
  modifies nothing
  panics C22
  frame C22

func MakeRaw(fd) -> (s, err)
  ensures [C22: saved state] s != nil ==> fresh(s) && reported(fd, s.termios)
  ensures [C22: failed, nothing changed] s == nil ==> err != nil && ghost(wn, fd) == old(ghost(wn, fd))
  ensures [C22: asked once] s != nil ==> ghost(wn, fd) == old(ghost(wn, fd)) + 1 && (err == nil <==> ghost(wok, fd) == 1)
  ensures [C22: input flags] s != nil ==> ghost(wI, fd) == bits(ghost(tI, fd), 0x5eb, 0)
  ensures [C22: local flags] s != nil ==> ghost(wL, fd) == bits(ghost(tL, fd), 0x804b, 0)
  ensures [C22: control flags] s != nil ==> ghost(wC, fd) == bits(ghost(tC, fd), 0x130, 0x30)
  ensures [C22: other flags kept] s != nil ==> ghost(wO, fd) == ghost(tO, fd) && ghost(wN, fd) == ghost(tN, fd) && ghost(wIs, fd) == ghost(tIs, fd) && ghost(wOs, fd) == ghost(tOs, fd)
  ensures [C22: control characters] s != nil ==> forall i in 0..32 : ghost(wCc, fd, i) == (i == 6 ? 1 : i == 5 ? 0 : ghost(tCc, fd, i))
  modifies want(fd)
  panics C22
  frame C22
  term C22

func restoreTerm(fd, state) -> (err)
  requires state != nil
  ensures [C22: restored as saved] asked(fd, state.termios) && ghost(wn, fd) == old(ghost(wn, fd)) + 1 && (err == nil <==> ghost(wok, fd) == 1)
  modifies want(fd)
  panics C22
  frame C22

func Restore(fd, state) -> (err)
  requires state != nil
  ensures [C22: restored as saved] asked(fd, state.termios) && ghost(wn, fd) == old(ghost(wn, fd)) + 1 && (ghost(wok, fd) == 1 ==> err == nil)
  modifies want(fd)
  panics C22
  frame C22

def asReported(fd) = ghost(wI, fd) == ghost(tI, fd) && ghost(wO, fd) == ghost(tO, fd) && ghost(wC, fd) == ghost(tC, fd) && ghost(wL, fd) == ghost(tL, fd) && ghost(wN, fd) == ghost(tN, fd) && ghost(wIs, fd) == ghost(tIs, fd) && ghost(wOs, fd) == ghost(tOs, fd) && forall i in 0..32 : ghost(wCc, fd, i) == ghost(tCc, fd, i)

func ReadPassword(fd) -> (ret, err)
  let n = ghost(wn, fd)
  ensures [C22: restored once changed] ghost(wn, fd) == n || ghost(wn, fd) == n + 1 && ghost(wok, fd) != 1 && err != nil || ghost(wn, fd) == n + 2 && asReported(fd)
  modifies want(fd), ghosts(rinpos, 1), ghosts(reads, 1), ghosts(lastn, 1)
  panics C22
  frame C22
  noterm

func (*RawMode).Enter(me) -> (err)
  ensures [C22: saved state] me.state != nil ==> fresh(me.state) && reported(syscall.Stdin, me.state.termios)
  ensures [C22: failed, nothing to restore] me.state == nil ==> err != nil && ghost(wn, syscall.Stdin) == old(ghost(wn, syscall.Stdin))
  ensures [C22: asked once] me.state != nil ==> ghost(wn, syscall.Stdin) == old(ghost(wn, syscall.Stdin)) + 1 && (err == nil <==> ghost(wok, syscall.Stdin) == 1)
  modifies me.state, want(syscall.Stdin)
  panics C22
  frame C22

func (*RawMode).Exit(me) -> (err)
  ensures [C22: nothing saved] me.state == nil ==> err == nil && ghost(wn, syscall.Stdin) == old(ghost(wn, syscall.Stdin))
  ensures [C22: restored as saved] me.state != nil ==> asked(syscall.Stdin, me.state.termios) && ghost(wn, syscall.Stdin) == old(ghost(wn, syscall.Stdin)) + 1
  modifies want(syscall.Stdin)
  panics C22
  frame C22

// ---- entering and leaving raw mode: what happened, in order, and after how many received values
// 1: raw mode entered, 2: left, 3: suspended
def nev() = ghost(nev, 0)
def event(k, what) = ghost(ev, k) == what && ghost(evat, k) == ghost(recvs, 0)
def events() = [ghost(nev, 0), ghosts(ev, 1), ghosts(evat, 1)]
def logged(what) = ghost(nev, 0) == old(ghost(nev, 0)) + 1 && event(old(ghost(nev, 0)), what) && forall k in 0..old(ghost(nev, 0)) : ghost(ev, k) == old(ghost(ev, k)) && ghost(evat, k) == old(ghost(evat, k))

iface field.Config.FuncMakeRaw() -> (err)
  ensures logged(1)
  modifies events()

iface field.Config.FuncExitRaw() -> (err)
  ensures logged(2)
  modifies events()

func SuspendMe()
  trusted
  ensures logged(3)
  modifies events()

func WaitForResume() -> (ch)
  trusted
  ensures fresh(ch)
  modifies nothing

func (*Terminal).EnterRawMode(t) -> (err)
  requires t.cfg != nil && t.cfg.FuncMakeRaw != nil
  ensures [C22: entered] logged(1)
  modifies events()
  panics C22
  frame C22

func (*Terminal).ExitRawMode(t) -> (err)
  requires t.cfg != nil && t.cfg.FuncExitRaw != nil
  ensures [C22: left] logged(2)
  modifies events()
  panics C22
  frame C22

def ev0() = old(ghost(nev, 0))
def rc0() = old(ghost(recvs, 0))
def evIs(k, what, at) = ghost(ev, k) == what && ghost(evat, k) == at

func (*Terminal).SleepToResume(t)
  requires t.cfg != nil && t.cfg.FuncMakeRaw != nil && t.cfg.FuncExitRaw != nil && nev() >= 0
  ensures [C22: left, suspended, entered after resuming] old(t.sleeping) == 0 ==> nev() == ev0() + 3 && evIs(ev0(), 2, rc0()) && evIs(ev0() + 1, 3, rc0()) && evIs(ev0() + 2, 1, rc0() + 1) && t.sleeping == 0
  ensures [C22: already suspended] old(t.sleeping) != 0 ==> nev() == ev0() && t.sleeping == old(t.sleeping)
  modifies t.sleeping, events(), chans("struct{}")
  panics C22
  frame C22

func (*Terminal).Close(t) -> (err)
  requires t.cfg != nil && t.cfg.FuncExitRaw != nil && t.stopChan != nil && nev() >= 0
  ensures [C22: closing leaves raw mode] old(t.closed) == 0 ==> nev() == ev0() + 1 && evIs(ev0(), 2, rc0())
  ensures [C22: closed already] old(t.closed) != 0 ==> nev() == ev0() && err == nil
  modifies t.closed, events(), chans("struct{}")
  panics C22
  frame C22
