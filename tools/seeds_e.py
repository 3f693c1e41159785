PTY = '''package readline

import (
	"fmt"
	"os"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

func pty(t *testing.T) (m, s *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	var n, unlock int32
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&unlock)))
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n)))
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	return m, s
}

'''
OPR = '''package readline

import (
	"io"
	"io/ioutil"
	"sync"
	"testing"
	"time"
)

var mu sync.Mutex
var log string

func add(s string) func() error {
	return func() error {
		mu.Lock()
		defer mu.Unlock()
		log += s
		return nil
	}
}

func open(t *testing.T, in string) *Instance {
	r, w := io.Pipe()
	rl, err := NewEx(&Config{Stdin: r, Stdout: ioutil.Discard, Stderr: ioutil.Discard, FuncMakeRaw: add("E"), FuncExitRaw: add("X"),
		FuncGetWidth: func() int { return 80 }, FuncIsTerminal: func() bool { return true }, FuncOnWidthChanged: func(func()) {}})
	if err != nil {
		t.Fatal(err)
	}
	go func() { w.Write([]byte(in)); time.Sleep(time.Second); w.Close() }()
	return rl
}

'''
SEEDS = [
 ('C22-vmin', 'C22', [('term.go', '''	newState.Cc[syscall.VMIN] = 1
	newState.Cc[syscall.VTIME] = 0
''', '''	if newState.Cc[syscall.VMIN] == 0 {
		newState.Cc[syscall.VMIN] = 1
	}
	newState.Cc[syscall.VTIME] = 0
''')],
  'a terminal whose saved state asks for more than one byte per read', 'raw mode waits for several keys',
  PTY + '''func TestDemo(t *testing.T) {
	_, s := pty(t)
	defer time.Sleep(0)
	fd := int(s.Fd())
	st, err := getTermios(fd)
	if err != nil {
		t.Skip(err)
	}
	st.Cc[syscall.VMIN] = 4
	setTermios(fd, st)
	MakeRaw(fd)
	if st, _ = getTermios(fd); st.Cc[syscall.VMIN] != 1 {
		t.Fatal(st.Cc)
	}
}
'''),
 ('C22-interrupt', 'C22', [('operation.go', '''	o.t.EnterRawMode()
	defer o.t.ExitRawMode()
''', '''	o.t.EnterRawMode()
	raw := true
	defer func() {
		if raw {
			o.t.ExitRawMode()
		}
	}()
'''), ('operation.go', '''		if e, ok := err.(*InterruptError); ok {
''', '''		raw = err != io.EOF || o.buf.Len() > 0
		if e, ok := err.(*InterruptError); ok {
''')],
  'a read that ends with end of file', 'raw mode is not left',
  OPR + '''func TestDemo(t *testing.T) {
	rl := open(t, "\\x04")
	rl.Readline()
	mu.Lock()
	defer mu.Unlock()
	if log != "EX" {
		t.Fatal(log)
	}
}
'''),
 ('C22-close', 'C22', [('terminal.go', '''	t.wg.Wait()
	return t.ExitRawMode()
''', '''	t.wg.Wait()
	if !t.IsReading() {
		return nil
	}
	return t.ExitRawMode()
''')],
  'closing while no key is awaited', 'closing does not leave raw mode',
  OPR + '''func TestDemo(t *testing.T) {
	rl := open(t, "a\\n")
	rl.Readline()
	rl.Terminal.EnterRawMode()
	time.Sleep(50 * time.Millisecond)
	rl.Terminal.Close()
	if log != "EXEX" {
		t.Fatal(log)
	}
}
'''),
]
