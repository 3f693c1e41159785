package readline

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

func vIoctl(fd uintptr, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// vPty opens a pseudo terminal
func vPty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n, unlock int32
	if err = vIoctl(master.Fd(), 0x40045431, unsafe.Pointer(&unlock)); err != nil {
		return
	}
	if err = vIoctl(master.Fd(), 0x80045430, unsafe.Pointer(&n)); err != nil {
		return
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return
}

func vRaw(t syscall.Termios) syscall.Termios {
	t.Iflag &^= 0x5eb
	t.Lflag &^= 0x804b
	t.Cflag = t.Cflag&^0x130 | 0x30
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	return t
}

func TestReplayC22(t *testing.T) {
	rnd := vRand()
	master, slave, err := vPty()
	if err == nil {
		defer master.Close()
		defer slave.Close()
		fd, mfd := int(slave.Fd()), int(master.Fd())
		get := func() syscall.Termios {
			s, err := getTermios(fd)
			if err != nil {
				t.Fatal(err)
			}
			return syscall.Termios(*s)
		}
		first := get()
		old := syscall.Stdin
		defer func() { syscall.Stdin = old }()
		syscall.Stdin = fd
		for i := 0; i < 300; i++ {
			st := first
			st.Iflag ^= uint32(rnd.Intn(1 << 12))
			st.Oflag ^= uint32(rnd.Intn(1 << 6))
			st.Lflag ^= uint32(rnd.Intn(1 << 15))
			st.Lflag &^= syscall.TOSTOP
			st.Cc[syscall.VMIN], st.Cc[syscall.VTIME] = uint8(rnd.Intn(4)), uint8(rnd.Intn(4))
			tm := Termios(st)
			if err := setTermios(fd, &tm); err != nil {
				continue
			}
			st = get()
			s, err := MakeRaw(fd)
			if err != nil || syscall.Termios(s.termios) != st {
				vFound(t, "MakeRaw of a terminal in state %+v saves %+v, %v", st, s.termios, err)
			}
			if got := get(); got != vRaw(st) {
				vFound(t, "MakeRaw of a terminal in state %+v makes it %+v, want %+v", st, got, vRaw(st))
			}
			if err := Restore(fd, s); err != nil || get() != st {
				vFound(t, "restoring the state %+v makes it %+v, %v", st, get(), err)
			}
			rm := new(RawMode)
			rm.Enter()
			rm.Exit()
			if get() != st {
				vFound(t, "entering and leaving raw mode in state %+v leaves %+v", st, get())
			}
		}
		tm := Termios(first)
		setTermios(fd, &tm)
		for _, in := range []string{"secret\n", "\n", "a long password that needs more than one read\n", "0123456789abcde\n", "0123456789abcdef\n", "\x04", "abc\x04\x04"} {
			done := make(chan bool)
			go func() {
				ReadPassword(fd)
				done <- true
			}()
			time.Sleep(5 * time.Millisecond)
			master.Write([]byte(in))
			select {
			case <-done:
			case <-time.After(500 * time.Millisecond):
				master.Write([]byte("x\n\x04\x04"))
				<-done
			}
			if get() != first {
				vFound(t, "reading the password %q in terminal state %+v leaves %+v", in, first, get())
			}
			buf := make([]byte, 4096)
			syscall.SetNonblock(mfd, true)
			syscall.Read(mfd, buf)
			syscall.SetNonblock(mfd, false)
		}
		// a read that fails: the other end is gone
		if m, s, err := vPty(); err == nil {
			sfd := int(s.Fd())
			before, _ := getTermios(sfd)
			go func() {
				time.Sleep(20 * time.Millisecond)
				m.Close()
			}()
			ReadPassword(sfd)
			if after, err := getTermios(sfd); err == nil && *after != *before {
				vFound(t, "reading a password whose terminal hangs up leaves the terminal in state %+v, not %+v", *after, *before)
			}
			s.Close()
		}
	}
	// line reads enter and leave
	for _, in := range []string{"ab\n", "\x03", "ab\x03", "\x04", "", "ab", "\x1b[3~\n"} {
		var mu sync.Mutex
		var log []byte
		add := func(b byte) func() error {
			return func() error {
				mu.Lock()
				log = append(log, b)
				mu.Unlock()
				return nil
			}
		}
		pr, pw := io.Pipe()
		cfg := &Config{Stdin: pr, Stdout: ioutil.Discard, Stderr: ioutil.Discard, FuncMakeRaw: add('E'), FuncExitRaw: add('X'),
			FuncGetWidth: func() int { return 80 }, FuncIsTerminal: func() bool { return true }, FuncOnWidthChanged: func(func()) {}}
		rl, err := NewEx(cfg)
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			pw.Write([]byte(in))
			pw.Close()
		}()
		seen := make(chan bool)
		cfg.SetListener(nil)
		cfg.Listener = nil
		var during []byte
		go func() { rl.Readline(); seen <- true }()
		select {
		case <-seen:
		case <-time.After(5 * time.Second):
			vFound(t, "a read of the input %q does not return", in)
		}
		mu.Lock()
		during = append(during, log...)
		mu.Unlock()
		if !bytes.Equal(during, []byte("EX")) {
			vFound(t, "reading a line from the input %q enters and leaves raw mode as %q, want EX", in, string(during))
		}
		rl.Terminal.Close()
		mu.Lock()
		got := string(log)
		mu.Unlock()
		if got != "EXX" {
			vFound(t, "reading a line from the input %q and closing enters and leaves raw mode as %q, want EXX", in, got)
		}
		rl.Terminal.Close()
		if string(log) != "EXX" {
			vFound(t, "closing twice leaves raw mode as %q", string(log))
		}
	}
	// entered before anything is read
	order := make(chan string, 10)
	cfg := &Config{Stdin: ioutil.NopCloser(&vTellReader{order}), Stdout: ioutil.Discard, Stderr: ioutil.Discard,
		FuncMakeRaw: func() error { order <- "enter"; return nil }, FuncExitRaw: func() error { order <- "leave"; return nil },
		FuncGetWidth: func() int { return 80 }, FuncIsTerminal: func() bool { return true }, FuncOnWidthChanged: func(func()) {}}
	rl, _ := NewEx(cfg)
	rl.Readline()
	if first := <-order; first != "enter" {
		vFound(t, "a line read starts with %s, not with entering raw mode", first)
	}
}

type vTellReader struct{ order chan string }

func (v *vTellReader) Read(p []byte) (int, error) {
	select {
	case v.order <- "read":
	default:
	}
	p[0] = '\n'
	return 1, nil
}
