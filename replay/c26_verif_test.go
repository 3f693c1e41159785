package readline

import (
	"encoding/json"
	"os"
	"os/exec"
	"strings"
	"testing"
)

const vStub = `package readline

import "unsafe"

type Kernel struct {
	SetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc
}
type CallFunc func(u ...uintptr) error
type short int16
type word uint16
type _COORD struct{ x, y short }
type _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }

func (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }

var (
	vAttrs []uintptr
	stdout = uintptr(1)
	vNop   = func(u ...uintptr) error { return nil }
	kernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}
)

func GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {
	return &_CONSOLE_SCREEN_BUFFER_INFO{}, nil
}
func SetConsoleCursorPosition(c *_COORD) error { return nil }
`

// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded
func vConsole(t *testing.T, test string) (string, error) {
	src, err := os.ReadFile("ansi_windows.go")
	if err != nil {
		t.Skip(err)
	}
	var lines []string
	for _, l := range strings.Split(string(src), "\n") {
		if !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {
			lines = append(lines, l)
		}
	}
	dir, here := t.TempDir(), ""
	if here, err = os.Getwd(); err != nil {
		t.Skip(err)
	}
	over := map[string]string{}
	for name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {
		if err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {
			t.Skip(err)
		}
		over[here+"/"+name] = dir + "/" + name
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": over})
	os.WriteFile(dir+"/overlay.json", j, 0600)
	out, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()
	return string(out), err
}

const vConsoleTest = `package readline

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
)

// translate is what the statement says: what passes and what the attribute is set to
func translate(s string) (text string, attrs []uintptr) {
	in := 0
	var args []string
	rgb := []int{0, 4, 2, 6, 1, 5, 3, 7}
	for _, r := range s {
		switch {
		case in == 2:
			switch r {
			case 'A', 'B', 'C', 'D', 'J', 'K', 7:
				in = 0
				if r > 'D' || r == 7 {
					args = nil
				}
			case 'm':
				in = 0
				color := 0
				bad := false
				for _, a := range args {
					c, err := strconv.Atoi(a)
					if err != nil {
						text += "[" + strings.Join(args, ";") + "m"
						bad = true
						break
					}
					if c >= 30 && c <= 37 {
						color = color ^ 8 | rgb[c-30]
					} else if c >= 40 && c <= 47 {
						color = color ^ 128 | 16*rgb[c-40]
					} else if c == 4 {
						color |= 32775
					} else if c == 1 {
						color |= 15
					} else {
						color = 7
					}
				}
				if !bad {
					attrs = append(attrs, uintptr(color))
				}
				args = nil
			case ';':
				if len(args) == 0 || args[len(args)-1] != "" {
					args = append(args, "")
				}
			default:
				if len(args) == 0 {
					args = append(args, "")
				}
				args[len(args)-1] += string(r)
			}
		case r == 27:
			in = 1
		case r == '[' && in == 1:
			in, args = 2, nil
		default:
			in = 0
			text += string(r)
		}
	}
	return
}

func TestConsole(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	parts := []string{"\x1b[", "\x1b", "[", "m", ";", "a", "x", "世", "\x00", "K", "J", "A", "\a", "1", "4", "0", "3", "38", "48", "39", "49", "x[1]"}
	for c := 30; c < 50; c++ {
		parts = append(parts, "\x1b["+strconv.Itoa(c)+"m", "\x1b[1;"+strconv.Itoa(c)+"m", "\x1b["+strconv.Itoa(c)+";"+strconv.Itoa(r.Intn(50))+"m")
	}
	for n := 0; n < 30000; n++ {
		s := ""
		for k := r.Intn(6) + 1; k > 0; k-- {
			s += parts[r.Intn(len(parts))]
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					fmt.Printf("FAILING-INPUT: writing %q to the console panics: %v\n", s, p)
					t.FailNow()
				}
			}()
			var b bytes.Buffer
			vAttrs = nil
			text, attrs := translate(s)
			k, err := NewANSIWriter(&b).Write([]byte(s))
			if k != len(s) || err != nil || b.String() != text || fmt.Sprint(vAttrs) != fmt.Sprint(attrs) {
				fmt.Printf("FAILING-INPUT: writing %q to the console: %d of %d bytes, error %v, text %q, expected %q, attributes %v, expected %v\n", s, k, len(s), err, b.String(), text, vAttrs, attrs)
				t.FailNow()
			}
		}()
	}
}
`

func TestReplayC26(t *testing.T) {
	out, err := vConsole(t, vConsoleTest)
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "FAILING-INPUT: ") {
			vFound(t, "%s", strings.TrimPrefix(l, "FAILING-INPUT: "))
		}
	}
	if err != nil {
		t.Log(out)
	}
}
