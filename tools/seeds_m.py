# written by gen_console.py
SEEDS = [
('C26-white', 'C26', [('ansi_windows.go', 'c >= 30 && c < 38', 'c >= 30 && c < 37')], 'the color code 37', 'white is not brightened as the other colors are', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[37m"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"\\" [15]" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-toggle', 'C26', [('ansi_windows.go', 'color ^= COLOR_BINTENSITY', 'color |= COLOR_BINTENSITY')], 'two background colors in one sequence', 'the attribute is not the one of the parameter list', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[41;44m"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"\\" [80]" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-bracket', 'C26', [('ansi_windows.go', '\t\t\tbreak\n\t\t}\n\t\tfallthrough\n', '\t\t\tbreak\n\t\t}\n\t\tif !a.wantFlush {\n\t\t\tbreak\n\t\t}\n\t\tfallthrough\n')], 'a text that begins with a bracket', 'the bracket is lost', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("[a]"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"[a]\\" []" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-yellow', 'C26', [('ansi_windows.go', 'COLOR_BRED | COLOR_BGREEN,               // 43', 'COLOR_BRED | COLOR_BBLUE,                // 43')], 'the background color 43', 'yellow shows as magenta', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[43m"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"\\" [224]" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-malformed', 'C26', [('ansi_windows.go', '\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n\t\tkernel.SetConsoleTextAttribute', '\t\tif err != nil && color == 0 {\n\t\t\tbreak\n\t\t}\n\t\tkernel.SetConsoleTextAttribute')], 'a sequence whose later parameter is no number', 'the sequence is printed and half of it is obeyed as well', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[31;xm"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"[31;xm\\" []" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-below', 'C26', [('ansi_windows.go', 'c >= 30 && c < 38', 'c >= 29 && c < 38')], 'the code 29 (not crossed out)', 'the color table is read before its start, a panic', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[29m"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"\\" [7]" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
('C26-semicolon', 'C26', [('ansi_windows.go', 'if len(arg) == 0 || arg[len(arg)-1] != "" {', 'if len(arg) < 2 && arg[len(arg)-1] != "" || len(arg) >= 2 {')], 'a sequence that begins with a semicolon', 'a panic', 'package readline\n\nimport (\n\t"encoding/json"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"testing"\n)\n\nconst vStub = `package readline\n\nimport "unsafe"\n\ntype Kernel struct {\n\tSetConsoleCursorPosition, SetConsoleTextAttribute, FillConsoleOutputCharacterW, FillConsoleOutputAttribute CallFunc\n}\ntype CallFunc func(u ...uintptr) error\ntype short int16\ntype word uint16\ntype _COORD struct{ x, y short }\ntype _CONSOLE_SCREEN_BUFFER_INFO struct{ dwSize, dwCursorPosition _COORD }\n\nfunc (c *_COORD) ptr() uintptr { return uintptr(*(*int32)(unsafe.Pointer(c))) }\n\nvar (\n\tvAttrs []uintptr\n\tstdout = uintptr(1)\n\tvNop   = func(u ...uintptr) error { return nil }\n\tkernel = &Kernel{vNop, func(u ...uintptr) error { vAttrs = append(vAttrs, u[1]); return nil }, vNop, vNop}\n)\n\nfunc GetConsoleScreenBufferInfo() (*_CONSOLE_SCREEN_BUFFER_INFO, error) {\n\treturn &_CONSOLE_SCREEN_BUFFER_INFO{}, nil\n}\nfunc SetConsoleCursorPosition(c *_COORD) error { return nil }\n`\n\n// vConsole runs a test against the console code, built here with its build constraint taken off and the console procedures recorded\nfunc vConsole(t *testing.T, test string) (string, error) {\n\tsrc, err := os.ReadFile("ansi_windows.go")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tvar lines []string\n\tfor _, l := range strings.Split(string(src), "\\n") {\n\t\tif !strings.HasPrefix(l, "// +build") && !strings.HasPrefix(l, "//go:build") {\n\t\t\tlines = append(lines, l)\n\t\t}\n\t}\n\tdir, here := t.TempDir(), ""\n\tif here, err = os.Getwd(); err != nil {\n\t\tt.Skip(err)\n\t}\n\tover := map[string]string{}\n\tfor name, text := range map[string]string{"zz_console_verif.go": strings.Join(lines, "\\n"), "zz_consolestub_verif.go": vStub, "zz_console_verif_test.go": test} {\n\t\tif err := os.WriteFile(dir+"/"+name, []byte(text), 0600); err != nil {\n\t\t\tt.Skip(err)\n\t\t}\n\t\tover[here+"/"+name] = dir + "/" + name\n\t}\n\tj, _ := json.Marshal(map[string]interface{}{"Replace": over})\n\tos.WriteFile(dir+"/overlay.json", j, 0600)\n\tout, err := exec.Command("go", "test", "-overlay", dir+"/overlay.json", "-vet=off", "-count=1", "-timeout", "50s", "-run", "^TestConsole$", ".").CombinedOutput()\n\treturn string(out), err\n}\n\nfunc TestDemo(t *testing.T) {\n\tout, err := vConsole(t, inner)\n\tif err != nil {\n\t\tt.Fatal(out)\n\t}\n}\n\nconst inner = `package readline\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\nfunc TestConsole(t *testing.T) {\n\tvar b bytes.Buffer\n\tNewANSIWriter(&b).Write([]byte("\\x1b[;31m"))\n\tif got := fmt.Sprintf("%q %d", b.String(), vAttrs); got != "\\"\\" [12]" {\n\t\tt.Fatal(got)\n\t}\n}\n`\n'),
]
