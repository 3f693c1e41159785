package readline

import (
	"bytes"
	"io"
	"reflect"
	"testing"
	"time"
)

type vSink struct{ bytes.Buffer }

func (*vSink) Close() error { return nil }

func vSameValue(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	return x.Type() == y.Type() && x.Pointer() == y.Pointer()
}

func TestReplayC23(t *testing.T) {
	r := vRand()
	hints := []string{"", "\n", "^C", "x", " "}
	hint := func(was, dflt string) string {
		switch was {
		case "":
			return dflt
		case "\n":
			return ""
		}
		return was
	}
	over := vDeadline(15 * time.Second)
	for n := 0; n < 4000 && !over(); n++ {
		f := func() bool { return r.Intn(2) == 0 }
		c := &Config{HistoryLimit: r.Intn(4) - 1, InterruptPrompt: hints[r.Intn(5)], EOFPrompt: hints[r.Intn(5)]}
		entered, left := 0, 0
		in := r.Intn(2) == 0
		stdin, w := io.Pipe()
		if in {
			c.Stdin = stdin
		}
		if f() {
			c.Stdout = &vSink{}
		}
		if f() {
			c.Stderr = &vSink{}
		}
		if f() {
			c.AutoComplete = &PrefixCompleter{}
		}
		if f() {
			c.Painter = &vNullPainter{}
		}
		if f() {
			c.FuncGetWidth = func() int { return 7 }
		}
		if f() {
			c.FuncIsTerminal = func() bool { return true }
		}
		if f() {
			c.FuncMakeRaw = func() error { entered++; return nil }
		}
		if f() {
			c.FuncExitRaw = func() error { left++; return nil }
		}
		if f() {
			c.FuncOnWidthChanged = func(func()) {}
		}
		if f() {
			c.Listener = &DumpListener{}
		}
		old := *c
		what := func(s string) {
			vFound(t, "Config.Init of %+v: %s, now %+v", old, s, *c)
		}
		if p := vGuard(func() string { return "Config.Init" }, func() {
			if err := c.Init(); err != nil {
				what("fails")
			}
		}); p != nil {
			what("panics")
		}
		limit := old.HistoryLimit
		if limit == 0 {
			limit = 500
		}
		if c.HistoryLimit != limit {
			what("history limit")
		}
		if c.InterruptPrompt != hint(old.InterruptPrompt, "^C") || c.EOFPrompt != hint(old.EOFPrompt, "^D") {
			what("hints")
		}
		a, b := reflect.ValueOf(&old).Elem(), reflect.ValueOf(c).Elem()
		dflt := map[string]interface{}{"FuncGetWidth": GetScreenWidth, "FuncIsTerminal": DefaultIsTerminal, "FuncOnWidthChanged": DefaultOnWidthChanged,
			"FuncMakeRaw": (&RawMode{}).Enter, "FuncExitRaw": (&RawMode{}).Exit, "Stdout": Stdout, "Stderr": Stderr}
		for i := 0; i < a.NumField(); i++ {
			name := a.Type().Field(i).Name
			if k := a.Field(i).Kind(); k != reflect.Func && k != reflect.Interface || name == "Stdin" || name == "StdinWriter" || !a.Field(i).CanInterface() {
				continue
			}
			x, y := a.Field(i).Interface(), b.Field(i).Interface()
			if !a.Field(i).IsNil() && !vSameValue(x, y) {
				what("the application's " + name + " is gone")
			}
			if d, ok := dflt[name]; ok && a.Field(i).IsNil() && (b.Field(i).IsNil() || !vSameValue(d, y)) {
				what("default of " + name)
			}
			if a.Field(i).IsNil() && name != "Listener" && name != "FuncFilterInputRune" && b.Field(i).IsNil() {
				what(name + " is unset")
			}
		}
		if in {
			go func() { w.Write([]byte("q")) }()
			buf := make([]byte, 1)
			if k, _ := c.Stdin.Read(buf); k != 1 || buf[0] != 'q' {
				what("reads another input")
			}
		}
		again := *c
		c.Init()
		if c.Stdin != again.Stdin || c.StdinWriter != again.StdinWriter || c.InterruptPrompt != again.InterruptPrompt || c.EOFPrompt != again.EOFPrompt || c.HistoryLimit != again.HistoryLimit {
			what("a second time changes it")
		}
		if k := c.Clone(); k.opHistory != nil || k.opSearch != nil || k.Prompt != c.Prompt || k.HistoryLimit != c.HistoryLimit {
			what("clone")
		}
	}
	over = vDeadline(40 * time.Second)
	ends := []string{"\n", "pw\n", "ab\x03", "\x04", "\x03", "EOF"}
	for n := 0; n < 60 && !over(); n++ {
		in, w := io.Pipe()
		mk := func(p string) *Config {
			return &Config{Prompt: p, Stdin: in, Stdout: &vSink{}, Stderr: &vSink{}, MaskRune: rune(r.Intn(2) * '*'), EnableMask: r.Intn(2) == 0,
				FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil },
				FuncIsTerminal: func() bool { return true }, FuncGetWidth: func() int { return 80 },
				FuncOnWidthChanged: func(func()) {}, ForceUseInteractive: true}
		}
		prompts := []string{"> ", "", "世> ", "2> "}
		rl, err := NewEx(mk(prompts[r.Intn(4)]))
		if err != nil {
			t.Fatal(err)
		}
		op := rl.Operation
		if k := rl.Config.Clone(); k.opHistory != nil || k.opSearch != nil {
			vFound(t, "a clone of the configuration in use shares its history %v, search %v", k.opHistory != nil, k.opSearch != nil)
		}
		if r.Intn(2) == 0 {
			p := prompts[r.Intn(4)]
			c := mk(p)
			if was := rl.SetConfig(c); was == c || rl.Config != c || op.cfg != c || op.buf.cfg != c || string(op.buf.prompt) != p {
				vFound(t, "Instance.SetConfig of a configuration with the prompt %q: in place %v %v %v, prompt %q", p, rl.Config == c, op.cfg == c, op.buf.cfg == c, string(op.buf.prompt))
			}
		}
		if r.Intn(4) == 0 {
			op.SetHistoryPath("")
			if op.opSearch.history != op.history {
				vFound(t, "after SetHistoryPath the search looks at another history")
			}
		}
		cfg, hist, search, prompt, mask, rn := op.cfg, op.history, op.opSearch, string(op.buf.prompt), op.cfg.EnableMask, op.cfg.MaskRune
		op.SaveHistory("kept")
		size := hist.history.Len()
		if c := rl.GenPasswordConfig(); !c.EnableMask || c.HistoryLimit != -1 || c.InterruptPrompt != "\n" || c.EOFPrompt != "\n" || c.Stdout != cfg.Stdout || c.Stderr != cfg.Stderr || c.inited {
			vFound(t, "GenPasswordConfig gives %+v", *c)
		}
		end := ends[r.Intn(len(ends))]
		done := make(chan struct{})
		go func() {
			rl.ReadPassword("pw: ")
			close(done)
		}()
		if end == "EOF" {
			w.Close()
		} else {
			w.Write([]byte(end))
		}
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			vFound(t, "ReadPassword ended by %q gives no answer", end)
		}
		if op.cfg != cfg || op.buf.cfg != cfg || op.history != hist || op.opSearch != search || op.opSearch.history != hist || string(op.buf.prompt) != prompt ||
			cfg.EnableMask != mask || cfg.MaskRune != rn || op.opPassword.backupCfg != nil || hist.history.Len() != size {
			vFound(t, "after ReadPassword ended by %q: configuration back %v, line's %v, history %v of %d entries (%d before), search %v of this history %v, prompt %q (%q before), mask %v %q (%v %q before)",
				end, op.cfg == cfg, op.buf.cfg == cfg, op.history == hist, hist.history.Len(), size, op.opSearch == search, op.opSearch.history == hist, string(op.buf.prompt), prompt, cfg.EnableMask, cfg.MaskRune, mask, rn)
		}
		w.Close()
	}
}
