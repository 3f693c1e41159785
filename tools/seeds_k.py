CFG = '''package readline

import (
	"bytes"
	"io"
	"testing"
	"time"
)

type sink struct{ bytes.Buffer }

func (*sink) Close() error { return nil }

func config(prompt string) (*Config, *io.PipeWriter) {
	r, w := io.Pipe()
	return &Config{Prompt: prompt, Stdin: r, Stdout: &sink{}, Stderr: &sink{}, Painter: &defaultPainter{},
		FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil },
		FuncIsTerminal: func() bool { return true }, FuncGetWidth: func() int { return 80 },
		FuncOnWidthChanged: func(func()) {}, ForceUseInteractive: true}, w
}

// password reads one password ended by these keys
func password(t *testing.T, c *Config, w *io.PipeWriter, keys string) *Instance {
	rl, err := NewEx(c)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		rl.ReadPassword("password: ")
		done <- true
	}()
	w.Write([]byte(keys))
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
	return rl
}

'''
SEEDS = [
 ('C23-eofhint', 'C23', [('readline.go', '''	} else if c.EOFPrompt == "\\n" {
''', '''	} else if c.InterruptPrompt == "\\n" {
''')], 'a configuration whose end-of-input hint is a newline', 'the newline is taken for the hint itself instead of an empty one', CFG + '''func TestDemo(t *testing.T) {
	c, _ := config("> ")
	c.EOFPrompt = "\\n"
	c.Init()
	if c.EOFPrompt != "" {
		t.Fatalf("%q", c.EOFPrompt)
	}
}
var _ = password
'''),
 ('C23-limit', 'C23', [('readline.go', '''	if c.HistoryLimit == 0 {
''', '''	if c.HistoryLimit <= 0 {
''')], 'a configuration that switches history off with -1, as the one for passwords does', 'a negative limit set by the application becomes the default one: passwords are kept', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("> ")
	rl := password(t, c, w, "x\\n")
	p := rl.GenPasswordConfig()
	p.Init()
	if p.HistoryLimit != -1 {
		t.Fatal(p.HistoryLimit)
	}
}
'''),
 ('C23-rawpair', 'C23', [('readline.go', '''	if c.FuncMakeRaw == nil {
		c.FuncMakeRaw = rm.Enter
	}
	if c.FuncExitRaw == nil {
		c.FuncExitRaw = rm.Exit
	}
''', '''	if c.FuncMakeRaw == nil || c.FuncExitRaw == nil {
		c.FuncMakeRaw, c.FuncExitRaw = rm.Enter, rm.Exit
	}
''')], 'a configuration with only one of the two raw mode functions set', 'the one the application set is overwritten', CFG + '''func TestDemo(t *testing.T) {
	c, _ := config("> ")
	n := 0
	c.FuncMakeRaw = nil
	c.FuncExitRaw = func() error { n++; return nil }
	c.Init()
	c.FuncExitRaw()
	if n != 1 {
		t.Fatal("not the function that was set")
	}
}
var _ = password
'''),
 ('C23-exiterr', 'C23', [('operation.go', '''	defer o.opPassword.ExitPasswordMode()
	return o.Slice()
''', '''	line, err := o.Slice()
	if err != nil {
		return nil, err
	}
	o.opPassword.ExitPasswordMode()
	return line, nil
''')], 'a password read that ends with an interrupt or at the end of the input', 'the masked configuration stays in place after an interrupted password', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("> ")
	rl := password(t, c, w, "x\\x03")
	if rl.Operation.cfg != c {
		t.Fatal("another configuration")
	}
}
'''),
 ('C23-searchback', 'C23', [('operation.go', '''		cfg.opSearch = newOpSearch(op.buf.w, op.buf, op.history, cfg, width)
	}
''', '''		cfg.opSearch = newOpSearch(op.buf.w, op.buf, op.history, cfg, width)
		op.opSearch = cfg.opSearch
	}
'''), ('operation.go', '''
	op.opSearch = cfg.opSearch
	return old, nil
''', '''
	return old, nil
''')], 'a search after a password has been read', 'the search still looks at the history of the password', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("> ")
	rl := password(t, c, w, "x\\n")
	if rl.Operation.opSearch.history != rl.Operation.history {
		t.Fatal("another history is searched")
	}
}
'''),
 ('C23-emptyprompt', 'C23', [('operation.go', '''	op.SetPrompt(cfg.Prompt)
	op.buf.SetConfig(cfg)
''', '''	if cfg.Prompt != "" {
		op.SetPrompt(cfg.Prompt)
	}
	op.buf.SetConfig(cfg)
''')], 'a configuration without prompt, and a password read with one', 'the prompt of the password stays', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("")
	rl := password(t, c, w, "x\\n")
	if p := string(rl.Operation.buf.prompt); p != "" {
		t.Fatalf("%q", p)
	}
}
'''),
 ('C23-maskorder', 'C23', [('operation.go', '''	op.buf.SetConfig(cfg)
	op.SetMaskRune(cfg.MaskRune)
''', '''	op.SetMaskRune(cfg.MaskRune)
	op.buf.SetConfig(cfg)
''')], 'a configuration with a mask rune of its own, and a password read', 'the mask rune of the password is written to the configuration that comes back', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("> ")
	c.EnableMask, c.MaskRune = true, '#'
	rl := password(t, c, w, "x\\n")
	if m := rl.Operation.cfg.MaskRune; m != '#' {
		t.Fatalf("%q", m)
	}
}
'''),
 ('C23-clonehist', 'C23', [('readline.go', '''	c.opHistory = nil
	c.opSearch = nil
	return &c
''', '''	return &c
''')], 'a configuration cloned from one in use', 'the clone brings the history of the original along instead of its own', CFG + '''func TestDemo(t *testing.T) {
	c, w := config("> ")
	rl := password(t, c, w, "x\\n")
	h := rl.Operation.history
	k := c.Clone()
	k.HistoryLimit = 3
	rl.SetConfig(k)
	if rl.Operation.history == h {
		t.Fatal("the same history")
	}
}
'''),
]
