VIM = BUF + '''func vim(text string, idx int) *opVim {
	cfg := &Config{VimMode: true, Stdout: nullW{}, Painter: nullP{}}
	v := newVimMode(&Operation{t: &Terminal{cfg: cfg}, buf: mk(text, idx), cfg: cfg})
	v.ExitVimInsertMode()
	return v
}

func next(r rune) func() rune { return func() rune { return r } }

'''
SEEDS = [
 ('C19-till', 'C19', [('vim.go', '''		prevChar := r == 't' || r == 'T'
		reverse := r == 'F' || r == 'T'
''', '''		prevChar := r == 't' || r == 'T'
		reverse := r == 'F' || r == 'T' && !rb.IsCursorInEnd()
''')],
  'T with the cursor at the end of the line', 'the search goes forward and finds nothing',
  VIM + '''func TestDemo(t *testing.T) {
	v := vim("abcd", 4)
	v.HandleVim('T', next('b'))
	want(t, v.op.buf, "abcd", 2)
}
'''),
 ('C19-change', 'C19', [('vim.go', '''	default:
		return r, false
	}

	o.EnterVimInsertMode()
	return
}''', '''	default:
		return r, false
	}

	if rb.Len() == 0 && r == 'c' {
		t = CharEsc
	}
	o.EnterVimInsertMode()
	return
}''')],
  'a c command that empties the line', 'an escape is passed on as a key',
  VIM + '''func TestDemo(t *testing.T) {
	v := vim("abcd", 4)
	if r := v.HandleVim('c', next('c')); r != 0 {
		t.Fatal(r)
	}
}
'''),
 ('C19-enter', 'C19', [('vim.go', '''	case CharEnter, CharInterrupt:
		o.ExitVimMode()
		return r''', '''	case CharEnter, CharInterrupt:
		if o.op.buf.Len() > 0 || r == CharEnter {
			o.ExitVimMode()
		}
		return r''')],
  'interrupting an empty line in normal mode', 'the next line starts in normal mode',
  VIM + '''func TestDemo(t *testing.T) {
	v := vim("", 0)
	if r := v.HandleVim(CharInterrupt, next('c')); r != CharInterrupt || v.vimMode != VIM_INSERT {
		t.Fatal(r, v.vimMode)
	}
}
'''),
]
