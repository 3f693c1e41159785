COMP = '''package readline

import "testing"

func offers(t *testing.T, root PrefixCompleterInterface, line string, pos int, want ...string) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("completing %q panics: %v", line, e)
		}
	}()
	res, n := Do(root, []rune(line), pos)
	if n < 0 || n > pos {
		t.Fatalf("shared length %d", n)
	}
	ok := len(res) == len(want)
	for i := 0; ok && i < len(res); i++ {
		ok = string(res[i]) == want[i]
	}
	if !ok {
		t.Fatalf("completing %q at %d offers %q, want %q", line, pos, res, want)
	}
}

'''
SEEDS = [
 ('C11-fold', 'C11', [('complete_helper.go', '''				if runes.HasPrefix(childName, line) {''', '''				if runes.HasPrefixFold(childName, line) {''')],
  'a word that differs from a name in the case of a letter', 'a name that does not agree with the typed word is offered',
  COMP + '''func TestDemo(t *testing.T) {
	offers(t, NewPrefixCompleter(PcItem("Say"), PcItem("said")), "sa", 2, "id ")
}
'''),
 ('C11-dynamic', 'C11', [('complete_helper.go', '''			childNames = childDynamic.GetDynamicNames(origLine)''', '''			childNames = append(childNames, childDynamic.GetDynamicNames(origLine)...)''')],
  'a dynamic child', 'an empty candidate that is no name is offered, or a word is taken as complete',
  COMP + '''func TestDemo(t *testing.T) {
	root := NewPrefixCompleter(PcItem("ab"), PcItemDynamic(func(string) []string { return []string{"ac"} }))
	offers(t, root, "a", 1, "b ", "c ")
}
'''),
 ('C11-whole', 'C11', [('complete_helper.go', '''						newLine = append(newLine, childName)
''', '''						newLine = append(newLine, line[:len(childName)+1])
''')],
  'two names that both complete the typed word, with text after it', 'a candidate that is no whole name is offered',
  COMP + '''func TestDemo(t *testing.T) {
	a, b := PcItem("go"), PcItem("go")
	b.Name = []rune("go")
	offers(t, NewPrefixCompleter(a, b), "go x", 4, "go ", "go")
}
'''),
 ('C11-cursor', 'C11', [('complete_helper.go', '''	line = runes.TrimSpaceLeft(line[:pos])
''', '''	if pos > 0 {
		line = line[:pos]
	}
	line = runes.TrimSpaceLeft(line)
''')],
  'the cursor at the start of a line with text', 'the text after the cursor decides what is offered',
  COMP + '''func TestDemo(t *testing.T) {
	offers(t, NewPrefixCompleter(PcItem("aa"), PcItem("bb")), "b", 0, "aa ", "bb ")
}
'''),
]
