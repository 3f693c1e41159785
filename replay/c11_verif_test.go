package readline

import (
	"fmt"
	"testing"
	"time"
)

// vTreeNames: the names reported by the children of every node below p
func vTreeNames(p PrefixCompleterInterface, line []rune) [][]rune {
	var out [][]rune
	for _, c := range p.GetChildren() {
		if d, ok := c.(DynamicPrefixCompleterInterface); ok && d.IsDynamic() {
			for _, n := range d.GetDynamicNames(line) {
				out = append(out, append([]rune{}, n...))
			}
		} else {
			out = append(out, append([]rune{}, c.GetName()...))
		}
		out = append(out, vTreeNames(c, line)...)
	}
	return out
}

func vEndsWith(text, end []rune) bool {
	return len(end) <= len(text) && vEq(text[len(text)-len(end):], end)
}

func vOccurs(text, w []rune) bool {
	for i := 0; i+len(w) <= len(text); i++ {
		if vEq(text[i:i+len(w)], w) {
			return true
		}
	}
	return false
}

// vGenuine: the candidate continues some name that agrees with the text before the cursor
func vGenuine(names [][]rune, typed, cand []rune) bool {
	for _, n := range names {
		if len(cand) > 0 && len(cand) <= len(n) && vEndsWith(n, cand) && vEndsWith(typed, n[:len(n)-len(cand)]) {
			return true
		}
		if vEq(cand, n) && vOccurs(typed, n) {
			return true
		}
		if len(cand) == 1 && cand[0] == ' ' && vEndsWith(typed, n) {
			return true
		}
	}
	return false
}

func TestReplayC11(t *testing.T) {
	over := vDeadline(60 * time.Second)
	rnd := vRand()
	letters := []rune("abA")
	var tree func(depth int) []PrefixCompleterInterface
	tree = func(depth int) []PrefixCompleterInterface {
		var out []PrefixCompleterInterface
		for k := rnd.Intn(4); k > 0 && depth > 0; k-- {
			kids := tree(depth - 1)
			if rnd.Intn(4) == 0 {
				var ns []string
				for j := rnd.Intn(3); j > 0; j-- {
					ns = append(ns, string(vRandText(rnd, letters, 3)))
				}
				out = append(out, PcItemDynamic(func(string) []string { return ns }, kids...))
			} else {
				it := PcItem(string(vRandText(rnd, letters, 3)), kids...)
				if rnd.Intn(3) == 0 {
					it.Name = vRandText(rnd, []rune("abB "), 3)
				}
				out = append(out, it)
			}
		}
		return out
	}
	for i := 0; i < 400000 && !over(); i++ {
		kids := tree(3)
		root := NewPrefixCompleter(kids...)
		if len(root.Name) != 1 || root.Name[0] != ' ' || len(root.Children) != len(kids) {
			vFound(t, "NewPrefixCompleter makes the root %q with %d children", string(root.Name), len(root.Children))
		}
		line := vRandText(rnd, []rune("ab  "), 8)
		pos := rnd.Intn(len(line) + 1)
		names := vTreeNames(root, line)
		desc := func() string {
			return fmt.Sprintf("completing %q at %d with the names %s", string(line), pos, vShowNames(names))
		}
		given := append([]rune{}, line...)
		var res [][]rune
		var off int
		if p := vGuard(desc, func() { res, off = root.Do(given, pos) }); p != nil {
			vFound(t, "%s panics: %v", desc(), p)
		}
		if off < 0 || off > pos {
			vFound(t, "%s reports the shared length %d", desc(), off)
		}
		if !vEq(given, line) {
			vFound(t, "%s changes the line to %q", desc(), string(given))
		}
		for _, c := range res {
			if !vGenuine(names, line[:pos], c) {
				vFound(t, "%s offers %q", desc(), string(c))
			}
		}
		if len(names) > 0 && !vNamesEq(names, vTreeNames(root, line)) {
			vFound(t, "%s changes the names", desc())
		}
		again, off2 := root.Do(append(append([]rune{}, line[:pos]...), 'a', ' ', 'b'), pos)
		if off != off2 || !vNamesEq(res, again) {
			vFound(t, "%s offers %s, %d, but %s, %d with other text after the cursor", desc(), vShowNames(res), off, vShowNames(again), off2)
		}
	}
}

func vShowNames(ls [][]rune) string {
	s := "["
	for _, l := range ls {
		s += fmt.Sprintf("%q,", string(l))
	}
	return s + "]"
}

func vNamesEq(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vEq(a[i], b[i]) {
			return false
		}
	}
	return true
}
