package main

// Contract files: parsing.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Expr struct {
	op   string // "id","int","str","chr","call","sel","idx","slice","un","bin","tern","forall","exists","old","seqlit","assert","place"
	s    string
	k    int64
	args []*Expr
	vars []string
	pos  string
}

type Clause struct {
	name string
	tags []string
	e    *Expr
	src  string
}

type Contract struct {
	fn        string
	params    []string
	results   []string
	lets      []Clause
	requires  []Clause
	ensures   []Clause
	modifies  []*Expr
	hasMod    bool
	invs      []Clause
	measures  []Clause
	decreases *Clause  // rank of a recursive function
	steps     []Clause // checked at every back edge of loops marked "iter"
	panics    []string // tags of no-panic obligations
	frame     []string
	term      []string
	inline    bool
	trusted   bool
	uses      []string
	file      string
	goos      string
	pkg       string
	noalloc   bool
	nilok     bool
	stepInv   []Clause
	hints     []Clause
	noterm    bool
	merge     bool
	marks     bool // nested quantifiers are instantiated through marker terms
	effort    int
	defines   []Clause    // definitional axioms, assumed within the verification of this function only
	assumes   []Clause    // taken for granted by callers, never proved (reported as assumptions)
	shows     []Clause    // postconditions proved but not used by callers
	grants    []string    // functions whose preconditions are taken for granted where this one calls them (reported as assumptions)
	cut       string      // a field read in the body of the outermost loop: the iteration is verified in segments: up to where the paths that meet again before it part, up to where they meet, and the rest
	segs      [3][]Clause // proved where segment 1 ends, where segment 2 ends, where the iteration ends (old: where the segment starts)
	seginvs   [2][]Clause // also known where the next segment starts
	keeps     []Clause    // invariants of the loop that is cut: proved on entry, at the cuts and at the end of an iteration, known at its header and after the cuts
	holds     []Clause    // taken for granted at the loop header and between the segments, never proved (reported as assumptions)
}

type Def struct {
	name   string
	params []string
	body   *Expr
}

type SpecSet struct {
	contracts map[string]*Contract // key: pkg + "|" + fn
	order     []*Contract
	defs      map[string]*Def
	ufs       map[string]Sort
	ufLocal   map[string]bool
	axioms    []Clause
}

func loadSpecs(dir string) (*SpecSet, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	ss := &SpecSet{contracts: map[string]*Contract{}, defs: map[string]*Def{}, ufs: map[string]Sort{}, ufLocal: map[string]bool{}}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := ss.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return ss, nil
}

func (ss *SpecSet) parse(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", file, string(e))
				return
			}
			panic(r)
		}
	}()
	var lines []string
	var nums []int
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "#!"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		if strings.HasPrefix(l, "    ") && len(lines) > 0 {
			lines[len(lines)-1] += " " + t
			continue
		}
		lines = append(lines, strings.TrimRight(l, " \t"))
		nums = append(nums, i+1)
	}
	var cur *Contract
	goos, pkg := "", ""
	for li, l := range lines {
		pos := fmt.Sprintf("%s:%d", file, nums[li])
		ind := strings.HasPrefix(l, "  ")
		t := strings.TrimSpace(l)
		kw, rest := t, ""
		if i := strings.IndexAny(t, " \t["); i >= 0 {
			kw, rest = t[:i], strings.TrimSpace(t[i:])
		}
		if !ind {
			switch kw {
			case "package": // package runes / windows
				pkg, goos = "", ""
				for _, w := range strings.Fields(rest) {
					if w == "windows" {
						goos = "windows"
					} else if w != "readline" {
						pkg = w
					}
				}
			case "def":
				i := strings.Index(rest, "(")
				j := matchParen(rest, i)
				eq := strings.Index(rest[j:], "=")
				d := &Def{name: strings.TrimSpace(rest[:i]), params: splitNames(rest[i+1 : j]), body: parseExpr(rest[j+eq+1:], pos)}
				if ss.defs[d.name] != nil {
					panic(specErr(pos + ": duplicate def " + d.name))
				}
				ss.defs[d.name] = d
			case "uf":
				f := strings.Fields(rest)
				s := SInt
				for _, w := range f[1:] {
					switch w {
					case "bool":
						s = SBool
					case "local":
						ss.ufLocal[f[0]] = true
					default:
						panic(specErr(pos + ": uf " + w))
					}
				}
				ss.ufs[f[0]] = s
			case "axiom":
				ss.axioms = append(ss.axioms, clause(rest, pos))
			case "func", "iface", "extern":
				i := strings.LastIndex(rest, "(")
				res := ""
				if k := strings.Index(rest, "->"); k >= 0 {
					res = rest[k+2:]
					rest = strings.TrimSpace(rest[:k])
					i = strings.LastIndex(rest, "(")
				}
				j := matchParen(rest, i)
				cur = &Contract{fn: strings.TrimSpace(rest[:i]), params: splitNames(rest[i+1 : j]), results: splitNames(strings.Trim(strings.TrimSpace(res), "()")), file: pos, goos: goos, pkg: pkg}
				if kw == "iface" {
					cur.fn = "iface " + cur.fn
				}
				if kw == "extern" {
					cur.fn = "extern " + cur.fn
				}
				key := goos + "|" + pkg + "|" + cur.fn
				if ss.contracts[key] != nil {
					panic(specErr(pos + ": duplicate contract " + cur.fn))
				}
				ss.contracts[key] = cur
				ss.order = append(ss.order, cur)
			default:
				panic(specErr(pos + ": unknown keyword " + kw))
			}
			continue
		}
		if cur == nil {
			panic(specErr(pos + ": clause outside contract"))
		}
		switch kw {
		case "requires":
			cur.requires = append(cur.requires, clause(rest, pos))
		case "ensures":
			cur.ensures = append(cur.ensures, clause(rest, pos))
		case "let":
			i := strings.Index(rest, "=")
			cur.lets = append(cur.lets, Clause{name: strings.TrimSpace(rest[:i]), e: parseExpr(rest[i+1:], pos)})
		case "define":
			cur.defines = append(cur.defines, clause(rest, pos))
		case "assume":
			cur.assumes = append(cur.assumes, clause(rest, pos))
		case "shows":
			cur.shows = append(cur.shows, clause(rest, pos))
		case "inv":
			cur.invs = append(cur.invs, clause(rest, pos))
		case "hint":
			cur.hints = append(cur.hints, clause(rest, pos))
		case "decreases":
			cl := clause(rest, pos)
			cur.decreases = &cl
		case "measure":
			cur.measures = append(cur.measures, clause(rest, pos))
		case "grant":
			for _, g := range strings.Split(rest, ",") {
				cur.grants = append(cur.grants, strings.TrimSpace(g))
			}
		case "cut":
			cur.cut = strings.TrimSpace(rest)
		case "pre", "mid", "tail":
			k := map[string]int{"pre": 0, "mid": 1, "tail": 2}[kw]
			cur.segs[k] = append(cur.segs[k], clause(rest, pos))
		case "preinv", "midinv":
			k := map[string]int{"preinv": 0, "midinv": 1}[kw]
			cur.seginvs[k] = append(cur.seginvs[k], clause(rest, pos))
		case "keeps":
			cur.keeps = append(cur.keeps, clause(rest, pos))
		case "holds":
			cur.holds = append(cur.holds, clause(rest, pos))
		case "step":
			cur.steps = append(cur.steps, clause(rest, pos))
		case "modifies":
			cur.hasMod = true
			if rest != "nothing" && rest != "" {
				p := &sparser{toks: lex(rest, pos), pos: pos}
				for {
					cur.modifies = append(cur.modifies, p.expr(0))
					if p.peek() != "," {
						break
					}
					p.next()
				}
				p.end()
			}
		case "panics":
			cur.panics = strings.Fields(rest)
		case "frame":
			cur.frame = strings.Fields(rest)
		case "term":
			cur.term = strings.Fields(rest)
		case "uses":
			cur.uses = strings.Fields(rest)
		case "inline":
			cur.inline = true
		case "trusted":
			cur.trusted = true
		case "noalloc":
			cur.noalloc = true
		case "nilok": // may be called on a nil receiver
			cur.nilok = true
		case "merge": // both branches of a simple if in one state
			cur.merge = true
		case "noterm":
			cur.noterm = true
		case "marks":
			cur.marks = true
		case "effort": // multiplies the resources of the invariant queries
			n, err := strconv.Atoi(strings.TrimSpace(rest))
			if err != nil {
				panic(specErr(pos + ": effort needs a number"))
			}
			cur.effort = n
		default:
			panic(specErr(pos + ": unknown clause " + kw))
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func matchParen(s string, i int) int {
	d := 0
	for k := i; k < len(s); k++ {
		switch s[k] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return k
			}
		}
	}
	panic(specErr("unbalanced parenthesis in " + s))
}

type specErr string

func clause(s, pos string) Clause {
	var cl Clause
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		head := s[1:i]
		s = strings.TrimSpace(s[i+1:])
		if k := strings.Index(head, ":"); k >= 0 {
			cl.name = strings.TrimSpace(head[k+1:])
			head = head[:k]
		}
		cl.tags = strings.Fields(strings.ReplaceAll(head, ",", " "))
	}
	cl.src = s
	if cl.name == "" {
		cl.name = s
		if len(cl.name) > 60 {
			cl.name = cl.name[:60] + "..."
		}
	}
	cl.e = parseExpr(s, pos)
	return cl
}

// ---------------------------------------------------------------- lexer/parser

func lex(s, pos string) []string {
	var out []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case unicode.IsLetter(r) || r == '_' || r == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case unicode.IsDigit(r):
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case r == '\'' || r == '"':
			j := i + 1
			for rs[j] != r {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		default:
			two := []string{"<==>", "==>", "..", "++", "==", "!=", "<=", ">=", "&&", "||", "=>"}
			done := false
			for _, t := range two {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), t) {
					out = append(out, t)
					i += len(t)
					done = true
					break
				}
			}
			if !done {
				out = append(out, string(r))
				i++
			}
		}
	}
	return out
}

type sparser struct {
	toks []string
	i    int
	pos  string
}

func (p *sparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *sparser) next() string { t := p.peek(); p.i++; return t }
func (p *sparser) expect(t string) {
	if p.next() != t {
		p.err("expected " + t)
	}
}
func (p *sparser) err(m string) {
	panic(specErr(fmt.Sprintf("%s: %s near %q in %s", p.pos, m, p.toks[min(p.i, len(p.toks)-1)], strings.Join(p.toks, " "))))
}
func (p *sparser) end() {
	if p.i < len(p.toks) {
		p.err("trailing tokens")
	}
}

func parseExpr(s, pos string) *Expr {
	p := &sparser{toks: lex(s, pos), pos: pos}
	if len(p.toks) == 0 {
		panic(specErr(pos + ": empty expression"))
	}
	e := p.expr(0)
	p.end()
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

func (p *sparser) expr(min int) *Expr {
	l := p.unary()
	for {
		op := p.peek()
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		switch op {
		case "?":
			a := p.expr(3)
			p.expect(":")
			b := p.expr(3)
			l = &Expr{op: "tern", args: []*Expr{l, a, b}, pos: p.pos}
		case "==>":
			r := p.expr(pr)
			l = &Expr{op: "bin", s: op, args: []*Expr{l, r}, pos: p.pos}
		default:
			r := p.expr(pr + 1)
			l = &Expr{op: "bin", s: op, args: []*Expr{l, r}, pos: p.pos}
		}
	}
}

func (p *sparser) unary() *Expr {
	switch p.peek() {
	case "!", "-":
		op := p.next()
		return &Expr{op: "un", s: op, args: []*Expr{p.unary()}, pos: p.pos}
	case "*":
		p.next()
		return &Expr{op: "deref", args: []*Expr{p.unary()}, pos: p.pos}
	case "forall", "exists":
		q := p.next()
		var vars []string
		var rng *Expr
		for {
			vars = append(vars, p.next())
			if p.peek() == "," {
				p.next()
				continue
			}
			break
		}
		if p.peek() == "in" {
			p.next()
			lo := p.expr(8)
			p.expect("..")
			hi := p.expr(8)
			for _, v := range vars {
				vv := &Expr{op: "id", s: v, pos: p.pos}
				r := &Expr{op: "bin", s: "&&", pos: p.pos, args: []*Expr{{op: "bin", s: "<=", args: []*Expr{lo, vv}, pos: p.pos}, {op: "bin", s: "<", args: []*Expr{vv, hi}, pos: p.pos}}}
				if rng == nil {
					rng = r
				} else {
					rng = &Expr{op: "bin", s: "&&", args: []*Expr{rng, r}, pos: p.pos}
				}
			}
		}
		p.expect(":")
		body := p.expr(0)
		if rng != nil {
			op := "==>"
			if q == "exists" {
				op = "&&"
			}
			body = &Expr{op: "bin", s: op, args: []*Expr{rng, body}, pos: p.pos}
		}
		return &Expr{op: q, vars: vars, args: []*Expr{body}, pos: p.pos}
	}
	return p.postfix(p.primary())
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		switch p.peek() {
		case ".":
			p.next()
			if p.peek() == "(" {
				p.next()
				t := ""
				for p.peek() != ")" {
					t += p.next()
				}
				p.expect(")")
				e = &Expr{op: "assert", s: t, args: []*Expr{e}, pos: p.pos}
				continue
			}
			e = &Expr{op: "sel", s: p.next(), args: []*Expr{e}, pos: p.pos}
		case "[":
			p.next()
			var a, b *Expr
			if p.peek() != ":" {
				a = p.expr(4)
			}
			if p.peek() == ":" {
				p.next()
				if p.peek() != "]" {
					b = p.expr(4)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, a, b}, pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Expr{op: "idx", args: []*Expr{e, a}, pos: p.pos}
		case "(":
			if e.op != "id" {
				p.err("call of non-name")
			}
			p.next()
			c := &Expr{op: "call", s: e.s, pos: p.pos}
			for p.peek() != ")" {
				c.args = append(c.args, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *sparser) primary() *Expr {
	t := p.next()
	if t == "" {
		p.err("unexpected end")
	}
	switch {
	case t == "(":
		e := p.expr(0)
		p.expect(")")
		return e
	case t == "[":
		e := &Expr{op: "seqlit", pos: p.pos}
		for p.peek() != "]" {
			e.args = append(e.args, p.expr(0))
			if p.peek() == "," {
				p.next()
			}
		}
		p.expect("]")
		return e
	case t == "{": // {n : k => expr}
		n := p.expr(0)
		p.expect(":")
		v := p.next()
		p.expect("=>")
		b := p.expr(0)
		p.expect("}")
		return &Expr{op: "compr", vars: []string{v}, args: []*Expr{n, b}, pos: p.pos}
	case t[0] == '\'':
		s, err := strconv.Unquote(t)
		if err != nil {
			p.err("bad char " + t)
		}
		return &Expr{op: "int", k: int64([]rune(s)[0]), pos: p.pos}
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			p.err("bad string " + t)
		}
		return &Expr{op: "str", s: s, pos: p.pos}
	case unicode.IsDigit(rune(t[0])):
		k, err := strconv.ParseInt(t, 0, 64)
		if err != nil {
			if _, e := strconv.ParseUint(t, 10, 64); e == nil {
				return &Expr{op: "big", s: t, pos: p.pos}
			}
			p.err("bad number " + t)
		}
		return &Expr{op: "int", k: k, pos: p.pos}
	}
	if !unicode.IsLetter([]rune(t)[0]) && t[0] != '_' && t[0] != '$' {
		p.i--
		p.err("unexpected token")
	}
	return &Expr{op: "id", s: t, pos: p.pos}
}
