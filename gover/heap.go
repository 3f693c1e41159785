package main

// Types, values, heap maps and states.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a Go value flattened into its components (see flatten).
type Val []*Term

type Comp struct {
	suf string
	s   Sort
	ref bool       // a reference (pointer, array id, ...)
	t   types.Type // scalar type, nil for slice/interface parts
}

type Loc struct { // an address: heap map prefix + index terms
	name string
	args []*Term
	t    types.Type // type of the object at the address
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

var flatMemo = map[types.Type][]Comp{}

func (w *World) flatten(t types.Type) []Comp {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.flat(t)
}
func (w *World) flat(t types.Type) []Comp {
	if r, ok := flatMemo[t]; ok {
		return r
	}
	var out []Comp
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			out = []Comp{{"", SBool, false, t}}
		} else if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			out = []Comp{{"", SInt, true, t}}
		} else {
			out = []Comp{{"", SInt, false, t}}
		}
	case *types.Slice:
		out = []Comp{{"#arr", SInt, true, nil}, {"#off", SInt, false, nil}, {"#len", SInt, false, nil}, {"#cap", SInt, false, nil}}
	case *types.Interface:
		out = []Comp{{"#tag", SInt, false, nil}, {"#data", SInt, true, nil}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range w.flat(f.Type()) {
				c.suf = "." + f.Name() + c.suf
				out = append(out, c)
			}
		}
	case *types.Array:
		if u.Len() > 64 {
			out = []Comp{{"", SInt, true, nil}}
			break
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, c := range w.flat(u.Elem()) {
				c.suf = fmt.Sprintf("#%d%s", i, c.suf)
				out = append(out, c)
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, c := range w.flat(u.At(i).Type()) {
				c.suf = fmt.Sprintf("#%d%s", i, c.suf)
				out = append(out, c)
			}
		}
	default: // pointer, map, chan, signature
		out = []Comp{{"", SInt, true, t}}
	}
	flatMemo[t] = out
	return out
}

func (w *World) fieldRange(st *types.Struct, idx int) (int, int) {
	a := 0
	for i := 0; i < idx; i++ {
		a += len(w.flatten(st.Field(i).Type()))
	}
	return a, a + len(w.flatten(st.Field(idx).Type()))
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "readline" || p.Name() == "runes" {
			return ""
		}
		return p.Name()
	})
}

// name of the heap map prefix for objects of type t reached by a whole pointer
func objName(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return typeName(t)
	}
	return "cell:" + typeName(canonElem(t))
}

func canonElem(t types.Type) types.Type {
	t = types.Unalias(t)
	if i, ok := t.(*types.Interface); ok && i.Empty() { // any and interface{} are one type
		return types.NewInterfaceType(nil, nil)
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return types.Typ[types.Uint8]
		case types.Int32:
			return types.Typ[types.Int32]
		}
	}
	return t
}
func elemName(t types.Type) string { return "elem:" + typeName(canonElem(t)) }

// ---------------------------------------------------------------- heap nodes

type HKind uint8

const (
	HBase HKind = iota
	HStore
	HUpd
)

type HNode struct {
	kind  HKind
	prev  *HNode
	name  string // base symbol
	map_  string
	sort  Sort
	ref   bool
	aidx  int // frontier at creation (base)
	ak    int64
	args  []*Term // store index / bound vars of an update
	guard *Term
	val   *Term
	id    int
}

type State struct {
	heap   map[string]*HNode
	pc     []*Term
	pcset  map[int]bool
	aIdx   int
	aK     int64
	frames []*Frame
	dead   bool
	trace  []string
	cutAt  *Heap // set after the first segment of an iteration: the state the current one started in
	seg    int
	owner  map[string]int // which call's instance of a local specification function goes by its plain name
}

func (s *State) clone() *State {
	n := &State{aIdx: s.aIdx, aK: s.aK, cutAt: s.cutAt, seg: s.seg}
	n.heap = make(map[string]*HNode, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.pcset = make(map[int]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.trace = append([]string(nil), s.trace...)
	if s.owner != nil {
		n.owner = make(map[string]int, len(s.owner))
		for k, v := range s.owner {
			n.owner[k] = v
		}
	}
	return n
}

// snapshot of the heap for spec evaluation
type Heap struct {
	m    map[string]*HNode
	aIdx int
	aK   int64
}

func (s *State) snap() *Heap {
	m := make(map[string]*HNode, len(s.heap))
	for k, v := range s.heap {
		m[k] = v
	}
	return &Heap{m, s.aIdx, s.aK}
}
func (s *State) live() *Heap { return &Heap{s.heap, s.aIdx, s.aK} }

func (x *Exec) front(idx int) *Term { return x.c.Var(fmt.Sprintf("A!%d", idx), SInt) }
func (x *Exec) frontier(s *State) *Term {
	return x.c.AddK(x.front(s.aIdx), s.aK)
}
func (x *Exec) frontierH(h *Heap) *Term { return x.c.AddK(x.front(h.aIdx), h.aK) }

// fresh reference
func (x *Exec) alloc(s *State) *Term {
	s.aK++
	return x.frontier(s)
}

// bumpFrontier: unknown number of allocations happened
func (x *Exec) bumpFrontier(s *State) {
	old := x.frontier(s)
	x.naidx++
	x.c.fresh++
	for len(x.aStamp) <= x.naidx {
		x.aStamp = append(x.aStamp, x.c.fresh)
	}
	s.aIdx = x.naidx
	s.aK = 0
	nf := x.front(s.aIdx)
	x.c.Fact(nf, x.c.Le(old, nf))
}

// mapMeta describes a heap map
type mapMeta struct {
	sort  Sort
	ref   bool
	arity int
	t     types.Type
	part  string // "#len" etc.
	base  string // map name without part
}

func (x *Exec) meta(name string, c Comp, arity int) {
	if _, ok := x.metas[name]; !ok {
		x.metas[name] = &mapMeta{sort: c.s, ref: c.ref, arity: arity, t: c.t}
	}
}

func (x *Exec) node(h map[string]*HNode, name string) *HNode {
	if n, ok := h[name]; ok {
		return n
	}
	n, ok := x.base0[name]
	if !ok {
		tag := x.baseTag
		if strings.HasPrefix(name, "G:unicode.") || strings.HasPrefix(name, "G:io.") || strings.HasPrefix(name, "G:os.") {
			tag = "!u" // variables of the standard library that nobody assigns
		}
		n = x.newBase(name, name+tag, x.baseA, 0)
		x.base0[name] = n
	}
	return n
}

func (x *Exec) newBase(mapName, sym string, aidx int, ak int64) *HNode {
	m := x.metas[mapName]
	x.nnode++
	n := &HNode{kind: HBase, name: sym, map_: mapName, sort: m.sort, ref: m.ref, aidx: aidx, ak: ak, id: x.nnode}
	// quantified type facts for the symbol
	c := x.c
	var bs []*Term
	for i := 0; i < m.arity; i++ {
		bs = append(bs, c.Bound(fmt.Sprintf("b%d", i)))
	}
	app := c.App(sym, m.sort, bs...)
	if m.arity > 0 {
		var fs []*Term
		if m.sort == SInt {
			if lo, hi, ok := intRange(m.t); ok && wide(m.t) {
				if lo == 0 {
					fs = append(fs, c.Le(c.Lit(0), app))
				}
			} else if ok {
				fs = append(fs, c.Le(c.Lit(lo), app), c.Le(app, c.Lit(hi)))
			}
			if m.ref {
				x.symRef[sym] = aidx
				fr := c.AddK(x.front(aidx), ak)
				fs = append(fs, c.Or(c.Lt(fr, bs[0]), c.Le(app, fr)))
				if !strings.HasSuffix(mapName, "#data") {
					fs = append(fs, c.Le(c.Lit(0), app))
				}
			}
			if strings.HasSuffix(mapName, "#len") {
				root := strings.TrimSuffix(sym, "") // sym = map#len!ver
				cp := c.App(strings.Replace(root, "#len!", "#cap!", 1), SInt, bs...)
				of := c.App(strings.Replace(root, "#len!", "#off!", 1), SInt, bs...)
				ar := c.App(strings.Replace(root, "#len!", "#arr!", 1), SInt, bs...)
				fs = append(fs, c.Le(c.Lit(0), app), c.Le(app, cp), c.Le(c.Lit(0), of), c.Or(c.Ne(ar, c.Lit(0)), c.Eq(cp, c.Lit(0))))
			}
		}
		for _, f := range fs {
			c.symFacts[sym] = append(c.symFacts[sym], f)
		}
		if len(fs) > 0 {
			x.symArgs[sym] = bs
		}
	}
	return n
}

// wide: the 64-bit integer types, whose values are treated as mathematical integers
func wide(t types.Type) bool {
	_, hi, ok := intRange(t)
	return ok && hi == math.MaxInt64
}

func intRange(t types.Type) (int64, int64, bool) {
	if t == nil {
		return 0, 0, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32, types.UntypedRune:
		return -2147483648, 2147483647, true
	case types.Uint32:
		return 0, 4294967295, true
	case types.Int, types.Int64, types.UntypedInt:
		return -9223372036854775808, 9223372036854775807, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 9223372036854775807, true // approximated upper bound
	}
	return 0, 0, false
}

func (x *Exec) read(n *HNode, args []*Term) *Term {
	c := x.c
	type ov struct{ g, v *Term }
	var ovs []ov
	for {
		if n.kind == HBase {
			t := c.App(n.name, n.sort, args...)
			if n.ref && x.ubOK(args, n.aidx, n.ak) {
				if _, ok := c.ub[t.id]; !ok {
					c.ub[t.id] = ubound{n.aidx, n.ak}
				}
			}
			for i := len(ovs) - 1; i >= 0; i-- {
				t = c.Ite(ovs[i].g, ovs[i].v, t)
			}
			return t
		}
		var g, v *Term
		if n.kind == HStore {
			var eqs []*Term
			for i := range args {
				eqs = append(eqs, c.Eq(args[i], n.args[i]))
			}
			g = c.And(eqs...)
			v = n.val
		} else {
			m := map[int]*Term{}
			for i := range args {
				m[n.args[i].id] = args[i]
			}
			g = x.simpGuard(c.Subst(n.guard, m))
			if g.op != OFalse {
				v = c.Subst(n.val, m)
				if n.ref && v.op == OApp {
					if _, ok := c.ub[v.id]; !ok {
						if u, ok := x.symUB[v.name]; ok && x.ubOK(v.args, u.idx, u.k) {
							c.ub[v.id] = u
						}
					}
				}
			}
		}
		if g.op == OTrue {
			t := v
			for i := len(ovs) - 1; i >= 0; i-- {
				t = c.Ite(ovs[i].g, ovs[i].v, t)
			}
			return t
		}
		if g.op != OFalse {
			ovs = append(ovs, ov{g, v})
		}
		n = n.prev
	}
}

// ubOK: the object read was allocated no later than the given frontier
func (x *Exec) ubOK(args []*Term, idx int, k int64) bool {
	if len(args) == 0 {
		return true
	}
	u, ok := x.c.refUB(args[0])
	return ok && (u.idx < idx || u.idx == idx && u.k <= k)
}

// simpGuard decides comparisons against frontier variables that follow from allocation bounds.
func (x *Exec) simpGuard(g *Term) *Term {
	switch g.op {
	case OLe0:
		// A_i + k + 1 <= t   i.e. A_i - t + k+1 <= 0
		if r, ok := x.c.decideLe(g.args[0]); ok {
			return x.c.Bool(r)
		}
	case OAnd, OOr:
		out := make([]*Term, len(g.args))
		for i, a := range g.args {
			out[i] = x.simpGuard(a)
		}
		if g.op == OAnd {
			return x.c.And(out...)
		}
		return x.c.Or(out...)
	}
	return g
}

// decideLe decides d <= 0 for d = A_i - t + k or t - A_i + k, using allocation bounds.
func (c *Ctx) decideLe(d *Term) (bool, bool) {
	if d.op != OLin || len(d.args) != 2 {
		if d.op == OLin && len(d.args) == 1 && d.args[0].op == OVar && strings.HasPrefix(d.args[0].name, "A!") {
			// +-A + k <= 0 : A >= 1 always
			if d.coefs[0] == 1 && d.k >= 0 {
				return false, true
			}
			if d.coefs[0] == -1 && d.k <= 1 {
				return true, true
			}
		}
		return false, false
	}
	isA := func(t *Term) bool { return t.op == OVar && strings.HasPrefix(t.name, "A!") }
	for i := 0; i < 2; i++ {
		a, t := d.args[i], d.args[1-i]
		if !isA(a) {
			continue
		}
		ai := c.frontIdx(a)
		if isA(t) {
			ti := c.frontIdx(t)
			// A_j >= A_i + (k at bump) for j>i ; only know A_j >= A_i
			if d.coefs[i] == 1 && d.coefs[1-i] == -1 {
				if ti > ai && d.k <= 0 {
					return true, true
				}
				if ti < ai && d.k > 0 {
					return false, true
				}
			}
			continue
		}
		u, ok := c.refUB(t)
		if !ok || u.idx > ai {
			continue
		}
		uk := u.k
		if u.idx < ai {
			uk = 0
		}
		if d.coefs[i] == 1 && d.coefs[1-i] == -1 { // A - t + k <= 0 ; t <= A+uk => A - t >= -uk
			if d.k-uk > 0 {
				return false, true
			}
		}
		if d.coefs[i] == -1 && d.coefs[1-i] == 1 { // t - A + k <= 0 ; t - A <= uk
			if uk+d.k <= 0 {
				return true, true
			}
		}
	}
	return false, false
}

func (x *Exec) store(s *State, name string, args []*Term, v *Term) {
	n := x.node(s.heap, name)
	x.nnode++
	m := x.metas[name]
	s.heap[name] = &HNode{kind: HStore, prev: n, map_: name, sort: m.sort, ref: m.ref, args: args, val: v, id: x.nnode}
	x.recordWrite(name, args, nil, nil, s)
}
func (x *Exec) update(s *State, name string, bs []*Term, guard, v *Term) {
	if guard.op == OFalse {
		return
	}
	n := x.node(s.heap, name)
	x.nnode++
	m := x.metas[name]
	s.heap[name] = &HNode{kind: HUpd, prev: n, map_: name, sort: m.sort, ref: m.ref, args: bs, guard: guard, val: v, id: x.nnode}
	x.recordWrite(name, nil, bs, guard, s)
}

// ---------------------------------------------------------------- typed access

func (x *Exec) loadAt(h *Heap, name string, args []*Term, t types.Type) Val {
	comps := x.w.flatten(t)
	out := make(Val, len(comps))
	if x.initHeap != nil && len(args) == 2 && strings.HasPrefix(name, "elem:") {
		if i, _, ok := x.c.asFresh(args[0]); ok && i == 0 {
			h = x.initHeap
		}
	}
	for i, c := range comps {
		x.meta(name+c.suf, c, len(args))
		out[i] = x.read(x.node(h.m, name+c.suf), args)
		if c.ref && (out[i].op == OApp || out[i].op == OVar) && !out[i].bound {
			if _, ok := x.c.ub[out[i].id]; !ok {
				x.c.ub[out[i].id] = ubound{h.aIdx, h.aK}
			}
		}
	}
	x.typeFacts(out, t, h)
	return out
}
func (x *Exec) storeAt(s *State, name string, args []*Term, t types.Type, v Val) {
	comps := x.w.flatten(t)
	if len(v) != len(comps) {
		x.fail("storeAt %s: %d comps for %s, have %d", name, len(comps), t, len(v))
	}
	for i, c := range comps {
		x.meta(name+c.suf, c, len(args))
		x.store(s, name+c.suf, args, v[i])
	}
}

// typeFacts attaches facts that every value of type t satisfies
func (x *Exec) typeFacts(v Val, t types.Type, h *Heap) {
	c := x.c
	comps := x.w.flatten(t)
	for i, cp := range comps {
		tm := v[i]
		if tm.bound {
			continue
		}
		if tm.op != OVar && tm.op != OApp {
			x.leafFacts(tm, cp)
			continue
		}
		x.scalarFacts(tm, cp)
		if strings.HasSuffix(cp.suf, "#len") && i >= 2 && i+1 < len(v) {
			x.sliceFacts(v[i-2], v[i-1], v[i], v[i+1])
		}
	}
	_ = c
}
func (x *Exec) sliceFacts(arr, off, ln, cp *Term) {
	c := x.c
	if ln.bound || arr.bound {
		return
	}
	fs := []*Term{c.Le(c.Lit(0), ln), c.Le(ln, cp), c.Le(c.Lit(0), off), c.Or(c.Ne(arr, c.Lit(0)), c.Eq(cp, c.Lit(0)))}
	for _, k := range []*Term{ln, cp, off, arr} {
		if k.op == OLit {
			continue
		}
		for _, f := range fs {
			c.Fact(k, f)
		}
	}
}
func (x *Exec) leafFacts(t *Term, cp Comp) {
	if t.op == OIte {
		for _, a := range t.args[1:] {
			if a.op == OVar || a.op == OApp {
				x.scalarFacts(a, cp)
			} else if a.op == OIte {
				x.leafFacts(a, cp)
			}
		}
	}
}
func (x *Exec) scalarFacts(t *Term, cp Comp) {
	c := x.c
	if cp.s == SInt {
		if lo, hi, ok := intRange(cp.t); ok && hi <= 4294967295 {
			c.Fact(t, c.Le(c.Lit(lo), t))
			c.Fact(t, c.Le(t, c.Lit(hi)))
		} else if cp.t != nil {
			if b, ok := cp.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				c.Fact(t, c.Le(c.Lit(0), t))
			}
			if b, ok := cp.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				x.strFacts(t)
			}
		}
		if cp.ref {
			if u, ok := c.ub[t.id]; ok {
				c.Fact(t, c.Le(t, c.AddK(x.front(u.idx), u.k)))
			}
			if !strings.HasSuffix(cp.suf, "#data") {
				c.Fact(t, c.Le(c.Lit(0), t))
			}
		}
	}
}

func (x *Exec) freshVal(prefix string, t types.Type, s *State) Val {
	comps := x.w.flatten(t)
	out := make(Val, len(comps))
	for i, cp := range comps {
		v := x.c.Fresh(prefix+cp.suf, cp.s)
		if cp.ref {
			x.c.ub[v.id] = ubound{s.aIdx, s.aK}
		}
		out[i] = v
	}
	x.typeFacts(out, t, s.live())
	return out
}

func (x *Exec) zero(t types.Type) Val {
	comps := x.w.flatten(t)
	out := make(Val, len(comps))
	for i, cp := range comps {
		if cp.s == SBool {
			out[i] = x.c.False()
		} else if cp.t != nil && isString(cp.t) {
			out[i] = x.strConst("")
		} else {
			out[i] = x.c.Lit(0)
		}
	}
	return out
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------------------------------------------------------------- strings

func (x *Exec) strConst(s string) *Term {
	c := x.c
	if t, ok := c.strs[s]; ok {
		return t
	}
	t := c.Var(fmt.Sprintf("str:%d:%s", len(c.strs), sanit(s)), SInt)
	c.strs[s] = t
	rs := []rune(s)
	c.strOf[t.id] = rs
	x.litStrs = append(x.litStrs, t)
	return t
}
func sanit(s string) string {
	var sb strings.Builder
	for i, r := range s {
		if i > 12 {
			break
		}
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (x *Exec) rlen(s *Term) *Term {
	if rs, ok := x.c.strOf[s.id]; ok {
		return x.c.Lit(int64(len(rs)))
	}
	if s.op == OIte {
		return x.c.Ite(s.args[0], x.rlen(s.args[1]), x.rlen(s.args[2]))
	}
	if s.op == OApp && s.name == "$$cat" {
		return x.c.Add(x.rlen(s.args[0]), x.rlen(s.args[1]))
	}
	t := x.c.App("rlen", SInt, s)
	x.c.Fact(t, x.c.Le(x.c.Lit(0), t))
	return t
}
func (x *Exec) rat(s, i *Term) *Term {
	c := x.c
	if rs, ok := c.strOf[s.id]; ok {
		if i.op == OLit && i.k >= 0 && int(i.k) < len(rs) {
			return c.Lit(int64(rs[i.k]))
		}
		if len(rs) <= 12 && len(rs) > 0 {
			t := c.Lit(int64(rs[len(rs)-1]))
			for k := len(rs) - 2; k >= 0; k-- {
				t = c.Ite(c.Eq(i, c.Lit(int64(k))), c.Lit(int64(rs[k])), t)
			}
			return t
		}
	}
	if s.op == OIte {
		return c.Ite(s.args[0], x.rat(s.args[1], i), x.rat(s.args[2], i))
	}
	if sq, ok := x.strSeq[s.id]; ok {
		return sq(i)
	}
	return c.App("rat", SInt, s, i)
}
func (x *Exec) slen(s *Term) *Term {
	if rs, ok := x.c.strOf[s.id]; ok {
		return x.c.Lit(int64(len(string(rs))))
	}
	if s.op == OIte {
		return x.c.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	t := x.c.App("slen", SInt, s)
	x.c.Fact(t, x.c.Le(x.c.Lit(0), t))
	return t
}
func (x *Exec) strFacts(s *Term) {
	c := x.c
	if s.bound {
		return
	}
	if _, ok := c.strOf[s.id]; ok || s.op == OIte {
		return
	}
	l, r := x.slen(s), x.rlen(s)
	// empty iff zero length; rune count at most byte count and zero together
	e := x.strConst("")
	for _, k := range []*Term{l, r, s} {
		c.Fact(k, c.Iff(c.Eq(l, c.Lit(0)), c.Eq(s, e)))
		c.Fact(k, c.Le(r, l))
		c.Fact(k, c.Le(l, c.MulK(r, 4)))
		c.Fact(k, c.Le(c.Lit(0), r))
	}
}

// newString: a string with the given rune content
func (x *Exec) newString(s *State, n *Term, at func(i *Term) *Term) *Term {
	c := x.c
	t := c.Fresh("s", SInt)
	x.strSeq[t.id] = at
	x.assume(s, c.Eq(x.rlen(t), n))
	x.strFacts(t)
	return t
}

// the rune that string([]rune) / WriteRune / utf8 encoding produces for x
func (x *Exec) vr(r *Term) *Term {
	c := x.c
	if r.op == OLit {
		k := r.k
		if k >= 0 && k < 0xD800 || k >= 0xE000 && k <= 0x10FFFF {
			return r
		}
		return c.Lit(0xFFFD)
	}
	ok := c.Or(c.And(c.Le(c.Lit(0), r), c.Lt(r, c.Lit(0xD800))), c.And(c.Le(c.Lit(0xE000), r), c.Le(r, c.Lit(0x10FFFF))))
	return c.Ite(ok, r, c.Lit(0xFFFD))
}
