package main

// Symbolic execution of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type LoopAct struct {
	loop *Loop
	run  *LoopRun
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	call   ssa.Value // receives the result in the parent frame
	acts   []LoopAct
	tail   bool
	onRet  func(x *Exec, st *State, res []Val) // optional post-processing
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.acts = append([]LoopAct(nil), f.acts...)
	return &n
}

type Oblig struct {
	fn    string
	kind  string
	desc  string
	tags  []string
	hyps  []*Term
	goal  *Term
	trace []string
	where string
	res   string // "proved", "failed", ...
	by    string
	model string
	ms    int64
}

type unsupported struct{ msg string }

type Exec struct {
	guard      *Term // stores take effect only if this holds
	w          *World
	c          *Ctx
	root       *ssa.Function
	name       string
	contr      *Contract
	metas      map[string]*mapMeta
	base0      map[string]*HNode
	nnode      int
	naidx      int
	symArgs    map[string][]*Term
	symUB      map[string]ubound
	symRef     map[string]int // reference-valued symbols: the frontier they were introduced at
	litStrs    []*Term
	strSeq     map[int]func(*Term) *Term
	bytesOf    map[int]*bseq // array id term -> rune-level content (fresh byte arrays from conversions)
	obs        []*Oblig
	dry        int // >0: no obligations are recorded
	runs       []*LoopRun
	sol        *Solver
	work       []*State
	params     []Val
	old        *Heap
	oldA       *Term
	paths      int
	rets       int
	surv       map[string]map[string]bool // surviving candidates per loop position
	loopNotes  []string
	survStats  map[string]int
	globals    map[*ssa.Global]Val
	warn       []string
	steps      int
	cutKnown   bool
	cutPoss    [2]cutPos
	cuts       [2]int // paths that reached the cuts
	ncalls     int
	trivial    int
	initDone   bool
	initMode   bool
	modelsUsed map[string]bool
	invProved  int
	depthMax   int
	noPrune    bool
	nbound     int
	foldAx     map[string][]*Term
	foldPat    map[string]bool
	folds      map[string]foldInfo
	bridges    map[string]*Term
	cnts       map[string]*cntInfo
	cntVar     *Term
	axTerm     map[int]*Term
	lmemo      map[string]*loopMemo
	aStamp     []int
	used       map[string]bool
	inlined    map[string]bool
	pvars      map[string]SV
	lets       map[string]SV
	level      int
	baseTag    string
	baseA      int
	prepMemo   map[int]*Term
	qMemo      map[int]bool
	initHeap   *Heap
}

type bseq struct {
	arr *Term
	n   *Term
	at  func(*Term) *Term
	off *Term // nil: 0
}

func (x *Exec) fail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (x *Exec) assume(s *State, t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assume(s, a)
		}
		return
	}
	if t.op == OFalse {
		s.dead = true
	}
	if s.pcset[t.id] {
		return
	}
	if s.pcset[x.c.Not(t).id] {
		s.dead = true
	}
	s.pcset[t.id] = true
	s.pc = append(s.pc, t)
}

func (x *Exec) where(s *State) string {
	var parts []string
	for _, f := range s.frames {
		parts = append(parts, x.w.nameOf(f.fn))
	}
	if len(parts) == 0 {
		return x.name
	}
	pos := ""
	f := s.frames[len(s.frames)-1]
	if f.block != nil && f.idx < len(f.block.Instrs) {
		at := max(f.idx, 0)
		p := f.block.Instrs[at].Pos()
		for k := at; !p.IsValid() && k >= 0; k-- {
			p = f.block.Instrs[k].Pos()
		}
		if p.IsValid() {
			pp := x.w.fset.Position(p)
			pos = fmt.Sprintf(" (%s:%d)", shortFile(pp.Filename), pp.Line)
		}
	}
	return strings.Join(parts, " > ") + pos
}
func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (w *World) nameOf(fn *ssa.Function) string {
	if n, ok := w.fnName[fn]; ok {
		return n
	}
	return fn.String()
}

// cloID numbers the functions that closures are made of
func (w *World) cloID(name string) int64 {
	cloMu.Lock()
	defer cloMu.Unlock()
	for strings.Contains(name, "/") { // (*path/pkg.T).M$bound
		i := strings.Index(name, "/")
		j := strings.LastIndexAny(name[:i], "(*")
		name = name[:j+1] + name[i+1:]
	}
	name = strings.TrimSuffix(strings.Replace(name, "readline.", "", 1), "$bound")
	if _, ok := cloIDs[name]; !ok {
		cloIDs[name] = int64(len(cloIDs) + 1)
	}
	return cloIDs[name]
}

var cloIDs = map[string]int64{}
var cloMu sync.Mutex

// oblige records an obligation; afterwards the goal may be assumed.
func (x *Exec) oblige(s *State, kind, desc string, tags []string, goal *Term) {
	if s.dead {
		return
	}
	if goal.op == OTrue || s.pcset[goal.id] {
		if x.dry == 0 {
			x.trivial++
		}
		return
	}
	if x.dry == 0 {
		x.obs = append(x.obs, &Oblig{fn: x.name, kind: kind, desc: desc, tags: tags, hyps: append([]*Term(nil), s.pc...), goal: goal, where: x.where(s), trace: append([]string(nil), s.trace...)})
	}
	x.assume(s, goal)
}

func (x *Exec) panicOb(s *State, kind, desc string, goal *Term) {
	x.oblige(s, "no-panic", kind+" "+desc, nil, goal)
}

// ---------------------------------------------------------------- values

func (x *Exec) val(s *State, v ssa.Value) Val {
	f := s.frames[len(s.frames)-1]
	return x.valIn(s, f, v)
}
func (x *Exec) valIn(s *State, f *Frame, v ssa.Value) Val {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		t := x.c.Var("fn:"+v.String(), SInt)
		x.c.closures[t.id] = &Closure{fn: v}
		x.c.Fact(t, x.c.Lt(x.c.Lit(0), t))
		return Val{t}
	case *ssa.Global:
		t := x.c.Var("&G:"+globName(v), SInt)
		x.c.locs[t.id] = &Loc{name: "G:" + globName(v), args: nil, t: v.Type().(*types.Pointer).Elem()}
		x.c.Fact(t, x.c.Lt(x.c.Lit(0), t))
		return Val{t}
	case *ssa.Builtin:
		return Val{x.c.Lit(0)}
	}
	x.fail("no value for %s (%T) in %s", v.Name(), v, f.fn)
	return nil
}

func globName(g *ssa.Global) string {
	if g.Pkg != nil && g.Pkg.Pkg.Name() != "readline" && g.Pkg.Pkg.Name() != "runes" {
		return g.Pkg.Pkg.Path() + "." + g.Name()
	}
	return g.Name()
}

func (x *Exec) constVal(v *ssa.Const) Val {
	if v.Value == nil {
		return x.zero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return Val{x.c.Bool(constant.BoolVal(v.Value))}
	case constant.String:
		return Val{x.strConst(constant.StringVal(v.Value))}
	case constant.Int:
		if k, ok := constant.Int64Val(v.Value); ok {
			return Val{x.c.Lit(k)}
		}
		return Val{x.c.Var("bigconst:"+v.Value.String(), SInt)}
	case constant.Float:
		if k, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
			return Val{x.c.Lit(k)}
		}
	}
	return Val{x.c.Var("const:"+v.Value.String(), SInt)}
}

// place returns the location a pointer designates
func (x *Exec) place(p *Term, elem types.Type) *Loc {
	if l, ok := x.c.locs[p.id]; ok {
		return l
	}
	return &Loc{name: objName(elem), args: []*Term{p}, t: elem}
}

func isArr(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func (x *Exec) load(s *State, p *Term, t types.Type) Val {
	l := x.place(p, t)
	if g, ok := x.constGlobal(l); ok {
		return g
	}
	if a, ok := isArr(t); ok && len(l.args) == 1 && l.name == objName(t) {
		var out Val
		for i := int64(0); i < a.Len(); i++ {
			out = append(out, x.loadAt(s.live(), elemName(a.Elem()), []*Term{l.args[0], x.c.Lit(i)}, a.Elem())...)
		}
		return out
	}
	return x.loadAt(s.live(), l.name, l.args, t)
}

func (x *Exec) constGlobal(l *Loc) (Val, bool) {
	if x.initMode || len(l.args) != 0 || !strings.HasPrefix(l.name, "G:") {
		return nil, false
	}
	for g, v := range x.globals {
		if "G:"+globName(g) == l.name {
			return v, true
		}
	}
	return nil, false
}

func (x *Exec) storePtr(s *State, p *Term, t types.Type, v Val) {
	l := x.place(p, t)
	if a, ok := isArr(t); ok && len(l.args) == 1 && l.name == objName(t) {
		n := len(x.w.flatten(a.Elem()))
		for i := int64(0); i < a.Len(); i++ {
			x.storeAt(s, elemName(a.Elem()), []*Term{l.args[0], x.c.Lit(i)}, a.Elem(), v[int(i)*n:int(i+1)*n])
		}
		return
	}
	x.storeAt(s, l.name, l.args, t, v)
}

func (x *Exec) addr(name string, args []*Term, t types.Type) *Term {
	var p *Term
	if len(args) == 0 {
		p = x.c.Var("&"+name, SInt)
	} else {
		p = x.c.App("&"+name, SInt, args...)
	}
	x.c.locs[p.id] = &Loc{name: name, args: args, t: t}
	x.c.Fact(p, x.c.Lt(x.c.Lit(0), p))
	return p
}

func (x *Exec) nilCheck(s *State, p *Term, what string) {
	x.panicOb(s, "nil dereference", what, x.c.Ne(p, x.c.Lit(0)))
}

// newObject allocates an object of type t, zeroed
func (x *Exec) newObject(s *State, t types.Type) *Term {
	p := x.alloc(s)
	if a, ok := isArr(t); ok {
		x.zeroElems(s, p, a.Elem(), nil)
		return p
	}
	x.storeAt(s, objName(t), []*Term{p}, t, x.zero(t))
	x.ghostZero(s, objName(t), []*Term{p}, t, 0)
	return p
}

// ghostZero: a new mutex is unlocked, a new Once has not run, a new bytes.Buffer is empty
func (x *Exec) ghostZero(s *State, name string, args []*Term, t types.Type, depth int) {
	c := x.c
	switch t.String() {
	case "sync.Mutex", "sync.RWMutex":
		x.meta(name+"!held", Comp{"", SBool, false, nil}, len(args))
		x.store(s, name+"!held", args, c.False())
		return
	case "sync.Once":
		x.meta(name+"!done", Comp{"", SBool, false, nil}, len(args))
		x.store(s, name+"!done", args, c.False())
		return
	case "bytes.Buffer":
		x.meta(name+"!n", Comp{"", SInt, false, nil}, len(args))
		x.store(s, name+"!n", args, c.Lit(0))
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && depth < 4 {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, isS := f.Type().Underlying().(*types.Struct); isS {
				x.ghostZero(s, name+"."+f.Name(), args, f.Type(), depth+1)
			}
		}
	}
}

func (x *Exec) zeroElems(s *State, arr *Term, et types.Type, _ *Term) {
	z := x.zero(et)
	for i, cp := range x.w.flatten(et) {
		name := elemName(et) + cp.suf
		x.meta(name, cp, 2)
		a, k := x.c.Bound("a"), x.c.Bound("i")
		x.update(s, name, []*Term{a, k}, x.c.Eq(a, arr), z[i])
	}
}

// copyElems: dst[doff+k] = src[soff+k] for 0<=k<n, with memmove semantics
func (x *Exec) copyElems(s *State, et types.Type, dst, doff, src, soff, n *Term) {
	if n.op == OLit && n.k == 0 {
		return
	}
	for _, cp := range x.w.flatten(et) {
		name := elemName(et) + cp.suf
		x.meta(name, cp, 2)
		nd := x.node(s.heap, name)
		a, k := x.c.Bound("a"), x.c.Bound("i")
		v := x.read(nd, []*Term{src, x.c.Add(k, x.c.Sub(soff, doff))})
		x.update(s, name, []*Term{a, k}, x.c.And(x.c.Eq(a, dst), x.c.Le(doff, k), x.c.Lt(k, x.c.Add(doff, n))), v)
	}
	if b, ok := x.bytesOf[src.id]; ok && isByte(et) {
		_ = b
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// setElems: content of a fresh array given by a function
func (x *Exec) setElems(s *State, arr *Term, et types.Type, at func(i *Term) Val) {
	a, k := x.c.Bound("a"), x.c.Bound("i")
	vs := at(k)
	for i, cp := range x.w.flatten(et) {
		name := elemName(et) + cp.suf
		x.meta(name, cp, 2)
		x.update(s, name, []*Term{a, k}, x.c.Eq(a, arr), vs[i])
	}
}

// ---------------------------------------------------------------- main loop

func (x *Exec) runAll() {
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		for !s.dead && len(s.frames) > 0 {
			x.step(s)
			x.steps++
			if x.steps > 400000 {
				x.fail("too many steps")
			}
		}
	}
}

// explore runs the given states to completion (used for loop analysis)
func (x *Exec) explore(ss []*State) {
	save := x.work
	x.work = ss
	x.runAll()
	x.work = save
}

func (x *Exec) fork(s *State) *State {
	n := s.clone()
	x.work = append(x.work, n)
	x.paths++
	if x.paths > 20000 {
		x.fail("too many paths")
	}
	return n
}

// branch on cond: returns (takeTrue, takeFalse) feasibility
func (x *Exec) feasible(s *State, cond *Term) bool {
	if cond.op == OTrue {
		return true
	}
	if cond.op == OFalse || s.pcset[x.c.Not(cond).id] {
		return false
	}
	if s.pcset[cond.id] {
		return true
	}
	if x.noPrune {
		return true
	}
	return x.sol.sat(x, s.pc, cond)
}

// split forks on cond; returns states for true and false (nil when infeasible). s is reused.
func (x *Exec) split(s *State, cond *Term) (t, f *State) {
	nc := x.c.Not(cond)
	ft := x.feasible(s, cond)
	ff := true
	if ft {
		ff = x.feasible(s, nc)
	} else if nc.op == OFalse {
		s.dead = true
		return nil, nil
	}
	switch {
	case ft && ff:
		o := x.fork(s)
		x.assume(s, cond)
		x.assume(o, nc)
		return s, o
	case ft:
		x.assume(s, cond)
		return s, nil
	default:
		x.assume(s, nc)
		return nil, s
	}
}

func (x *Exec) step(s *State) {
	f := s.frames[len(s.frames)-1]
	if x.contr != nil && x.contr.cut != "" && s.seg < 2 && x.atCut(s, f) {
		x.cutHere(s, f)
		return
	}
	if f.idx >= len(f.block.Instrs) {
		x.fail("fell off block")
	}
	in := f.block.Instrs[f.idx]
	set := func(v ssa.Value, r Val) { f.env[v] = r }
	c := x.c
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(i, Val{x.newObject(s, i.Type().(*types.Pointer).Elem())})
	case *ssa.BinOp:
		set(i, x.binop(s, i))
	case *ssa.UnOp:
		if !x.unop(s, f, i) {
			return
		}
	case *ssa.Phi:
		x.fail("phi at %s", f.fn)
	case *ssa.Store:
		p := x.val(s, i.Addr)[0]
		x.nilCheck(s, p, "store")
		v := x.val(s, i.Val)
		if x.guard != nil {
			old := x.load(s, p, i.Val.Type())
			n := make(Val, len(v))
			for k := range v {
				n[k] = c.Ite(x.guard, v[k], old[k])
			}
			v = n
		}
		x.storePtr(s, p, i.Val.Type(), v)
	case *ssa.FieldAddr:
		p := x.val(s, i.X)[0]
		x.nilCheck(s, p, "field address")
		st := i.X.Type().Underlying().(*types.Pointer).Elem()
		l := x.place(p, st)
		fld := st.Underlying().(*types.Struct).Field(i.Field)
		set(i, Val{x.addr(l.name+"."+fld.Name(), l.args, fld.Type())})
	case *ssa.Field:
		v := x.val(s, i.X)
		a, b := x.w.fieldRange(i.X.Type().Underlying().(*types.Struct), i.Field)
		set(i, v[a:b])
	case *ssa.IndexAddr:
		set(i, Val{x.indexAddr(s, i)})
	case *ssa.Index:
		v := x.val(s, i.X)
		k := x.val(s, i.Index)[0]
		if isString(i.X.Type()) {
			x.panicOb(s, "index out of range", "string", c.And(c.Le(c.Lit(0), k), c.Lt(k, x.slen(v[0]))))
			set(i, Val{x.sbyte(v[0], k)})
			break
		}
		a, ok := isArr(i.X.Type())
		if !ok || k.op != OLit {
			x.fail("Index on %s", i.X.Type())
		}
		n := len(x.w.flatten(a.Elem()))
		set(i, v[int(k.k)*n:int(k.k+1)*n])
	case *ssa.Slice:
		r := x.slice(s, i)
		set(i, r)
	case *ssa.MakeSlice:
		ln, cp := x.val(s, i.Len)[0], x.val(s, i.Cap)[0]
		x.panicOb(s, "makeslice", "length out of range", c.And(c.Le(c.Lit(0), ln), c.Le(ln, cp)))
		arr := x.alloc(s)
		x.zeroElems(s, arr, i.Type().Underlying().(*types.Slice).Elem(), nil)
		set(i, Val{arr, c.Lit(0), ln, cp})
	case *ssa.MakeInterface:
		set(i, x.makeIface(s, i.X.Type(), x.val(s, i.X)))
	case *ssa.ChangeInterface:
		set(i, x.val(s, i.X))
	case *ssa.ChangeType:
		set(i, x.val(s, i.X))
	case *ssa.Convert:
		set(i, x.convert(s, i.X.Type(), i.Type(), x.val(s, i.X)))
	case *ssa.TypeAssert:
		if !x.typeAssert(s, f, i) {
			return
		}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		cl := &Closure{fn: fn}
		for _, b := range i.Bindings {
			cl.binds = append(cl.binds, x.val(s, b))
		}
		p := x.alloc(s)
		x.c.closures[p.id] = cl
		x.assume(s, x.c.Eq(x.c.App("clo!fn", SInt, p), x.c.Lit(x.w.cloID(fn.String()))))
		for k, b := range cl.binds {
			if len(b) == 1 && b[0].sort == SInt {
				x.assume(s, x.c.Eq(x.c.App(fmt.Sprintf("clo!b%d", k), SInt, p), b[0]))
			}
		}
		set(i, Val{p})
	case *ssa.MakeChan:
		p := x.alloc(s)
		x.initChan(s, p, i.Type().Underlying().(*types.Chan).Elem())
		set(i, Val{p})
	case *ssa.MakeMap:
		p := x.alloc(s)
		mt := i.Type().Underlying().(*types.Map)
		name := mapName(mt)
		x.meta(name+"#has", Comp{"", SBool, false, nil}, 2)
		a, k := c.Bound("a"), c.Bound("i")
		x.update(s, name+"#has", []*Term{a, k}, c.Eq(a, p), c.False())
		set(i, Val{p})
	case *ssa.MapUpdate:
		m, k, v := x.val(s, i.Map)[0], x.val(s, i.Key), x.val(s, i.Value)
		mt := i.Map.Type().Underlying().(*types.Map)
		name := mapName(mt)
		x.nilCheck(s, m, "map write")
		x.meta(name+"#has", Comp{"", SBool, false, nil}, 2)
		x.store(s, name+"#has", []*Term{m, k[0]}, c.True())
		x.storeAt(s, name, []*Term{m, k[0]}, mt.Elem(), v)
	case *ssa.Lookup:
		if isString(i.X.Type()) {
			v, k := x.val(s, i.X)[0], x.val(s, i.Index)[0]
			x.panicOb(s, "index out of range", "string", c.And(c.Le(c.Lit(0), k), c.Lt(k, x.slen(v))))
			set(i, Val{x.sbyte(v, k)})
			break
		}
		m, k := x.val(s, i.X)[0], x.val(s, i.Index)
		mt := i.X.Type().Underlying().(*types.Map)
		name := mapName(mt)
		x.meta(name+"#has", Comp{"", SBool, false, nil}, 2)
		has := c.And(c.Ne(m, c.Lit(0)), x.read(x.node(s.heap, name+"#has"), []*Term{m, k[0]}))
		v := x.loadAt(s.live(), name, []*Term{m, k[0]}, mt.Elem())
		z := x.zero(mt.Elem())
		out := make(Val, len(v))
		for j := range v {
			out[j] = c.Ite(has, v[j], z[j])
		}
		if i.CommaOk {
			out = append(out, has)
		}
		set(i, out)
	case *ssa.Extract:
		v := x.val(s, i.Tuple)
		tt := i.Tuple.Type().(*types.Tuple)
		a := 0
		for k := 0; k < i.Index; k++ {
			a += len(x.w.flatten(tt.At(k).Type()))
		}
		set(i, v[a:a+len(x.w.flatten(tt.At(i.Index).Type()))])
	case *ssa.Range:
		if !isString(i.X.Type()) {
			x.fail("range over %s", i.X.Type())
		}
		p := x.alloc(s)
		x.storeAt(s, "cell:int", []*Term{p}, types.Typ[types.Int], Val{c.Lit(0)})
		x.c.boxes[p.id] = x.val(s, i.X)
		set(i, Val{p})
	case *ssa.Next:
		it := x.val(s, i.Iter)[0]
		str := x.c.boxes[it.id]
		if str == nil {
			x.fail("next on unknown iterator")
		}
		k := x.loadAt(s.live(), "cell:int", []*Term{it}, types.Typ[types.Int])[0]
		x.recordCmp(s, k, x.rlen(str[0]))
		ok := c.Lt(k, x.rlen(str[0]))
		x.storeAt(s, "cell:int", []*Term{it}, types.Typ[types.Int], Val{c.Ite(ok, c.AddK(k, 1), k)})
		off := c.App("runeoff", SInt, str[0], k)
		set(i, Val{ok, off, x.rat(str[0], k)})
	case *ssa.Call:
		x.call(s, f, i, i.Common())
		return
	case *ssa.Go:
		x.goStmt(s, f, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if i.Call.IsInvoke() {
			d.fn = x.val(s, i.Call.Value)
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(s, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(s, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.idx-- // callee return advances idx by one and we come back here
			x.doCall(s, f, nil, d.call, d.fn, d.args)
			return
		}
	case *ssa.Send:
		x.chanSend(s, x.val(s, i.Chan)[0], i.X.Type(), x.val(s, i.X))
	case *ssa.Select:
		x.selectStmt(s, f, i)
		return
	case *ssa.Jump:
		x.jump(s, f, f.block.Succs[0])
		return
	case *ssa.If:
		cond := x.val(s, i.Cond)[0]
		x.recordCond(s, cond)
		b := f.block
		if x.contr != nil && x.contr.merge && x.guard == nil {
			if j := joinOf(b); j != nil && x.sol.sat(x, s.pc, cond) && x.sol.sat(x, s.pc, c.Not(cond)) {
				x.guarded(s, f, b.Succs[0], j, cond)
				x.guarded(s, f, b.Succs[1], j, c.Not(cond))
				f.block = b
				x.jump(s, f, j)
				return
			}
		}
		t, fs := x.split(s, cond)
		if t != nil {
			tf := t.frames[len(t.frames)-1]
			x.jump(t, tf, b.Succs[0])
		}
		if fs != nil {
			ff := fs.frames[len(fs.frames)-1]
			x.jump(fs, ff, b.Succs[1])
		}
		return
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.val(s, r))
		}
		x.doReturn(s, f, res)
		return
	case *ssa.Panic:
		x.oblige(s, "no-panic", "explicit panic", nil, c.False())
		s.dead = true
		return
	default:
		x.fail("instruction %T: %s", in, in)
	}
	f.idx++
}

// hammock: a part without calls or loops that can only go on to j
func hammock(b, j *ssa.BasicBlock, depth int) bool {
	if b == j {
		return true
	}
	if len(b.Preds) != 1 || depth > 6 {
		return false
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.DebugRef, *ssa.Alloc, *ssa.Store, *ssa.FieldAddr, *ssa.UnOp, *ssa.BinOp, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.MakeClosure, *ssa.If, *ssa.Jump:
		default:
			return false
		}
	}
	for _, t := range b.Succs {
		if !hammock(t, j, depth+1) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// joinOf: where the two branches of an if that are hammocks meet
func joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	t, f := b.Succs[0], b.Succs[1]
	ends := map[*ssa.BasicBlock]bool{t: true, f: true}
	for _, x := range []*ssa.BasicBlock{t, f} {
		for _, y := range x.Succs {
			ends[y] = true
		}
	}
	for j := range ends {
		if len(j.Instrs) > 0 {
			if _, ok := j.Instrs[0].(*ssa.Phi); ok {
				continue
			}
		}
		if hammock(t, j, 0) && hammock(f, j, 0) && j != b {
			return j
		}
	}
	return nil
}

// guarded executes a hammock whose stores take effect only if g holds
func (x *Exec) guarded(s *State, f *Frame, b, j *ssa.BasicBlock, g *Term) {
	if b == j {
		return
	}
	for k, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Jump:
			return
		case *ssa.If:
			cond := x.val(s, i.Cond)[0]
			x.guarded(s, f, b.Succs[0], j, x.c.And(g, cond))
			x.guarded(s, f, b.Succs[1], j, x.c.And(g, x.c.Not(cond)))
			return
		}
		f.block, f.idx = b, k
		x.guard = g
		x.step(s)
		x.guard = nil
	}
}

func mapName(mt *types.Map) string {
	return "map:" + typeName(mt)
}

func (x *Exec) doReturn(s *State, f *Frame, res []Val) {
	for _, a := range f.acts {
		if a.run.collect {
			s.dead = true
			return
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.onRet != nil {
		f.onRet(x, s, res)
		return
	}
	if len(s.frames) == 0 {
		x.atReturn(s, res)
		return
	}
	p := s.frames[len(s.frames)-1]
	x.setResult(p, f.call, res)
	p.idx++
}

func (x *Exec) setResult(p *Frame, call ssa.Value, res []Val) {
	if call == nil {
		return
	}
	var v Val
	for _, r := range res {
		v = append(v, r...)
	}
	p.env[call] = v
}

func (x *Exec) jump(s *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	// leave loops
	for len(f.acts) > 0 {
		a := f.acts[len(f.acts)-1]
		if a.loop.body[to] {
			break
		}
		if a.run.collect {
			s.dead = true
			return
		}
		f.acts = f.acts[:len(f.acts)-1]
	}
	// phis
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(s, ph.Edges[pi]))
		phis = append(phis, ph)
	}
	for k, ph := range phis {
		f.env[ph] = vals[k]
	}
	f.prev = from
	f.block = to
	f.idx = len(phis)
	if l := x.w.loopAt(to); l != nil {
		if len(f.acts) > 0 && f.acts[len(f.acts)-1].loop == l {
			x.backEdge(s, f, f.acts[len(f.acts)-1].run)
			return
		}
		x.enterLoop(s, f, l)
	}
}

// ---------------------------------------------------------------- operators

func (x *Exec) wrap(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	lo, hi, ok := intRange(t)
	c := x.c
	if !ok || b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt || b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
		return v // mathematical
	}
	if v.op == OLit {
		span := hi - lo + 1
		k := (v.k - lo) % span
		if k < 0 {
			k += span
		}
		return c.Lit(k + lo)
	}
	span := hi - lo + 1
	return c.Ite(c.Lt(c.Lit(hi), v), c.AddK(v, -span), c.Ite(c.Lt(v, c.Lit(lo)), c.AddK(v, span), v))
}

// convInt: conversion to a narrower integer type, exact modulo arithmetic
func (x *Exec) convInt(from, to types.Type, v *Term) *Term {
	c := x.c
	lo, hi, ok := intRange(to)
	if !ok {
		return v
	}
	flo, fhi, fok := intRange(from)
	if fok && flo >= lo && fhi <= hi {
		return v
	}
	b := to.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return v
	}
	if v.op == OLit {
		return x.wrap(to, v)
	}
	in := c.And(c.Le(c.Lit(lo), v), c.Le(v, c.Lit(hi)))
	t := c.App("conv:"+b.Name(), SInt, v)
	c.Fact(t, c.Imp(in, c.Eq(t, v)))
	q := c.App("convq:"+b.Name(), SInt, v)
	c.Fact(t, c.Eq(v, c.Add(t, c.MulK(q, hi-lo+1))))
	c.Fact(t, c.And(c.Le(c.Lit(lo), t), c.Le(t, c.Lit(hi))))
	return t
}

func (x *Exec) eqVals(s *State, t types.Type, a, b Val) *Term {
	c := x.c
	if isString(t) {
		return x.strEq(s, a[0], b[0])
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return c.Eq(a[0], b[0]) // only comparison with nil is legal Go
	case *types.Interface:
		if b[0].op == OLit && b[0].k == 0 {
			return c.Eq(a[0], b[0])
		}
		if a[0].op == OLit && a[0].k == 0 {
			return c.Eq(a[0], b[0])
		}
	}
	var es []*Term
	for i := range a {
		es = append(es, c.Eq(a[i], b[i]))
	}
	return c.And(es...)
}

func (x *Exec) strEq(s *State, a, b *Term) *Term {
	c := x.c
	if a == b {
		return c.True()
	}
	if _, ok := c.strOf[a.id]; ok {
		a, b = b, a
	}
	e := c.Eq(a, b)
	if rs, ok := c.strOf[b.id]; ok && len(rs) <= 16 && e.op != OTrue && e.op != OFalse && !a.bound {
		eqs := []*Term{c.Eq(x.rlen(a), c.Lit(int64(len(rs))))}
		plain := true
		for i, r := range rs {
			eqs = append(eqs, c.Eq(x.rat(a, c.Lit(int64(i))), c.Lit(int64(r))))
			// bytes that are not UTF-8 read as U+FFFD; apart from it the runes determine the bytes
			plain = plain && r != 0xFFFD
		}
		if _, ok := x.strSeq[a.id]; ok || plain {
			c.Fact(e, c.Iff(e, c.And(eqs...)))
		} else {
			c.Fact(e, c.Imp(e, c.And(eqs...)))
		}
		if _, ok := x.strSeq[a.id]; !ok {
			c.Fact(e, c.Imp(e, c.Eq(x.slen(a), c.Lit(int64(len(string(rs)))))))
		}
	}
	return e
}

func (x *Exec) binop(s *State, i *ssa.BinOp) Val {
	c := x.c
	a, b := x.val(s, i.X), x.val(s, i.Y)
	t := i.X.Type()
	switch i.Op {
	case token.EQL:
		return Val{x.eqVals(s, t, a, b)}
	case token.NEQ:
		return Val{c.Not(x.eqVals(s, t, a, b))}
	}
	if isString(t) {
		if i.Op == token.ADD {
			return Val{x.concat(s, a[0], b[0])}
		}
		return Val{c.Fresh("strcmp", SBool)}
	}
	u, v := a[0], b[0]
	switch i.Op {
	case token.LSS:
		x.recordCmp(s, u, v)
		return Val{c.Lt(u, v)}
	case token.LEQ:
		x.recordCmp(s, u, v)
		return Val{c.Le(u, v)}
	case token.GTR:
		x.recordCmp(s, v, u)
		return Val{c.Gt(u, v)}
	case token.GEQ:
		x.recordCmp(s, v, u)
		return Val{c.Ge(u, v)}
	case token.ADD:
		return Val{x.wrap(t, c.Add(u, v))}
	case token.SUB:
		return Val{x.wrap(t, c.Sub(u, v))}
	case token.MUL:
		r := c.Mul(u, v)
		if lo, hi, ok := intRange(t); ok && hi <= 4294967295 && r.op != OLit {
			_ = lo
			return Val{x.convInt(types.Typ[types.Int], t, r)}
		}
		return Val{x.wrap(t, r)}
	case token.QUO, token.REM:
		if bb, ok := t.Underlying().(*types.Basic); ok && bb.Info()&types.IsInteger != 0 {
			x.panicOb(s, "division by zero", "", c.Ne(v, c.Lit(0)))
		}
		if i.Op == token.QUO {
			return Val{c.Div(u, v)}
		}
		return Val{c.Mod(u, v)}
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		return Val{x.bitop(i.Op, t, u, v)}
	}
	x.fail("binop %s", i.Op)
	return nil
}

func (x *Exec) bitop(op token.Token, t types.Type, u, v *Term) *Term {
	c := x.c
	if u.op == OLit && v.op == OLit {
		var r int64
		switch op {
		case token.AND:
			r = u.k & v.k
		case token.OR:
			r = u.k | v.k
		case token.XOR:
			r = u.k ^ v.k
		case token.AND_NOT:
			r = u.k &^ v.k
		case token.SHL:
			r = u.k << uint(v.k)
		case token.SHR:
			r = u.k >> uint(v.k)
		}
		return x.wrap(t, c.Lit(r))
	}
	name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op]
	if op == token.SHL && v.op == OLit && v.k >= 0 && v.k < 32 {
		return x.convInt(types.Typ[types.Int], t, c.MulK(u, 1<<uint(v.k)))
	}
	if op == token.OR || op == token.AND || op == token.AND_NOT {
		// normal form: apply constant masks as (u & keep) | set
		if v.op == OLit || (u.op == OLit && op != token.AND_NOT) {
			if v.op != OLit {
				u, v = v, u
			}
			keep, set := int64(-1), int64(0)
			base := u
			if u.op == OApp && u.name == "bits" {
				base, keep, set = u.args[0], u.args[1].k, u.args[2].k
			}
			switch op {
			case token.OR:
				set |= v.k
			case token.AND:
				keep &= v.k
				set &= v.k
			case token.AND_NOT:
				keep &^= v.k
				set &^= v.k
			}
			keep &^= set
			if lo, hi, ok := intRange(t); ok && lo == 0 && !wide(t) {
				keep &= hi
				set &= hi
				if keep == hi && set == 0 {
					return base
				}
			}
			if keep == 0 {
				return c.Lit(set)
			}
			r := c.App("bits", SInt, base, c.Lit(keep), c.Lit(set))
			if lo, hi, ok := intRange(t); ok && !wide(t) {
				c.Fact(r, c.And(c.Le(c.Lit(lo), r), c.Le(r, c.Lit(hi))))
			}
			if keep >= 0 && set >= 0 {
				c.Fact(r, c.Le(c.Lit(set), r))
			}
			return r
		}
	}
	if op == token.SHR && v.op == OLit && v.k >= 0 && v.k < 32 {
		// x >> k is the floor of x / 2^k, for signed and unsigned x alike
		p := int64(1) << uint(v.k)
		if p == 1 {
			return u
		}
		r := c.App("fdiv", SInt, u, c.Lit(p))
		c.Fact(r, c.And(c.Le(c.MulK(r, p), u), c.Lt(u, c.AddK(c.MulK(r, p), p))))
		return r
	}
	if (op == token.OR || op == token.AND || op == token.XOR) && (u.op == OLit || v.op != OLit && u.id > v.id) {
		u, v = v, u
	}
	r := c.App("bit:"+name, SInt, u, v)
	if op == token.OR || op == token.AND || op == token.XOR {
		c.Fact(r, c.Eq(r, c.App("bit:"+name, SInt, v, u)))
	}
	if lo, hi, ok := intRange(t); ok && !wide(t) {
		c.Fact(r, c.And(c.Le(c.Lit(lo), r), c.Le(r, c.Lit(hi))))
	}
	return r
}

func (x *Exec) unop(s *State, f *Frame, i *ssa.UnOp) bool {
	c := x.c
	v := x.val(s, i.X)
	switch i.Op {
	case token.MUL:
		x.nilCheck(s, v[0], "load")
		f.env[i] = x.load(s, v[0], i.Type())
	case token.SUB:
		f.env[i] = Val{x.wrap(i.Type(), c.MulK(v[0], -1))}
	case token.NOT:
		f.env[i] = Val{c.Not(v[0])}
	case token.XOR:
		if v[0].op == OLit {
			_, hi, ok := intRange(i.Type())
			b := i.Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsUnsigned != 0 {
				if b.Kind() == types.Uint64 || b.Kind() == types.Uintptr || b.Kind() == types.Uint {
					f.env[i] = Val{c.Var("bigconst:max", SInt)}
				} else {
					f.env[i] = Val{c.Lit(hi &^ v[0].k)}
				}
			} else {
				f.env[i] = Val{c.Lit(^v[0].k)}
			}
		} else {
			f.env[i] = Val{c.App("bit:not", SInt, v[0])}
		}
	case token.ARROW:
		et := i.X.Type().Underlying().(*types.Chan).Elem()
		r := x.chanRecv(s, v[0], et)
		if i.CommaOk {
			r = append(r, c.Fresh("ok", SBool))
		}
		f.env[i] = r
	default:
		x.fail("unop %s", i.Op)
	}
	return true
}

func (x *Exec) indexAddr(s *State, i *ssa.IndexAddr) *Term {
	c := x.c
	k := x.val(s, i.Index)[0]
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		v := x.val(s, i.X)
		x.panicOb(s, "index out of range", "", c.And(c.Le(c.Lit(0), k), c.Lt(k, v[2])))
		return x.addr(elemName(u.Elem()), []*Term{v[0], c.Add(v[1], k)}, u.Elem())
	case *types.Pointer:
		a, _ := isArr(u.Elem())
		p := x.val(s, i.X)[0]
		x.nilCheck(s, p, "array index")
		x.panicOb(s, "index out of range", "", c.And(c.Le(c.Lit(0), k), c.Lt(k, c.Lit(a.Len()))))
		if l, ok := c.locs[p.id]; ok {
			if k.op != OLit {
				x.fail("symbolic index into embedded array")
			}
			return x.addr(fmt.Sprintf("%s#%d", l.name, k.k), l.args, a.Elem())
		}
		return x.addr(elemName(a.Elem()), []*Term{p, k}, a.Elem())
	}
	x.fail("indexaddr %s", i.X.Type())
	return nil
}

func (x *Exec) slice(s *State, i *ssa.Slice) Val {
	c := x.c
	v := x.val(s, i.X)
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.val(s, i.Low)[0]
	} else {
		lo = c.Lit(0)
	}
	if i.High != nil {
		hi = x.val(s, i.High)[0]
	}
	if i.Max != nil {
		mx = x.val(s, i.Max)[0]
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		if hi == nil {
			hi = v[2]
		}
		lim := v[3]
		if mx != nil {
			x.panicOb(s, "slice bounds", "", c.And(c.Le(hi, mx), c.Le(mx, v[3])))
			lim = mx
		}
		x.panicOb(s, "slice bounds", "", c.And(c.Le(c.Lit(0), lo), c.Le(lo, hi), c.Le(hi, v[3])))
		return Val{v[0], c.Add(v[1], lo), c.Sub(hi, lo), c.Sub(lim, lo)}
	case *types.Pointer:
		a, _ := isArr(u.Elem())
		n := c.Lit(a.Len())
		x.nilCheck(s, v[0], "slice of array pointer")
		if _, ok := c.locs[v[0].id]; ok {
			x.fail("slice of embedded array")
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.panicOb(s, "slice bounds", "", c.And(c.Le(c.Lit(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		return Val{v[0], lo, c.Sub(hi, lo), c.Sub(mx, lo)}
	case *types.Basic: // string
		n := x.slen(v[0])
		if hi == nil {
			hi = n
		}
		x.panicOb(s, "slice bounds", "string", c.And(c.Le(c.Lit(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		if lo.op == OLit && lo.k == 0 && hi == n {
			return v
		}
		t := c.App("substr", SInt, v[0], lo, hi)
		c.Fact(t, c.Eq(x.slen(t), c.Sub(hi, lo)))
		x.strFacts(t)
		return Val{t}
	}
	x.fail("slice of %s", i.X.Type())
	return nil
}

func (x *Exec) sbyte(str, k *Term) *Term {
	c := x.c
	if rs, ok := c.strOf[str.id]; ok {
		b := []byte(string(rs))
		if k.op == OLit && k.k >= 0 && int(k.k) < len(b) {
			return c.Lit(int64(b[k.k]))
		}
	}
	if str.op == OApp && str.name == "concat" {
		n := x.slen(str.args[0])
		return c.Ite(c.Lt(k, n), x.sbyte(str.args[0], k), x.sbyte(str.args[1], c.Sub(k, n)))
	}
	if str.op == OApp && str.name == "itoa" {
		return x.rat(str, k)
	}
	if rs, ok := c.strOf[str.id]; ok && len(string(rs)) <= 16 {
		b := []byte(string(rs))
		t := c.Lit(0)
		for i := len(b) - 1; i >= 0; i-- {
			t = c.Ite(c.Eq(k, c.Lit(int64(i))), c.Lit(int64(b[i])), t)
		}
		return t
	}
	t := c.App("sbyte", SInt, str, k)
	c.Fact(t, c.And(c.Le(c.Lit(0), t), c.Le(t, c.Lit(255))))
	return t
}

func (x *Exec) concat(s *State, a, b *Term) *Term {
	c := x.c
	ra, ok1 := c.strOf[a.id]
	rb, ok2 := c.strOf[b.id]
	if ok1 && ok2 {
		return x.strConst(string(ra) + string(rb))
	}
	if ok1 && len(ra) == 0 {
		return b
	}
	if ok2 && len(rb) == 0 {
		return a
	}
	na := x.rlen(a)
	t := c.App("concat", SInt, a, b)
	if _, ok := x.strSeq[t.id]; !ok {
		x.strSeq[t.id] = func(i *Term) *Term {
			return c.Ite(c.Lt(i, na), x.rat(a, i), x.rat(b, c.Sub(i, na)))
		}
	}
	x.assume(s, c.Eq(x.rlen(t), c.Add(na, x.rlen(b))))
	x.assume(s, c.Eq(x.slen(t), c.Add(x.slen(a), x.slen(b))))
	x.strFacts(t)
	return t
}

// ---------------------------------------------------------------- interfaces and conversions

func (x *Exec) tagOf(t types.Type) *Term {
	n := "tag:" + types.TypeString(t, nil)
	k, _ := x.w.tagID(n)
	x.w.mu.Lock()
	x.w.tagTypes[int64(k)] = t
	x.w.mu.Unlock()
	return x.c.Lit(int64(k))
}

var tagIDs = map[string]int{}

func (w *World) tagID(n string) (int, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if k, ok := tagIDs[n]; ok {
		return k, true
	}
	tagIDs[n] = len(tagIDs) + 1
	return tagIDs[n], false
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) makeIface(s *State, t types.Type, v Val) Val {
	if isPtrLike(t) {
		return Val{x.tagOf(t), v[0]}
	}
	if len(v) == 1 && v[0].sort == SInt {
		b := x.c.App("box:"+typeName(t), SInt, v[0])
		x.c.boxes[b.id] = v
		return Val{x.tagOf(t), b}
	}
	p := x.alloc(s)
	x.c.boxes[p.id] = v
	return Val{x.tagOf(t), p}
}

func (x *Exec) unbox(s *State, t types.Type, data *Term) Val {
	if isPtrLike(t) {
		return Val{data}
	}
	if v, ok := x.c.boxes[data.id]; ok {
		return v
	}
	comps := x.w.flatten(t)
	out := make(Val, len(comps))
	for i, cp := range comps {
		out[i] = x.c.App("unbox:"+typeName(t)+cp.suf, cp.s, data)
	}
	x.typeFacts(out, t, s.live())
	return out
}

// implementers of an interface type among the package's types (exact) plus unknown others
func (x *Exec) implTerm(s *State, v Val, it *types.Interface) *Term {
	c := x.c
	if it.NumMethods() == 0 {
		return c.Ne(v[0], c.Lit(0))
	}
	if v[0].op == OLit {
		x.w.mu.Lock()
		var name string
		for n, k := range tagIDs {
			if int64(k) == v[0].k {
				name = n
			}
		}
		x.w.mu.Unlock()
		if v[0].k == 0 {
			return c.False()
		}
		for tn, t := range x.w.types {
			_ = tn
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				if "tag:"+types.TypeString(tt, nil) == name {
					return c.Bool(types.Implements(tt, it))
				}
			}
		}
	}
	t := c.App("implements:"+typeName(it), SBool, v[0])
	c.Fact(t, c.Imp(t, c.Ne(v[0], c.Lit(0))))
	// known package types
	for _, pt := range x.w.types {
		if _, isI := pt.Underlying().(*types.Interface); isI {
			continue
		}
		for _, tt := range []types.Type{pt, types.NewPointer(pt)} {
			if types.Implements(tt, it) {
				c.Fact(t, c.Imp(c.Eq(v[0], x.tagOf(tt)), t))
			}
		}
	}
	return t
}

func (x *Exec) typeAssert(s *State, f *Frame, i *ssa.TypeAssert) bool {
	c := x.c
	v := x.val(s, i.X)
	var ok *Term
	var r Val
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.implTerm(s, v, it)
		r = v
	} else {
		ok = c.Eq(v[0], x.tagOf(i.AssertedType))
		r = x.unbox(s, i.AssertedType, v[1])
	}
	if !i.CommaOk {
		x.panicOb(s, "type assertion", typeName(i.AssertedType), ok)
		f.env[i] = r
		return true
	}
	t, fs := x.split(s, ok)
	if t != nil {
		tf := t.frames[len(t.frames)-1]
		tf.env[i] = append(append(Val{}, r...), c.True())
		tf.idx++
	}
	if fs != nil {
		ff := fs.frames[len(fs.frames)-1]
		ff.env[i] = append(x.zero(i.AssertedType), c.False())
		ff.idx++
	}
	return false
}

func (x *Exec) convert(s *State, from, to types.Type, v Val) Val {
	c := x.c
	fs, ts := from.Underlying(), to.Underlying()
	if isString(to) {
		if sl, ok := fs.(*types.Slice); ok {
			if isRune(sl.Elem()) {
				h := s.snap()
				at := func(i *Term) *Term {
					return x.vr(x.elemAt(h, sl.Elem(), v, i)[0])
				}
				if v[2].op == OLit && v[2].k == 0 {
					return Val{x.strConst("")}
				}
				return Val{x.newString(s, v[2], at)}
			}
			// []byte -> string
			n, at := x.byteContent(s.snap(), v)
			return Val{x.newString(s, n, at)}
		}
		if b, ok := fs.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			r := v[0]
			if r.op == OLit {
				return Val{x.strConst(string(rune(r.k)))}
			}
			return Val{x.newString(s, c.Lit(1), func(i *Term) *Term { return x.vr(r) })}
		}
		return v
	}
	if isString(from) {
		sl := ts.(*types.Slice)
		if isRune(sl.Elem()) {
			arr := x.alloc(s)
			x.setElems(s, arr, sl.Elem(), func(i *Term) Val { return Val{x.rat(v[0], i)} })
			x.runeRange(s, v[0])
			n := x.rlen(v[0])
			cp := x.freshCap(n)
			return Val{arr, c.Lit(0), n, cp}
		}
		arr := x.alloc(s)
		str := v[0]
		if rs, ok := c.strOf[str.id]; ok && len(string(rs)) <= 16 {
			bs := []byte(string(rs))
			x.setElems(s, arr, sl.Elem(), func(i *Term) Val {
				t := c.Lit(0)
				for k := len(bs) - 1; k >= 0; k-- {
					t = c.Ite(c.Eq(i, c.Lit(int64(k))), c.Lit(int64(bs[k])), t)
				}
				return Val{t}
			})
		} else {
			x.setElems(s, arr, sl.Elem(), func(i *Term) Val { return Val{c.App("sbyte", SInt, str, i)} })
		}
		x.bytesOf[arr.id] = &bseq{arr, x.rlen(str), func(i *Term) *Term { return x.rat(str, i) }, nil}
		n := x.slen(str)
		return Val{arr, c.Lit(0), n, x.freshCap(n)}
	}
	fb, ok1 := fs.(*types.Basic)
	tb, ok2 := ts.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return Val{x.convInt(from, to, v[0])}
		}
		if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer || fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0 {
			return Val{c.App("conv:"+tb.Name(), SInt, v[0])}
		}
	}
	if len(x.w.flatten(from)) == len(x.w.flatten(to)) {
		return v
	}
	x.fail("convert %s to %s", from, to)
	return nil
}

func (x *Exec) runeRange(s *State, str *Term) {
	c := x.c
	if _, ok := c.strOf[str.id]; ok {
		return
	}
	k := c.Bound("k")
	r := c.App("rat", SInt, str, k)
	x.assume(s, c.Forall([]*Term{k}, c.And(c.Le(c.Lit(0), r), c.Le(r, c.Lit(0x10FFFF)), c.Or(c.Lt(r, c.Lit(0xD800)), c.Le(c.Lit(0xE000), r)))))
}

func (x *Exec) freshCap(n *Term) *Term {
	cp := x.c.Fresh("cap", SInt)
	x.c.Fact(cp, x.c.Le(n, cp))
	return cp
}

func (x *Exec) elemAt(h *Heap, et types.Type, sl Val, i *Term) Val {
	return x.loadAt(h, elemName(et), []*Term{sl[0], x.c.Add(sl[1], i)}, et)
}

// byteContent: rune-level content of a byte slice (exact for conversions of strings; raw bytes otherwise)
func (x *Exec) byteContent(h *Heap, v Val) (*Term, func(*Term) *Term) {
	if b, ok := x.bytesOf[v[0].id]; ok && (b.off == v[1] || b.off == nil && v[1].op == OLit && v[1].k == 0) {
		return b.n, b.at
	}
	return v[2], func(i *Term) *Term { return x.elemAt(h, types.Typ[types.Uint8], v, i)[0] }
}
