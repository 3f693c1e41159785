package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func NewExec(w *World) *Exec {
	x := &Exec{w: w, c: NewCtx(), metas: map[string]*mapMeta{}, base0: map[string]*HNode{}, symArgs: map[string][]*Term{}, symUB: map[string]ubound{}, symRef: map[string]int{},
		strSeq: map[int]func(*Term) *Term{}, bytesOf: map[int]*bseq{}, sol: NewSolver(), surv: map[string]map[string]bool{}, survStats: map[string]int{},
		globals: map[*ssa.Global]Val{}, foldAx: map[string][]*Term{}, foldPat: map[string]bool{}, folds: map[string]foldInfo{}, bridges: map[string]*Term{}, cnts: map[string]*cntInfo{}, lmemo: map[string]*loopMemo{}, used: map[string]bool{}, inlined: map[string]bool{},
		pvars: map[string]SV{}, lets: map[string]SV{}}
	x.strConst("")
	return x
}

func newState() *State {
	return &State{heap: map[string]*HNode{}, pcset: map[int]bool{}}
}

// initGlobals evaluates package initialisation to obtain the values of constant globals
func (x *Exec) initGlobals(s *State) {
	in := x.w.pkg.Func("init")
	if in == nil || len(x.w.constG) == 0 {
		return
	}
	x.initMode = true
	defer func() { x.initMode = false }()
	x.noPrune = true
	x.dry++
	f := &Frame{fn: in, env: map[ssa.Value]Val{}, block: in.Blocks[0]}
	var vals map[*ssa.Global]Val
	f.onRet = func(x *Exec, st *State, res []Val) {
		if vals != nil {
			return
		}
		vals = map[*ssa.Global]Val{}
		for g := range x.w.constG {
			t := g.Type().(*types.Pointer).Elem()
			vals[g] = x.loadAt(st.live(), "G:"+globName(g), nil, t)
		}
		// keep the heap of initialised objects
		*s = *st
		s.dead = false
	}
	st := s.clone()
	st.frames = append(st.frames, f)
	// every package variable starts at zero
	for _, m := range x.w.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			if strings.HasPrefix(g.Name(), "init$") {
				x.storeAt(st, "G:"+globName(g), nil, t, Val{x.c.False()})
			} else if a, isA := isArr(t); !isA || a.Len() <= 64 {
				x.storeAt(st, "G:"+globName(g), nil, t, x.zero(t))
			}
		}
	}
	x.explore([]*State{st})
	x.dry--
	x.noPrune = false
	if vals == nil {
		x.note("package initialisation could not be evaluated; constant globals are arbitrary")
		return
	}
	for g, v := range vals {
		x.globals[g] = v
	}
}

type FnResult struct {
	name      string
	contr     *Contract
	obs       []*Oblig
	trivial   int
	paths     int
	rets      int
	err       string
	notes     []string
	loops     []string
	invs      int
	used      []string
	inlined   []string
	models    []string
	symMs     int64
	solvQ     int
	jobs      []obJob
	missing   bool
	requireOK bool
	level     int
}

type obJob struct {
	ob   *Oblig
	qs   []string
	alts [][]string
}

func (x *Exec) verify(ct *Contract, fn *ssa.Function) (r *FnResult) {
	r = &FnResult{name: ct.fn, contr: ct}
	x.root = fn
	x.name = ct.fn
	x.contr = ct
	defer func() {
		r.obs = x.obs
		r.trivial = x.trivial
		r.paths = x.paths + 1
		r.rets = x.rets
		r.notes = x.warn
		r.loops = x.loopNotes
		r.invs = x.invProved
		for k := range x.used {
			r.used = append(r.used, k)
		}
		for k := range x.inlined {
			r.inlined = append(r.inlined, k)
		}
		for k := range x.modelsUsed {
			r.models = append(r.models, k)
		}
		sort.Strings(r.models)
		sort.Strings(r.used)
		sort.Strings(r.inlined)
		r.solvQ = x.sol.queries
		x.sol.close()
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				r.err = "outside the supported subset: " + e.msg
			case specErr:
				r.err = "contract error: " + string(e)
			default:
				panic(e)
			}
		}
	}()
	s := newState()
	x.baseTag = "!i"
	x.initGlobals(s)
	x.baseTag = "!0"
	x.base0 = map[string]*HNode{}
	c := x.c
	// forget what initialisation left in mutable places: only constant globals and the objects they reach stay known
	s2 := newState()
	x.naidx++
	s2.aIdx = x.naidx
	x.baseA = x.naidx
	for len(x.aStamp) <= x.naidx {
		x.aStamp = append(x.aStamp, c.fresh)
	}
	c.Fact(x.front(s2.aIdx), c.Le(x.frontier(s), x.front(s2.aIdx)))
	if len(x.globals) > 0 {
		x.initHeap = s.snap()
	}
	s = s2
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
	s.frames = []*Frame{f}
	if len(ct.params) != len(fn.Params) {
		panic(specErr(fmt.Sprintf("%s: %d parameters named, function has %d", ct.fn, len(ct.params), len(fn.Params))))
	}
	for i, p := range fn.Params {
		v := x.freshVal("p."+ct.params[i], p.Type(), s)
		f.env[p] = v
		x.params = append(x.params, v)
		x.pvars[ct.params[i]] = SV{t: p.Type(), v: v}
	}
	for _, fv := range fn.FreeVars {
		v := x.freshVal("fv."+fv.Name(), fv.Type(), s)
		f.env[fv] = v
		x.assume(s, c.Ne(v[0], c.Lit(0)))
		x.pvars[fv.Name()] = SV{t: fv.Type(), v: v, fv: isPtrLike(fv.Type())}
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			x.assume(s, c.Ne(f.env[fn.Params[0]][0], c.Lit(0)))
		}
	}
	x.old = s.snap()
	x.oldA = x.frontier(s)
	env := &Env{x: x, vars: x.pvars, cur: x.old, old: x.old, st: s}
	for _, l := range ct.lets {
		v := env.eval(l.e)
		x.lets[l.name] = v
		env = env.with(map[string]SV{l.name: v})
	}
	for _, q := range ct.requires {
		env.cur = s.live()
		x.assume(s, env.boolean(q.e))
	}
	for _, q := range ct.defines {
		env.cur = s.live()
		env.defs = true
		x.assume(s, env.boolean(q.e))
		env.defs = false
	}
	if s.dead || x.proves(s.pc, c.False(), 2000) {
		r.err = "precondition is contradictory"
		return
	}
	r.requireOK = true
	if len(fn.Blocks[0].Preds) == 0 {
		x.work = []*State{s}
		x.runAll()
	} else {
		x.fail("entry block is a loop header")
	}
	if ct.cut != "" && (x.cuts[0] == 0 || x.cuts[1] == 0) {
		r.err = "the end of a segment is not reached"
	}
	if x.rets == 0 && !ct.noterm {
		r.err = "no return is reachable"
	}
	return
}

func (x *Exec) atReturn(s *State, res []Val) {
	if s.dead {
		return
	}
	if x.initMode {
		return
	}
	x.rets++
	if x.dry > 0 {
		return
	}
	ct := x.contr
	c := x.c
	if smoke {
		x.obs = append(x.obs, &Oblig{fn: x.name, kind: "smoke", desc: "this return is unreachable under the assumptions", hyps: append([]*Term(nil), s.pc...), goal: c.False(), where: x.where(s), trace: append([]string(nil), s.trace...)})
		return
	}
	env := x.rootEnv(s)
	for i, n := range ct.results {
		env.vars[n] = SV{t: x.root.Signature.Results().At(i).Type(), v: res[i]}
	}
	for _, h := range ct.hints {
		env.cur = s.live()
		x.oblige(s, "hint", h.name, h.tags, env.boolean(h.e))
	}
	for _, e := range append(append([]Clause(nil), ct.ensures...), ct.shows...) {
		env.cur = s.live()
		g := env.boolean(e.e)
		x.oblige(s, "postcondition", e.name, e.tags, g)
	}
	if ct.cut != "" && !ct.hasMod {
		return
	}
	// frame
	penv := x.rootEnv(s)
	penv.cur = x.old
	targets := x.evalMods(penv, ct.modifies)
	by := map[string][]modTarget{}
	for _, t := range targets {
		by[t.name] = append(by[t.name], t)
	}
	for _, n := range sortedKeys(s.heap) {
		nd := s.heap[n]
		od := x.node(x.old.m, n)
		if nd == od {
			continue
		}
		if strings.HasPrefix(n, "recv!") { // log of received values is ghost state nobody else relies on
			if _, ok := by[n]; !ok && !ct.hasMod {
				continue
			}
		}
		m := x.metas[n]
		var bs []*Term
		for i := 0; i < m.arity; i++ {
			bs = append(bs, c.Bound(fmt.Sprintf("f%d", i)))
		}
		g := c.Eq(x.read(nd, bs), x.read(od, bs))
		if m.sort == SBool {
			g = c.Iff(x.read(nd, bs), x.read(od, bs))
		}
		for _, t := range by[n] {
			g = c.Or(g, t.guard(bs))
		}
		if m.arity > 0 && x.refMap(n) {
			g = c.Or(c.Lt(x.oldA, bs[0]), g)
		}
		x.oblige(s, "frame", "only the declared locations of "+n+" change", ct.frame, c.Forall(bs, g))
	}
}

// smoke: replace every proof at a return by an attempt to prove False there (a development aid: what succeeds is vacuous)
var smoke = os.Getenv("GOVER_SMOKE") != ""
