package main

// Loops: write sets, inferred and user supplied invariants (Houdini), termination measures.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type wset struct {
	all   bool
	fresh bool // everything allocated since the loop was entered
	base  bool // everything allocated since the function under verification was entered
	tg    [][]*Term
	key   map[string]bool
}

type cmpT struct { // sum coef*key + rest  (compared with 0)
	name  string
	keys  []string
	coefs []int64
	rest  *Term
}

type cand struct {
	name string
	user bool
	src  string
	f    func(vals map[string]*Term, s *State) *Term
}

type LoopRun struct {
	key      string
	loop     *Loop
	collect  bool
	stamp    int
	aIdx     int // frontier of the entry state
	hIdx     int // frontier variable of the header
	entryA   *Term
	W        map[string]*wset
	changed  bool
	phis     []*ssa.Phi
	keyOf    map[int]string // header symbol -> key
	headVals map[string]*Term
	entVals  map[string]*Term
	keys     []string
	sorts    map[string]Sort
	refKeys  map[string]bool
	intKeys  map[string]bool
	cmps     map[string]*cmpT
	newCmps  bool
	cands    []*cand
	dropped  map[string]bool
	dropNow  bool
	header   *Heap
	invMemo  map[int]bool
	meas     []*measure
	backs    int
	depth    int
	entry    *State
	cells    []cellKey
	start    *State // the header state, where the second segment of an iteration restarts from
	cutDone  [2]bool
	cutBad   map[string]bool // statements about the values at a cut that do not hold on every path
}

type cellKey struct {
	key  string
	name string
	args []*Term
}

type measure struct {
	name string
	f    func(vals map[string]*Term, s *State) *Term
	bad  bool
}

type loopMemo struct {
	cutBad  map[string]bool
	W       map[string]*wset
	dropped map[string]bool
	cmps    map[string]*cmpT
}

func (x *Exec) stampOf(name string) int {
	if strings.HasPrefix(name, "A!") {
		n, _ := strconv.Atoi(name[2:])
		if n < len(x.aStamp) {
			return x.aStamp[n]
		}
		return 0
	}
	if i := strings.LastIndexByte(name, '~'); i >= 0 {
		if n, err := strconv.Atoi(name[i+1:]); err == nil {
			return n
		}
	}
	return 0
}

func (x *Exec) invariantIn(t *Term, run *LoopRun) bool {
	if r, ok := run.invMemo[t.id]; ok {
		return r
	}
	r := true
	if t.op == OVar || t.op == OApp {
		if x.stampOf(t.name) > run.stamp {
			r = false
		}
	}
	if t.op == OBound {
		r = false
	}
	if r {
		for _, a := range t.args {
			if !x.invariantIn(a, run) {
				r = false
				break
			}
		}
	}
	run.invMemo[t.id] = r
	return r
}

func (x *Exec) collecting(s *State, f func(run *LoopRun)) {
	for _, fr := range s.frames {
		for _, a := range fr.acts {
			if a.run.collect {
				f(a.run)
			}
		}
	}
}

func (x *Exec) recordCmp(s *State, u, v *Term) {
	if u.sort != SInt {
		return
	}
	d := x.c.Sub(u, v)
	x.collecting(s, func(run *LoopRun) { x.addCmp(run, d) })
}

func (x *Exec) recordCond(s *State, cond *Term) {
	t := cond
	if t.op == ONot {
		t = t.args[0]
	}
	if t.op == OEq0 {
		x.collecting(s, func(run *LoopRun) { x.addCmp(run, t.args[0]) })
	}
}

func (x *Exec) addCmp(run *LoopRun, d *Term) {
	l := newLin()
	x.c.toLin(d, 1, l)
	ids := make([]int, 0)
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	rest := newLin()
	rest.k = l.k
	ct := &cmpT{}
	for _, id := range ids {
		t := l.a[id]
		if k, ok := run.keyOf[id]; ok {
			ct.keys = append(ct.keys, k)
			ct.coefs = append(ct.coefs, l.m[id])
			continue
		}
		if !x.invariantIn(t, run) {
			return
		}
		rest.m[id] = l.m[id]
		rest.a[id] = t
	}
	if len(ct.keys) == 0 {
		return
	}
	ct.rest = x.c.fromLin(rest)
	// normalise: first coefficient positive
	idx := make([]int, len(ct.keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ct.keys[idx[a]] < ct.keys[idx[b]] })
	n := &cmpT{rest: ct.rest}
	for _, i := range idx {
		n.keys = append(n.keys, ct.keys[i])
		n.coefs = append(n.coefs, ct.coefs[i])
	}
	if n.coefs[0] < 0 {
		for i := range n.coefs {
			n.coefs[i] = -n.coefs[i]
		}
		n.rest = x.c.MulK(n.rest, -1)
	}
	var sb strings.Builder
	for i, k := range n.keys {
		fmt.Fprintf(&sb, "%d*%s+", n.coefs[i], k)
	}
	fmt.Fprintf(&sb, "t%d", n.rest.id)
	n.name = sb.String()
	if _, ok := run.cmps[n.name]; !ok && len(run.cmps) < 40 {
		run.cmps[n.name] = n
		run.newCmps = true
	}
}

func (ct *cmpT) term(c *Ctx, vals map[string]*Term) *Term {
	t := ct.rest
	for i, k := range ct.keys {
		v := vals[k]
		if v == nil {
			return nil
		}
		t = c.Add(t, c.MulK(v, ct.coefs[i]))
	}
	return t
}

// ---------------------------------------------------------------- write sets

func (x *Exec) recordWrite(name string, args, bs []*Term, guard *Term, s *State) {
	x.collecting(s, func(run *LoopRun) {
		if args != nil {
			x.runWrite(run, name, args, s)
			return
		}
		x.runGuard(run, name, bs, guard, s)
	})
}

func (x *Exec) wsetOf(run *LoopRun, name string) *wset {
	w := run.W[name]
	if w == nil {
		w = &wset{key: map[string]bool{}}
		run.W[name] = w
		run.changed = true
	}
	return w
}

func (x *Exec) setAll(run *LoopRun, name string) {
	w := x.wsetOf(run, name)
	if !w.all {
		w.all = true
		run.changed = true
	}
}

func (x *Exec) addTarget(run *LoopRun, name string, args []*Term) {
	w := x.wsetOf(run, name)
	if w.all {
		return
	}
	k := ""
	for _, a := range args {
		k += fmt.Sprintf("%d,", a.id)
	}
	if w.key[k] {
		return
	}
	if len(w.tg) > 24 {
		x.setAll(run, name)
		return
	}
	w.key[k] = true
	w.tg = append(w.tg, args)
	run.changed = true
}

func (x *Exec) runWrite(run *LoopRun, name string, args []*Term, s *State) {
	if w := run.W[name]; w != nil && w.all {
		return
	}
	if len(args) == 0 {
		x.addTarget(run, name, nil)
		return
	}
	t0 := args[0]
	if i, k, ok := x.c.asFresh(t0); ok && (i > run.hIdx || i == run.hIdx && k > 0) && x.refMap(name) {
		if w := run.W[name]; w == nil { // remember that the map exists, nothing old is written
			return
		}
		return
	}
	if len(args) == 1 && x.invariantIn(t0, run) {
		x.addTarget(run, name, args)
		return
	}
	if len(args) >= 2 && x.invariantIn(t0, run) {
		x.addTarget(run, name, args[:1])
		return
	}
	if !x.refMap(name) {
		x.setAll(run, name)
		return
	}
	x.coverRef(run, name, t0, s)
}

// refMap: the first argument of the map is a reference
func (x *Exec) refMap(name string) bool {
	return !strings.HasPrefix(name, "ghost:")
}

func (x *Exec) coverRef(run *LoopRun, name string, t0 *Term, s *State) {
	if x.contr != nil && x.contr.cut != "" {
		x.setAll(run, name)
		return
	}
	c := x.c
	w := run.W[name]
	none := c.False() // a nil slice has no elements to write
	if strings.HasPrefix(name, "elem:") {
		none = c.Eq(t0, c.Lit(0))
	}
	g := c.Or(c.Lt(run.entryA, t0), none)
	if w != nil {
		for _, tg := range w.tg {
			if len(tg) == 1 {
				g = c.Or(g, c.Eq(t0, tg[0]))
			}
		}
		if w.fresh && x.proves(s.pc, g, 400) {
			return
		}
		if w.base && x.proves(s.pc, c.Or(c.Lt(x.oldA, t0), none), 400) {
			return
		}
	}
	try := func(extra ...*Term) bool {
		gg := c.Or(c.Lt(run.entryA, t0), none)
		for _, e := range extra {
			gg = c.Or(gg, c.Eq(t0, e))
		}
		if !x.proves(s.pc, gg, 400) {
			return false
		}
		ww := x.wsetOf(run, name)
		if !ww.fresh {
			ww.fresh = true
			run.changed = true
		}
		for _, e := range extra {
			x.addTarget(run, name, []*Term{e})
		}
		return true
	}
	if try() {
		return
	}
	var es []*Term
	for _, k := range run.keys {
		if run.refKeys[k] {
			e := run.entVals[k]
			if e.op == OLit || !x.invariantIn(e, run) {
				continue
			}
			if try(e) {
				return
			}
			es = append(es, e)
		}
	}
	if len(es) > 1 && try(es...) {
		return
	}
	if x.oldA != nil && x.oldA != run.entryA && x.proves(s.pc, c.Or(c.Lt(x.oldA, t0), none), 400) {
		x.wsetOf(run, name).base = true
		run.changed = true
		return
	}
	x.setAll(run, name)
}

func (x *Exec) runGuard(run *LoopRun, name string, bs []*Term, guard *Term, s *State) {
	if w := run.W[name]; w != nil && w.all {
		return
	}
	if len(bs) == 0 {
		x.addTarget(run, name, nil)
		return
	}
	a := bs[0]
	var disj []*Term
	if guard.op == OOr {
		disj = guard.args
	} else {
		disj = []*Term{guard}
	}
	for _, d := range disj {
		var conj []*Term
		if d.op == OAnd {
			conj = d.args
		} else {
			conj = []*Term{d}
		}
		done := false
		for _, cj := range conj {
			if cj.op == OEq0 {
				if t, ok := solveFor(x.c, cj.args[0], a); ok && !t.bound {
					full := []*Term{t}
					if len(bs) == 1 {
						x.runWrite(run, name, full, s)
					} else {
						x.runWrite(run, name, []*Term{t, x.c.Lit(0)}, s)
					}
					done = true
					break
				}
			}
			if cj.op == OLe0 { // A + k + 1 - a <= 0
				dd := cj.args[0]
				if dd.op == OLin && len(dd.args) == 2 {
					for q := 0; q < 2; q++ {
						if dd.args[q] == a && dd.coefs[q] == -1 && dd.coefs[1-q] == 1 && strings.HasPrefix(dd.args[1-q].name, "A!") {
							if x.c.frontIdx(dd.args[1-q]) >= run.hIdx {
								done = true
							}
						}
					}
				}
				if done {
					break
				}
			}
		}
		if !done {
			x.setAll(run, name)
			return
		}
	}
}

// solveFor: from d == 0 with d = +-a + t, returns the value of a
func solveFor(c *Ctx, d, a *Term) (*Term, bool) {
	l := newLin()
	c.toLin(d, 1, l)
	co, ok := l.m[a.id]
	if !ok || co != 1 && co != -1 {
		return nil, false
	}
	delete(l.m, a.id)
	t := c.fromLin(l)
	if co == 1 {
		t = c.MulK(t, -1)
	}
	return t, true
}

// ---------------------------------------------------------------- loop entry

func (x *Exec) posKey(s *State, l *Loop) string {
	var sb strings.Builder
	for i, f := range s.frames {
		if i == len(s.frames)-1 {
			fmt.Fprintf(&sb, "%s#%d", x.w.nameOf(f.fn), l.header.Index)
		} else {
			fmt.Fprintf(&sb, "%s@%d.%d>", x.w.nameOf(f.fn), f.block.Index, f.idx)
		}
	}
	return sb.String()
}

func loopPhis(l *Loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) cellKeys(run *LoopRun) {
	run.cells = nil
	var names []string
	for n := range run.W {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w := run.W[n]
		m := x.metas[n]
		if w.all || m == nil || m.arity > 1 {
			continue
		}
		for _, tg := range w.tg {
			if len(tg) != m.arity {
				continue
			}
			k := "c:" + n
			for _, a := range tg {
				k += fmt.Sprintf(":%d", a.id)
			}
			run.cells = append(run.cells, cellKey{k, n, tg})
		}
	}
}

// loopVals reads the current values of the phis and cells
func (x *Exec) loopVals(s *State, f *Frame, run *LoopRun) map[string]*Term {
	out := map[string]*Term{}
	for i, p := range run.phis {
		for j, t := range f.env[p] {
			out[fmt.Sprintf("p%d.%d", i, j)] = t
		}
	}
	for _, ck := range run.cells {
		out[ck.key] = x.read(x.node(s.heap, ck.name), ck.args)
	}
	return out
}

func (x *Exec) setupRun(entry *State, l *Loop, mem *loopMemo) *LoopRun {
	f := entry.frames[len(entry.frames)-1]
	run := &LoopRun{key: x.posKey(entry, l), loop: l, stamp: x.c.fresh, aIdx: entry.aIdx, W: mem.W, cutBad: mem.cutBad, cmps: mem.cmps, dropped: mem.dropped,
		phis: loopPhis(l), keyOf: map[int]string{}, sorts: map[string]Sort{}, refKeys: map[string]bool{}, intKeys: map[string]bool{}, invMemo: map[int]bool{}, depth: len(entry.frames), entry: entry}
	run.entryA = x.frontier(entry)
	x.cellKeys(run)
	for i, p := range run.phis {
		comps := x.w.flatten(p.Type())
		for j, cp := range comps {
			k := fmt.Sprintf("p%d.%d", i, j)
			run.keys = append(run.keys, k)
			run.sorts[k] = cp.s
			run.refKeys[k] = cp.ref
			if cp.s == SInt && !cp.ref && (cp.t == nil && (cp.suf == "#len" || cp.suf == "#off" || strings.HasSuffix(cp.suf, "#len") || strings.HasSuffix(cp.suf, "#off")) || cp.t != nil && isIntT(cp.t)) {
				run.intKeys[k] = true
			}
		}
	}
	for _, ck := range run.cells {
		m := x.metas[ck.name]
		run.keys = append(run.keys, ck.key)
		run.sorts[ck.key] = m.sort
		run.refKeys[ck.key] = m.ref
		if m.sort == SInt && !m.ref {
			if m.t != nil && isIntT(m.t) || m.t == nil && (strings.HasSuffix(ck.name, "#len") || strings.HasSuffix(ck.name, "!n") || strings.HasSuffix(ck.name, "#off")) {
				run.intKeys[ck.key] = true
			}
		}
	}
	run.entVals = x.loopVals(entry, f, run)
	if x.cutLoop(run) {
		for _, k := range run.keys {
			run.dropped["eq:"+k] = true
		}
	}
	return run
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// havocLoop turns h (a copy of the entry state) into an arbitrary header state
func (x *Exec) havocLoop(h *State, run *LoopRun) {
	c := x.c
	x.bumpFrontier(h)
	run.hIdx = h.aIdx
	f := h.frames[len(h.frames)-1]
	for i, p := range run.phis {
		comps := x.w.flatten(p.Type())
		ent := f.env[p]
		v := make(Val, len(comps))
		for j, cp := range comps {
			k := fmt.Sprintf("p%d.%d", i, j)
			if !run.dropped["eq:"+k] {
				v[j] = ent[j]
				continue
			}
			t := c.Fresh("phi"+cp.suf, cp.s)
			if cp.ref {
				c.ub[t.id] = ubound{h.aIdx, h.aK}
			}
			v[j] = t
			run.keyOf[t.id] = k
		}
		f.env[p] = v
		x.typeFacts(v, p.Type(), h.live())
	}
	x.havocWrites(h, run)
	for _, ck := range run.cells {
		k := "eq:" + ck.key
		if !run.dropped[k] && run.keepCells() {
			x.nnode++
			m := x.metas[ck.name]
			h.heap[ck.name] = &HNode{kind: HStore, prev: x.node(h.heap, ck.name), map_: ck.name, sort: m.sort, ref: m.ref, args: ck.args, val: run.entVals[ck.key], id: x.nnode}
			continue
		}
		t := x.read(x.node(h.heap, ck.name), ck.args)
		if t.op == OApp || t.op == OVar {
			run.keyOf[t.id] = ck.key
			x.scalarFacts(t, Comp{"", x.metas[ck.name].sort, x.metas[ck.name].ref, x.metas[ck.name].t})
			if strings.HasSuffix(ck.name, "!n") || strings.HasSuffix(ck.name, "#len") {
				c.Fact(t, c.Le(c.Lit(0), t))
			}
		}
	}
	run.headVals = x.loopVals(h, f, run)
}

// havocWrites forgets every place the loop writes
func (x *Exec) havocWrites(h *State, run *LoopRun) {
	c := x.c
	var names []string
	for n := range run.W {
		names = append(names, n)
	}
	sort.Strings(names)
	var tg []modTarget
	for _, n := range names {
		w := run.W[n]
		if w.all {
			tg = append(tg, modTarget{n, func(bs []*Term) *Term { return c.True() }})
			continue
		}
		if w.fresh {
			ea := run.entryA
			tg = append(tg, modTarget{n, func(bs []*Term) *Term { return c.Lt(ea, bs[0]) }})
		}
		if w.base {
			ea := x.oldA
			tg = append(tg, modTarget{n, func(bs []*Term) *Term { return c.Lt(ea, bs[0]) }})
		}
		elem := strings.HasPrefix(n, "elem:")
		for _, a := range w.tg {
			a := a
			tg = append(tg, modTarget{n, func(bs []*Term) *Term {
				g := c.True()
				for i := range a {
					g = c.And(g, c.Eq(bs[i], a[i]))
				}
				if elem && len(a) > 0 { // a nil slice has no elements to write
					g = c.And(g, c.Not(c.Eq(a[0], c.Lit(0))))
				}
				return g
			}})
		}
	}
	x.havoc(h, tg)
}

func (run *LoopRun) keepCells() bool { return true }

func (x *Exec) enterLoop(s *State, f *Frame, l *Loop) {
	if x.initMode {
		return
	}
	c := x.c
	key := x.posKey(s, l)
	mem := x.lmemo[key]
	if mem == nil {
		mem = &loopMemo{cutBad: map[string]bool{}, W: map[string]*wset{}, dropped: map[string]bool{}, cmps: map[string]*cmpT{}}
		x.lmemo[key] = mem
	}
	// per-path copies: invariant terms of another path are meaningless here
	mem = &loopMemo{cutBad: map[string]bool{}, W: map[string]*wset{}, dropped: mem.dropped, cmps: map[string]*cmpT{}}
	for k, w := range x.lmemo[key].W {
		if w.all {
			mem.W[k] = &wset{all: true, key: map[string]bool{}}
		}
	}
	dropped := map[string]bool{}
	for k := range mem.dropped {
		dropped[k] = true
	}
	mem.dropped = dropped
	entry := s.clone()
	initOK := map[string]int{} // 1 ok, 2 fails
	var run *LoopRun
	for round := 0; ; round++ {
		if round > 80 {
			x.fail("loop analysis does not converge at %s", key)
		}
		run = x.setupRun(entry, l, mem)
		h := entry.clone()
		x.havocLoop(h, run)
		run.header = h.snap()
		x.buildCands(run, h)
		// initial truth
		var need []*cand
		var goals []*Term
		for _, cd := range run.cands {
			if initOK[cd.name] == 0 && !run.dropped[cd.name] {
				g := cd.f(run.entVals, entry)
				need = append(need, cd)
				goals = append(goals, g)
			}
		}
		if len(goals) > 0 {
			hard := make([]bool, len(need))
			for i, cd := range need {
				hard[i] = cd.user
			}
			ok := x.provesManyH(entry.pc, goals, hard)
			for i, cd := range need {
				initOK[cd.name] = 2
				if ok[i] {
					initOK[cd.name] = 1
				} else if dbgInv && cd.user {
					fmt.Fprintf(os.Stderr, "INIT %s %s %s\n", key, cd.name, cd.src)
					if os.Getenv("GOVER_INV") == cd.name {
						x.dumpGoal(entry.pc, goals[i])
					}
				}
			}
		}
		var live []*cand
		for _, cd := range run.cands {
			if !run.dropped[cd.name] && initOK[cd.name] == 1 {
				live = append(live, cd)
			}
		}
		run.cands = live
		for _, cd := range live {
			if g := cd.f(run.headVals, h); g != nil {
				x.assume(h, g)
			}
		}
		run.collect = true
		x.buildMeasures(run)
		x.headGiven(h, run)
		hf := h.frames[len(h.frames)-1]
		hf.acts = append(hf.acts, LoopAct{l, run})
		if x.isCut(h) {
			run.start = h.clone()
		}
		if !h.dead {
			if dbgProg {
				fmt.Fprintf(os.Stderr, "ROUND %d %s W=%d cands=%d paths=%d steps=%d queries=%d %s\n", round, key, len(run.W), len(run.cands), x.paths, x.steps, x.sol.queries, time.Since(startT))
			}
			x.dry++
			x.explore([]*State{h})
			x.dry--
			if dbgProg {
				fmt.Fprintf(os.Stderr, "   changed=%v dropped=%v cmps=%v\n", run.changed, run.dropNow, run.newCmps)
				if os.Getenv("GOVER_PROG") == fmt.Sprint(round) {
					x.fail("stopped")
				}
			}
		}
		if run.changed || run.dropNow || run.newCmps {
			continue
		}
		break
	}
	for k := range mem.dropped {
		if strings.HasPrefix(k, "eq:") || strings.HasPrefix(k, "a:") {
			x.lmemo[key].dropped[k] = true
		}
	}
	for k, w := range mem.W {
		if w.all {
			x.lmemo[key].W[k] = &wset{all: true, key: map[string]bool{}}
		}
	}
	if x.dry == 0 {
		names := []string{}
		for _, cd := range run.cands {
			names = append(names, cd.src)
			x.invProved++
		}
		x.loopNotes = append(x.loopNotes, fmt.Sprintf("%s: %s", key, strings.Join(names, "; ")))
	}
	if x.contr != nil && x.dry == 0 && len(s.frames) == 1 && len(f.acts) == 0 {
		for _, k := range x.contr.keeps {
			x.oblige(s, "step", k.name, k.tags, x.rootEnv(s).boolean(k.e))
		}
	}
	// final pass on s
	fin := x.setupRun(entry, l, mem)
	x.havocLoop(s, fin)
	fin.header = s.snap()
	for _, cd := range run.cands {
		if g := cd.f(fin.headVals, s); g != nil {
			x.assume(s, g)
		}
	}
	fin.meas = nil
	for _, m := range run.meas {
		if !m.bad {
			fin.meas = append(fin.meas, m)
		}
	}
	if len(fin.meas) == 0 {
		fin.meas = run.meas
	}
	fin.collect = false
	x.headGiven(s, fin)
	f = s.frames[len(s.frames)-1]
	f.acts = append(f.acts, LoopAct{l, fin})
	if x.isCut(s) {
		fin.start = s.clone()
	}
	_ = c
}

func (x *Exec) buildMeasures(run *LoopRun) {
	run.meas = nil
	c := x.c
	add := func(name string, f func(vals map[string]*Term, s *State) *Term) {
		run.meas = append(run.meas, &measure{name: name, f: f})
	}
	for _, n := range sortedKeys(run.cmps) {
		ct := run.cmps[n]
		add("+"+n, func(vals map[string]*Term, s *State) *Term { return ct.term(c, vals) })
		add("-"+n, func(vals map[string]*Term, s *State) *Term {
			t := ct.term(c, vals)
			if t == nil {
				return nil
			}
			return c.MulK(t, -1)
		})
	}
	if x.contr != nil {
		for mi, m := range x.contr.measures {
			m := m
			for ai, as := range x.assignments(run, metavars(m.e)) {
				as := as
				add(fmt.Sprintf("u%d.%d", mi, ai), func(vals map[string]*Term, s *State) *Term {
					return x.evalTemplate(m.e, as, vals, s)
				})
			}
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) buildCands(run *LoopRun, h *State) {
	c := x.c
	run.cands = nil
	if x.cutLoop(run) {
		return // nothing but what is stated is carried across the segments
	}
	add := func(name, src string, f func(vals map[string]*Term, s *State) *Term) {
		if run.dropped[name] {
			return
		}
		run.cands = append(run.cands, &cand{name: name, src: src, f: f})
	}
	// equality with the entry value is handled by substitution, listed first so that it is checked at back edges
	for _, k := range run.keys {
		k := k
		e := run.entVals[k]
		add("eq:"+k, k+" unchanged", func(vals map[string]*Term, s *State) *Term { return c.Eq(vals[k], e) })
	}
	var ints []string
	for _, k := range run.keys {
		k := k
		if !run.dropped["eq:"+k] {
			continue
		}
		e := run.entVals[k]
		switch {
		case run.refKeys[k]:
			add("a:ref:"+k, k+" is the entry object or new", func(vals map[string]*Term, s *State) *Term {
				return c.Or(c.Eq(vals[k], e), c.Lt(run.entryA, vals[k]))
			})
			add("a:nn:"+k, k+" != nil", func(vals map[string]*Term, s *State) *Term { return c.Ne(vals[k], c.Lit(0)) })
		case run.sorts[k] == SBool:
			add("a:t:"+k, k+" true", func(vals map[string]*Term, s *State) *Term { return vals[k] })
			add("a:f:"+k, k+" false", func(vals map[string]*Term, s *State) *Term { return c.Not(vals[k]) })
		case run.intKeys[k]:
			ints = append(ints, k)
			add("a:ge:"+k, k+" >= entry", func(vals map[string]*Term, s *State) *Term { return c.Ge(vals[k], e) })
			add("a:le:"+k, k+" <= entry", func(vals map[string]*Term, s *State) *Term { return c.Le(vals[k], e) })
			for _, b := range []int64{-1, 0, 1} {
				b := b
				add(fmt.Sprintf("a:ge%d:%s", b, k), fmt.Sprintf("%s >= %d", k, b), func(vals map[string]*Term, s *State) *Term { return c.Ge(vals[k], c.Lit(b)) })
			}
		}
	}
	// capacity of slice phis
	for i, p := range run.phis {
		if _, ok := isSliceT(p.Type()); ok {
			kc, ko := fmt.Sprintf("p%d.3", i), fmt.Sprintf("p%d.1", i)
			if run.dropped["eq:"+kc] {
				e := run.entVals[kc]
				add("a:capge:"+kc, "cap grows", func(vals map[string]*Term, s *State) *Term { return c.Ge(vals[kc], e) })
			}
			_ = ko
		}
	}
	// differences and sums of two integers
	for i := 0; i < len(ints) && i < 8; i++ {
		for j := i + 1; j < len(ints) && j < 8; j++ {
			a, b := ints[i], ints[j]
			ea, eb := run.entVals[a], run.entVals[b]
			d0 := c.Sub(ea, eb)
			add("a:df:"+a+":"+b, a+"-"+b+" constant", func(vals map[string]*Term, s *State) *Term { return c.Eq(c.Sub(vals[a], vals[b]), d0) })
			s0 := c.Add(ea, eb)
			add("a:sm:"+a+":"+b, a+"+"+b+" constant", func(vals map[string]*Term, s *State) *Term { return c.Eq(c.Add(vals[a], vals[b]), s0) })
			add("a:lt:"+a+":"+b, a+"<="+b, func(vals map[string]*Term, s *State) *Term { return c.Le(vals[a], vals[b]) })
			add("a:gt:"+a+":"+b, a+">="+b, func(vals map[string]*Term, s *State) *Term { return c.Le(vals[b], vals[a]) })
		}
	}
	for _, n := range sortedKeys(run.cmps) {
		ct := run.cmps[n]
		for _, b := range []int64{-1, 0, 1} {
			b := b
			add(fmt.Sprintf("b:le%d:%s", b, n), fmt.Sprintf("%s <= %d", n, b), func(vals map[string]*Term, s *State) *Term {
				if t := ct.term(c, vals); t != nil {
					return c.Le(t, c.Lit(b))
				}
				return c.True()
			})
			add(fmt.Sprintf("b:ge%d:%s", b, n), fmt.Sprintf("%s >= %d", n, b), func(vals map[string]*Term, s *State) *Term {
				if t := ct.term(c, vals); t != nil {
					return c.Ge(t, c.Lit(b))
				}
				return c.True()
			})
		}
	}
	if x.contr != nil {
		for ii, inv := range x.contr.invs {
			inv := inv
			for _, as := range x.assignments(run, metavars(inv.e)) {
				as := as
				nm := fmt.Sprintf("u:%d", ii)
				src := inv.name
				for _, a := range as {
					nm += "[" + a.name + "]"
					src += " [" + a.name + "]"
				}
				if run.dropped[nm] {
					continue
				}
				run.cands = append(run.cands, &cand{name: nm, user: true, src: src, f: func(vals map[string]*Term, s *State) *Term {
					return x.evalTemplate(inv.e, as, vals, s)
				}})
			}
		}
	}
}

// ---------------------------------------------------------------- user templates

type assign struct {
	mv   string
	name string
	f    func(vals map[string]*Term, s *State) SV
}

func metavars(e *Expr) []string {
	seen := map[string]bool{}
	var out []string
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil {
			return
		}
		if e.op == "id" && strings.HasPrefix(e.s, "$") && !seen[e.s] {
			seen[e.s] = true
			out = append(out, e.s)
		}
		for _, a := range e.args {
			rec(a)
		}
	}
	rec(e)
	sort.Strings(out)
	return out
}

// options for one metavariable at the given loop
func (x *Exec) options(run *LoopRun, mv string) []assign {
	c := x.c
	var out []assign
	add := func(name string, f func(vals map[string]*Term, s *State) SV) {
		for _, o := range out {
			if o.name == mv+"="+name {
				return
			}
		}
		out = append(out, assign{mv, mv + "=" + name, f})
	}
	kind := mv[1]
	intT := types.Typ[types.Int]
	offs := []int64{0, 1, -1}
	if x.level == 0 || len(mv) > 2 && mv[2] == '0' {
		offs = []int64{0}
	}
	intOpt := func(name string, get func(vals map[string]*Term, s *State) *Term) {
		for _, o := range offs {
			o := o
			add(fmt.Sprintf("%s%+d", name, o), func(vals map[string]*Term, s *State) SV {
				return SV{t: intT, v: Val{c.AddK(get(vals, s), o)}}
			})
		}
	}
	switch kind {
	case 'i', 'j', 'k':
		for _, k := range run.keys {
			k := k
			if run.intKeys[k] && (strings.HasPrefix(k, "c:") || x.phiIsInt(run, k)) {
				if strings.HasPrefix(k, "c:") && !strings.HasPrefix(k, "c:cell:int:") && !strings.HasSuffix(k, "") {
					continue
				}
				intOpt(k, func(vals map[string]*Term, s *State) *Term { return vals[k] })
			}
		}
		// integer phis of the enclosing loops
		for fi, fr := range run.entry.frames {
			for ai, a := range fr.acts {
				for pi, p := range a.run.phis {
					if isIntT(p.Type()) {
						v, ok := fr.env[p]
						if !ok {
							continue
						}
						intOpt(fmt.Sprintf("o%d.%d.%d", fi, ai, pi), func(vals map[string]*Term, s *State) *Term { return v[0] })
					}
				}
			}
		}
	case 's', 't', 'u':
		for i, p := range run.phis {
			if _, ok := isSliceT(p.Type()); ok {
				i, p := i, p
				add(fmt.Sprintf("p%d", i), func(vals map[string]*Term, s *State) SV {
					var v Val
					for j := 0; j < 4; j++ {
						v = append(v, vals[fmt.Sprintf("p%d.%d", i, j)])
					}
					return SV{t: p.Type(), v: v}
				})
			}
		}
	case 'a': // any slice value visible in the current frame and not a loop phi
		fr := run.entry.frames[len(run.entry.frames)-1]
		var vs []ssa.Value
		for v := range fr.env {
			if _, ok := isSliceT(v.Type()); ok && run.loop.uses(v) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			isPhi := false
			for _, p := range run.phis {
				if p == v {
					isPhi = true
				}
			}
			if isPhi {
				continue
			}
			v, val := v, fr.env[v]
			add(v.Name(), func(vals map[string]*Term, s *State) SV { return SV{t: v.Type(), v: val} })
		}
	case 'm': // any bytes.Buffer or bufio pointer visible in the current frame and not a loop phi
		fr := run.entry.frames[len(run.entry.frames)-1]
		var vs []ssa.Value
		for v := range fr.env {
			if n := types.TypeString(v.Type(), nil); (n == "*bytes.Buffer" || strings.HasPrefix(n, "*bufio.")) && run.loop.uses(v) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			isPhi := false
			for _, p := range run.phis {
				if p == v {
					isPhi = true
				}
			}
			if isPhi {
				continue
			}
			v, val := v, fr.env[v]
			add(v.Name(), func(vals map[string]*Term, s *State) SV { return SV{t: v.Type(), v: val} })
		}
	case 'n': // any integer value of the current frame that does not change in the loop
		fr := run.entry.frames[len(run.entry.frames)-1]
		var vs []ssa.Value
		for v := range fr.env {
			if isIntT(v.Type()) && run.loop.uses(v) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		seen := map[int]bool{}
		for _, v := range vs {
			isPhi := false
			for _, p := range run.phis {
				if p == v {
					isPhi = true
				}
			}
			if isPhi || seen[fr.env[v][0].id] {
				continue
			}
			seen[fr.env[v][0].id] = true
			val := fr.env[v]
			add(v.Name(), func(vals map[string]*Term, s *State) SV { return SV{t: intT, v: val} })
		}
		// the values the changing integers had when the loop was entered
		for _, k := range run.keys {
			if e := run.entVals[k]; e != nil && run.intKeys[k] && e.op != OLit && !seen[e.id] && (strings.HasPrefix(k, "c:cell:int:") || strings.HasPrefix(k, "p") && x.phiIsInt(run, k)) {
				seen[e.id] = true
				v := e
				add("e:"+k, func(vals map[string]*Term, s *State) SV { return SV{t: intT, v: Val{v}} })
			}
		}
	case 'b':
		for i, p := range run.phis {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				k := fmt.Sprintf("p%d.0", i)
				p := p
				add(k, func(vals map[string]*Term, s *State) SV { return SV{t: p.Type(), v: Val{vals[k]}} })
			}
		}
	case 'e', 'p':
		for i, p := range run.phis {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				k := fmt.Sprintf("p%d.0", i)
				p := p
				add(k, func(vals map[string]*Term, s *State) SV { return SV{t: p.Type(), v: Val{vals[k]}} })
			}
		}
	case 'x': // interface phis
		for i, p := range run.phis {
			if types.IsInterface(p.Type()) {
				k := fmt.Sprintf("p%d.", i)
				p := p
				add(k, func(vals map[string]*Term, s *State) SV { return SV{t: p.Type(), v: Val{vals[k+"0"], vals[k+"1"]}} })
			}
		}
	case 'r':
		for i, p := range run.phis {
			if isRune(p.Type()) {
				k := fmt.Sprintf("p%d.0", i)
				p := p
				add(k, func(vals map[string]*Term, s *State) SV { return SV{t: p.Type(), v: Val{vals[k]}} })
			}
		}
	case 'q': // string phis
		for i, p := range run.phis {
			if isString(p.Type()) {
				k := fmt.Sprintf("p%d.0", i)
				p := p
				add(k, func(vals map[string]*Term, s *State) SV { return SV{t: p.Type(), v: Val{vals[k]}} })
			}
		}
	}
	return out
}

func (x *Exec) phiIsInt(run *LoopRun, k string) bool {
	var i, j int
	fmt.Sscanf(k, "p%d.%d", &i, &j)
	return isIntT(run.phis[i].Type())
}

func (x *Exec) assignments(run *LoopRun, mvs []string) [][]assign {
	out := [][]assign{nil}
	for _, mv := range mvs {
		opts := x.options(run, mv)
		var next [][]assign
		for _, a := range out {
			for _, o := range opts {
				next = append(next, append(append([]assign(nil), a...), o))
			}
		}
		out = next
		if len(out) > 40000 {
			out = out[:40000]
		}
	}
	if len(out) > 400 {
		// prefer the assignments with the fewest shifted integers
		shifted := func(as []assign) int {
			n := 0
			for _, a := range as {
				if strings.HasSuffix(a.name, "+1") || strings.HasSuffix(a.name, "-1") {
					n++
				}
			}
			return n
		}
		sort.SliceStable(out, func(i, j int) bool { return shifted(out[i]) < shifted(out[j]) })
		out = out[:400]
	}
	return out
}

func (x *Exec) evalTemplate(e *Expr, as []assign, vals map[string]*Term, s *State) *Term {
	env := x.rootEnv(s)
	for _, a := range as {
		env.vars[a.mv] = a.f(vals, s)
	}
	var r *Term
	func() {
		defer func() {
			if q := recover(); q != nil {
				if _, ok := q.(runtime.Error); ok && len(as) > 0 { // ill-typed choice of metavariables
					r = x.c.True()
					return
				}
				if _, ok := q.(specErr); ok {
					x.note(fmt.Sprint("template not applicable: ", q))
					r = x.c.True()
					return
				}
				panic(q)
			}
		}()
		r = env.term(e)
	}()
	return r
}

// rootEnv: the environment of the verified function's contract in state s
func (x *Exec) rootEnv(s *State) *Env {
	env := &Env{x: x, vars: map[string]SV{}, cur: s.live(), old: x.old, st: s}
	for k, v := range x.pvars {
		env.vars[k] = v
	}
	if x.contr != nil {
		for _, l := range x.contr.lets {
			env.vars[l.name] = x.lets[l.name]
		}
	}
	return env
}

// ---------------------------------------------------------------- back edges

func (x *Exec) backEdge(s *State, f *Frame, run *LoopRun) {
	c := x.c
	if s.dead {
		return
	}
	run.backs++
	vals := x.loopVals(s, f, run)
	if run.collect {
		// the loop may only count as left through its exits; check the candidates
		var goals []*Term
		var cds []*cand
		for _, cd := range run.cands {
			if run.dropped[cd.name] {
				continue
			}
			g := cd.f(vals, s)
			if g == nil {
				continue
			}
			if g.op == OTrue {
				continue
			}
			goals = append(goals, g)
			cds = append(cds, cd)
		}
		hard := make([]bool, len(cds))
		for i, cd := range cds {
			hard[i] = cd.user
		}
		ok := x.provesManyH(s.pc, goals, hard)
		for i, cd := range cds {
			if !ok[i] {
				if dbgInv && cd.user {
					fmt.Fprintf(os.Stderr, "STEP %s %s\n", cd.name, cd.src)
					if os.Getenv("GOVER_INV") == cd.name {
						x.dumpGoal(s.pc, goals[i])
					}
				}
				run.dropped[cd.name] = true
				run.dropNow = true
			}
		}
		if !run.dropNow && !run.changed && !run.newCmps {
			var mg []*Term
			var ms []*measure
			for _, m := range run.meas {
				if m.bad {
					continue
				}
				g := x.measGoal(run, m, vals, s)
				if g == nil {
					m.bad = true
					continue
				}
				mg = append(mg, g)
				ms = append(ms, m)
			}
			if x.needTerm() {
				ok := x.provesMany(s.pc, mg)
				for i, m := range ms {
					if !ok[i] {
						m.bad = true
					}
				}
			}
		}
		s.dead = true
		return
	}
	if x.contr != nil && len(s.frames) == 1 && len(f.acts) == 1 {
		x.checkSteps(s, f, run, vals)
	}
	if x.needTerm() && x.dry == 0 {
		done := false
		for _, m := range run.meas {
			if g := x.measGoal(run, m, vals, s); g != nil {
				x.oblige(s, "termination", "loop measure decreases ("+shortKey(run.key)+")", x.termTags(), g)
				done = true
				break
			}
		}
		if !done {
			x.oblige(s, "termination", "no measure found for loop "+shortKey(run.key), x.termTags(), c.False())
		}
	}
	s.dead = true
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '>'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) needTerm() bool { return x.contr == nil || !x.contr.noterm }
func (x *Exec) termTags() []string {
	if x.contr != nil {
		return x.contr.term
	}
	return nil
}

func (x *Exec) measGoal(run *LoopRun, m *measure, vals map[string]*Term, s *State) *Term {
	hs := &State{heap: run.header.m, aIdx: run.header.aIdx, aK: run.header.aK, pcset: map[int]bool{}}
	a := m.f(run.headVals, hs)
	b := m.f(vals, s)
	if a == nil || b == nil {
		return nil
	}
	return x.c.And(x.c.Lt(b, a), x.c.Ge(a, x.c.Lit(-1)))
}

func (x *Exec) checkSteps(s *State, f *Frame, run *LoopRun, vals map[string]*Term) {
	cs, old := x.contr.steps, run.header
	if s.cutAt != nil {
		cs, old = x.contr.segs[s.seg], s.cutAt
	}
	env := x.rootEnv(s)
	env.old = old
	if x.contr.cut != "" {
		x.obligeAll(s, env, cs)
		cs = nil
	}
	for _, st := range cs {
		x.oblige(s, "step", st.name, st.tags, env.boolean(st.e))
	}
	for _, k := range x.contr.keeps {
		x.oblige(s, "step", k.name, k.tags, x.rootEnv(s).boolean(k.e))
	}
}

var dbgProg = os.Getenv("GOVER_PROG") != ""
var startT = time.Now()
var dbgInv = os.Getenv("GOVER_INV") != ""

func (x *Exec) dumpGoal(hyps []*Term, goal *Term) {
	for i, g := range x.splitGoal(hyps, goal, 0) {
		if x.proves(g.hyps, g.goal, 3000) {
			continue
		}
		hs := append(append([]*Term(nil), g.hyps...), x.c.Not(g.goal))
		dumpN++
		os.WriteFile(fmt.Sprintf("/tmp/inv%d_%d.smt2", dumpN, i), []byte(x.buildQuery(hs, false, 3000, "")), 0644)
	}
}

var dumpN int

// uses: is v an operand of an instruction of the loop
func (l *Loop) uses(v ssa.Value) bool { return l.used[v] }
