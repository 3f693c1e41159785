package main

// Cuts: the iterations of a long loop are verified in two segments, each checked against what is
// stated between them (clauses cut, mid, midinv, tail).

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cutPos struct {
	block *ssa.BasicBlock
	idx   int
}

func (x *Exec) isCut(s *State) bool {
	return x.contr != nil && x.contr.cut != "" && len(s.frames) == 1 && len(s.frames[0].acts) == 1
}

// cutLoop: the loop is the one that is cut
func (x *Exec) cutLoop(run *LoopRun) bool {
	return x.contr != nil && x.contr.cut != "" && run.depth == 1 && len(run.entry.frames[0].acts) == 0
}

// readsField: the function, or a function it calls without going through a contract, reads the field
func (x *Exec) readsField(fn *ssa.Function, field string, depth int) bool {
	if fn == nil || depth > 4 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x.touchesField(in, field, depth) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) touchesField(in ssa.Instruction, field string, depth int) bool {
	switch i := in.(type) {
	case *ssa.FieldAddr:
		t := i.X.Type().Underlying().(*types.Pointer).Elem()
		return typeName(t)+"."+t.Underlying().(*types.Struct).Field(i.Field).Name() == field
	case *ssa.Call:
		return x.openCall(i, func(fn *ssa.Function) bool { return x.readsField(fn, field, depth+1) })
	}
	return false
}

// openCall: f holds of the function called, which is part of the package and has no contract of its own
func (x *Exec) openCall(i *ssa.Call, f func(fn *ssa.Function) bool) bool {
	fn := i.Call.StaticCallee()
	if fn == nil || fn.Pkg != x.root.Pkg || len(fn.Blocks) == 0 {
		return false
	}
	if ct := x.w.contract(x.w.nameOf(fn)); ct != nil && !ct.inline {
		return false
	}
	return f(fn)
}

// findCut: where the paths through the body have met again before the field is read, and where they part
func (x *Exec) findCut(l *Loop) (out [2]cutPos, ok bool) {
	var at *cutPos
	for _, b := range x.root.Blocks {
		if !l.body[b] {
			continue
		}
		for k, in := range b.Instrs {
			if x.touchesField(in, x.contr.cut, 0) && (at == nil || b.Dominates(at.block) && b != at.block) {
				at = &cutPos{b, k}
			}
		}
	}
	if at == nil {
		return out, false
	}
	for b, k := at.block, at.idx; b != nil && l.body[b] && b != l.header; b = b.Idom() {
		if b != at.block {
			k = len(b.Instrs)
		}
		for k--; k >= 0; k-- {
			c, ok := b.Instrs[k].(*ssa.Call)
			if !ok || !x.openCall(c, func(fn *ssa.Function) bool { return len(fn.Blocks) > 20 }) {
				continue
			}
			out[0] = cutPos{b, k}
			for k++; k < len(b.Instrs); k++ {
				if _, ok := b.Instrs[k].(*ssa.Extract); !ok {
					break
				}
			}
			out[1] = cutPos{b, k}
			return out, true
		}
		if d := b.Idom(); len(b.Preds) >= 2 && d != nil && l.body[d] {
			out[0] = cutPos{d, nphis(d)}
			if d == l.header {
				// the loop's own work at its header is in the first segment
				out[0].idx = len(d.Instrs) - 1
			}
			out[1] = cutPos{b, nphis(b)}
			return out, true
		}
	}
	return out, false
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for n < len(b.Instrs) {
		if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (x *Exec) atCut(s *State, f *Frame) bool {
	if !x.isCut(s) {
		return false
	}
	if !x.cutKnown {
		x.cutKnown = true
		var ok bool
		if x.cutPoss, ok = x.findCut(f.acts[0].loop); !ok {
			x.fail("nowhere to cut before %s is read", x.contr.cut)
		}
		if dbgProg {
			for _, p := range x.cutPoss {
				fmt.Fprintf(os.Stderr, "CUT block %d.%d preds %d line %d\n", p.block.Index, p.idx, len(p.block.Preds), x.root.Prog.Fset.Position(p.block.Instrs[p.idx].Pos()).Line)
			}
		}
	}
	p := x.cutPoss[s.seg]
	return f.block == p.block && f.idx == p.idx
}

// headGiven: what is taken for granted at the header of the loop that is cut
func (x *Exec) headGiven(s *State, run *LoopRun) {
	if x.contr == nil || len(s.frames) != 1 || len(s.frames[0].acts) != 0 {
		return
	}
	for _, cs := range [][]Clause{x.contr.keeps, x.contr.holds} {
		for _, g := range cs {
			x.assume(s, x.rootEnv(s).boolean(g.e))
		}
	}
}

// cutVals: the values of the iteration that may be used after the cut
func (x *Exec) cutVals(run *LoopRun, pos cutPos) (out []ssa.Value) {
	for b := pos.block; b != nil && run.loop.body[b]; b = b.Idom() {
		for k, in := range b.Instrs {
			if b == pos.block && k >= pos.idx {
				break
			}
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok && b == run.loop.header {
				continue
			}
			if _, ok := v.Type().(*types.Tuple); ok {
				continue
			}
			out = append(out, v)
		}
	}
	return out
}

// cutGoals: a statement about the state at a cut; $r stands for each rune the iteration has computed
func (x *Exec) cutGoals(m Clause, vs []ssa.Value, f *Frame, env *Env) (gs []*Term, names []string) {
	if !strings.Contains(m.src, "$r") {
		return []*Term{env.boolean(m.e)}, []string{""}
	}
	for _, v := range vs {
		b, ok := v.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int32 || f.env[v] == nil {
			continue
		}
		e := env.with(map[string]SV{"$r": SV{t: v.Type(), v: f.env[v]}})
		gs = append(gs, e.boolean(m.e))
		names = append(names, m.src+"|"+v.Name())
	}
	return gs, names
}

// obligeAll: the clauses A ==> B whose A cannot hold on this path hold; they are told apart a group at a time
func (x *Exec) obligeAll(s *State, env *Env, cs []Clause) {
	type guarded struct {
		m Clause
		a *Term
	}
	var gs []guarded
	for _, m := range cs {
		if m.e.op == "bin" && m.e.s == "==>" {
			gs = append(gs, guarded{m, env.boolean(m.e.args[0])})
		} else {
			x.oblige(s, "step", m.name, m.tags, env.boolean(m.e))
		}
	}
	var as []*Term
	for _, g := range gs {
		as = append(as, g.a)
	}
	for i, may := range x.sol.satEach(x, s.pc, as) {
		g := gs[i]
		if !may {
			x.obs = append(x.obs, &Oblig{fn: x.name, kind: "step", desc: g.m.name + " (does not apply)", tags: g.m.tags, where: x.where(s), res: "proved", by: "z3"})
			continue
		}
		x.oblige(s, "step", g.m.name, g.m.tags, env.boolean(g.m.e))
	}
}

// satEach: which of the conditions may hold besides pc (one script; quantifier-free approximation)
func (sv *Solver) satEach(x *Exec, pc []*Term, conds []*Term) []bool {
	out := make([]bool, len(conds))
	memo := map[int]bool{}
	var hs, gs []*Term
	var idx []int
	for _, p := range pc {
		if !hasQuant(p, memo) {
			hs = append(hs, p)
		}
	}
	for i, g := range conds {
		out[i] = g.op != OFalse
		if g.op != OFalse && g.op != OTrue && !hasQuant(g, memo) {
			gs = append(gs, g)
			idx = append(idx, i)
		}
	}
	if len(gs) == 0 {
		return out
	}
	pre, ts := x.buildScript(hs, gs, true, 1000, "")
	var sb strings.Builder
	sb.WriteString(pre)
	for _, g := range ts {
		sb.WriteString("(push)\n(assert " + g + ")\n(check-sat)\n(pop)\n")
	}
	res := sv.queryMany(sb.String(), 200*len(ts)+2000, len(ts))
	for k, i := range idx {
		out[i] = k >= len(res) || res[k] != "unsat"
	}
	return out
}

func (x *Exec) cutHere(s *State, f *Frame) {
	run := f.acts[0].run
	k := s.seg
	pos := x.cutPoss[k]
	vs := x.cutVals(run, pos)
	old := s.cutAt
	if old == nil {
		old = run.header
	}
	env := x.rootEnv(s)
	env.old = old
	for _, m := range x.contr.seginvs[k] {
		if !strings.Contains(m.src, "$r") {
			continue
		}
		gs, ns := x.cutGoals(m, vs, f, env)
		for i, g := range gs {
			if !run.cutBad[ns[i]] && x.sol.sat(x, s.pc, x.c.Not(g)) {
				if !run.collect {
					x.fail("%s is not stable", ns[i])
				}
				run.cutBad[ns[i]] = true
				run.dropNow = true
			}
		}
	}
	if !run.collect {
		x.cuts[k]++
		x.obligeAll(s, env, x.contr.segs[k])
		for _, cs := range [][]Clause{x.contr.seginvs[k], x.contr.keeps} {
			for _, m := range cs {
				if !strings.Contains(m.src, "$r") {
					x.oblige(s, "step", m.name, m.tags, env.boolean(m.e))
				}
			}
		}
	}
	s.dead = true
	if run.cutDone[k] {
		return
	}
	run.cutDone[k] = true
	n := run.start.clone()
	x.bumpFrontier(n)
	x.havocWrites(n, run)
	nf := n.frames[0]
	for _, v := range vs {
		fv := x.freshVal("cut."+v.Name(), v.Type(), n)
		switch v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
			x.assume(n, x.c.Ne(fv[0], x.c.Lit(0)))
		}
		nf.env[v] = fv
	}
	nf.block, nf.idx, nf.prev = pos.block, pos.idx, nil
	n.seg = k + 1
	n.cutAt = n.snap()
	env = x.rootEnv(n)
	for _, m := range x.contr.seginvs[k] {
		gs, ns := x.cutGoals(m, vs, nf, env)
		for i, g := range gs {
			if !run.cutBad[ns[i]] {
				x.assume(n, g)
			}
		}
	}
	for _, cs := range [][]Clause{x.contr.keeps, x.contr.holds} {
		for _, m := range cs {
			x.assume(n, x.rootEnv(n).boolean(m.e))
		}
	}
	if !n.dead {
		x.work = append([]*State{n}, x.work...)
		x.paths++
	}
}
