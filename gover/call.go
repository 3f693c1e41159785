package main

// Calls: builtins, inlining, contracts, channels.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(s *State, f *Frame, i *ssa.Call, cm *ssa.CallCommon) {
	var fn Val
	if cm.IsInvoke() {
		fn = x.val(s, cm.Value)
	} else if _, ok := cm.Value.(*ssa.Builtin); !ok {
		fn = x.val(s, cm.Value)
	}
	var args []Val
	for _, a := range cm.Args {
		args = append(args, x.val(s, a))
	}
	x.doCall(s, f, i, cm, fn, args)
}

// ret gives the current call its result and moves on
func (x *Exec) ret(s *State, res ssa.Value, vals ...Val) {
	f := s.frames[len(s.frames)-1]
	x.setResult(f, res, vals)
	f.idx++
}

func (x *Exec) resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) havocResults(s *State, sig *types.Signature, prefix string) []Val {
	var out []Val
	for _, t := range x.resultTypes(sig) {
		out = append(out, x.freshVal(prefix, t, s))
	}
	return out
}

func (x *Exec) typeByTag(k int64) types.Type {
	x.w.mu.Lock()
	defer x.w.mu.Unlock()
	return x.w.tagTypes[k]
}

func (x *Exec) doCall(s *State, f *Frame, res ssa.Value, cm *ssa.CallCommon, fn Val, args []Val) {
	if b, ok := cm.Value.(*ssa.Builtin); ok && !cm.IsInvoke() {
		x.builtin(s, f, res, b.Name(), cm, args)
		return
	}
	if cm.IsInvoke() {
		x.invoke(s, f, res, cm, fn, args)
		return
	}
	if sf := cm.StaticCallee(); sf != nil {
		var binds []Val
		if cl, ok := x.c.closures[fn[0].id]; ok {
			binds = cl.binds
		}
		x.callFn(s, f, res, sf, binds, args)
		return
	}
	x.callVal(s, f, res, cm, fn[0], args)
}

// callVal: call through a function value
func (x *Exec) callVal(s *State, f *Frame, res ssa.Value, cm *ssa.CallCommon, fv *Term, args []Val) {
	if fv.op == OIte {
		t, fs := x.split(s, fv.args[0])
		if t != nil {
			x.callVal(t, t.frames[len(t.frames)-1], res, cm, fv.args[1], args)
		}
		if fs != nil {
			x.callVal(fs, fs.frames[len(fs.frames)-1], res, cm, fv.args[2], args)
		}
		return
	}
	if cl, ok := x.c.closures[fv.id]; ok {
		x.callFn(s, f, res, cl.fn, cl.binds, args)
		return
	}
	x.panicOb(s, "call of nil function", "", x.c.Ne(fv, x.c.Lit(0)))
	if s.dead {
		return
	}
	x.note("unknown function value called in " + x.w.nameOf(f.fn) + " (assumed not to touch package memory)")
	if ct := x.fieldContract(fv); ct != nil {
		x.applyContract(s, f, res, ct, cm.Signature(), nil, args, "function value")
		return
	}
	x.ret(s, res, x.havocResults(s, cm.Signature(), "cb")...)
}

// fieldContract: contract of a function stored in a field ("iface field.T.f") or
// given as a parameter ("iface param.name", the name it has in the contract)
func (x *Exec) fieldContract(fv *Term) *Contract {
	if fv.op != OApp && fv.op != OVar {
		return nil
	}
	n := fv.name
	if i := strings.IndexAny(n, "!~"); i >= 0 {
		n = n[:i]
	}
	if strings.HasPrefix(n, "p.") {
		return x.contractByName("iface param." + n[2:])
	}
	return x.contractByName("iface field." + n)
}

func (x *Exec) contractByName(n string) *Contract {
	return x.w.contract(n)
}
func (w *World) contract(n string) *Contract {
	pk := ""
	if w.tpkg.Name() != "readline" {
		pk = w.tpkg.Name()
	}
	ct := w.specs.contracts[w.goos+"|"+pk+"|"+n]
	if ct != nil && !strings.HasPrefix(n, "iface ") && !strings.HasPrefix(n, "extern ") && w.applicable(ct) != "" {
		return nil
	}
	return ct
}

func (x *Exec) note(m string) {
	for _, y := range x.warn {
		if y == m {
			return
		}
	}
	x.warn = append(x.warn, m)
}

func (x *Exec) invoke(s *State, f *Frame, res ssa.Value, cm *ssa.CallCommon, recv Val, args []Val) {
	tag := recv[0]
	if tag.op == OIte {
		g := tag.args[0]
		t, fs := x.split(s, g)
		pick := func(v *Term, k int) *Term {
			if v.op == OIte && v.args[0] == g {
				return v.args[k]
			}
			return v
		}
		if t != nil {
			x.invoke(t, t.frames[len(t.frames)-1], res, cm, Val{tag.args[1], pick(recv[1], 1)}, args)
		}
		if fs != nil {
			x.invoke(fs, fs.frames[len(fs.frames)-1], res, cm, Val{tag.args[2], pick(recv[1], 2)}, args)
		}
		return
	}
	x.panicOb(s, "nil interface call", cm.Method.Name(), x.c.Ne(tag, x.c.Lit(0)))
	if s.dead {
		return
	}
	if tag.op == OLit {
		if t := x.typeByTag(tag.k); t != nil {
			if m := x.w.prog.LookupMethod(t, cm.Method.Pkg(), cm.Method.Name()); m != nil {
				rv := x.unbox(s, t, recv[1])
				x.callFn(s, f, res, m, nil, append([]Val{rv}, args...))
				return
			}
		}
	}
	name := typeName(cm.Value.Type()) + "." + cm.Method.Name()
	if ct := x.contractByName("iface " + name); ct != nil {
		x.applyContract(s, f, res, ct, cm.Signature(), recv, args, name)
		return
	}
	if x.modelInvoke(s, f, res, name, cm, recv, args) {
		return
	}
	x.note("interface method " + name + " assumed arbitrary, without effect on package memory")
	x.ret(s, res, x.havocResults(s, cm.Signature(), "iv")...)
}

func (w *World) inPkg(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == w.pkg {
		return true
	}
	return false
}

func (x *Exec) callFn(s *State, f *Frame, res ssa.Value, fn *ssa.Function, binds []Val, args []Val) {
	if (x.w.inPkg(fn) || fn.Synthetic != "") && len(fn.Blocks) > 0 {
		if !x.initMode {
			if ct := x.contractByName(x.w.nameOf(fn)); ct != nil && !ct.inline {
				x.used[ct.fn] = true
				x.checkRank(s, ct, fn, args)
				if s.dead {
					return
				}
				x.applyContract(s, f, res, ct, fn.Signature, nil, args, x.w.nameOf(fn))
				return
			}
		}
		if x.initMode {
			if ct := x.contractByName(x.w.nameOf(fn)); ct != nil && ct.trusted {
				x.ret(s, res, x.havocResults(s, fn.Signature, "ext")...)
				return
			}
		}
		n := 0
		for _, fr := range s.frames {
			if fr.fn == fn {
				n++
			}
		}
		if n > 0 || len(s.frames) > 60 {
			x.fail("recursion without contract: %s", fn)
		}
		if len(s.frames) > x.depthMax {
			x.depthMax = len(s.frames)
		}
		nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], call: res}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, fv := range fn.FreeVars {
			nf.env[fv] = binds[i]
		}
		if !x.initMode {
			x.inlined[x.w.nameOf(fn)] = true
		}
		s.frames = append(s.frames, nf)
		return
	}
	if x.model(s, f, res, fn, args) {
		return
	}
	name := fn.String()
	if ct := x.contractByName("extern " + name); ct != nil {
		x.applyContract(s, f, res, ct, fn.Signature, nil, args, name)
		return
	}
	x.note("external " + name + " assumed arbitrary, without effect on package memory")
	x.ret(s, res, x.havocResults(s, fn.Signature, "ext")...)
}

// checkRank: a call that can come back to the function being verified must lower the declared rank
func (x *Exec) checkRank(s *State, ct *Contract, fn *ssa.Function, args []Val) {
	if x.contr == nil || x.contr.noterm || x.root == nil || !x.w.reaches(fn, x.root) {
		return
	}
	c := x.c
	if ct.decreases == nil || x.contr.decreases == nil {
		x.oblige(s, "termination", "recursive call of "+ct.fn+" without a rank", x.termTags(), c.False())
		return
	}
	ne := &Env{x: x, vars: map[string]SV{}, cur: s.live(), old: s.live(), st: s}
	for i, n := range ct.params {
		ne.vars[n] = SV{t: fn.Params[i].Type(), v: args[i]}
	}
	oe := x.rootEnv(s)
	oe.cur = x.old
	nv, ov := ne.term(ct.decreases.e), oe.term(x.contr.decreases.e)
	x.oblige(s, "termination", "rank decreases at the call of "+ct.fn, x.termTags(), c.And(c.Le(c.Lit(0), nv), c.Lt(nv, ov)))
}

// reaches: can from call to (statically)?
func (w *World) reaches(from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] || !(w.inPkg(f) || f.Synthetic != "") {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(from)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(s *State, f *Frame, res ssa.Value, name string, cm *ssa.CallCommon, args []Val) {
	c := x.c
	switch name {
	case "len", "cap":
		t := cm.Args[0].Type()
		v := args[0]
		var r *Term
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				r = v[2]
			} else {
				r = v[3]
			}
		case *types.Basic:
			r = x.slen(v[0])
		case *types.Array:
			r = c.Lit(u.Len())
		case *types.Pointer:
			a, _ := isArr(u.Elem())
			r = c.Lit(a.Len())
		default:
			r = c.Fresh(name, SInt)
			c.Fact(r, c.Le(c.Lit(0), r))
		}
		x.ret(s, res, Val{r})
	case "append":
		x.appendB(s, f, res, cm, args)
	case "copy":
		dst, src := args[0], args[1]
		et := cm.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isString(cm.Args[1].Type()) {
			n := c.Ite(c.Le(dst[2], x.slen(src[0])), dst[2], x.slen(src[0]))
			a, k := c.Bound("a"), c.Bound("i")
			x.meta(elemName(et), Comp{"", SInt, false, et}, 2)
			x.update(s, elemName(et), []*Term{a, k}, c.And(c.Eq(a, dst[0]), c.Le(dst[1], k), c.Lt(k, c.Add(dst[1], n))), x.sbyte(src[0], c.Sub(k, dst[1])))
			x.ret(s, res, Val{n})
			return
		}
		g := c.Le(dst[2], src[2])
		n := c.Ite(g, dst[2], src[2])
		if b, ok := x.bytesOf[src[0].id]; ok && isByte(et) && src[1].op == OLit && src[1].k == 0 {
			_ = b
			x.note("copy of converted text")
		}
		x.copyElems(s, et, dst[0], dst[1], src[0], src[1], n)
		x.ret(s, res, Val{n})
	case "print", "println":
		x.ret(s, res)
	case "close":
		ch := args[0][0]
		x.panicOb(s, "close of nil channel", "", c.Ne(ch, c.Lit(0)))
		x.meta("chan!closed", Comp{"", SBool, false, nil}, 1)
		x.store(s, "chan!closed", []*Term{ch}, c.True())
		x.ret(s, res)
	case "delete":
		mt := cm.Args[0].Type().Underlying().(*types.Map)
		nm := mapName(mt) + "#has"
		x.meta(nm, Comp{"", SBool, false, nil}, 2)
		x.store(s, nm, []*Term{args[0][0], args[1][0]}, c.False())
		x.ret(s, res)
	case "recover":
		x.ret(s, res, Val{c.Lit(0), c.Lit(0)})
	case "ssa:wrapnilchk":
		x.nilCheck(s, args[0][0], "method value receiver")
		x.ret(s, res, args[0])
	default:
		x.fail("builtin %s", name)
	}
}

func (x *Exec) appendB(s *State, f *Frame, res ssa.Value, cm *ssa.CallCommon, args []Val) {
	c := x.c
	a, b := args[0], args[1]
	et := cm.Args[0].Type().Underlying().(*types.Slice).Elem()
	isStr := isString(cm.Args[1].Type())
	var nb *Term
	if isStr {
		nb = x.slen(b[0])
	} else {
		nb = b[2]
	}
	if nb.op == OLit && nb.k == 0 {
		x.ret(s, res, a)
		return
	}
	na := a[2]
	n := c.Add(na, nb)
	put := func(s *State, arr, at *Term) {
		if isStr {
			ba, k := c.Bound("a"), c.Bound("i")
			x.meta(elemName(et), Comp{"", SInt, false, et}, 2)
			x.update(s, elemName(et), []*Term{ba, k}, c.And(c.Eq(ba, arr), c.Le(at, k), c.Lt(k, c.Add(at, nb))), x.sbyte(b[0], c.Sub(k, at)))
			return
		}
		x.copyElems(s, et, arr, at, b[0], b[1], nb)
	}
	fits := c.Le(n, a[3])
	t, fs := x.split(s, fits)
	if t != nil {
		put(t, a[0], c.Add(a[1], na))
		x.ret(t, res, Val{a[0], a[1], n, a[3]})
	}
	if fs != nil {
		arr := x.alloc(fs)
		x.copyElems(fs, et, arr, c.Lit(0), a[0], a[1], na)
		put(fs, arr, na)
		cp := c.Fresh("cap", SInt)
		x.assume(fs, c.Le(n, cp))
		r := Val{arr, c.Lit(0), n, cp}
		x.ret(fs, res, r)
	}
}

// ---------------------------------------------------------------- goroutines and channels

func (x *Exec) goStmt(s *State, f *Frame, i *ssa.Go) {
	x.note("go statement in " + x.w.nameOf(f.fn) + ": effects of the goroutine not modelled")
	if sf := i.Call.StaticCallee(); sf != nil {
		for k, a := range i.Call.Args {
			_ = k
			x.val(s, a)
		}
	}
}

// chanN: the number of values sent on each channel of an element type (channels of different types are different)
func chanN(et types.Type) string { return "chan!n:" + typeName(canonElem(et)) }

func (x *Exec) initChan(s *State, p *Term, et types.Type) {
	x.gstore(s, chanN(et), SInt, x.c.Lit(0), p)
	x.meta("chan!closed", Comp{"", SBool, false, nil}, 1)
	x.store(s, "chan!closed", []*Term{p}, x.c.False())
}

// chanRule: what holds of every value sent on a channel kept in a field ("iface chan.T.f"): an obligation at a send,
// a fact at a receive
func (x *Exec) chanRule(s *State, ch *Term, t types.Type, v Val, send bool) {
	if ch.op != OApp && ch.op != OVar {
		return
	}
	n := ch.name
	if i := strings.IndexAny(n, "!~"); i >= 0 {
		n = n[:i]
	}
	ct := x.contractByName("iface chan." + n)
	if ct == nil || len(ct.params) != 1 {
		return
	}
	env := &Env{x: x, vars: map[string]SV{ct.params[0]: {t: t, v: v}}, cur: s.live(), old: s.live(), st: s}
	for _, r := range ct.requires {
		env.cur = s.live()
		if send {
			x.oblige(s, "precondition", ct.fn+": "+r.name, r.tags, env.boolean(r.e))
			if s.dead {
				return
			}
		} else {
			x.assumeDef(s, env, x.c.True(), r.e, true)
		}
	}
}

func (x *Exec) chanSend(s *State, ch *Term, t types.Type, v Val) {
	c := x.c
	x.chanRule(s, ch, t, v, true)
	if s.dead {
		return
	}
	n := x.gread(s.live(), chanN(t), SInt, ch)
	x.storeAt(s, "chan!at:"+typeName(canonElem(t)), []*Term{ch, n}, t, v)
	x.gstore(s, chanN(t), SInt, c.AddK(n, 1), ch)
}

func (x *Exec) chanRecv(s *State, ch *Term, t types.Type) Val {
	v := x.freshVal("recv", t, s)
	x.chanRule(s, ch, t, v, false)
	// log of received values
	n := x.gread(s.live(), "recv!n", SInt, ch)
	x.storeAt(s, "recv!at:"+typeName(canonElem(t)), []*Term{ch, n}, t, v)
	x.gstore(s, "recv!n", SInt, x.c.AddK(n, 1), ch)
	// how many values were received in all
	x.gstore(s, "ghost:recvs", SInt, x.c.AddK(x.gread(s.live(), "ghost:recvs", SInt, x.c.Lit(0)), 1), x.c.Lit(0))
	return v
}

func (x *Exec) selectStmt(s *State, f *Frame, i *ssa.Select) {
	c := x.c
	n := len(i.States)
	total := n
	if !i.Blocking {
		total++
	}
	for k := 0; k < total; k++ {
		st := s
		if k < total-1 {
			st = x.fork(s)
		}
		fr := st.frames[len(st.frames)-1]
		idx := int64(k)
		if k == n {
			idx = -1
		}
		out := Val{c.Lit(idx), c.Fresh("recvOk", SBool)}
		for j, cs := range i.States {
			if cs.Dir == types.SendOnly {
				if j == k {
					x.chanSend(st, x.val(st, cs.Chan)[0], cs.Send.Type(), x.val(st, cs.Send))
				}
				continue
			}
			et := cs.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == k {
				out = append(out, x.chanRecv(st, x.val(st, cs.Chan)[0], et)...)
			} else {
				out = append(out, x.zero(et)...)
			}
		}
		fr.env[i] = out
		fr.idx++
	}
}

// ---------------------------------------------------------------- contracts

type modTarget struct {
	name  string
	guard func(bs []*Term) *Term
}

// evalMods computes the locations a contract allows to be modified, in the heap of env.cur
func (x *Exec) evalMods(env *Env, es []*Expr) []modTarget {
	var out []modTarget
	for _, e := range es {
		out = append(out, x.evalMod(env, e, x.c.True())...)
	}
	return out
}

func (x *Exec) evalMod(env *Env, e *Expr, cond *Term) []modTarget {
	c := x.c
	var out []modTarget
	eqG := func(args []*Term) func(bs []*Term) *Term {
		return func(bs []*Term) *Term {
			g := cond
			for i, a := range args {
				g = c.And(g, c.Eq(bs[i], a))
			}
			return g
		}
	}
	whole := func(bs []*Term) *Term { return cond }
	addT := func(name string, args []*Term, t types.Type, arity int) {
		for _, cp := range x.w.flatten(t) {
			x.meta(name+cp.suf, cp, arity)
			if args == nil && arity > 0 {
				out = append(out, modTarget{name + cp.suf, whole})
			} else {
				out = append(out, modTarget{name + cp.suf, eqG(args)})
			}
		}
	}
	addG := func(name string, s Sort, ref bool, args []*Term, arity int) {
		x.meta(name, Comp{"", s, ref, nil}, arity)
		if args == nil && arity > 0 {
			out = append(out, modTarget{name, whole})
		} else {
			out = append(out, modTarget{name, eqG(args)})
		}
	}
	seqG := func(l *Loc) {
		addG(l.name+"!n", SInt, false, l.args, len(l.args))
		addG(l.name+"!at", SInt, false, l.args, len(l.args)+1)
	}
	if e.op == "call" {
		switch e.s {
		case "elems":
			sv := env.eval(e.args[0])
			sl, ok := isSliceT(sv.t)
			if !ok {
				env.bad(e, "elems of non-slice")
			}
			addT(elemName(sl.Elem()), []*Term{sv.v[0]}, sl.Elem(), 2)
			return out
		case "span":
			sv := env.eval(e.args[0])
			sl, ok := isSliceT(sv.t)
			if !ok {
				env.bad(e, "span of non-slice")
			}
			for _, cp := range x.w.flatten(sl.Elem()) {
				x.meta(elemName(sl.Elem())+cp.suf, cp, 2)
				out = append(out, modTarget{elemName(sl.Elem()) + cp.suf, func(bs []*Term) *Term {
					return c.And(cond, c.Eq(bs[0], sv.v[0]), c.Le(sv.v[1], bs[1]), c.Lt(bs[1], c.Add(sv.v[1], sv.v[2])))
				}})
			}
			return out
		case "when":
			return x.evalMod(env, e.args[1], c.And(cond, env.boolean(e.args[0])))
		case "all":
			// all(T.f)
			a := e.args[0]
			if a.op == "sel" {
				t := env.typeOf(exprText(a.args[0]))
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == a.s {
						addT(objName(t)+"."+a.s, nil, st.Field(i).Type(), 1)
						return out
					}
				}
				env.bad(e, "no such field")
			}
			t := env.typeOf(exprText(a))
			addT(objName(t), nil, t, 1)
			return out
		case "allelems":
			t := env.typeOf(strings.Trim(exprText(e.args[0]), "\""))
			addT(elemName(t), nil, t, 2)
			return out
		case "content":
			seqG(env.placeOf(e.args[0]))
			return out
		case "out":
			w := env.eval(e.args[0])
			seqG(&Loc{name: "writer", args: []*Term{w.v[len(w.v)-1]}})
			return out
		case "outs":
			addG("writer!n", SInt, false, nil, 1)
			addG("writer!at", SInt, false, nil, 2)
			return out
		case "sent":
			ch := env.eval(e.args[0])
			et := ch.t.Underlying().(*types.Chan).Elem()
			addG(chanN(et), SInt, false, []*Term{ch.v[0]}, 1)
			addT("chan!at:"+typeName(canonElem(et)), []*Term{ch.v[0]}, et, 2)
			return out
		case "chans":
			addG("chan!closed", SBool, false, nil, 1)
			ts := []types.Type{types.Typ[types.Int32], types.NewStruct(nil, nil), env.typeOf("error")}
			if len(e.args) > 0 { // chans("T"): channels of one element type
				ts = ts[1:2]
				if n := strings.Trim(exprText(e.args[0]), "\""); n != "struct{}" {
					ts = []types.Type{env.typeOf(n)}
				}
			}
			for _, t := range ts {
				addG(chanN(t), SInt, false, nil, 1)
				addT("chan!at:"+typeName(canonElem(t)), nil, t, 2)
				addT("recv!at:"+typeName(canonElem(t)), nil, t, 2)
			}
			addG("recv!n", SInt, false, nil, 1)
			addG("ghost:recvs", SInt, false, nil, 1)
			return out
		case "recv":
			ch := env.eval(e.args[0])
			et := ch.t.Underlying().(*types.Chan).Elem()
			addG("recv!n", SInt, false, []*Term{ch.v[0]}, 1)
			addG("ghost:recvs", SInt, false, nil, 1)
			addT("recv!at:"+typeName(canonElem(et)), []*Term{ch.v[0]}, et, 2)
			return out
		case "held":
			l := env.placeOf(e.args[0])
			addG(l.name+"!held", SBool, false, l.args, len(l.args))
			return out
		case "ghost", "ghostb":
			s := SInt
			if e.s == "ghostb" {
				s = SBool
			}
			var as []*Term
			for _, a := range e.args[1:] {
				as = append(as, env.eval(a).v...)
			}
			addG("ghost:"+e.args[0].s, s, false, as, len(as))
			return out
		case "ghosts": // all instances of a ghost of given arity
			addG("ghost:"+e.args[0].s, SInt, false, nil, int(e.args[1].k))
			return out
		case "list":
			l := env.eval(e.args[0])
			addG("list!lo", SInt, false, l.v[:1], 1)
			addG("list!hi", SInt, false, l.v[:1], 1)
			addG("list!at", SInt, true, l.v[:1], 2)
			// membership data of the elements of this list
			for _, n := range []string{"list!of", "list!lpos"} {
				x.meta(n, Comp{"", SInt, n == "list!of", nil}, 1)
				of := x.node(env.cur.m, "list!of")
				x.meta("list!of", Comp{"", SInt, true, nil}, 1)
				fr := x.frontierH(env.cur)
				out = append(out, modTarget{n, func(bs []*Term) *Term {
					// new elements may be among them
					return c.And(cond, c.Or(c.Eq(x.read(of, bs[:1]), l.v[0]), c.Lt(fr, bs[0])))
				}})
			}
			return out
		case "file":
			p := env.eval(e.args[0])
			_ = p
		}
		if d, ok := x.w.specs.defs[e.s]; ok {
			m := map[string]SV{}
			for i, p := range d.params {
				m[p] = env.eval(e.args[i])
			}
			n := *env
			n.vars = m
			return x.evalMod(&n, d.body, cond)
		}
		env.bad(e, "unknown modifies item %s", e.s)
	}
	if e.op == "seqlit" {
		for _, a := range e.args {
			out = append(out, x.evalMod(env, a, cond)...)
		}
		return out
	}
	sv := env.eval(e)
	l := sv.loc
	if l == nil {
		if e.op == "id" && sv.t != nil {
			if o := x.w.tpkg.Scope().Lookup(e.s); o != nil {
				addT("G:"+o.Name(), nil, o.Type(), 0)
				return out
			}
		}
		env.bad(e, "not a place")
	}
	addT(l.name, l.args, l.t, len(l.args))
	if len(l.args) > 0 {
		return out
	}
	return out
}

func (x *Exec) applyContract(s *State, f *Frame, res ssa.Value, ct *Contract, sig *types.Signature, recv Val, args []Val, what string) {
	c := x.c
	env := &Env{x: x, vars: map[string]SV{}, cur: s.live(), old: s.live(), st: s}
	var ptypes []types.Type
	if sig.Recv() != nil && recv == nil {
		ptypes = append(ptypes, sig.Recv().Type())
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			if !ct.nilok {
				x.nilCheck(s, args[0][0], "receiver of "+what)
			}
			if s.dead {
				return
			}
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	names := ct.params
	if recv != nil {
		if len(names) > 0 {
			env.vars[names[0]] = SV{v: recv, t: types.NewInterfaceType(nil, nil)}
			names = names[1:]
		}
	}
	if len(names) != len(ptypes) && len(names) != 0 {
		x.fail("contract of %s: %d parameters, function has %d", ct.fn, len(names), len(ptypes))
	}
	for i, n := range names {
		env.vars[n] = SV{t: ptypes[i], v: args[i]}
	}
	for _, l := range ct.lets {
		env.vars[l.name] = env.eval(l.e)
	}
	granted := false
	if x.contr != nil {
		for _, g := range x.contr.grants {
			granted = granted || g == ct.fn
		}
	}
	for _, r := range ct.requires {
		if granted {
			break
		}
		if x.dry > 0 && x.contr != nil && x.contr.cut != "" {
			continue // not needed to find out what is written
		}
		env.cur = s.live()
		x.oblige(s, "precondition", ct.fn+": "+r.name, r.tags, env.boolean(r.e))
		if s.dead {
			return
		}
	}
	old := s.snap()
	env.old = old
	env.cur = old
	// re-bind lets over the frozen pre-state
	for _, l := range ct.lets {
		env.vars[l.name] = env.eval(l.e)
	}
	targets := x.evalMods(env, ct.modifies)
	if !ct.noalloc {
		x.bumpFrontier(s)
	}
	x.havoc(s, targets)
	var vals []Val
	for i, t := range x.resultTypes(sig) {
		v := x.freshVal("r."+shortFn(ct.fn), t, s)
		vals = append(vals, v)
		if i < len(ct.results) {
			env.vars[ct.results[i]] = SV{t: t, v: v}
		}
	}
	env.st = s
	x.ncalls++
	env.callNo = x.ncalls
	env.plain = granted
	for _, e := range append(append([]Clause(nil), ct.ensures...), ct.assumes...) {
		x.assumeDef(s, env, c.True(), e.e, true)
		if s.dead {
			return
		}
	}
	x.ret(s, res, vals...)
}

func shortFn(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// havoc gives fresh contents to the target locations
func (x *Exec) havoc(s *State, targets []modTarget) {
	c := x.c
	if len(targets) == 0 {
		return
	}
	ver := c.FreshName("h")
	// group the guards per map
	var order []string
	by := map[string][]modTarget{}
	for _, t := range targets {
		if _, ok := by[t.name]; !ok {
			order = append(order, t.name)
		}
		by[t.name] = append(by[t.name], t)
	}
	for _, n := range order {
		m := x.metas[n]
		if m == nil {
			x.fail("no meta for %s", n)
		}
		sym := n + "!" + ver
		nb := x.newBase(n, sym, s.aIdx, s.aK)
		var bs []*Term
		for i := 0; i < m.arity; i++ {
			bs = append(bs, c.Bound(fmt.Sprintf("a%d", i)))
		}
		g := c.False()
		for _, t := range by[n] {
			g = c.Or(g, t.guard(bs))
		}
		x.symUB[sym] = ubound{s.aIdx, s.aK}
		if m.arity == 0 {
			if g.op == OTrue {
				s.heap[n] = nb
				x.recordWrite(n, []*Term{}, nil, nil, s)
				continue
			}
		}
		if g.op == OTrue {
			x.nnode++
			s.heap[n] = nb
			x.recordWrite(n, nil, bs, g, s)
			continue
		}
		v := c.App(sym, m.sort, bs...)
		if v.op == OVar && m.ref {
			c.ub[v.id] = ubound{s.aIdx, s.aK}
		}
		x.update(s, n, bs, g, v)
	}
}
