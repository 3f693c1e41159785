package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Seq struct {
	n  *Term
	at func(*Term) Val
	et types.Type
	// memory-backed sequences
	mem string
	pre []*Term
	off *Term
	h   *Heap
}

type SV struct {
	t    types.Type
	v    Val
	h    *Heap
	seq  *Seq
	loc  *Loc
	nil_ bool
	fv   bool // a captured variable: the name stands for what it holds
}

type Env struct {
	plain  bool // only statements without quantifiers are assumed
	x      *Exec
	vars   map[string]SV
	cur    *Heap
	old    *Heap
	st     *State
	depth  int
	callNo int  // number of the call whose clauses are evaluated, 0 for the function under verification
	defs   bool // evaluating a definitional axiom
}

func (e *Env) with(vars map[string]SV) *Env {
	n := *e
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}
func (e *Env) at(h *Heap) *Env {
	n := *e
	n.cur = h
	return &n
}

func (e *Env) bad(x *Expr, f string, a ...interface{}) {
	panic(specErr(x.pos + ": " + fmt.Sprintf(f, a...)))
}

func intSV(t *Term) SV { return SV{v: Val{t}} }

func (e *Env) term(x *Expr) *Term {
	sv := e.eval(x)
	if sv.seq != nil || len(sv.v) != 1 {
		e.bad(x, "expected a scalar")
	}
	return sv.v[0]
}
func (e *Env) boolean(x *Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		e.bad(x, "expected a boolean")
	}
	return t
}

func isSliceT(t types.Type) (*types.Slice, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Slice)
	return s, ok
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok && a.Len() > 0 && a.Len() <= 64
}

func (e *Env) isSeq(sv SV) bool {
	if sv.seq != nil {
		return true
	}
	if _, ok := isSliceT(sv.t); ok {
		return true
	}
	return sv.t != nil && isString(sv.t)
}

func (e *Env) seqOf(x *Expr, sv SV) *Seq {
	if sv.seq != nil {
		return sv.seq
	}
	if sl, ok := isSliceT(sv.t); ok {
		h := sv.h
		if h == nil {
			h = e.cur
		}
		et := sl.Elem()
		ex := e.x
		return &Seq{n: sv.v[2], et: et, mem: elemName(et), pre: []*Term{sv.v[0]}, off: sv.v[1], h: h,
			at: func(i *Term) Val { return ex.elemAt(h, et, sv.v, i) }}
	}
	if sv.t != nil && isString(sv.t) {
		s := sv.v[0]
		ex := e.x
		return &Seq{n: ex.rlen(s), et: types.Typ[types.Int32], at: func(i *Term) Val { return Val{ex.rat(s, i)} }}
	}
	if a, ok := arrayOf(sv.t); ok && len(sv.v) > 0 && len(sv.v)%int(a.Len()) == 0 {
		n := len(sv.v) / int(a.Len())
		c := e.x.c
		return &Seq{n: c.Lit(a.Len()), et: a.Elem(), at: func(i *Term) Val {
			if i.op == OLit && 0 <= i.k && i.k < a.Len() {
				return sv.v[int(i.k)*n : int(i.k+1)*n]
			}
			out := append(Val{}, sv.v[:n]...)
			for k := 1; k < int(a.Len()); k++ {
				for j := range out {
					out[j] = c.Ite(c.Eq(i, c.Lit(int64(k))), sv.v[k*n+j], out[j])
				}
			}
			return out
		}}
	}
	if sv.nil_ {
		return &Seq{n: e.x.c.Lit(0), at: func(i *Term) Val { return Val{e.x.c.Lit(0)} }}
	}
	e.bad(x, "expected a sequence")
	return nil
}

func (e *Env) typeOf(s string) types.Type {
	x := e.x
	tv, err := types.Eval(x.w.fset, x.w.tpkg, token.NoPos, s)
	if err == nil && tv.IsType() {
		return tv.Type
	}
	// qualified names of imports
	star := 0
	n := s
	for strings.HasPrefix(n, "*") {
		n = n[1:]
		star++
	}
	if i := strings.Index(n, "."); i > 0 {
		for _, p := range x.w.tpkg.Imports() {
			if p.Name() == n[:i] {
				if o := p.Scope().Lookup(n[i+1:]); o != nil {
					t := o.Type()
					for ; star > 0; star-- {
						t = types.NewPointer(t)
					}
					return t
				}
			}
		}
	}
	panic(specErr("unknown type " + s))
}

func (e *Env) lookup(x *Expr) SV {
	ex := e.x
	if v, ok := e.vars[x.s]; ok {
		if v.fv {
			return e.loadLoc(ex.place(v.v[0], v.t.Underlying().(*types.Pointer).Elem()))
		}
		if _, isS := isSliceT(v.t); isS && v.h == nil {
			v.h = e.cur
		}
		return v
	}
	switch x.s {
	case "true":
		return intSV(ex.c.True())
	case "false":
		return intSV(ex.c.False())
	case "nil":
		return SV{v: Val{ex.c.Lit(0)}, nil_: true}
	}
	if o := ex.w.tpkg.Scope().Lookup(x.s); o != nil {
		return e.object(x, o)
	}
	e.bad(x, "unknown name %s", x.s)
	return SV{}
}

func (e *Env) object(x *Expr, o types.Object) SV {
	ex := e.x
	switch o := o.(type) {
	case *types.Const:
		if o.Val().Kind() == constant.Int {
			if k, ok := constant.Int64Val(o.Val()); ok {
				return intSV(ex.c.Lit(k))
			}
		}
		if o.Val().Kind() == constant.String {
			return SV{t: types.Typ[types.String], v: Val{ex.strConst(constant.StringVal(o.Val()))}}
		}
	case *types.Var:
		name := "G:" + o.Name()
		if o.Pkg() != ex.w.tpkg {
			name = "G:" + o.Pkg().Path() + "." + o.Name()
		} else if m, ok := ex.w.pkg.Members[o.Name()].(*ssa.Global); ok {
			if v, ok := ex.globals[m]; ok && !ex.initMode {
				return SV{t: o.Type(), v: v, h: e.cur}
			}
		}
		return SV{t: o.Type(), v: ex.loadAt(e.cur, name, nil, o.Type()), h: e.cur}
	case *types.Func:
		if fn := ex.w.funcs[o.Name()]; fn != nil {
			t := ex.c.Var("fn:"+fn.String(), SInt)
			ex.c.closures[t.id] = &Closure{fn: fn}
			return SV{v: Val{t}}
		}
	}
	e.bad(x, "unsupported object %s", o.Name())
	return SV{}
}

// field selects a field from a struct value or pointer
func (e *Env) field(x *Expr, sv SV, name string) SV {
	ex := e.x
	t := sv.t
	if t == nil {
		e.bad(x, "selection .%s on untyped value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, ex.w.tpkg, name)
	if obj == nil {
		e.bad(x, "no field %s in %s", name, t)
	}
	if _, ok := obj.(*types.Var); !ok {
		e.bad(x, "%s is not a field of %s", name, t)
	}
	cur := sv
	for _, idx := range path {
		if pt, ok := cur.t.Underlying().(*types.Pointer); ok {
			l := ex.place(cur.v[0], pt.Elem())
			st := pt.Elem().Underlying().(*types.Struct)
			f := st.Field(idx)
			cur = e.loadLoc(&Loc{name: l.name + "." + f.Name(), args: l.args, t: f.Type()})
			continue
		}
		st, ok := cur.t.Underlying().(*types.Struct)
		if !ok {
			e.bad(x, "selection on %s", cur.t)
		}
		f := st.Field(idx)
		if cur.loc != nil {
			cur = e.loadLoc(&Loc{name: cur.loc.name + "." + f.Name(), args: cur.loc.args, t: f.Type()})
			continue
		}
		a, b := ex.w.fieldRange(st, idx)
		cur = SV{t: f.Type(), v: cur.v[a:b], h: cur.h}
	}
	return cur
}

func (e *Env) loadLoc(l *Loc) SV {
	return SV{t: l.t, v: e.x.loadAt(e.cur, l.name, l.args, l.t), h: e.cur, loc: l}
}

// place evaluates an expression to a location
func (e *Env) placeOf(x *Expr) *Loc {
	sv := e.eval(x)
	if sv.loc != nil {
		return sv.loc
	}
	if sv.t != nil {
		if pt, ok := sv.t.Underlying().(*types.Pointer); ok {
			return e.x.place(sv.v[0], pt.Elem())
		}
	}
	e.bad(x, "not a place")
	return nil
}

func (e *Env) eval(x *Expr) SV {
	ex := e.x
	c := ex.c
	switch x.op {
	case "int":
		return intSV(c.Lit(x.k))
	case "big":
		return intSV(c.Var("bigconst:"+x.s, SInt))
	case "str":
		return SV{t: types.Typ[types.String], v: Val{ex.strConst(x.s)}}
	case "id":
		return e.lookup(x)
	case "sel":
		if x.args[0].op == "id" {
			if _, ok := e.vars[x.args[0].s]; !ok && ex.w.tpkg.Scope().Lookup(x.args[0].s) == nil {
				for _, p := range ex.w.tpkg.Imports() {
					if p.Name() == x.args[0].s {
						if o := p.Scope().Lookup(x.s); o != nil {
							return e.object(x, o)
						}
					}
				}
			}
		}
		return e.field(x, e.eval(x.args[0]), x.s)
	case "deref":
		sv := e.eval(x.args[0])
		pt, ok := sv.t.Underlying().(*types.Pointer)
		if !ok {
			e.bad(x, "dereference of %s", sv.t)
		}
		return e.loadLoc(ex.place(sv.v[0], pt.Elem()))
	case "assert":
		sv := e.eval(x.args[0])
		t := e.typeOf(x.s)
		if len(sv.v) != 2 {
			e.bad(x, "type assertion on non-interface")
		}
		if isPtrLike(t) {
			return SV{t: t, v: Val{sv.v[1]}}
		}
		e.bad(x, "unsupported assertion")
	case "idx":
		sv := e.eval(x.args[0])
		i := e.term(x.args[1])
		sq := e.seqOf(x, sv)
		return SV{t: sq.et, v: sq.at(i), h: sq.h}
	case "slice":
		sv := e.eval(x.args[0])
		var lo, hi *Term
		if x.args[1] != nil {
			lo = e.term(x.args[1])
		} else {
			lo = c.Lit(0)
		}
		if _, ok := isSliceT(sv.t); ok && sv.seq == nil {
			if x.args[2] != nil {
				hi = e.term(x.args[2])
			} else {
				hi = sv.v[2]
			}
			return SV{t: sv.t, v: Val{sv.v[0], c.Add(sv.v[1], lo), c.Sub(hi, lo), c.Sub(sv.v[3], lo)}, h: sv.h}
		}
		sq := e.seqOf(x, sv)
		if x.args[2] != nil {
			hi = e.term(x.args[2])
		} else {
			hi = sq.n
		}
		n := *sq
		n.n = c.Sub(hi, lo)
		n.at = func(i *Term) Val { return sq.at(c.Add(i, lo)) }
		if sq.off != nil {
			n.off = c.Add(sq.off, lo)
		}
		return SV{seq: &n}
	case "seqlit":
		var vals []Val
		var et types.Type
		for _, a := range x.args {
			sv := e.eval(a)
			vals = append(vals, sv.v)
			et = sv.t
		}
		return SV{seq: &Seq{n: c.Lit(int64(len(vals))), et: et, at: func(i *Term) Val {
			if len(vals) == 0 {
				return Val{c.Lit(0)}
			}
			r := append(Val(nil), vals[len(vals)-1]...)
			for k := len(vals) - 2; k >= 0; k-- {
				g := c.Eq(i, c.Lit(int64(k)))
				for j := range r {
					r[j] = c.Ite(g, vals[k][j], r[j])
				}
			}
			return r
		}}}
	case "compr":
		n := e.term(x.args[0])
		return SV{seq: &Seq{n: n, at: func(i *Term) Val {
			return e.with(map[string]SV{x.vars[0]: intSV(i)}).eval(x.args[1]).v
		}}}
	case "un":
		sv := e.term(x.args[0])
		if x.s == "!" {
			return intSV(c.Not(sv))
		}
		return intSV(c.MulK(sv, -1))
	case "tern":
		g := e.boolean(x.args[0])
		if g.op == OTrue {
			return e.eval(x.args[1])
		}
		if g.op == OFalse {
			return e.eval(x.args[2])
		}
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		if (a.seq != nil || b.seq != nil) || (e.isSeq(a) && e.isSeq(b) && a.h != b.h) {
			sa, sb := e.seqOf(x, a), e.seqOf(x, b)
			et := sa.et
			return SV{seq: &Seq{n: c.Ite(g, sa.n, sb.n), et: et, at: func(i *Term) Val {
				u, v := sa.at(i), sb.at(i)
				if len(u) != len(v) {
					if sa.n.op == OLit && sa.n.k == 0 {
						return v
					}
					return u
				}
				r := make(Val, len(u))
				for k := range u {
					r[k] = c.Ite(g, u[k], v[k])
				}
				return r
			}}}
		}
		if a.nil_ && !b.nil_ {
			a.v = ex.zero(b.t)
			a.t = b.t
		}
		if b.nil_ && !a.nil_ {
			b.v = ex.zero(a.t)
		}
		if len(a.v) != len(b.v) {
			e.bad(x, "branches of different shape")
		}
		r := SV{t: a.t, h: a.h}
		if r.t == nil {
			r.t = b.t
		}
		for k := range a.v {
			r.v = append(r.v, c.Ite(g, a.v[k], b.v[k]))
		}
		return r
	case "forall", "exists":
		m := map[string]SV{}
		var bs []*Term
		for _, v := range x.vars {
			ex.nbound++
			b := c.Bound(fmt.Sprintf("%s.%d", v, ex.nbound))
			bs = append(bs, b)
			m[v] = intSV(b)
		}
		body := e.with(m).boolean(x.args[0])
		if x.op == "forall" {
			return intSV(c.Forall(bs, body))
		}
		return intSV(c.Exists(bs, body))
	case "bin":
		return e.bin(x)
	case "call":
		return e.call(x)
	}
	e.bad(x, "cannot evaluate %s", x.op)
	return SV{}
}

func (e *Env) bin(x *Expr) SV {
	c := e.x.c
	switch x.s {
	case "&&":
		a := e.boolean(x.args[0])
		if a.op == OFalse {
			return intSV(a)
		}
		return intSV(c.And(a, e.boolean(x.args[1])))
	case "||":
		a := e.boolean(x.args[0])
		if a.op == OTrue {
			return intSV(a)
		}
		return intSV(c.Or(a, e.boolean(x.args[1])))
	case "==>":
		a := e.boolean(x.args[0])
		if a.op == OFalse {
			return intSV(c.True())
		}
		return intSV(c.Imp(a, e.boolean(x.args[1])))
	case "<==>":
		return intSV(c.Iff(e.boolean(x.args[0]), e.boolean(x.args[1])))
	case "==", "!=":
		r := e.equal(x, e.eval(x.args[0]), e.eval(x.args[1]))
		if x.s == "!=" {
			r = c.Not(r)
		}
		return intSV(r)
	case "++":
		a, b := e.seqOf(x, e.eval(x.args[0])), e.seqOf(x, e.eval(x.args[1]))
		if a.n.op == OLit && a.n.k == 0 {
			return SV{seq: b}
		}
		if b.n.op == OLit && b.n.k == 0 {
			return SV{seq: a}
		}
		et := a.et
		if et == nil {
			et = b.et
		}
		return SV{seq: &Seq{n: c.Add(a.n, b.n), et: et, at: func(i *Term) Val {
			u, v := a.at(i), b.at(c.Sub(i, a.n))
			r := make(Val, len(u))
			g := c.Lt(i, a.n)
			for k := range u {
				r[k] = c.Ite(g, u[k], v[k])
			}
			return r
		}}}
	}
	a, b := e.term(x.args[0]), e.term(x.args[1])
	switch x.s {
	case "+":
		return intSV(c.Add(a, b))
	case "-":
		return intSV(c.Sub(a, b))
	case "*":
		return intSV(c.Mul(a, b))
	case "/":
		return intSV(c.Div(a, b))
	case "%":
		return intSV(c.Mod(a, b))
	case "<":
		return intSV(c.Lt(a, b))
	case "<=":
		return intSV(c.Le(a, b))
	case ">":
		return intSV(c.Gt(a, b))
	case ">=":
		return intSV(c.Ge(a, b))
	}
	e.bad(x, "operator %s", x.s)
	return SV{}
}

func (e *Env) equal(x *Expr, a, b SV) *Term {
	c := e.x.c
	if a.nil_ {
		a, b = b, a
	}
	if b.nil_ {
		return c.Eq(a.v[0], c.Lit(0))
	}
	if a.t != nil && b.t != nil && isString(a.t) && isString(b.t) {
		return e.x.strEq(e.st, a.v[0], b.v[0])
	}
	if e.isSeq(a) && e.isSeq(b) {
		sa, sb := e.seqOf(x, a), e.seqOf(x, b)
		return e.seqEq(sa, sb)
	}
	if len(a.v) != len(b.v) {
		e.bad(x, "comparison of values of different shape")
	}
	var es []*Term
	for i := range a.v {
		es = append(es, c.Eq(a.v[i], b.v[i]))
	}
	return c.And(es...)
}

func (e *Env) seqEq(a, b *Seq) *Term {
	c := e.x.c
	ln := c.Eq(a.n, b.n)
	if ln.op == OFalse {
		return ln
	}
	n := a.n
	if b.n.op == OLit {
		n = b.n
	}
	if n.op == OLit && n.k <= 8 {
		es := []*Term{ln}
		for i := int64(0); i < n.k; i++ {
			u, v := a.at(c.Lit(i)), b.at(c.Lit(i))
			for j := range u {
				es = append(es, c.Eq(u[j], v[j]))
			}
		}
		return c.And(es...)
	}
	e.x.nbound++
	k := c.Bound(fmt.Sprintf("q.%d", e.x.nbound))
	u, v := a.at(k), b.at(k)
	var es []*Term
	for j := range u {
		es = append(es, c.Eq(u[j], v[j]))
	}
	return c.And(ln, c.Forall([]*Term{k}, c.Imp(c.And(c.Le(c.Lit(0), k), c.Lt(k, n)), c.And(es...))))
}

func (e *Env) ghostSeq(l *Loc, suffix string, h *Heap) *Seq {
	ex := e.x
	nm := l.name + suffix
	ex.meta(nm+"!n", Comp{"", SInt, false, nil}, len(l.args))
	ex.meta(nm+"!at", Comp{"", SInt, false, nil}, len(l.args)+1)
	n := ex.read(ex.node(h.m, nm+"!n"), l.args)
	ex.c.Fact(n, ex.c.Le(ex.c.Lit(0), n))
	args := l.args
	return &Seq{n: n, mem: nm + "!at", pre: args, off: ex.c.Lit(0), h: h, at: func(i *Term) Val {
		return Val{ex.read(ex.node(h.m, nm+"!at"), append(append([]*Term{}, args...), i))}
	}}
}

func (e *Env) call(x *Expr) SV {
	ex := e.x
	c := ex.c
	if d, ok := ex.w.specs.defs[x.s]; ok {
		if len(d.params) != len(x.args) {
			e.bad(x, "%s wants %d arguments", x.s, len(d.params))
		}
		if e.depth > 30 {
			e.bad(x, "recursive definition %s", x.s)
		}
		m := map[string]SV{}
		for i, p := range d.params {
			m[p] = e.eval(x.args[i])
		}
		n := *e
		n.vars = m
		n.depth++
		return n.eval(d.body)
	}
	arg := func(i int) SV {
		if i >= len(x.args) {
			e.bad(x, "missing argument of %s", x.s)
		}
		return e.eval(x.args[i])
	}
	switch x.s {
	case "old":
		if e.old == nil {
			e.bad(x, "old() has no meaning here")
		}
		return e.at(e.old).eval(x.args[0])
	case "len":
		sv := arg(0)
		if sv.t != nil && isString(sv.t) && sv.seq == nil {
			return intSV(ex.slen(sv.v[0]))
		}
		return intSV(e.seqOf(x, sv).n)
	case "rlen":
		return intSV(e.seqOf(x, arg(0)).n)
	case "bufsrc": // the reader behind a buffered reader, the writer behind a buffered writer
		if types.TypeString(arg(0).t, nil) == "*bufio.Writer" {
			return intSV(ex.gread(e.cur, "bufio!t", SInt, arg(0).v[0]))
		}
		return intSV(ex.gread(e.cur, "bufio!src", SInt, arg(0).v[0]))
	case "cap":
		return intSV(arg(0).v[3])
	case "arr", "ref":
		return intSV(arg(0).v[0])
	case "off":
		return intSV(arg(0).v[1])
	case "tag":
		return intSV(arg(0).v[0])
	case "data":
		return intSV(arg(0).v[1])
	case "seq":
		return SV{seq: e.seqOf(x, arg(0))}
	case "same": // same slice header / identical value
		a, b := arg(0), arg(1)
		var es []*Term
		for i := range a.v {
			es = append(es, c.Eq(a.v[i], b.v[i]))
		}
		return intSV(c.And(es...))
	case "fresh":
		sv := arg(0)
		g := c.Lt(ex.frontierH(e.old), sv.v[0])
		if _, ok := isSliceT(sv.t); ok {
			g = c.Or(g, c.Eq(sv.v[3], c.Lit(0)))
		}
		return intSV(g)
	case "is":
		t := e.typeOf(exprText(x.args[1]))
		return intSV(c.Eq(arg(0).v[0], ex.tagOf(t)))
	case "min", "max":
		a, b := e.term(x.args[0]), e.term(x.args[1])
		g := c.Le(a, b)
		if x.s == "max" {
			g = c.Le(b, a)
		}
		return intSV(c.Ite(g, a, b))
	case "rep":
		v := arg(0)
		return SV{seq: &Seq{n: e.term(x.args[1]), et: v.t, at: func(i *Term) Val { return v.v }}}
	case "vr":
		return intSV(ex.vr(e.term(x.args[0])))
	case "vrs": // sequence with every rune sanitised as string() does
		s := e.seqOf(x, arg(0))
		return SV{seq: &Seq{n: s.n, et: s.et, at: func(i *Term) Val { return Val{ex.vr(s.at(i)[0])} }}}
	case "content":
		return SV{seq: e.ghostSeq(e.placeOf(x.args[0]), "", e.cur)}
	case "out": // content written to an interface writer
		w := arg(0)
		return SV{seq: e.ghostSeq(&Loc{name: "writer", args: []*Term{w.v[len(w.v)-1]}}, "", e.cur)}
	case "sent": // number of values sent on a channel
		ch := arg(0)
		n := chanN(ch.t.Underlying().(*types.Chan).Elem())
		ex.meta(n, Comp{"", SInt, false, nil}, 1)
		return intSV(ex.read(ex.node(e.cur.m, n), []*Term{ch.v[0]}))
	case "sentval": // i-th value sent
		ch := arg(0)
		et := ch.t.Underlying().(*types.Chan).Elem()
		return SV{t: et, v: ex.loadAt(e.cur, "chan!at:"+typeName(canonElem(et)), []*Term{ch.v[0], e.term(x.args[1])}, et), h: e.cur}
	case "rcvd": // number of values received from a channel
		ch := arg(0)
		ex.meta("recv!n", Comp{"", SInt, false, nil}, 1)
		return intSV(ex.read(ex.node(e.cur.m, "recv!n"), []*Term{ch.v[0]}))
	case "rcvval": // i-th value received
		ch := arg(0)
		et := ch.t.Underlying().(*types.Chan).Elem()
		return SV{t: et, v: ex.loadAt(e.cur, "recv!at:"+typeName(canonElem(et)), []*Term{ch.v[0], e.term(x.args[1])}, et), h: e.cur}
	case "held":
		l := e.placeOf(x.args[0])
		ex.meta(l.name+"!held", Comp{"", SBool, false, nil}, len(l.args))
		return intSV(ex.read(ex.node(e.cur.m, l.name+"!held"), l.args))
	case "addr": // address of a field, as an integer
		l := e.placeOf(x.args[0])
		return SV{t: types.NewPointer(l.t), v: Val{ex.addr(l.name, l.args, l.t)}}
	case "ghost", "ghostb":
		name := "ghost:" + x.args[0].s
		var as []*Term
		for i := range x.args[1:] {
			as = append(as, arg(i+1).v...)
		}
		s := SInt
		if x.s == "ghostb" {
			s = SBool
		}
		ex.meta(name, Comp{"", s, false, nil}, len(as))
		return intSV(ex.read(ex.node(e.cur.m, name), as))
	case "inT":
		return intSV(c.App("inTable", SBool, arg(0).v[0], e.term(x.args[1])))
	case "rwidth":
		return intSV(ex.rwidth(e.cur, e.term(x.args[0])))
	case "wsum":
		return intSV(ex.wsum(e.cur, e.seqOf(x, arg(0))))
	case "count":
		v := e.term(x.args[1])
		if v.op != OLit {
			ex.fail("count of a value that is not a constant")
		}
		return intSV(ex.count(e.seqOf(x, arg(0)), v.k))
	case "runesof":
		a := arg(0)
		if _, ok := ex.bytesOf[a.v[0].id]; !ok {
			arr := a.v[0]
			n := c.App("btn", SInt, arr)
			c.Fact(n, c.Le(c.Lit(0), n))
			ex.bytesOf[arr.id] = &bseq{arr, n, func(i *Term) *Term { return c.App("btat", SInt, arr, i) }, a.v[1]}
		}
		n, at := ex.byteContent(e.cur, a.v)
		return SV{seq: &Seq{n: n, at: func(i *Term) Val { return Val{at(i)} }, et: types.Typ[types.Int32]}}
	case "lo", "hi", "lpos":
		l := arg(0)
		return intSV(ex.gread(e.cur, "list!"+x.s, SInt, l.v[0]))
	case "llist":
		return SV{t: e.typeOf("*list.List"), v: Val{ex.gread(e.cur, "list!of", SInt, arg(0).v[0])}}
	case "lat":
		l := arg(0)
		return SV{t: e.typeOf("*list.Element"), v: Val{ex.listAt(e.cur, l.v[0], e.term(x.args[1]))}}
	case "implements":
		t := e.typeOf(exprText(x.args[1]))
		return intSV(ex.implTerm(e.st, arg(0).v, t.Underlying().(*types.Interface)))
	case "closureof": // closureof(f, "(*T).M"): f is that method bound to a receiver, or a closure of that function
		return intSV(c.Eq(c.App("clo!fn", SInt, arg(0).v[0]), c.Lit(ex.w.cloID(strings.Trim(exprText(x.args[1]), "\"")))))
	case "bind": // bind(f, i): i-th value captured by the closure f
		return intSV(c.App(fmt.Sprintf("clo!b%d", e.term(x.args[1]).k), SInt, arg(0).v[0]))
	case "fnval": // fnval("f"): the function f as a value
		n := strings.Trim(exprText(x.args[0]), "\"")
		fn := ex.w.funcs[n]
		if fn == nil {
			e.bad(x, "no such function")
		}
		return intSV(c.Var("fn:"+fn.String(), SInt))
	case "substr":
		return SV{t: types.Typ[types.String], v: Val{c.App("substr", SInt, arg(0).v[0], e.term(x.args[1]), e.term(x.args[2]))}}
	case "concat":
		return SV{t: types.Typ[types.String], v: Val{ex.concat(e.st, arg(0).v[0], arg(1).v[0])}}
	case "slice": // slice(T, array, offset, length): the slice of element type T with these parts
		l := e.term(x.args[3])
		return SV{t: types.NewSlice(e.typeOf(exprText(x.args[0]))), v: Val{e.term(x.args[1]), e.term(x.args[2]), l, l}, h: e.cur}
	case "typed": // typed(T, intexpr)
		return SV{t: e.typeOf(exprText(x.args[0])), v: e.eval(x.args[1]).v}
	case "alive":
		// reference allocated in the pre-state
		return intSV(c.Le(arg(0).v[0], ex.frontierH(e.old)))
	case "before": // reference allocated when the function under verification was entered
		return intSV(c.Le(arg(0).v[0], ex.oldA))
	case "alloc":
		return intSV(c.Le(arg(0).v[0], ex.frontierH(e.cur)))
	case "atoi": // what strconv.Atoi makes of a string, and whether it is a number
		return intSV(c.App("atoi", SInt, arg(0).v[0]))
	case "isnum":
		return intSV(c.App("atoiok", SBool, arg(0).v[0]))
	case "bitor", "bitxor": // on 16 bit words
		op := token.OR
		if x.s == "bitxor" {
			op = token.XOR
		}
		return intSV(ex.bitop(op, types.Typ[types.Uint16], e.term(x.args[0]), e.term(x.args[1])))
	case "bits":
		return intSV(ex.bitop(token.OR, types.Typ[types.Uint32], ex.bitop(token.AND_NOT, types.Typ[types.Uint32], e.term(x.args[0]), e.term(x.args[1])), e.term(x.args[2])))
	}
	if s, ok := ex.w.specs.ufs[x.s]; ok {
		var as []*Term
		for i := range x.args {
			a := arg(i)
			if a.seq != nil {
				e.bad(x, "sequence argument of %s", x.s)
			}
			as = append(as, a.v...)
		}
		t := c.App("uf:"+x.s+e.ufTag(x.s), s, as...)
		if isMarker(t) {
			c.Fact(t, t) // markers hold everywhere; they only steer instantiation
		}
		return intSV(t)
	}
	e.bad(x, "unknown function %s", x.s)
	return SV{}
}

// ufTag: a function declared local stands, in the clauses of a called contract, for some function the call
// provides; every call has its own. The first one on a path keeps the plain name, unless the function under
// verification defines it itself or the call is inside a loop.
func (e *Env) ufTag(name string) string {
	if !e.x.w.specs.ufLocal[name] || e.st == nil {
		return ""
	}
	if e.callNo == 0 {
		if e.defs {
			if e.st.owner == nil {
				e.st.owner = map[string]int{}
			}
			e.st.owner[name] = -1
		}
		return ""
	}
	o, ok := e.st.owner[name]
	if !ok {
		for _, f := range e.st.frames {
			if len(f.acts) > 0 {
				return fmt.Sprintf("@%d", e.callNo)
			}
		}
		if e.st.owner == nil {
			e.st.owner = map[string]int{}
		}
		e.st.owner[name] = e.callNo
		o = e.callNo
	}
	if o == e.callNo {
		return ""
	}
	return fmt.Sprintf("@%d", e.callNo)
}

func exprText(x *Expr) string {
	switch x.op {
	case "str":
		return x.s
	case "id":
		return x.s
	case "sel":
		return exprText(x.args[0]) + "." + x.s
	case "deref":
		return "*" + exprText(x.args[0])
	}
	return x.s
}

func (x *Exec) gread(h *Heap, name string, s Sort, args ...*Term) *Term {
	x.meta(name, Comp{"", s, name == "list!of" || name == "list!at", nil}, len(args))
	return x.read(x.node(h.m, name), args)
}
func (x *Exec) gstore(s *State, name string, srt Sort, v *Term, args ...*Term) {
	x.meta(name, Comp{"", srt, name == "list!of" || name == "list!at", nil}, len(args))
	x.store(s, name, args, v)
}

func (x *Exec) listAt(h *Heap, l, i *Term) *Term {
	return x.gread(h, "list!at", SInt, l, i)
}

// tabWidth: the width of a tab; the deprecated package gives it the width of any control character
func (x *Exec) tabWidth(h *Heap) *Term {
	if x.w.tpkg.Scope().Lookup("TabWidth") == nil {
		return x.c.Lit(0)
	}
	return x.loadAt(h, "G:TabWidth", nil, types.Typ[types.Int])[0]
}

// rwidth: display width of one rune
func (x *Exec) rwidth(h *Heap, r *Term) *Term {
	c := x.c
	tw := x.tabWidth(h)
	t := c.App("rw", SInt, tw, r)
	def := func(r *Term) *Term {
		in := func(names ...string) *Term {
			var os []*Term
			for _, n := range names {
				g := x.loadAt(h, "G:unicode."+n, nil, types.Typ[types.UnsafePointer])[0]
				os = append(os, c.App("inTable", SBool, g, r))
			}
			return c.Or(os...)
		}
		isTab := c.Eq(r, c.Lit('\t'))
		if x.w.tpkg.Scope().Lookup("TabWidth") == nil {
			isTab = c.False()
		}
		return c.Ite(isTab, tw, c.Ite(in("Mn", "Me", "Cc", "Cf"), c.Lit(0), c.Ite(in("Han", "Hangul", "Hiragana", "Katakana"), c.Lit(2), c.Lit(1))))
	}
	if !r.bound {
		c.Fact(t, c.Eq(t, def(r)))
	}
	return t
}

// wsum: sum of rune widths over a memory-backed sequence
func (x *Exec) wsum(h *Heap, s *Seq) *Term {
	c := x.c
	if s.n.op == OLit && s.n.k <= 4 {
		t := c.Lit(0)
		for i := int64(0); i < s.n.k; i++ {
			t = c.Add(t, x.rwidth(h, s.at(c.Lit(i))[0]))
		}
		return t
	}
	if s.mem == "" || len(s.pre) != 1 {
		x.fail("wsum of a non-memory sequence")
	}
	if s.et != nil {
		x.meta(s.mem, x.w.flatten(s.et)[0], 2)
	}
	n := x.node(s.h.m, s.mem)
	n = x.skipNode(n, s.pre[0])
	tw := x.tabWidth(h)
	name := fmt.Sprintf("wsum!%d!%d", n.id, tw.id)
	if _, ok := x.foldAx[name]; !ok {
		a, l, hh, m := c.Bound("fa"), c.Bound("fl"), c.Bound("fh"), c.Bound("fm")
		f := func(u, v, w *Term) *Term { return c.App(name, SInt, u, v, w) }
		rd := x.read(n, []*Term{a, m})
		w := c.App("rw", SInt, tw, rd)
		x.foldAx[name] = []*Term{
			c.Forall([]*Term{a, l, hh}, c.Imp(c.Le(hh, l), c.Eq(f(a, l, hh), c.Lit(0)))),
			c.Forall([]*Term{a, l, hh, m}, c.Imp(c.And(c.Eq(hh, c.AddK(m, 1)), c.Le(l, m)), c.Eq(f(a, l, hh), c.Add(f(a, l, m), w)))),
			c.Forall([]*Term{a, l, hh, m}, c.Imp(c.And(c.Le(l, m), c.Le(m, hh)), c.Eq(f(a, l, hh), c.Add(f(a, l, m), f(a, m, hh))))),
			c.Forall([]*Term{a, l, hh}, c.Imp(c.Le(c.Lit(0), tw), c.Le(c.Lit(0), f(a, l, hh)))),
		}
		x.foldPat[name] = true
		x.folds[name] = foldInfo{n, tw.id}
	}
	return c.App(name, SInt, s.pre[0], s.off, c.Add(s.off, s.n))
}

// count: how often a value occurs in a sequence; every sequence has its own counting function over index ranges,
// related to the others by the ground instances made in countFacts
type cntInfo struct {
	at func(*Term) *Term
	v  int64
}

func (x *Exec) count(s *Seq, v int64) *Term {
	c := x.c
	if s.n.op == OLit && s.n.k <= 4 {
		t := c.Lit(0)
		for i := int64(0); i < s.n.k; i++ {
			t = c.Add(t, c.Ite(c.Eq(s.at(c.Lit(i))[0], c.Lit(v)), c.Lit(1), c.Lit(0)))
		}
		return t
	}
	if x.cntVar == nil {
		x.cntVar = c.Var("cnt?", SInt)
	}
	el := s.at(x.cntVar)[0]
	if el.bound || s.n.bound {
		x.fail("count under a quantifier")
	}
	name := fmt.Sprintf("cnt!%d!%d", el.id, v)
	x.cnts[name] = &cntInfo{func(i *Term) *Term { return c.Subst(el, map[int]*Term{x.cntVar.id: i}) }, v}
	return c.App(name, SInt, c.Lit(0), s.n)
}

// countFacts: ground facts about the counting functions applied in a query
func (x *Exec) countFacts(apps []*Term) []*Term {
	c := x.c
	var out []*Term
	one := func(f *cntInfo, i *Term) *Term { return c.Ite(c.Eq(f.at(i), c.Lit(f.v)), c.Lit(1), c.Lit(0)) }
	done := map[int]bool{}
	basic := func(t *Term) {
		if t.op != OApp || done[t.id] {
			return
		}
		done[t.id] = true
		f := x.cnts[t.name]
		l, h := t.args[0], t.args[1]
		k := c.App("cnt!w", SInt, c.Lit(int64(t.id)))
		out = append(out, c.Imp(c.Le(h, l), c.Eq(t, c.Lit(0))))
		out = append(out, c.Le(c.Lit(0), t), c.Imp(c.Le(l, h), c.Le(t, c.Sub(h, l))))
		out = append(out, c.Or(c.Eq(t, c.Lit(0)), c.And(c.Le(l, k), c.Lt(k, h), c.Eq(f.at(k), c.Lit(f.v)))))
	}
	mk := func(n string, l, h *Term) *Term { t := c.App(n, SInt, l, h); basic(t); return t }
	// t == the first (up to) two elements + the rest
	front := func(t *Term) {
		if t.op != OApp {
			return
		}
		f := x.cnts[t.name]
		l, h := t.args[0], t.args[1]
		r1 := mk(t.name, c.AddK(l, 1), h)
		out = append(out, c.Imp(c.Lt(l, h), c.Eq(t, c.Add(one(f, l), r1))))
		r2 := mk(t.name, c.AddK(l, 2), h)
		out = append(out, c.Imp(c.Lt(c.AddK(l, 1), h), c.Eq(r1, c.Add(one(f, c.AddK(l, 1)), r2))))
	}
	same := func(a, b *Term) {
		if a == b {
			return
		}
		fa, fb := x.cnts[a.name], x.cnts[b.name]
		k := c.App("cnt!d", SInt, c.Lit(int64(a.id)), c.Lit(int64(b.id)))
		la, lb := a.args[0], b.args[0]
		out = append(out, c.Or(c.Eq(a, b), c.And(c.Le(c.Lit(0), k), c.Lt(k, c.Sub(b.args[1], lb)), c.Ne(fa.at(c.Add(la, k)), fb.at(c.Add(lb, k))))))
	}
	for _, t := range apps {
		basic(t)
		front(t)
	}
	for _, a := range apps {
		for _, b := range apps {
			if a == b || x.cnts[a.name].v != x.cnts[b.name].v {
				continue
			}
			la, ha := a.args[0], a.args[1]
			d := c.Sub(b.args[1], b.args[0])
			fits := c.And(c.Le(c.Lit(0), d), c.Le(d, c.Sub(ha, la)))
			// b as the beginning of a
			m := c.Add(la, d)
			p, r := mk(a.name, la, m), mk(a.name, m, ha)
			out = append(out, c.Imp(fits, c.Eq(a, c.Add(p, r))))
			same(p, b)
			front(r)
			// b as the end of a
			m = c.Sub(ha, d)
			p, r = mk(a.name, la, m), mk(a.name, m, ha)
			out = append(out, c.Imp(fits, c.Eq(a, c.Add(p, r))))
			same(r, b)
			front(p)
		}
	}
	return out
}

// a sum over two versions of the memory: they agree on an array no update in between touches
type foldInfo struct {
	n  *HNode
	tw int
}

func (x *Exec) foldBridge(a, b string) *Term {
	fa, ok1 := x.folds[a]
	fb, ok2 := x.folds[b]
	if !ok1 || !ok2 || fa.tw != fb.tw || a == b {
		return nil
	}
	key := a + " " + b
	if t, ok := x.bridges[key]; ok {
		return t
	}
	x.bridges[key] = nil
	c := x.c
	v, l, h := c.Bound("fa"), c.Bound("fl"), c.Bound("fh")
	var not []*Term
	n := fa.n
	for n != fb.n {
		if n.kind == HBase {
			return nil
		}
		if n.kind == HStore {
			not = append(not, c.Not(c.Eq(v, n.args[0])))
		} else {
			m := c.Bound("fm")
			g := c.Subst(n.guard, map[int]*Term{n.args[0].id: v, n.args[1].id: m})
			idx := map[int]bool{m.id: true}
			if !mentions(g, idx) {
				not = append(not, c.Not(g))
			} else {
				// no index of the summed part is touched
				all := c.Forall([]*Term{m}, c.Imp(c.And(c.Le(l, m), c.Lt(m, h)), c.Not(g)))
				not = append(not, all)
			}
		}
		n = n.prev
	}
	t := c.Forall([]*Term{v, l, h}, c.Imp(c.And(not...), c.Eq(c.App(a, SInt, v, l, h), c.App(b, SInt, v, l, h))))
	x.bridges[key] = t
	return t
}

func mentions(t *Term, ids map[int]bool) bool {
	if ids[t.id] {
		return true
	}
	for _, a := range t.args {
		if mentions(a, ids) {
			return true
		}
	}
	return false
}

// skipNode drops updates that cannot affect array arr
func (x *Exec) skipNode(n *HNode, arr *Term) *HNode {
	c := x.c
	for n.kind != HBase {
		var g *Term
		if n.kind == HStore {
			g = c.Eq(arr, n.args[0])
		} else {
			g = x.simpGuard(c.Subst(n.guard, map[int]*Term{n.args[0].id: arr}))
		}
		if g.op != OFalse {
			return n
		}
		n = n.prev
	}
	return n
}

// axiomsFor selects the axioms relevant for the symbols of a query
func (x *Exec) axiomsFor(syms map[string]*Term) []*Term {
	var out []*Term
	for n := range syms {
		if ax, ok := x.foldAx[n]; ok {
			out = append(out, ax...)
			for m := range syms {
				if b := x.foldBridge(n, m); b != nil {
					out = append(out, b)
				}
			}
		}
	}
	for i, a := range x.w.specs.axioms {
		if x.axTerm == nil {
			x.axTerm = map[int]*Term{}
		}
		t, ok := x.axTerm[i]
		if !ok {
			e := &Env{x: x, vars: map[string]SV{}, cur: &Heap{m: map[string]*HNode{}}}
			t = e.boolean(a.e)
			x.axTerm[i] = t
		}
		use := false
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.op == OApp && strings.HasPrefix(t.name, "uf:") {
				if _, ok := syms[t.name]; ok {
					use = true
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		if use {
			out = append(out, t)
		}
	}
	return out
}

// ---------------------------------------------------------------- assuming definitionally

// assumeDef assumes e; equations between a memory-backed sequence and another sequence are applied as definitions
func (x *Exec) assumeDef(s *State, env *Env, cond *Term, e *Expr, mayOverlay bool) {
	c := x.c
	if s.dead || cond.op == OFalse {
		return
	}
	env.cur = s.live()
	env.st = s
	switch {
	case e.op == "bin" && e.s == "&&":
		x.assumeDef(s, env, cond, e.args[0], mayOverlay)
		x.assumeDef(s, env, cond, e.args[1], mayOverlay)
		return
	case e.op == "bin" && e.s == "==>":
		g := env.boolean(e.args[0])
		x.assumeDef(s, env, c.And(cond, g), e.args[1], mayOverlay)
		return
	case e.op == "call":
		if d, ok := x.w.specs.defs[e.s]; ok && mayOverlay {
			m := map[string]SV{}
			for i, p := range d.params {
				m[p] = env.eval(e.args[i])
			}
			n := *env
			n.vars = m
			n.depth++
			x.assumeDef(s, &n, cond, d.body, mayOverlay)
			return
		}
	case e.op == "tern":
		g := env.boolean(e.args[0])
		x.assumeDef(s, env, c.And(cond, g), e.args[1], mayOverlay)
		x.assumeDef(s, env, c.And(cond, c.Not(g)), e.args[2], mayOverlay)
		return
	case mayOverlay && e.op == "bin" && e.s == "==" && !(env.plain && hasQuant(cond, map[int]bool{})):
		a := env.eval(e.args[0])
		b := env.eval(e.args[1])
		if !a.nil_ && !b.nil_ && env.isSeq(a) && env.isSeq(b) && !(a.t != nil && isString(a.t)) {
			sa, sb := env.seqOf(e, a), env.seqOf(e, b)
			if sa.mem != "" && sameHeap(sa.h, s) {
				x.assume(s, c.Imp(cond, c.Eq(sa.n, sb.n)))
				if s.dead {
					return
				}
				x.overlay(s, cond, sa, sb)
				return
			}
		}
	}
	t := c.Imp(cond, env.boolean(e))
	if env.plain && hasQuant(t, map[int]bool{}) {
		return
	}
	x.assume(s, t)
}

func sameHeap(h *Heap, s *State) bool {
	return h != nil && h.aIdx == s.aIdx && h.aK == s.aK && h.live_(s)
}
func (h *Heap) live_(s *State) bool {
	if len(h.m) != len(s.heap) {
		return false
	}
	for k, v := range h.m {
		if s.heap[k] != v {
			return false
		}
	}
	return true
}

func (x *Exec) overlay(s *State, cond *Term, sa, sb *Seq) {
	c := x.c
	var names []string
	if sa.et != nil && strings.HasPrefix(sa.mem, "elem:") {
		for _, cp := range x.w.flatten(sa.et) {
			names = append(names, sa.mem+cp.suf)
			x.meta(sa.mem+cp.suf, cp, 2)
		}
	} else {
		names = []string{sa.mem}
	}
	var bs []*Term
	guard := cond
	for i, p := range sa.pre {
		b := c.Bound(fmt.Sprintf("a%d", i))
		bs = append(bs, b)
		guard = c.And(guard, c.Eq(b, p))
	}
	k := c.Bound("i")
	bs = append(bs, k)
	guard = c.And(guard, c.Le(sa.off, k), c.Lt(k, c.Add(sa.off, sa.n)))
	vals := sb.at(c.Sub(k, sa.off))
	if len(vals) != len(names) {
		x.fail("overlay shape")
	}
	for i, n := range names {
		nd := x.node(s.heap, n)
		m := x.metas[n]
		x.nnode++
		s.heap[n] = &HNode{kind: HUpd, prev: nd, map_: n, sort: m.sort, ref: m.ref, args: bs, guard: guard, val: vals[i], id: x.nnode}
	}
}
