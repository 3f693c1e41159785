package main

// Hash-consed first-order terms over Int and Bool, with linear normal forms.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
)

type Op uint8

const (
	OVar Op = iota
	OBound
	OApp
	OLit
	OTrue
	OFalse
	OLin
	OMul
	ODiv
	OMod
	OIte
	OEq0 // args[0] == 0
	OLe0 // args[0] <= 0
	OIff
	ONot
	OAnd
	OOr
	OForall
	OExists
)

type Term struct {
	op    Op
	sort  Sort
	name  string
	k     int64
	coefs []int64
	args  []*Term
	id    int
	bound bool // mentions a bound variable freely
}

type Ctx struct {
	tab      map[string]*Term
	n        int
	fresh    int
	facts    map[int][]*Term    // facts attached to a term
	symFacts map[string][]*Term // quantified facts attached to a function symbol
	ub       map[int]ubound     // allocation upper bound of reference terms
	strs     map[string]*Term
	strOf    map[int][]rune
	closures map[int]*Closure
	locs     map[int]*Loc
	boxes    map[int]Val
	ifaceVal map[int]Val
	errs     []string
}

type ubound struct {
	idx int
	k   int64
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, facts: map[int][]*Term{}, symFacts: map[string][]*Term{}, ub: map[int]ubound{},
		strs: map[string]*Term{}, strOf: map[int][]rune{}, closures: map[int]*Closure{}, locs: map[int]*Loc{}, boxes: map[int]Val{}, ifaceVal: map[int]Val{}}
}

func (c *Ctx) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.k, 36))
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(strconv.FormatInt(t.coefs[i], 36))
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.FormatInt(int64(a.id), 36))
	}
	if t.op == OVar || t.op == OBound || t.op == OApp {
		if t.sort == SBool {
			sb.WriteByte('?')
		}
	}
	key := sb.String()
	if x, ok := c.tab[key]; ok {
		return x
	}
	c.n++
	t.id = c.n
	if t.op == OBound {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	if t.op == OForall || t.op == OExists {
		t.bound = false
		if len(c.freeBound(t.args[len(t.args)-1], t.args[:len(t.args)-1])) > 0 {
			t.bound = true
		}
	}
	x := &t
	c.tab[key] = x
	return x
}

func (c *Ctx) freeBound(t *Term, exclude []*Term) []*Term {
	ex := map[int]bool{}
	for _, e := range exclude {
		ex[e.id] = true
	}
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term, ex map[int]bool)
	rec = func(t *Term, ex map[int]bool) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OBound {
			if !ex[t.id] {
				out = append(out, t)
			}
			return
		}
		if t.op == OForall || t.op == OExists {
			ex2 := map[int]bool{}
			for k := range ex {
				ex2[k] = true
			}
			for _, v := range t.args[:len(t.args)-1] {
				ex2[v.id] = true
			}
			rec(t.args[len(t.args)-1], ex2)
			return
		}
		for _, a := range t.args {
			rec(a, ex)
		}
	}
	rec(t, ex)
	return out
}

func (c *Ctx) Lit(k int64) *Term { return c.mk(Term{op: OLit, sort: SInt, k: k}) }
func (c *Ctx) True() *Term       { return c.mk(Term{op: OTrue, sort: SBool}) }
func (c *Ctx) False() *Term      { return c.mk(Term{op: OFalse, sort: SBool}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(Term{op: OVar, sort: s, name: name}) }
func (c *Ctx) Bound(name string) *Term       { return c.mk(Term{op: OBound, sort: SInt, name: name}) }
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s~%d", prefix, c.fresh), s)
}
func (c *Ctx) FreshName(prefix string) string {
	c.fresh++
	return fmt.Sprintf("%s~%d", prefix, c.fresh)
}
func (c *Ctx) FreshBound(prefix string) *Term {
	c.fresh++
	return c.Bound(fmt.Sprintf("%s~%d", prefix, c.fresh))
}
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, s)
	}
	return c.mk(Term{op: OApp, sort: s, name: name, args: append([]*Term(nil), args...)})
}

// ---- linear arithmetic

type lin struct {
	k int64
	m map[int]int64
	a map[int]*Term
}

// coefficient arithmetic that gives up (the function is then reported as not verified) rather than wrap around
func ckAdd(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r <= 0) || (a < 0 && b < 0 && r >= 0) {
		panic(unsupported{"a constant beyond the 64-bit range of the term representation"})
	}
	return r
}
func ckMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(unsupported{"a constant beyond the 64-bit range of the term representation"})
	}
	return r
}

func (c *Ctx) toLin(t *Term, mul int64, l *lin) {
	switch t.op {
	case OLit:
		l.k = ckAdd(l.k, ckMul(mul, t.k))
	case OLin:
		l.k = ckAdd(l.k, ckMul(mul, t.k))
		for i, a := range t.args {
			l.m[a.id] = ckAdd(l.m[a.id], ckMul(mul, t.coefs[i]))
			l.a[a.id] = a
		}
	default:
		l.m[t.id] = ckAdd(l.m[t.id], mul)
		l.a[t.id] = t
	}
}
func (c *Ctx) fromLin(l *lin) *Term {
	ids := make([]int, 0, len(l.m))
	for id, co := range l.m {
		if co != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return c.Lit(l.k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.k == 0 && l.m[ids[0]] == 1 {
		return l.a[ids[0]]
	}
	t := Term{op: OLin, sort: SInt, k: l.k}
	for _, id := range ids {
		t.args = append(t.args, l.a[id])
		t.coefs = append(t.coefs, l.m[id])
	}
	return c.mk(t)
}
func newLin() *lin { return &lin{m: map[int]int64{}, a: map[int]*Term{}} }
func (c *Ctx) Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		c.toLin(t, 1, l)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := newLin()
	c.toLin(a, 1, l)
	c.toLin(b, -1, l)
	return c.fromLin(l)
}
func (c *Ctx) AddK(a *Term, k int64) *Term {
	l := newLin()
	c.toLin(a, 1, l)
	l.k = ckAdd(l.k, k)
	return c.fromLin(l)
}
func (c *Ctx) MulK(a *Term, k int64) *Term {
	l := newLin()
	c.toLin(a, k, l)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OLit {
		return c.MulK(b, a.k)
	}
	if b.op == OLit {
		return c.MulK(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == OLit && b.k != 0 {
		if a.op == OLit {
			return c.Lit(a.k / b.k)
		}
		if b.k == 1 {
			return a
		}
	}
	return c.mk(Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == OLit && b.k != 0 {
		if a.op == OLit {
			return c.Lit(a.k % b.k)
		}
		if b.k == 1 || b.k == -1 {
			return c.Lit(0)
		}
	}
	return c.mk(Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

func (c *Ctx) constDiff(a, b *Term) (int64, bool) {
	d := c.Sub(a, b)
	if d.op == OLit {
		return d.k, true
	}
	return 0, false
}

// ---- comparisons

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.sort == SBool || b.sort == SBool {
		return c.Iff(a, b)
	}
	if a == b {
		return c.True()
	}
	if a.op == OIte && b.op == OLit && a.args[1].op == OLit && a.args[2].op == OLit {
		x, y := a.args[1].k == b.k, a.args[2].k == b.k
		switch {
		case x && y:
			return c.True()
		case x:
			return a.args[0]
		case y:
			return c.Not(a.args[0])
		default:
			return c.False()
		}
	}
	d := c.Sub(a, b)
	if d.op == OLit {
		return c.Bool(d.k == 0)
	}
	if c.distinctRefs(a, b) {
		return c.False()
	}
	if d.op == OLin && len(d.args) == 2 && d.coefs[0]*d.coefs[1] == -1 {
		p, q, k := d.args[0], d.args[1], d.k // p - q + k == 0
		if d.coefs[0] < 0 {
			p, q = q, p
		}
		if k > 0 && c.distinctRefs(c.AddK(p, k), q) || k < 0 && c.distinctRefs(p, c.AddK(q, -k)) {
			return c.False()
		}
	}
	if s1, ok := c.strOf[a.id]; ok {
		if s2, ok2 := c.strOf[b.id]; ok2 {
			return c.Bool(string(s1) == string(s2))
		}
	}
	// normalise sign
	if d.op == OLin {
		if d.coefs[0] < 0 {
			d = c.MulK(d, -1)
		}
		if d.op == OLin {
			g := int64(0)
			for _, co := range d.coefs {
				g = gcd(g, co)
			}
			if g > 1 {
				if d.k%g != 0 {
					return c.False()
				}
				t := Term{op: OLin, sort: SInt, k: d.k / g, args: d.args}
				for _, co := range d.coefs {
					t.coefs = append(t.coefs, co/g)
				}
				l := newLin()
				l.k = t.k
				for i, a := range t.args {
					l.m[a.id] = t.coefs[i]
					l.a[a.id] = a
				}
				d = c.fromLin(l)
			}
		}
	}
	return c.mk(Term{op: OEq0, sort: SBool, args: []*Term{d}})
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }
func (c *Ctx) Le(a, b *Term) *Term { // a <= b
	d := c.Sub(a, b)
	if d.op == OLit {
		return c.Bool(d.k <= 0)
	}
	if d.op == OLin {
		g := int64(0)
		for _, co := range d.coefs {
			g = gcd(g, co)
		}
		if g > 1 {
			l := newLin()
			// sum + k <= 0  =>  sum/g <= floor(-k/g)
			fl := -d.k / g
			if (-d.k)%g != 0 && -d.k < 0 {
				fl--
			}
			l.k = -fl
			for i, a := range d.args {
				l.m[a.id] = d.coefs[i] / g
				l.a[a.id] = a
			}
			d = c.fromLin(l)
		}
	}
	return c.mk(Term{op: OLe0, sort: SBool, args: []*Term{d}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddK(a, 1), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False()
	case OFalse:
		return c.True()
	case ONot:
		return a.args[0]
	case OLe0: // not (d<=0)  ==  1-d <= 0
		return c.Le(c.AddK(c.MulK(a.args[0], -1), 1), c.Lit(0))
	}
	return c.mk(Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (c *Ctx) nary(op Op, ts []*Term) *Term {
	unit, zero := OTrue, OFalse
	if op == OOr {
		unit, zero = OFalse, OTrue
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == unit {
			return true
		}
		if t.op == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.Bool(op == OOr)
		}
	}
	if len(out) == 0 {
		return c.Bool(op == OAnd)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Term{op: op, sort: SBool, args: out})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.op == OTrue {
		return b
	}
	if b.op == OTrue {
		return a
	}
	if a.op == OFalse {
		return c.Not(b)
	}
	if b.op == OFalse {
		return c.Not(a)
	}
	if c.Not(a) == b {
		return c.False()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OIff, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.op == OTrue {
		return a
	}
	if g.op == OFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return c.And(c.Or(c.Not(g), a), c.Or(g, b))
	}
	// ite(g, ite(g,x,y), b) etc.
	if a.op == OIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(Term{op: OIte, sort: SInt, args: []*Term{g, a, b}})
}
func (c *Ctx) Forall(vars []*Term, body *Term) *Term {
	return c.quant(OForall, vars, body)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term {
	return c.quant(OExists, vars, body)
}
func (c *Ctx) quant(op Op, vars []*Term, body *Term) *Term {
	fb := map[int]bool{}
	for _, v := range c.freeBound(body, nil) {
		fb[v.id] = true
	}
	var vs []*Term
	for _, v := range vars {
		if fb[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return c.mk(Term{op: op, sort: SBool, args: append(vs, body)})
}

// ---- substitution of bound variables / variables

func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OApp:
		return c.App(t.name, t.sort, args...)
	case OLin:
		l := newLin()
		l.k = t.k
		for i, a := range args {
			c.toLin(a, t.coefs[i], l)
		}
		return c.fromLin(l)
	case OMul:
		return c.Mul(args[0], args[1])
	case ODiv:
		return c.Div(args[0], args[1])
	case OMod:
		return c.Mod(args[0], args[1])
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq0:
		return c.Eq(args[0], c.Lit(0))
	case OLe0:
		return c.Le(args[0], c.Lit(0))
	case OIff:
		return c.Iff(args[0], args[1])
	case ONot:
		return c.Not(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case OForall:
		return c.Forall(args[:len(args)-1], args[len(args)-1])
	case OExists:
		return c.Exists(args[:len(args)-1], args[len(args)-1])
	}
	panic("rebuild")
}

// ---- references

func (c *Ctx) refUB(t *Term) (ubound, bool) {
	if t.op == OLit {
		return ubound{-1, 0}, t.k <= 0
	}
	if u, ok := c.ub[t.id]; ok {
		return u, true
	}
	if t.op == OIte {
		a, ok1 := c.refUB(t.args[1])
		b, ok2 := c.refUB(t.args[2])
		if ok1 && ok2 {
			if b.idx > a.idx || b.idx == a.idx && b.k > a.k {
				a = b
			}
			return a, true
		}
	}
	if f, k, ok := c.asFresh(t); ok {
		return ubound{f, k}, true
	}
	return ubound{}, false
}

// asFresh: t == A_i + k with k>=1
func (c *Ctx) asFresh(t *Term) (int, int64, bool) {
	if t.op == OLin && len(t.args) == 1 && t.coefs[0] == 1 && t.args[0].op == OVar && strings.HasPrefix(t.args[0].name, "A!") && t.k >= 1 {
		return c.frontIdx(t.args[0]), t.k, true
	}
	return 0, 0, false
}
func (c *Ctx) frontIdx(t *Term) int {
	s := t.name[2:]
	if i := strings.IndexByte(s, '~'); i >= 0 {
		s = s[:i]
	}
	n, _ := strconv.Atoi(s)
	return n
}
func (c *Ctx) distinctRefs(a, b *Term) bool {
	if i, k, ok := c.asFresh(a); ok {
		if u, ok := c.refUB(b); ok && (u.idx < i || u.idx == i && u.k < k) {
			return true
		}
	}
	if i, k, ok := c.asFresh(b); ok {
		if u, ok := c.refUB(a); ok && (u.idx < i || u.idx == i && u.k < k) {
			return true
		}
	}
	return false
}

func (c *Ctx) Fact(key *Term, f *Term) {
	if f.op == OTrue || f.bound {
		return
	}
	for _, x := range c.facts[key.id] {
		if x == f {
			return
		}
	}
	c.facts[key.id] = append(c.facts[key.id], f)
}

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}

func symq(s string) string {
	return "|" + s + "|"
}
func litStr(k int64) string {
	if k < 0 {
		if k == -9223372036854775808 {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-k, 10) + ")"
	}
	return strconv.FormatInt(k, 10)
}

func printTerm(sb *strings.Builder, t *Term, defs map[int]string) {
	if defs != nil {
		if n, ok := defs[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	list := func(op string, args []*Term) {
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range args {
			sb.WriteByte(' ')
			printTerm(sb, a, defs)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case OVar, OBound:
		sb.WriteString(symq(t.name))
	case OApp:
		if strings.HasPrefix(t.name, "$") { // builtin of the prelude
			list(t.name[1:], t.args)
		} else {
			list(symq(t.name), t.args)
		}
	case OLit:
		sb.WriteString(litStr(t.k))
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OLin:
		n := len(t.args)
		if t.k != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.coefs[i] == 1 {
				printTerm(sb, a, defs)
			} else {
				sb.WriteString("(* " + litStr(t.coefs[i]) + " ")
				printTerm(sb, a, defs)
				sb.WriteByte(')')
			}
		}
		if t.k != 0 {
			sb.WriteByte(' ')
			sb.WriteString(litStr(t.k))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case OMul:
		list("*", t.args)
	case ODiv:
		list("gdiv", t.args)
	case OMod:
		list("gmod", t.args)
	case OIte:
		list("ite", t.args)
	case OEq0:
		// print nicer equalities
		d := t.args[0]
		if d.op == OLin && len(d.args) == 2 && d.k == 0 && d.coefs[0] == 1 && d.coefs[1] == -1 {
			list("=", d.args)
			return
		}
		sb.WriteString("(= ")
		printTerm(sb, d, defs)
		sb.WriteString(" 0)")
	case OLe0:
		d := t.args[0]
		sb.WriteString("(<= ")
		printTerm(sb, d, defs)
		sb.WriteString(" 0)")
	case OIff:
		list("=", t.args)
	case ONot:
		list("not", t.args)
	case OAnd:
		list("and", t.args)
	case OOr:
		list("or", t.args)
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		sb.WriteString("(" + q + " (")
		n := len(t.args) - 1
		for _, v := range t.args[:n] {
			sb.WriteString("(" + symq(v.name) + " Int)")
		}
		sb.WriteString(") ")
		pats := patterns(t)
		if q == "forall" {
			sb.WriteString("(! ")
		}
		// a quantifier inside an existential one: its instances are only found through the marker
		mark := q == "forall" && len(pats) == 0 && defs != nil && defs[withMarks] != "" && defs[insideExists] != ""
		if mark {
			sb.WriteString("(=> (and true")
			for _, v := range t.args[:n] {
				sb.WriteString(" (idx! " + symq(v.name) + ")")
			}
			sb.WriteString(") ")
		}
		note := q == "exists" && n == 1 && defs != nil && defs[insideForall] != "" && defs[withMarks] != ""
		if note {
			sb.WriteString("(and (idx! " + symq(t.args[0].name) + ") ")
		}
		in := insideExists
		if q == "forall" {
			in = insideForall
		}
		if defs != nil && defs[in] == "" {
			defs[in] = "x"
			printTerm(sb, t.args[n], defs)
			delete(defs, in)
		} else {
			printTerm(sb, t.args[n], defs)
		}
		if note {
			sb.WriteString(")")
		}
		if mark {
			sb.WriteString(")")
		}
		if q == "forall" && len(pats) == 0 {
			sb.WriteString(" :pattern (")
			for _, v := range t.args[:n] {
				sb.WriteString("(idx! " + symq(v.name) + ") ")
			}
			sb.WriteString("))")
		}
		if q == "forall" && len(pats) > 0 {
			for _, p := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, defs)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	}
}

// keys that mark, in a printer's definitions, that an existential or universal quantifier is being printed, and that
// marker terms are wanted there
const (
	insideExists = -1
	insideForall = -2
	withMarks    = -3
)

func isMarker(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "uf:at_") }

// patterns: applications having every bound variable as a direct argument (possibly nested applications)
func patterns(t *Term) [][]*Term {
	n := len(t.args) - 1
	vars := t.args[:n]
	var cands []*Term
	seen := map[int]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if !x.bound || seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == OApp && !strings.HasPrefix(x.name, "$") && directVars(x) {
			cands = append(cands, x)
		}
		if x.op == OForall || x.op == OExists {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t.args[n])
	cover := func(x *Term, v *Term) bool {
		found := false
		var r func(y *Term)
		r = func(y *Term) {
			if y == v {
				found = true
			}
			for _, a := range y.args {
				if a.bound {
					r(a)
				}
			}
		}
		r(x)
		return found
	}
	// trigger markers take the place of every other pattern of the variables they cover
	var mp []*Term
	marked := map[*Term]bool{}
	for _, v := range vars {
		for _, x := range cands {
			if isMarker(x) && cover(x, v) {
				if !marked[v] {
					marked[v] = true
					mp = append(mp, x)
				}
			}
		}
	}
	if len(mp) > 0 {
		for _, v := range vars {
			for _, x := range cands {
				if !marked[v] && cover(x, v) {
					marked[v] = true
					mp = append(mp, x)
				}
			}
			if !marked[v] {
				return nil
			}
		}
		return [][]*Term{mp}
	}
	var out [][]*Term
	for _, x := range cands {
		all := true
		for _, v := range vars {
			if !cover(x, v) {
				all = false
			}
		}
		if all {
			out = append(out, []*Term{x})
			if len(out) >= 4 {
				return out
			}
		}
	}
	if len(out) == 0 && len(vars) > 1 {
		// multi-pattern: one per variable
		for _, v := range vars {
			ok := false
			for _, x := range cands {
				if cover(x, v) {
					dup := false
					for _, y := range mp {
						if y == x {
							dup = true
						}
					}
					if !dup {
						mp = append(mp, x)
					}
					ok = true
					break
				}
			}
			if !ok {
				return nil
			}
		}
		out = append(out, mp)
	}
	return out
}

func directVars(x *Term) bool {
	any := false
	for _, a := range x.args {
		if !a.bound {
			continue
		}
		if a.op == OBound {
			any = true
			continue
		}
		if a.op == OApp && !strings.HasPrefix(a.name, "$") && directVars(a) {
			any = true
			continue
		}
		return false
	}
	return any
}
