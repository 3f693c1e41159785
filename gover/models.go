package main

// Models of the functions outside the verified packages. Everything modelled here is part of the trusted base
// (listed in the evidence of each run that used it).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) useModel(n string) {
	if x.modelsUsed == nil {
		x.modelsUsed = map[string]bool{}
	}
	x.modelsUsed[n] = true
}

// appendTo appends a sequence to a content ghost
func (x *Exec) appendTo(s *State, l *Loc, n *Term, at func(*Term) *Term) {
	c := x.c
	if n.op == OLit && n.k == 0 {
		return
	}
	x.meta(l.name+"!n", Comp{"", SInt, false, nil}, len(l.args))
	x.meta(l.name+"!at", Comp{"", SInt, false, nil}, len(l.args)+1)
	old := x.read(x.node(s.heap, l.name+"!n"), l.args)
	c.Fact(old, c.Le(c.Lit(0), old))
	x.c.Fact(n, c.Le(c.Lit(0), n))
	var bs []*Term
	g := c.True()
	for _, a := range l.args {
		b := c.Bound("a")
		bs = append(bs, b)
		g = c.And(g, c.Eq(b, a))
	}
	k := c.Bound("i")
	bs = append(bs, k)
	g = c.And(g, c.Le(old, k), c.Lt(k, c.Add(old, n)))
	x.update(s, l.name+"!at", bs, g, at(c.Sub(k, old)))
	x.store(s, l.name+"!n", l.args, c.Add(old, n))
}

func writerLoc(data *Term) *Loc { return &Loc{name: "writer", args: []*Term{data}} }

func (x *Exec) bufLoc(p *Term, t types.Type) *Loc {
	return x.place(p, t.Underlying().(*types.Pointer).Elem())
}

func (x *Exec) contentOf(s *State, l *Loc) (*Term, func(*Term) *Term) {
	c := x.c
	x.meta(l.name+"!n", Comp{"", SInt, false, nil}, len(l.args))
	x.meta(l.name+"!at", Comp{"", SInt, false, nil}, len(l.args)+1)
	n := x.read(x.node(s.heap, l.name+"!n"), l.args)
	c.Fact(n, c.Le(c.Lit(0), n))
	nd := x.node(s.heap, l.name+"!at")
	args := l.args
	return n, func(i *Term) *Term { return x.read(nd, append(append([]*Term{}, args...), i)) }
}

// newBytes: a fresh byte slice with the given rune-level content
func (x *Exec) newBytes(s *State, n *Term, at func(*Term) *Term, exact bool) Val {
	c := x.c
	arr := x.alloc(s)
	ln := n
	if exact {
		x.setElems(s, arr, types.Typ[types.Uint8], func(i *Term) Val { return Val{at(i)} })
	} else {
		ln = c.Fresh("blen", SInt)
		x.assume(s, c.Le(n, ln))
		x.assume(s, c.Le(ln, c.MulK(n, 4)))
		x.bytesOf[arr.id] = &bseq{arr, n, at, nil}
	}
	return Val{arr, c.Lit(0), ln, x.freshCap(ln)}
}

func (x *Exec) errVal(s *State, prefix string) Val {
	c := x.c
	v := x.freshVal(prefix, types.Universe.Lookup("error").Type(), s)
	x.assume(s, c.Ne(v[0], c.Lit(0)))
	return v
}

func (x *Exec) nilErr() Val { return Val{x.c.Lit(0), x.c.Lit(0)} }

// the rune stream of a reader (keyed by reference): position, end and content
func (x *Exec) stream(s *State, r *Term) (pos, end *Term, at func(*Term) *Term) {
	c := x.c
	pos = x.gread(s.live(), "ghost:rinpos", SInt, r)
	end = x.gread(s.live(), "ghost:rinend", SInt, r)
	c.Fact(pos, c.Le(c.Lit(0), pos))
	x.meta("ghost:rin", Comp{"", SInt, false, nil}, 2)
	nd := x.node(s.heap, "ghost:rin")
	return pos, end, func(i *Term) *Term { return x.read(nd, []*Term{r, i}) }
}

// runeStream: the runes a reader hands out through the bufio.Reader around it
func (x *Exec) runeStream(s *State, r *Term) (pos *Term, at func(*Term) *Term) {
	c := x.c
	pos = x.gread(s.live(), "ghost:rpos", SInt, r)
	c.Fact(pos, c.Le(c.Lit(0), pos))
	x.meta("ghost:runein", Comp{"", SInt, false, nil}, 2)
	nd := x.node(s.heap, "ghost:runein")
	return pos, func(i *Term) *Term { return x.read(nd, []*Term{r, i}) }
}

// fillFrom fills p[0:n] with stream bytes and advances the stream
func (x *Exec) fillFrom(s *State, r *Term, p Val, n *Term) {
	c := x.c
	pos, _, at := x.stream(s, r)
	a, k := c.Bound("a"), c.Bound("i")
	bt := types.Typ[types.Uint8]
	x.meta(elemName(bt), Comp{"", SInt, false, bt}, 2)
	v := at(c.Add(pos, c.Sub(k, p[1])))
	x.update(s, elemName(bt), []*Term{a, k}, c.And(c.Eq(a, p[0]), c.Le(p[1], k), c.Lt(k, c.Add(p[1], n))), v)
	i := c.Bound("i")
	b := at(i)
	x.assume(s, c.Forall([]*Term{i}, c.And(c.Le(c.Lit(0), b), c.Le(b, c.Lit(255)))))
	x.gstore(s, "ghost:rinpos", SInt, c.Add(pos, n), r)
}

// forkRet runs the alternatives on copies of the state
func (x *Exec) both(s *State, res ssa.Value, cond *Term, yes, no func(s *State) []Val) {
	t, f := x.split(s, cond)
	if t != nil {
		vs := yes(t)
		if !t.dead {
			x.ret(t, res, vs...)
		}
	}
	if f != nil {
		vs := no(f)
		if !f.dead {
			x.ret(f, res, vs...)
		}
	}
}

// choice: an arbitrary boolean
func (x *Exec) choice(prefix string) *Term { return x.c.Fresh(prefix, SBool) }

func (x *Exec) litStr(t *Term) (string, bool) {
	rs, ok := x.c.strOf[t.id]
	return string(rs), ok
}

// fmtContent: content of a formatted string for the verbs %c %s %d and literal text
func (x *Exec) fmtContent(s *State, format *Term, args Val) (*Term, bool) {
	c := x.c
	f, ok := x.litStr(format)
	if !ok {
		return nil, false
	}
	et := types.NewInterfaceType(nil, nil)
	out := x.strConst("")
	k := int64(0)
	lit := ""
	flush := func() {
		if lit != "" {
			out = x.concat(s, out, x.strConst(lit))
			lit = ""
		}
	}
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			lit += string(rs[i])
			continue
		}
		i++
		if i >= len(rs) {
			return nil, false
		}
		if rs[i] == '%' {
			lit += "%"
			continue
		}
		a := x.loadAt(s.live(), elemName(et), []*Term{args[0], c.AddK(args[1], k)}, et)
		k++
		if a[0].op != OLit {
			return nil, false
		}
		t := x.typeByTag(a[0].k)
		if t == nil {
			return nil, false
		}
		v := x.unbox(s, t, a[1])
		flush()
		switch {
		case rs[i] == 'c' && len(v) == 1:
			if v[0].op == OLit {
				out = x.concat(s, out, x.strConst(string(rune(v[0].k))))
			} else {
				r := v[0]
				out = x.concat(s, out, x.newString(s, c.Lit(1), func(*Term) *Term { return x.vr(r) }))
			}
		case rs[i] == 's' && isString(t):
			out = x.concat(s, out, v[0])
		case rs[i] == 'd' && len(v) == 1:
			out = x.concat(s, out, x.itoa(s, v[0]))
		default:
			return nil, false
		}
	}
	flush()
	return out, true
}

func (x *Exec) itoa(s *State, n *Term) *Term {
	c := x.c
	t := c.App("itoa", SInt, n)
	x.strFacts(t)
	l := x.rlen(t)
	c.Fact(t, c.Le(c.Lit(1), l))
	c.Fact(l, c.Le(c.Lit(1), l))
	c.Fact(l, c.Eq(x.slen(t), l))
	k := c.Bound("k")
	r := c.App("rat", SInt, t, k)
	c.Fact(t, c.Forall([]*Term{k}, c.Or(c.Eq(r, c.Lit('-')), c.And(c.Le(c.Lit('0'), r), c.Le(r, c.Lit('9'))))))
	return t
}

// inTables: r is in one of the tables of the slice
func (x *Exec) inTables(s *State, sl Val, r *Term) *Term {
	c := x.c
	et := types.NewPointer(types.Typ[types.Int])
	rd := func(k *Term) *Term {
		h := s.live()
		if x.initHeap != nil {
			if i, _, ok := c.asFresh(sl[0]); ok && i == 0 {
				h = x.initHeap
			}
		}
		n := "elem:*unicode.RangeTable"
		x.meta(n, Comp{"", SInt, true, et}, 2)
		return x.read(x.node(h.m, n), []*Term{sl[0], c.Add(sl[1], k)})
	}
	if sl[2].op == OLit && sl[2].k <= 8 {
		var os []*Term
		for k := int64(0); k < sl[2].k; k++ {
			os = append(os, c.App("inTable", SBool, rd(c.Lit(k)), r))
		}
		return c.Or(os...)
	}
	k := c.Bound("k")
	return c.Exists([]*Term{k}, c.And(c.Le(c.Lit(0), k), c.Lt(k, sl[2]), c.App("inTable", SBool, rd(k), r)))
}

func (x *Exec) isSpace(s *State, r *Term) *Term {
	c := x.c
	ws := x.loadAt(s.live(), "G:unicode.White_Space", nil, types.Typ[types.UnsafePointer])[0]
	return c.Or(c.Eq(r, c.Lit(32)), c.And(c.Le(c.Lit(9), r), c.Le(r, c.Lit(13))), c.Eq(r, c.Lit(133)), c.Eq(r, c.Lit(160)),
		c.And(c.Lt(c.Lit(255), r), c.App("inTable", SBool, ws, r)))
}

func (x *Exec) model(s *State, f *Frame, res ssa.Value, fn *ssa.Function, args []Val) bool {
	c := x.c
	name := fn.String()
	sig := fn.Signature
	used := true
	defer func() {
		if used {
			x.useModel(name)
		}
	}()
	i32 := types.Typ[types.Int32]
	switch name {
	// ---- unicode
	case "unicode.IsSpace":
		x.ret(s, res, Val{x.isSpace(s, args[0][0])})
	case "unicode.IsOneOf":
		x.ret(s, res, Val{x.inTables(s, args[0], args[1][0])})
	case "unicode.IsNumber":
		r := args[0][0]
		t := c.App("uf:isNumber", SBool, r)
		c.Fact(t, c.Imp(c.And(c.Le(c.Lit(0), r), c.Lt(r, c.Lit(128))), c.Iff(t, c.And(c.Le(c.Lit('0'), r), c.Le(r, c.Lit('9'))))))
		c.Fact(t, c.Imp(t, c.And(c.Lt(c.Lit(0), r), c.Le(r, c.Lit(0x10FFFF)), c.Or(c.Lt(r, c.Lit(0xD800)), c.Lt(c.Lit(0xDFFF), r)))))
		x.ret(s, res, Val{t})
	case "unicode/utf8.DecodeRune":
		r := x.freshVal("rune", i32, s)
		n := c.Fresh("size", SInt)
		l := args[0][2]
		x.assume(s, c.Ite(c.Eq(l, c.Lit(0)), c.Eq(n, c.Lit(0)), c.And(c.Le(c.Lit(1), n), c.Le(n, c.Lit(4)), c.Le(n, l))))
		x.assume(s, c.And(c.Le(c.Lit(0), r[0]), c.Le(r[0], c.Lit(0x10FFFF))))
		x.ret(s, res, r, Val{n})
	// ---- strconv, strings, bytes
	case "strconv.Itoa":
		x.ret(s, res, Val{x.itoa(s, args[0][0])})
	case "strconv.Atoi":
		ok := c.App("atoiok", SBool, args[0][0])
		x.both(s, res, ok, func(s *State) []Val {
			v := c.App("atoi", SInt, args[0][0])
			return []Val{{v}, x.nilErr()}
		}, func(s *State) []Val {
			return []Val{{c.Fresh("atoi", SInt)}, x.errVal(s, "err")}
		})
	case "strings.Repeat":
		n := args[1][0]
		x.panicOb(s, "negative repeat count", "strings.Repeat", c.Le(c.Lit(0), n))
		if s.dead {
			return true
		}
		str := args[0][0]
		l := x.rlen(str)
		if s.pcset[c.Eq(l, c.Lit(1)).id] {
			l = c.Lit(1)
		}
		var t *Term
		if l.op == OLit && l.k > 0 {
			t = x.newString(s, c.MulK(n, l.k), func(i *Term) *Term {
				if l.k == 1 {
					return x.rat(str, c.Lit(0))
				}
				return x.rat(str, c.Mod(i, l))
			})
		} else {
			t = x.newString(s, c.Mul(n, l), func(i *Term) *Term { return c.App("uf:repat", SInt, str, i) })
		}
		x.ret(s, res, Val{t})
	case "bytes.Repeat":
		n := args[1][0]
		x.panicOb(s, "negative repeat count", "bytes.Repeat", c.Le(c.Lit(0), n))
		if s.dead {
			return true
		}
		if l := args[0][2]; l.op == OLit && l.k == 1 {
			b := x.elemAt(s.snap(), types.Typ[types.Uint8], args[0], c.Lit(0))[0]
			x.ret(s, res, x.newBytes(s, n, func(*Term) *Term { return b }, true))
		} else if l := args[0][2]; l.op != OLit && x.bytesOf[args[0][0].id] != nil {
			bs := x.bytesOf[args[0][0].id]
			if bs.n.op == OLit && bs.n.k == 1 {
				b := bs.at(c.Lit(0))
				x.ret(s, res, x.newBytes(s, n, func(*Term) *Term { return b }, false))
			} else {
				x.ret(s, res, x.havocResults(s, sig, "rep")...)
			}
		} else {
			x.ret(s, res, x.havocResults(s, sig, "rep")...)
		}
	case "strings.TrimSpace":
		t := c.App("uf:trim", SInt, args[0][0])
		x.strFacts(t)
		c.Fact(t, c.Le(x.rlen(t), x.rlen(args[0][0])))
		x.ret(s, res, Val{t})
	case "strings.Contains":
		x.ret(s, res, Val{c.App("uf:contains", SBool, args[0][0], args[1][0])})
	case "strings.Split":
		a := x.alloc(s)
		v := x.havocResults(s, sig, "split")
		x.assume(s, c.Eq(v[0][0], a))
		x.assume(s, c.Le(c.Lit(1), v[0][2]))
		x.ret(s, res, v...)
	case "strings.Join":
		x.ret(s, res, x.havocResults(s, sig, "join")...)
	case "bytes.NewBuffer":
		p := x.newObject(s, sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		l := x.bufLoc(p, sig.Results().At(0).Type())
		x.gstore(s, l.name+"!n", SInt, c.Lit(0), l.args...)
		x.meta(l.name+"!at", Comp{"", SInt, false, nil}, len(l.args)+1)
		if a := args[0]; !(a[2].op == OLit && a[2].k == 0) {
			n, at := x.byteContent(s.snap(), a)
			x.appendTo(s, l, n, at)
		}
		x.ret(s, res, Val{p})
	case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteRune",
		"(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteRune", "(*bytes.Buffer).WriteByte", "(*bufio.Writer).WriteByte":
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.writeArg(s, fn.Name(), args[1])
		x.appendTo(s, l, n, at)
		rs := x.havocResults(s, sig, "w")
		if strings.HasPrefix(name, "(*bytes") {
			last := len(rs) - 1
			rs[last] = x.nilErr()
		}
		x.ret(s, res, rs...)
	case "(*bytes.Buffer).String":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.contentOf(s, l)
		x.ret(s, res, Val{x.newString(s, n, at)})
	case "(*bytes.Buffer).Bytes":
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.contentOf(s, l)
		x.ret(s, res, x.newBytes(s, n, at, false))
	case "(*bytes.Buffer).Reset":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		x.gstore(s, l.name+"!n", SInt, c.Lit(0), l.args...)
		x.ret(s, res)
	case "(*bytes.Buffer).WriteTo":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.contentOf(s, l)
		x.appendTo(s, writerLoc(args[1][1]), n, at)
		x.gstore(s, l.name+"!n", SInt, c.Lit(0), l.args...)
		x.ret(s, res, x.havocResults(s, sig, "wt")...)
	case "(*bytes.Buffer).Read":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.contentOf(s, l)
		p := args[1]
		x.both(s, res, c.Eq(n, c.Lit(0)), func(s *State) []Val {
			eof := x.loadAt(s.live(), "G:io.EOF", nil, types.Universe.Lookup("error").Type())
			x.assume(s, c.Ne(eof[0], c.Lit(0)))
			return []Val{{c.Lit(0)}, Val{c.Ite(c.Eq(p[2], c.Lit(0)), c.Lit(0), eof[0]), c.Ite(c.Eq(p[2], c.Lit(0)), c.Lit(0), eof[1])}}
		}, func(s *State) []Val {
			k := c.Ite(c.Le(n, p[2]), n, p[2])
			a, i := c.Bound("a"), c.Bound("i")
			bt := types.Typ[types.Uint8]
			x.meta(elemName(bt), Comp{"", SInt, false, bt}, 2)
			x.update(s, elemName(bt), []*Term{a, i}, c.And(c.Eq(a, p[0]), c.Le(p[1], i), c.Lt(i, c.Add(p[1], k))), at(c.Sub(i, p[1])))
			var bs []*Term
			g := c.True()
			for _, a := range l.args {
				b := c.Bound("a")
				bs = append(bs, b)
				g = c.And(g, c.Eq(b, a))
			}
			j := c.Bound("i")
			bs = append(bs, j)
			x.update(s, l.name+"!at", bs, g, at(c.Add(j, k)))
			x.gstore(s, l.name+"!n", SInt, c.Sub(n, k), l.args...)
			return []Val{{k}, x.nilErr()}
		})
	// ---- bufio
	case "bufio.NewWriter":
		p := x.newObject(s, sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		l := x.bufLoc(p, sig.Results().At(0).Type())
		x.gstore(s, l.name+"!n", SInt, c.Lit(0), l.args...)
		x.meta(l.name+"!at", Comp{"", SInt, false, nil}, len(l.args)+1)
		x.gstore(s, "bufio!t", SInt, args[0][1], p)
		x.gstore(s, "bufio!tag", SInt, args[0][0], p)
		x.ret(s, res, Val{p})
	case "(*bufio.Writer).Flush":
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		n, at := x.contentOf(s, l)
		tgt := x.gread(s.live(), "bufio!t", SInt, args[0][0])
		x.both(s, res, x.choice("flushok"), func(s *State) []Val {
			x.appendTo(s, writerLoc(tgt), n, at)
			x.gstore(s, l.name+"!n", SInt, c.Lit(0), l.args...)
			return []Val{x.nilErr()}
		}, func(s *State) []Val {
			k := c.Fresh("part", SInt)
			x.assume(s, c.And(c.Le(c.Lit(0), k), c.Le(k, n)))
			x.appendTo(s, writerLoc(tgt), k, at)
			return []Val{x.errVal(s, "flusherr")}
		})
	case "bufio.NewReader":
		p := x.newObject(s, sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		// what it hands out is the input of the reader behind it
		x.gstore(s, "bufio!src", SInt, args[0][1], p)
		x.ret(s, res, Val{p})
	case "(*bufio.Reader).ReadRune":
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		r := x.gread(s.live(), "bufio!src", SInt, args[0][0])
		pos, at := x.runeStream(s, r)
		x.both(s, res, x.choice("readok"), func(s *State) []Val {
			v := at(pos)
			c.Fact(v, c.And(c.Le(c.Lit(0), v), c.Le(v, c.Lit(0x10FFFF)), c.Or(c.Lt(v, c.Lit(0xD800)), c.Lt(c.Lit(0xDFFF), v))))
			x.gstore(s, "ghost:rpos", SInt, c.AddK(pos, 1), r)
			x.gstore(s, "ghost:unreadable", SInt, c.Lit(1), r)
			n := c.Fresh("size", SInt)
			x.assume(s, c.And(c.Le(c.Lit(1), n), c.Le(n, c.Lit(4))))
			return []Val{{v}, {n}, x.nilErr()}
		}, func(s *State) []Val {
			x.gstore(s, "ghost:unreadable", SInt, c.Lit(0), r)
			x.countFail(s, r)
			return []Val{{c.Lit(0)}, {c.Lit(0)}, x.errVal(s, "err")}
		})
	case "(*bufio.Reader).UnreadRune":
		r := x.gread(s.live(), "bufio!src", SInt, args[0][0])
		pos, _ := x.runeStream(s, r)
		can := c.Eq(x.gread(s.live(), "ghost:unreadable", SInt, r), c.Lit(1))
		x.gstore(s, "ghost:rpos", SInt, c.Ite(can, c.AddK(pos, -1), pos), r)
		x.gstore(s, "ghost:unreadable", SInt, c.Lit(0), r)
		x.ret(s, res, x.havocResults(s, sig, "err")...)
	case "(*bufio.Reader).ReadString":
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		r := x.gread(s.live(), "bufio!src", SInt, args[0][0])
		pos, end, _ := x.stream(s, r)
		x.meta("ghost:line", Comp{"", SInt, false, types.Typ[types.String]}, 2)
		nd := x.node(s.heap, "ghost:line")
		x.both(s, res, c.Lt(pos, end), func(s *State) []Val {
			v := x.read(nd, []*Term{r, pos})
			x.strFacts(v)
			x.gstore(s, "ghost:rinpos", SInt, c.AddK(pos, 1), r)
			return []Val{{v}, x.nilErr()}
		}, func(s *State) []Val {
			return []Val{{c.Fresh("tail", SInt)}, x.errVal(s, "err")}
		})
	// ---- sync
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		x.nilCheck(s, args[0][0], name)
		if s.dead {
			return true
		}
		x.meta(l.name+"!held", Comp{"", SBool, false, nil}, len(l.args))
		h := x.read(x.node(s.heap, l.name+"!held"), l.args)
		if fn.Name() == "Lock" {
			x.oblige(s, "no-panic", "deadlock: the mutex is not already held", nil, c.Not(h))
			x.store(s, l.name+"!held", l.args, c.True())
		} else {
			x.oblige(s, "no-panic", "unlock of an unlocked mutex", nil, h)
			x.store(s, l.name+"!held", l.args, c.False())
		}
		if s.dead {
			return true
		}
		x.ret(s, res)
	case "(*sync.Once).Do":
		l := x.bufLoc(args[0][0], sig.Recv().Type())
		x.meta(l.name+"!done", Comp{"", SBool, false, nil}, len(l.args))
		d := x.read(x.node(s.heap, l.name+"!done"), l.args)
		t, fs := x.split(s, d)
		if t != nil {
			x.ret(t, res)
		}
		if fs != nil {
			x.store(fs, l.name+"!done", l.args, c.True())
			if cl, ok := c.closures[args[1][0].id]; ok {
				x.callFn(fs, fs.frames[len(fs.frames)-1], res, cl.fn, cl.binds, nil)
			} else {
				x.ret(fs, res)
			}
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		x.ret(s, res)
	case "sync/atomic.LoadInt32":
		x.nilCheck(s, args[0][0], "atomic")
		if s.dead {
			return true
		}
		x.ret(s, res, x.load(s, args[0][0], i32))
	case "sync/atomic.StoreInt32":
		x.nilCheck(s, args[0][0], "atomic")
		if s.dead {
			return true
		}
		x.storePtr(s, args[0][0], i32, args[1])
		x.ret(s, res)
	case "sync/atomic.SwapInt32":
		x.nilCheck(s, args[0][0], "atomic")
		if s.dead {
			return true
		}
		o := x.load(s, args[0][0], i32)
		x.storePtr(s, args[0][0], i32, args[1])
		x.ret(s, res, o)
	case "sync/atomic.CompareAndSwapInt32":
		x.nilCheck(s, args[0][0], "atomic")
		if s.dead {
			return true
		}
		o := x.load(s, args[0][0], i32)
		x.both(s, res, c.Eq(o[0], args[1][0]), func(s *State) []Val {
			x.storePtr(s, args[0][0], i32, args[2])
			return []Val{{c.True()}}
		}, func(s *State) []Val { return []Val{{c.False()}} })
	// ---- container/list
	case "container/list.New":
		p := x.newObject(s, sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		x.gstore(s, "list!lo", SInt, c.Lit(0), p)
		x.gstore(s, "list!hi", SInt, c.Lit(0), p)
		e := c.Bound("e")
		x.assume(s, c.Forall([]*Term{e}, c.Ne(x.gread(s.live(), "list!of", SInt, e), p)))
		x.ret(s, res, Val{p})
	case "(*container/list.List).Len", "(*container/list.List).Front", "(*container/list.List).Back":
		l := args[0][0]
		x.nilCheck(s, l, name)
		if s.dead {
			return true
		}
		lo, hi := x.listLo(s, l), x.listHi(s, l)
		switch fn.Name() {
		case "Len":
			x.ret(s, res, Val{c.Sub(hi, lo)})
		default:
			i := lo
			if fn.Name() == "Back" {
				i = c.AddK(hi, -1)
			}
			x.both(s, res, c.Lt(lo, hi), func(s *State) []Val { return []Val{x.listElem(s, l, i)} }, func(s *State) []Val { return []Val{{c.Lit(0)}} })
		}
	case "(*container/list.Element).Next", "(*container/list.Element).Prev":
		e := args[0][0]
		x.nilCheck(s, e, name)
		if s.dead {
			return true
		}
		l := x.gread(s.live(), "list!of", SInt, e)
		c.Fact(l, c.Le(c.Lit(0), l))
		p := x.gread(s.live(), "list!lpos", SInt, e)
		var in, i *Term
		if fn.Name() == "Next" {
			i = c.AddK(p, 1)
			in = c.And(c.Ne(l, c.Lit(0)), c.Lt(i, x.listHi(s, l)))
		} else {
			i = c.AddK(p, -1)
			in = c.And(c.Ne(l, c.Lit(0)), c.Le(x.listLo(s, l), i))
		}
		x.both(s, res, in, func(s *State) []Val { return []Val{x.listElem(s, l, i)} }, func(s *State) []Val { return []Val{{c.Lit(0)}} })
	case "(*container/list.List).PushBack":
		l := args[0][0]
		x.nilCheck(s, l, name)
		if s.dead {
			return true
		}
		et := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		e := x.newObject(s, et)
		x.storeAt(s, "list.Element.Value", []*Term{e}, sig.Params().At(0).Type(), args[1])
		hi := x.listHi(s, l)
		x.gstore(s, "list!of", SInt, l, e)
		x.gstore(s, "list!lpos", SInt, hi, e)
		x.gstore(s, "list!at", SInt, e, l, hi)
		x.gstore(s, "list!hi", SInt, c.AddK(hi, 1), l)
		x.ret(s, res, Val{e})
	case "(*container/list.List).Remove":
		l, e := args[0][0], args[1][0]
		x.nilCheck(s, l, name)
		x.nilCheck(s, e, name)
		if s.dead {
			return true
		}
		v := x.loadAt(s.live(), "list.Element.Value", []*Term{e}, sig.Results().At(0).Type())
		of := x.gread(s.live(), "list!of", SInt, e)
		p := x.gread(s.live(), "list!lpos", SInt, e)
		lo := x.listLo(s, l)
		t, fs := x.split(s, c.Eq(of, l))
		if fs != nil {
			x.ret(fs, res, v)
		}
		if t != nil {
			x.both(t, res, c.Eq(p, lo), func(s *State) []Val {
				x.gstore(s, "list!of", SInt, c.Lit(0), e)
				x.gstore(s, "list!lo", SInt, c.AddK(lo, 1), l)
				return []Val{v}
			}, func(s *State) []Val {
				x.gstore(s, "list!of", SInt, c.Lit(0), e)
				at := x.node(s.heap, "list!at")
				_ = x.gread(s.live(), "list!at", SInt, l, lo)
				at = x.node(s.heap, "list!at")
				pn := x.node(s.heap, "list!lpos")
				ofn := x.node(s.heap, "list!of")
				b1, b2 := c.Bound("a"), c.Bound("i")
				x.update(s, "list!at", []*Term{b1, b2}, c.And(c.Eq(b1, l), c.Lt(lo, b2), c.Le(b2, p)), x.read(at, []*Term{b1, c.AddK(b2, -1)}))
				b3 := c.Bound("e")
				lp := x.read(pn, []*Term{b3})
				x.update(s, "list!lpos", []*Term{b3}, c.And(c.Eq(x.read(ofn, []*Term{b3}), l), c.Lt(lp, p)), c.AddK(lp, 1))
				x.gstore(s, "list!lo", SInt, c.AddK(lo, 1), l)
				return []Val{v}
			})
		}
	// ---- io, fmt, errors
	case "errors.New":
		p := x.alloc(s)
		x.ret(s, res, Val{x.tagOf(types.NewPointer(types.Typ[types.Invalid])), p})
	case "fmt.Errorf":
		x.ret(s, res, x.errVal(s, "errorf"))
	case "fmt.Sprintf":
		if t, ok := x.fmtContent(s, args[0][0], args[1]); ok {
			x.ret(s, res, Val{t})
		} else {
			x.ret(s, res, x.havocResults(s, sig, "sprintf")...)
		}
	case "fmt.Fprintf":
		var t *Term
		if ct, ok := x.fmtContent(s, args[1][0], args[2]); ok {
			t = ct
		} else {
			t = x.freshVal("fmt", types.Typ[types.String], s)[0]
		}
		x.writeStr(s, f, res, args[0], t, sig)
	case "io.WriteString":
		x.writeStr(s, f, res, args[0], args[1][0], sig)
	case "io.ReadFull":
		p := args[1]
		x.both(s, res, x.choice("readok"), func(s *State) []Val {
			x.fillFrom(s, args[0][1], p, p[2])
			return []Val{{p[2]}, x.nilErr()}
		}, func(s *State) []Val {
			n := c.Fresh("n", SInt)
			x.assume(s, c.And(c.Le(c.Lit(0), n), c.Lt(n, p[2])))
			x.fillFrom(s, args[0][1], p, n)
			x.countFail(s, args[0][1])
			return []Val{{n}, x.errVal(s, "err")}
		})
	case "encoding/binary.Read":
		// into a pointer to an integer
		d := args[2]
		if d[0].op != OLit {
			x.fail("binary.Read into unknown data")
		}
		pt, ok := x.typeByTag(d[0].k).Underlying().(*types.Pointer)
		if !ok {
			x.fail("binary.Read into a non-pointer")
		}
		bits, signed := x.intBits(pt.Elem())
		nb := int64(bits / 8)
		r := args[0][1]
		x.both(s, res, x.choice("readok"), func(s *State) []Val {
			pos, _, at := x.stream(s, r)
			v := c.Lit(0)
			for k := int64(0); k < nb; k++ {
				b := at(c.AddK(pos, k))
				x.assume(s, c.And(c.Le(c.Lit(0), b), c.Le(b, c.Lit(255))))
				v = c.Add(c.MulK(v, 256), b)
			}
			if signed {
				v = c.Ite(c.Lt(v, c.Lit(1<<uint(bits-1))), v, c.AddK(v, -(1<<uint(bits))))
			}
			x.storePtr(s, d[1], pt.Elem(), Val{v})
			x.gstore(s, "ghost:rinpos", SInt, c.AddK(pos, nb), r)
			return []Val{x.nilErr()}
		}, func(s *State) []Val {
			pos, _, _ := x.stream(s, r)
			n := c.Fresh("n", SInt)
			x.assume(s, c.And(c.Le(c.Lit(0), n), c.Lt(n, c.Lit(nb))))
			x.gstore(s, "ghost:rinpos", SInt, c.Add(pos, n), r)
			x.countFail(s, r)
			return []Val{x.errVal(s, "err")}
		})
	case "encoding/binary.Write":
		d := args[2]
		if d[0].op != OLit || args[0][0].op != OLit {
			x.fail("binary.Write of unknown data")
		}
		t := x.typeByTag(d[0].k)
		bits, signed := x.intBits(t)
		v := x.unbox(s, t, d[1])[0]
		if signed {
			v = c.Ite(c.Le(c.Lit(0), v), v, c.AddK(v, 1<<uint(bits)))
		}
		nb := int64(bits / 8)
		var bs []*Term
		for k := nb - 1; k >= 0; k-- {
			bs = append(bs, c.Mod(c.Div(v, c.Lit(1<<uint(8*k))), c.Lit(256)))
		}
		l := x.sinkLoc(args[0])
		x.appendTo(s, l, c.Lit(nb), func(i *Term) *Term {
			r := bs[nb-1]
			for k := nb - 2; k >= 0; k-- {
				r = c.Ite(c.Eq(i, c.Lit(k)), bs[k], r)
			}
			return r
		})
		x.ret(s, res, x.havocResults(s, sig, "bw")...)
	case "(encoding/binary.bigEndian).Uint16":
		b := args[1]
		x.panicOb(s, "index out of range", "Uint16", c.Le(c.Lit(2), b[2]))
		if s.dead {
			return true
		}
		bt := types.Typ[types.Uint8]
		b0, b1 := x.elemAt(s.live(), bt, b, c.Lit(0))[0], x.elemAt(s.live(), bt, b, c.Lit(1))[0]
		x.ret(s, res, Val{c.Add(c.MulK(b0, 256), b1)})
	case "(encoding/binary.bigEndian).PutUint16":
		b := args[1]
		x.panicOb(s, "index out of range", "PutUint16", c.Le(c.Lit(2), b[2]))
		if s.dead {
			return true
		}
		bt := types.Typ[types.Uint8]
		x.storeAt(s, elemName(bt), []*Term{b[0], b[1]}, bt, Val{c.Div(args[2][0], c.Lit(256))})
		x.storeAt(s, elemName(bt), []*Term{b[0], c.AddK(b[1], 1)}, bt, Val{c.Mod(args[2][0], c.Lit(256))})
		x.ret(s, res)
	case "(*os.File).Write":
		n, at := x.byteContent(s.snap(), args[1])
		x.both(s, res, x.choice("writeok"), func(s *State) []Val {
			x.appendTo(s, writerLoc(args[0][0]), n, at)
			return []Val{{c.Fresh("n", SInt)}, x.nilErr()}
		}, func(s *State) []Val {
			k := c.Fresh("part", SInt)
			x.assume(s, c.And(c.Le(c.Lit(0), k), c.Le(k, n)))
			x.appendTo(s, writerLoc(args[0][0]), k, at)
			return []Val{{c.Fresh("n", SInt)}, x.errVal(s, "err")}
		})
	case "syscall.Read":
		if len(args[1]) != 4 {
			used = false
			return false
		}
		p := args[1]
		n := c.Fresh("n", SInt)
		x.assume(s, c.And(c.Le(c.Lit(-1), n), c.Le(n, p[2])))
		k := c.Ite(c.Le(c.Lit(0), n), n, c.Lit(0))
		x.fillFrom(s, args[0][0], p, k)
		x.both(s, res, c.Le(c.Lit(0), n), func(s *State) []Val { return []Val{{n}, x.nilErr()} }, func(s *State) []Val { return []Val{{n}, x.errVal(s, "err")} })
	default:
		used = false
		return false
	}
	return true
}

// countFail: an input ended or failed before it delivered what was asked for
func (x *Exec) countFail(s *State, r *Term) {
	x.gstore(s, "ghost:readfails", SInt, x.c.AddK(x.gread(s.live(), "ghost:readfails", SInt, r), 1), r)
}

func (x *Exec) intBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		x.fail("integer data expected, have %s", t)
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	x.fail("fixed size integer expected, have %s", t)
	return 0, false
}

func (x *Exec) listLo(s *State, l *Term) *Term { return x.gread(s.live(), "list!lo", SInt, l) }
func (x *Exec) listHi(s *State, l *Term) *Term { return x.gread(s.live(), "list!hi", SInt, l) }
func (x *Exec) listElem(s *State, l, i *Term) Val {
	e := x.listAt(s.live(), l, i)
	x.assume(s, x.c.Lt(x.c.Lit(0), e))
	return Val{e}
}

// sinkLoc: where bytes written through an interface value end up
func (x *Exec) sinkLoc(w Val) *Loc {
	if w[0].op == OLit {
		if t := x.typeByTag(w[0].k); t != nil {
			if n := types.TypeString(t, nil); n == "*bytes.Buffer" || n == "*bufio.Writer" {
				return x.bufLoc(w[1], t)
			}
		}
	}
	return writerLoc(w[1])
}

func (x *Exec) writeArg(s *State, fname string, v Val) (*Term, func(*Term) *Term) {
	c := x.c
	switch fname {
	case "WriteString":
		str := v[0]
		return x.rlen(str), func(i *Term) *Term { return x.rat(str, i) }
	case "WriteByte":
		b := v[0]
		return c.Lit(1), func(*Term) *Term { return c.Ite(c.Lt(b, c.Lit(128)), b, c.Lit(0xFFFD)) }
	case "WriteRune":
		r := v[0]
		return c.Lit(1), func(*Term) *Term { return x.vr(r) }
	}
	return x.byteContent(s.snap(), v)
}

// writeStr writes a string through an interface value
func (x *Exec) writeStr(s *State, f *Frame, res ssa.Value, w Val, str *Term, sig *types.Signature) {
	if w[0].op == OLit {
		if t := x.typeByTag(w[0].k); t != nil {
			if m := x.w.prog.LookupMethod(t, x.w.tpkg, "Write"); m != nil && x.w.inPkg(m) {
				b := x.convert(s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), Val{str})
				x.callFn(s, f, res, m, nil, []Val{x.unbox(s, t, w[1]), b})
				return
			}
		}
	}
	x.appendTo(s, x.sinkLoc(w), x.rlen(str), func(i *Term) *Term { return x.rat(str, i) })
	x.ret(s, res, x.havocResults(s, sig, "w")...)
}

func (x *Exec) modelInvoke(s *State, f *Frame, res ssa.Value, name string, cm *ssa.CallCommon, recv Val, args []Val) bool {
	c := x.c
	sig := cm.Signature()
	switch cm.Method.Name() {
	case "Write":
		if len(args) == 1 && len(args[0]) == 4 {
			x.useModel("interface Write")
			n, at := x.byteContent(s.snap(), args[0])
			x.appendTo(s, x.sinkLoc(recv), n, at)
			x.ret(s, res, x.havocResults(s, sig, "w")...)
			return true
		}
	case "Read":
		if len(args) == 1 && len(args[0]) == 4 {
			x.useModel("interface Read")
			p := args[0]
			n := c.Fresh("n", SInt)
			x.assume(s, c.And(c.Le(c.Lit(0), n), c.Le(n, p[2])))
			x.fillFrom(s, recv[1], p, n)
			e := x.freshVal("err", types.Universe.Lookup("error").Type(), s)
			x.gstore(s, "ghost:reads", SInt, c.AddK(x.gread(s.live(), "ghost:reads", SInt, recv[1]), 1), recv[1])
			x.gstore(s, "ghost:lastn", SInt, n, recv[1])
			x.gstore(s, "ghost:lasterrtag", SInt, e[0], recv[1])
			x.gstore(s, "ghost:lasterrdata", SInt, e[1], recv[1])
			x.ret(s, res, Val{n}, e)
			return true
		}
	case "Error":
		if len(args) == 0 {
			t := c.App("uf:errstr", SInt, recv[0], recv[1])
			x.strFacts(t)
			x.ret(s, res, Val{t})
			return true
		}
	}
	return false
}
