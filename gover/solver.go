package main

// SMT query generation and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func startProc(name string, args ...string) (*Proc, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Proc{cmd: cmd, in: in, out: bufio.NewReader(out)}, nil
}
func (p *Proc) kill() {
	if p != nil && p.cmd != nil && p.cmd.Process != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// run sends a self-contained query and returns sat/unsat/unknown
func (p *Proc) run(q string, timeout time.Duration) (string, bool) {
	p.n++
	done := make(chan string, 1)
	go func() {
		_, err := io.WriteString(p.in, "(reset)\n"+q+"(echo \"<done>\")\n")
		if err != nil {
			done <- "error"
			return
		}
		res := ""
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				done <- "error"
				return
			}
			l = strings.TrimSpace(l)
			if l == "<done>" || l == "\"<done>\"" {
				done <- res
				return
			}
			if strings.HasPrefix(l, "(error") {
				res = l
			} else if res == "" {
				res = l
			} else if !strings.HasPrefix(res, "(error") {
				res += "\n" + l
			}
		}
	}()
	select {
	case r := <-done:
		return r, r != "error"
	case <-time.After(timeout):
		return "timeout", false
	}
}

type Solver struct {
	p       *Proc
	queries int
	ms      time.Duration
	cache   map[string]bool
	pcache  map[string]bool
}

func NewSolver() *Solver { return &Solver{cache: map[string]bool{}, pcache: map[string]bool{}} }
func (sv *Solver) close() {
	if sv.p != nil {
		sv.p.kill()
		sv.p = nil
	}
}

var z3bin = "z3-new"

func (sv *Solver) queryMany(q string, ms int, n int) []string {
	r := sv.query(q, ms)
	return strings.Split(r, "\n")
}

func (sv *Solver) query(q string, ms int) string {
	t0 := time.Now()
	defer func() { sv.ms += time.Since(t0); sv.queries++ }()
	if sv.p != nil && sv.p.n > 3000 {
		sv.p.kill()
		sv.p = nil
	}
	if sv.p == nil {
		p, err := startProc(z3bin, "-in", "-smt2")
		if err != nil {
			panic(err)
		}
		sv.p = p
	}
	defer func() {
		if d := time.Since(t0); slowDir != "" && d > 300*time.Millisecond {
			slowN++
			os.WriteFile(fmt.Sprintf("%s/slow%03d-%d.smt2", slowDir, slowN, d.Milliseconds()), []byte(q), 0644)
		}
	}()
	r, ok := sv.p.run(q, time.Duration(ms)*8*time.Millisecond+3*time.Second)
	if !ok {
		sv.p.kill()
		sv.p = nil
	}
	if dbgDir != "" && strings.HasPrefix(r, "(error") {
		os.WriteFile(dbgDir+"/error.smt2", []byte(q), 0644)
	}
	if strings.HasPrefix(r, "(error") {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", r)
			os.WriteFile("/tmp/gover_error.smt2", []byte(q), 0644)
		}
		if sv.p != nil {
			sv.p.kill()
			sv.p = nil
		}
	}
	return r
}

var slowDir = os.Getenv("GOVER_SLOWDIR")
var slowN int
var dbgDir = os.Getenv("GOVER_DUMP")

// ---------------------------------------------------------------- query building

func frontiers(syms map[string]*Term) []*Term {
	var out []*Term
	for n, t := range syms {
		if strings.HasPrefix(n, "A!") {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func hasQuant(t *Term, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t.op == OForall || t.op == OExists
	if !r {
		for _, a := range t.args {
			if hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t.id] = r
	return r
}

// sat: is pc && cond possibly satisfiable (quantifier-free approximation)
func (sv *Solver) sat(x *Exec, pc []*Term, cond *Term) bool {
	memo := map[int]bool{}
	var hs []*Term
	for _, p := range pc {
		if !hasQuant(p, memo) {
			hs = append(hs, p)
		}
	}
	if !hasQuant(cond, memo) {
		hs = append(hs, cond)
	}
	ids := make([]int, len(hs))
	for i, h := range hs {
		ids[i] = h.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	key := sb.String()
	if r, ok := sv.cache[key]; ok {
		return r
	}
	q := x.buildQuery(hs, true, 1000, "")
	r := sv.query(q, 1000)
	res := r != "unsat"
	sv.cache[key] = res
	return res
}

// plainQuery: the obligation without its quantified hypotheses, if its goal has no quantifier
func (x *Exec) plainQuery(o *Oblig, ms int) (string, bool) {
	memo := map[int]bool{}
	if hasQuant(o.goal, memo) {
		return "", false
	}
	hs := []*Term{x.c.Not(o.goal)}
	for _, h := range o.hyps {
		if !hasQuant(h, memo) {
			hs = append(hs, h)
		}
	}
	return x.buildQuery(hs, true, ms, ""), true
}

// proves: quick proof attempt used by loop analysis
func (x *Exec) proves(hyps []*Term, goal *Term, ms int) bool {
	if goal.op == OTrue {
		return true
	}
	for _, g := range x.splitGoal(hyps, goal, 0) {
		if g.goal.op == OTrue {
			continue
		}
		hs := append(append([]*Term(nil), g.hyps...), x.c.Not(g.goal))
		ids := make([]int, len(hs))
		for i, h := range hs {
			ids[i] = h.id
		}
		sort.Ints(ids)
		key := fmt.Sprint(ids)
		if r, ok := x.sol.pcache[key]; ok {
			if !r {
				return false
			}
			continue
		}
		q := x.buildQuery(hs, false, ms, "")
		r := x.sol.query(q, ms)
		if os.Getenv("GOVER_SLOW") != "" && r != "unsat" && r != "sat" && r != "unknown" {
			fmt.Fprintln(os.Stderr, "slow:", r)
		}
		x.sol.pcache[key] = r == "unsat"
		if r != "unsat" {
			return false
		}
	}
	return true
}

type subgoal struct {
	hyps []*Term
	goal *Term
}

func (x *Exec) splitGoal(hyps []*Term, g *Term, depth int) []subgoal {
	c := x.c
	switch g.op {
	case OTrue:
		return nil
	case OAnd:
		var out []subgoal
		for _, a := range g.args {
			out = append(out, x.splitGoal(hyps, a, depth)...)
		}
		return out
	case OForall:
		m := map[int]*Term{}
		for _, v := range g.args[:len(g.args)-1] {
			m[v.id] = c.Var(fmt.Sprintf("sk!%d!%d!%s", g.id, depth, v.name), SInt)
		}
		return x.splitGoal(hyps, c.Subst(g.args[len(g.args)-1], m), depth+1)
	case OOr:
		// move negations of disjuncts that are not quantified goals to the hypotheses; keep a quantified disjunct as goal
		var main *Term
		nq := 0
		for _, a := range g.args {
			if a.op == OForall || a.op == OAnd && hasQuant(a, map[int]bool{}) {
				main = a
				nq++
			}
		}
		if nq == 1 {
			hs := append([]*Term(nil), hyps...)
			for _, a := range g.args {
				if a != main {
					hs = append(hs, c.Not(a))
				}
			}
			return x.splitGoal(hs, main, depth+1)
		}
	case OIff:
		a, b := g.args[0], g.args[1]
		if hasQuant(a, map[int]bool{}) || hasQuant(b, map[int]bool{}) {
			return append(x.splitGoal(append(append([]*Term(nil), hyps...), a), b, depth+1), x.splitGoal(append(append([]*Term(nil), hyps...), b), a, depth+1)...)
		}
	}
	return []subgoal{{hyps, g}}
}

// normalise quantified hypotheses so that bound variables appear directly as function arguments
func (x *Exec) normHyp(h *Term) []*Term {
	c := x.c
	switch h.op {
	case OForall:
		n := len(h.args) - 1
		body := h.args[n]
		cur := []*Term{h}
		if body.op == OAnd {
			var out []*Term
			for _, a := range body.args {
				out = append(out, x.normHyp(c.Forall(h.args[:n], a))...)
			}
			return out
		}
		// distribute A -> (B and C)
		if body.op == OOr {
			for i, a := range body.args {
				if a.op == OAnd {
					allq := true
					if len(a.args) > 6 {
						allq = false
					}
					if allq {
						var out []*Term
						for _, b := range a.args {
							na := append([]*Term(nil), body.args...)
							na[i] = b
							out = append(out, x.normHyp(c.Forall(h.args[:n], c.Or(na...)))...)
						}
						return out
					}
				}
				if a.op == OForall {
					na := append([]*Term(nil), body.args...)
					na[i] = a.args[len(a.args)-1]
					vs := append(append([]*Term(nil), h.args[:n]...), a.args[:len(a.args)-1]...)
					return x.normHyp(c.Forall(vs, c.Or(na...)))
				}
			}
		}
		if body.op == OForall {
			vs := append(append([]*Term(nil), h.args[:n]...), body.args[:len(body.args)-1]...)
			return x.normHyp(c.Forall(vs, body.args[len(body.args)-1]))
		}
		for vi := 0; vi < n; vi++ {
			v := h.args[vi]
			var next []*Term
			for _, q := range cur {
				if q.op != OForall {
					next = append(next, q)
					continue
				}
				m := len(q.args) - 1
				rests, plain := shifts(c, q.args[m], v)
				if plain || len(rests) == 0 {
					next = append(next, q)
				}
				for ri, r := range rests {
					if ri >= 4 {
						break
					}
					next = append(next, c.Forall(q.args[:m], c.Subst(q.args[m], map[int]*Term{v.id: c.Sub(v, r)})))
				}
			}
			cur = next
		}
		var res []*Term
		orig := false
		for _, q := range cur {
			if q.op == OForall && len(patterns(q)) == 0 {
				if !orig {
					orig = true
					res = append(res, h)
				}
				continue
			}
			res = append(res, q)
		}
		return res
	case OAnd:
		var out []*Term
		for _, a := range h.args {
			out = append(out, x.normHyp(a)...)
		}
		return out
	}
	return []*Term{h}
}

// prep brings a hypothesis into a form fit for trigger-based instantiation: negations are pushed
// through quantifiers, outermost existentials become constants, universals are normalised.
func (x *Exec) prep(t *Term, under bool) *Term {
	c := x.c
	if !x.quanty(t) {
		return t
	}
	key := t.id * 2
	if under {
		key++
	}
	if r, ok := x.prepMemo[key]; ok {
		return r
	}
	if x.prepMemo == nil {
		x.prepMemo = map[int]*Term{}
	}
	r := x.prep1(t, under)
	x.prepMemo[key] = r
	_ = c
	return r
}
func (x *Exec) quanty(t *Term) bool {
	if x.qMemo == nil {
		x.qMemo = map[int]bool{}
	}
	return hasQuant(t, x.qMemo)
}
func (x *Exec) prep1(t *Term, under bool) *Term {
	c := x.c
	switch t.op {
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = x.prep(a, under)
		}
		if t.op == OAnd {
			return c.And(as...)
		}
		return c.Or(as...)
	case OIff:
		a, b := t.args[0], t.args[1]
		return c.And(x.prep(c.Or(c.Not(a), b), under), x.prep(c.Or(a, c.Not(b)), under))
	case ONot:
		a := t.args[0]
		neg := func() []*Term {
			as := make([]*Term, len(a.args))
			for i, b := range a.args {
				as[i] = c.Not(b)
			}
			return as
		}
		switch a.op {
		case OAnd:
			return x.prep(c.Or(neg()...), under)
		case OOr:
			return x.prep(c.And(neg()...), under)
		case OIff:
			return x.prep(c.Iff(c.Not(a.args[0]), a.args[1]), under)
		case OForall:
			n := len(a.args) - 1
			return x.prep(c.Exists(a.args[:n], c.Not(a.args[n])), under)
		case OExists:
			n := len(a.args) - 1
			return x.prep(c.Forall(a.args[:n], c.Not(a.args[n])), under)
		}
	case OExists:
		n := len(t.args) - 1
		if !under && !t.bound {
			m := map[int]*Term{}
			for _, v := range t.args[:n] {
				m[v.id] = c.Var(fmt.Sprintf("sk!%d!%s", t.id, v.name), SInt)
			}
			return x.prep(c.Subst(t.args[n], m), under)
		}
		return c.Exists(t.args[:n], x.prep(t.args[n], true))
	case OForall:
		n := len(t.args) - 1
		f := c.Forall(t.args[:n], x.prep(t.args[n], true))
		if under {
			return f
		}
		return c.And(x.normHyp(f)...)
	}
	return t
}

// shifts finds closed terms r such that some application has the argument v+r
func shifts(c *Ctx, body, v *Term) (out []*Term, plain bool) {
	seen := map[int]bool{}
	rs := map[int]bool{}
	marked := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp && !strings.HasPrefix(t.name, "$") {
			for _, a := range t.args {
				if a == v {
					plain = true
					if isMarker(t) {
						marked = true
					}
				}
				if a.op == OLin {
					for i, u := range a.args {
						if u == v && a.coefs[i] == 1 {
							r := c.Sub(a, v)
							if !r.bound && !rs[r.id] {
								rs[r.id] = true
								out = append(out, r)
							}
						}
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if marked {
		return nil, true
	}
	return
}

// buildQuery prints hyps (asserted) with the facts of their subterms
func (x *Exec) buildQuery(hyps []*Term, qfOnly bool, ms int, extra string) string {
	q, _ := x.buildScript(hyps, nil, qfOnly, ms, extra)
	return q + "(check-sat)\n"
}

// provesMany tries to prove each goal separately from the same hypotheses
func (x *Exec) provesMany(hyps []*Term, goals []*Term) []bool {
	return x.provesManyH(hyps, goals, nil)
}

// provesManyH: a query about a goal marked hard that ran out of resources is tried again with more
func (x *Exec) provesManyH(hyps []*Term, goals []*Term, hard []bool) []bool {
	out := make([]bool, len(goals))
	memo := map[int]bool{}
	var qf []*Term
	var idx []int
	var wg sync.WaitGroup
	type pend struct {
		i    int
		keys []string
		qs   []string
		qs2  []string
		res  []string
	}
	var pends []*pend
	ms := 1600 + 1600*x.level
	if x.contr != nil && x.contr.effort > 1 {
		ms *= x.contr.effort
	}
	defer func() {
		wg.Wait()
		for _, p := range pends {
			out[p.i] = len(p.res) == len(p.qs)
			for k, r := range p.res {
				x.sol.pcache[p.keys[k]] = r == "unsat"
				if r != "unsat" {
					out[p.i] = false
				}
			}
		}
	}()
	for i, g := range goals {
		if g == nil || g.op == OTrue {
			out[i] = true
			continue
		}
		if hasQuant(g, memo) {
			p := &pend{i: i}
			bad := false
			for _, g := range x.splitGoal(hyps, g, 0) {
				if g.goal.op == OTrue {
					continue
				}
				hs := append(append([]*Term(nil), g.hyps...), x.c.Not(g.goal))
				ids := make([]int, len(hs))
				for i, h := range hs {
					ids[i] = h.id
				}
				sort.Ints(ids)
				key := fmt.Sprint(ids)
				if r, ok := x.sol.pcache[key]; ok {
					bad = bad || !r
					continue
				}
				p.keys = append(p.keys, key)
				p.qs = append(p.qs, x.buildQuery(hs, false, ms, ""))
				if i < len(hard) && hard[i] {
					p.qs2 = append(p.qs2, x.buildQuery(hs, false, 6*ms, ""))
				}
			}
			if bad {
				continue
			}
			if len(p.qs) == 0 {
				out[i] = true
				continue
			}
			pends = append(pends, p)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sv := <-helpers
				for k, q := range p.qs {
					r := sv.query(q+"(get-info :reason-unknown)\n", ms)
					again := strings.Contains(r, "canceled") || strings.Contains(r, "resource")
					r = strings.SplitN(r, "\n", 2)[0]
					if r != "unsat" && again && k < len(p.qs2) {
						r = sv.query(strings.Replace(p.qs2[k], "(set-option :smt.arith.solver 2)", "(set-option :smt.case_split 3)", 1), 6*ms)
						if r != "unsat" {
							r = sv.query(p.qs2[k], 6*ms)
						}
					}
					p.res = append(p.res, r)
					if r != "unsat" {
						break
					}
				}
				atomic.AddInt64(&helperQ, int64(sv.queries))
				sv.queries = 0
				helpers <- sv
			}()
			continue
		}
		if g.op == OFalse && len(hyps) == 0 {
			continue
		}
		key := pkey(hyps, g)
		if r, ok := x.sol.pcache[key]; ok {
			out[i] = r
			continue
		}
		qf = append(qf, x.c.Not(g))
		idx = append(idx, i)
	}
	if len(qf) == 0 {
		return out
	}
	pre, gs := x.buildScript(hyps, qf, false, 400, "")
	var sb strings.Builder
	sb.WriteString(pre)
	for _, g := range gs {
		sb.WriteString("(push)\n(assert " + g + ")\n(check-sat)\n(pop)\n")
	}
	res := x.sol.queryMany(sb.String(), 400*len(gs)+1000, len(gs))
	for k, i := range idx {
		out[i] = k < len(res) && res[k] == "unsat"
		x.sol.pcache[pkey(hyps, goals[i])] = out[i]
	}
	return out
}

// helpers: solver processes shared by the invariant checks of all functions
var helpers = func() chan *Solver {
	ch := make(chan *Solver, runtime.NumCPU())
	for i := 0; i < cap(ch); i++ {
		ch <- NewSolver()
	}
	return ch
}()
var helperQ int64

func pkey(hyps []*Term, g *Term) string {
	ids := make([]int, len(hyps))
	for i, h := range hyps {
		ids[i] = h.id
	}
	sort.Ints(ids)
	return fmt.Sprint(ids, g.id)
}

func (x *Exec) buildScript(hyps, goals []*Term, qfOnly bool, ms int, extra string) (string, []string) {
	c := x.c
	var as []*Term
	inAs := map[int]bool{}
	qmemo := map[int]bool{}
	add := func(t *Term) {
		if t.op == OTrue || inAs[t.id] {
			return
		}
		inAs[t.id] = true
		as = append(as, t)
	}
	for _, h := range hyps {
		if qfOnly {
			add(h)
			continue
		}
		p := x.prep(h, false)
		if p.op == OAnd {
			for _, n := range p.args {
				add(n)
			}
		} else {
			add(p)
		}
	}
	// facts closure
	seen := map[int]bool{}
	syms := map[string]*Term{} // symbol -> sample
	boundSyms := map[string]bool{}
	instd := map[string]bool{}
	limDone := false
	var cnts []*Term
	cntDone := false
	var visit func(t *Term)
	var pend []*Term
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp || t.op == OVar {
			if _, ok := syms[t.name]; !ok {
				syms[t.name] = t
			}
			if t.bound {
				boundSyms[t.name] = true
			} else if t.op == OApp {
				if x.cnts[t.name] != nil {
					cnts = append(cnts, t)
				}
				if fs := c.symFacts[t.name]; len(fs) > 0 {
					m := map[int]*Term{}
					for i, b := range x.symArgs[t.name] {
						m[b.id] = t.args[i]
					}
					for _, f := range fs {
						pend = append(pend, c.Subst(f, m))
					}
				}
			}
		}
		if !t.bound {
			for _, f := range c.facts[t.id] {
				if !qfOnly || !hasQuant(f, qmemo) {
					pend = append(pend, f)
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, g := range goals {
		visit(g)
	}
	for len(pend) > 0 {
		f := pend[0]
		pend = pend[1:]
		add(f)
	}
	if len(as) == 0 {
		add(c.Eq(c.Var("dummy!", SInt), c.Lit(0)))
	}
	for i := 0; i < len(as); i++ {
		visit(as[i])
		for len(pend) > 0 {
			f := pend[0]
			pend = pend[1:]
			add(f)
		}
		if i == len(as)-1 && !cntDone && len(cnts) > 0 {
			cntDone = true
			for _, f := range x.countFacts(append([]*Term{}, cnts...)) {
				add(f)
			}
		}
		if i == len(as)-1 && !qfOnly {
			names := make([]string, 0)
			for n := range boundSyms {
				if !instd[n] && len(c.symFacts[n]) > 0 {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				instd[n] = true
				for _, f := range c.symFacts[n] {
					add(c.Forall(x.symArgs[n], f))
				}
				// an object that existed at some point held only references that existed then
				if a, ok := x.symRef[n]; ok && len(x.symArgs[n]) > 0 && len(frontiers(syms)) > 0 {
					bs := x.symArgs[n]
					app := c.App(n, SInt, bs...)
					lim := c.App("lim!", SInt, bs[0])
					add(c.Forall(bs, c.Or(c.Le(app, x.front(a)), c.Le(app, lim))))
					if !limDone {
						limDone = true
						var fs []*Term
						for _, fn := range frontiers(syms) {
							fs = append(fs, c.Or(c.Lt(fn, bs[0]), c.Le(lim, fn)))
						}
						add(c.Forall(bs[:1], c.And(fs...)))
					}
				}
			}
			for _, ax := range x.axiomsFor(syms) {
				add(ax)
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :print-success false)\n")
	if z3opt := extra; z3opt != "" {
		sb.WriteString(z3opt)
	} else {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n(set-option :rlimit %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.arith.solver 2)\n", ms*8, ms*3000)
	}
	sb.WriteString("(define-fun gdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))\n(define-fun gmod ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))\n")
	// declarations
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	strs := []string{}
	for _, n := range names {
		t := syms[n]
		if strings.HasPrefix(n, "$") {
			continue
		}
		srt := "Int"
		if t.sort == SBool {
			srt = "Bool"
		}
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", symq(n), srt)
			if _, ok := c.strOf[t.id]; ok {
				strs = append(strs, symq(n))
			}
		} else {
			fmt.Fprintf(&sb, "(declare-fun %s (", symq(n))
			for _, a := range t.args {
				if a.sort == SBool {
					sb.WriteString("Bool ")
				} else {
					sb.WriteString("Int ")
				}
			}
			fmt.Fprintf(&sb, ") %s)\n", srt)
		}
	}
	if len(strs) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(strs, " ") + "))\n")
	}
	// frontier order
	var fr []int
	for _, n := range names {
		if strings.HasPrefix(n, "A!") {
			fr = append(fr, c.frontIdx(syms[n]))
		}
	}
	sort.Ints(fr)
	for i, f := range fr {
		if i == 0 {
			fmt.Fprintf(&sb, "(assert (< 0 |A!%d|))\n", f)
		} else {
			fmt.Fprintf(&sb, "(assert (<= |A!%d| |A!%d|))\n", fr[i-1], f)
		}
	}
	// sharing
	cnt := map[int]int{}
	var count func(t *Term)
	var order []*Term
	count = func(t *Term) {
		cnt[t.id]++
		if cnt[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
		order = append(order, t)
	}
	for _, a := range as {
		count(a)
	}
	for _, g := range goals {
		count(g)
	}
	defs := map[int]string{}
	nd := 0
	for _, t := range order {
		if cnt[t.id] > 1 && !t.bound && len(t.args) > 0 && t.op != OForall && t.op != OExists && !(t.op == OApp && len(t.args) == 1) {
			srt := "Int"
			if t.sort == SBool {
				srt = "Bool"
			}
			nd++
			name := fmt.Sprintf("d!%d", nd)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", name, srt)
			printTerm(&sb, t, defs)
			sb.WriteString(")\n")
			defs[t.id] = name
		}
	}
	// marker terms for quantifiers without a usable trigger
	if x.needMarks(as) {
		nested := x.contr != nil && x.contr.marks
		if nested {
			defs[withMarks] = "x"
		}
		sb.WriteString("(declare-fun idx! (Int) Bool)\n")
		for _, n := range names {
			t := syms[n]
			if t.op == OVar && t.sort == SInt && (strings.HasPrefix(n, "sk!") || strings.HasPrefix(n, "phi~") || strings.HasPrefix(n, "r.") && (!strings.Contains(n, "#") || strings.Contains(n, "#len"))) {
				q := symq(n)
				fmt.Fprintf(&sb, "(assert (idx! %s))\n", q)
				if true {
					fmt.Fprintf(&sb, "(assert (idx! (- %s 1)))\n", q)
				}
				if true {
					fmt.Fprintf(&sb, "(assert (idx! (+ %s 1)))\n", q)
				}
			}
		}
		nu := 0
		for _, t := range order {
			if t.op == OApp && t.sort == SInt && !t.bound && strings.HasPrefix(t.name, "uf:") && len(t.args) > 0 && nu < 12 {
				nu++
				sb.WriteString("(assert (idx! ")
				printTerm(&sb, t, defs)
				sb.WriteString("))\n")
			}
		}
		sb.WriteString("(assert (idx! 0))\n")
		if nested {
			sb.WriteString("(assert (forall ((q Int)) (! (idx! q) :pattern ((idx! q)))))\n")
		}
	}
	for _, a := range as {
		sb.WriteString("(assert ")
		if d, ok := defs[a.id]; ok {
			sb.WriteString(d)
		} else {
			printTerm(&sb, a, defs)
		}
		sb.WriteString(")\n")
	}
	var gs []string
	for _, g := range goals {
		var gb strings.Builder
		printTerm(&gb, g, defs)
		gs = append(gs, gb.String())
	}
	return sb.String(), gs
}

func (x *Exec) needMarks(as []*Term) bool {
	seen := map[int]bool{}
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if found || seen[t.id] || !x.quanty(t) {
			return
		}
		seen[t.id] = true
		if t.op == OForall && len(patterns(t)) == 0 {
			found = true
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, a := range as {
		rec(a)
	}
	return found
}

// ---------------------------------------------------------------- parallel discharge

type job struct {
	ob   *Oblig
	qs   []string // z3 queries (subgoals)
	alt  []string // the same without z3-specific options
	desc []string
}

type Pool struct {
	n      int
	jobs   chan func(sv *Solver)
	wg     sync.WaitGroup
	total  int64
	solvMs time.Duration
	mu     sync.Mutex
	nq     int
}

func NewPool(n int) *Pool {
	p := &Pool{n: n, jobs: make(chan func(sv *Solver), 100000)}
	for i := 0; i < n; i++ {
		go func() {
			sv := NewSolver()
			for j := range p.jobs {
				j(sv)
				p.mu.Lock()
				p.solvMs += sv.ms
				p.nq += sv.queries
				sv.ms, sv.queries = 0, 0
				p.mu.Unlock()
				p.wg.Done()
			}
			sv.close()
		}()
	}
	return p
}
func (p *Pool) submit(f func(sv *Solver)) {
	p.wg.Add(1)
	p.jobs <- f
}

func runCvc5(q string, ms int) string {
	f, err := os.CreateTemp("", "gover*.smt2")
	if err != nil {
		return "error"
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-logic ALL)\n" + q)
	f.Close()
	out, _ := exec.Command("timeout", fmt.Sprint(ms/1000+2), "cvc5", fmt.Sprintf("--tlimit=%d", ms), f.Name()).CombinedOutput()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
