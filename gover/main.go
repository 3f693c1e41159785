package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	verbose  = false
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gover: "+f+"\n", a...)
	os.Exit(2)
}

type worldKey struct{ goos, pkg string }

type Session struct {
	specs  *SpecSet
	worlds map[worldKey]*World
	werrs  map[worldKey]error
}

func newSession() *Session {
	sp, err := loadSpecs(filepath.Join(verifDir, "specs"))
	if err != nil {
		die("%v", err)
	}
	return &Session{specs: sp, worlds: map[worldKey]*World{}, werrs: map[worldKey]error{}}
}

func (ss *Session) world(goos, pkg string) (*World, error) {
	k := worldKey{goos, pkg}
	if w, ok := ss.worlds[k]; ok {
		return w, ss.werrs[k]
	}
	pat := "."
	if pkg != "" {
		pat = "./" + pkg
	}
	g := goos
	if g == "" {
		g = "linux"
	}
	w, err := loadWorld(repoDir, pat, g, ss.specs)
	if w != nil {
		w.goos = goos
	}
	ss.worlds[k], ss.werrs[k] = w, err
	return w, err
}

func (ct *Contract) tags() map[string]bool {
	m := map[string]bool{}
	for _, cs := range [][]Clause{ct.requires, ct.ensures, ct.hints, ct.steps, ct.shows, ct.segs[0], ct.segs[1], ct.segs[2], ct.seginvs[0], ct.seginvs[1], ct.keeps} {
		for _, c := range cs {
			for _, t := range c.tags {
				m[t] = true
			}
		}
	}
	for _, l := range [][]string{ct.panics, ct.frame, ct.term, ct.uses} {
		for _, t := range l {
			m[t] = true
		}
	}
	return m
}

// relevant: does this obligation decide property p
func (ct *Contract) relevant(o *Oblig, p string) bool {
	for _, t := range ct.uses { // the property rests on all that this function guarantees
		if t == p {
			return true
		}
	}
	tags := o.tags
	switch o.kind {
	case "no-panic":
		tags = ct.panics
	case "frame":
		tags = ct.frame
	case "termination":
		tags = ct.term
	}
	if len(tags) == 0 {
		return ct.tags()[p]
	}
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

// runVerify generates and discharges the obligations of one function. Level 0 instantiates the invariant
// templates without offsets and uses the first back end only; level 1 tries everything.
func runVerify(w *World, ct *Contract, pool *Pool, filter func(o *Oblig) bool, tmo int) *FnResult {
	var r *FnResult
	for lv := 0; lv < 2; lv++ {
		q := runLevel(w, ct, pool, filter, tmo, lv)
		if r != nil {
			q.symMs += r.symMs
		}
		r = q
		if !r.failed() || r.missing {
			return r
		}
		if fastFail || ct.cut != "" { // a long loop has no inferred invariants to try again with
			return r
		}
	}
	return r
}

func (r *FnResult) failed() bool {
	if r.err != "" || r.missing {
		return true
	}
	for _, o := range r.obs {
		if o.res == "failed" {
			return true
		}
	}
	return false
}

// budget bounds the memory of the queries that are waiting
type budget struct {
	mu   sync.Mutex
	cond *sync.Cond
	used int
}

var bigScripts = &budget{}

func (b *budget) take(n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.cond == nil {
		b.cond = sync.NewCond(&b.mu)
	}
	for b.used > 0 && b.used+n > 600<<20 {
		b.cond.Wait()
	}
	b.used += n
}

func (b *budget) give(n int) {
	b.mu.Lock()
	b.used -= n
	b.cond.Broadcast()
	b.mu.Unlock()
}

func runLevel(w *World, ct *Contract, pool *Pool, filter func(o *Oblig) bool, tmo, level int) *FnResult {
	fn := w.funcs[ct.fn]
	if fn == nil {
		return &FnResult{name: ct.fn, contr: ct, missing: true}
	}
	x := NewExec(w)
	x.level = level
	t0 := time.Now()
	r := x.verify(ct, fn)
	r.level = level
	r.symMs = time.Since(t0).Milliseconds()
	var wg sync.WaitGroup
	if ct.cut != "" { // most obligations of a long loop need no quantified hypothesis: these are tried first, all together
		var qw sync.WaitGroup
		for _, o := range r.obs {
			q, ok := "", false
			if filter(o) && o.res == "" {
				q, ok = x.plainQuery(o, tmo)
			}
			if !ok {
				continue
			}
			o := o
			qw.Add(1)
			pool.submit(func(sv *Solver) {
				defer qw.Done()
				t0 := time.Now()
				if sv.query(q, tmo) == "unsat" {
					o.res, o.by, o.ms = "proved", "z3", time.Since(t0).Milliseconds()
				}
			})
		}
		qw.Wait()
	}
	var nfail int32
	for _, o := range r.obs {
		if !filter(o) {
			o.res = "skipped"
			continue
		}
		if o.res == "proved" {
			continue
		}
		o := o
		var scripts []string
		for _, g := range x.splitGoal(o.hyps, o.goal, 0) {
			if g.goal.op == OTrue {
				continue
			}
			hs := append(append([]*Term(nil), g.hyps...), x.c.Not(g.goal))
			scripts = append(scripts, x.buildQuery(hs, false, tmo, ""))
		}
		if len(scripts) == 0 {
			o.res, o.by = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		size := 0
		for _, q := range scripts {
			size += len(q)
		}
		if size > 1<<20 {
			bigScripts.take(size)
		}
		pool.submit(func(sv *Solver) {
			defer wg.Done()
			if size > 1<<20 {
				defer bigScripts.give(size)
			}
			t0 := time.Now()
			for _, q := range scripts {
				res, by := discharge(sv, q, tmo, level == 0 && ct.cut == "" || atomic.LoadInt32(&nfail) >= 8)
				if res == "unsat" && smoke && dbgDir != "" && o.kind == "smoke" { // vacuous: keep the contradiction for study
					os.WriteFile(fmt.Sprintf("%s/vacuous_%s_%d.smt2", dbgDir, sanitFile(o.fn+"_"+o.desc), time.Now().UnixNano()), []byte(q), 0644)
				}
				if res != "unsat" {
					o.res, o.model = "failed", res
					atomic.AddInt32(&nfail, 1)
					o.by = by
					if dbgDir != "" {
						os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", dbgDir, sanitFile(o.fn+"_"+o.desc), time.Now().UnixNano()), []byte(q), 0644)
					}
					o.ms = time.Since(t0).Milliseconds()
					return
				}
				o.by = by
			}
			o.res = "proved"
			o.ms = time.Since(t0).Milliseconds()
		})
	}
	wg.Wait()
	return r
}

func sanitFile(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	t := sb.String()
	if len(t) > 80 {
		t = t[:80]
	}
	return t
}

var fastFail = false

// discharge tries the back ends in turn
func discharge(sv *Solver, q string, tmo int, fast bool) (string, string) {
	r := sv.query(q+"(get-info :reason-unknown)\n", tmo)
	canceled := strings.Contains(r, "canceled") || strings.Contains(r, "resource")
	r = strings.SplitN(r, "\n", 2)[0]
	if r == "unsat" {
		return r, "z3"
	}
	if fast || fastFail {
		return r, "z3"
	}
	head := func(opts string) string {
		i := strings.Index(q, "(define-fun gdiv")
		return "(set-option :print-success false)\n" + opts + q[i:]
	}
	// different seeds, then model based instantiation, then cvc5
	if r2 := sv.query(head(fmt.Sprintf("(set-option :timeout %d)\n(set-option :rlimit %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.arith.solver 6)\n(set-option :smt.random_seed 7)\n", tmo*4, tmo*3000)), tmo); r2 == "unsat" {
		return r2, "z3 (arith 6)"
	}
	if canceled {
		for _, o := range []string{"(set-option :smt.case_split 3)\n", "(set-option :smt.arith.solver 2)\n"} {
			if r2 := sv.query(head(fmt.Sprintf("(set-option :timeout %d)\n(set-option :rlimit %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", tmo*10, tmo*20000)+o), tmo*2); r2 == "unsat" {
				return r2, "z3"
			}
		}
	}
	if r2 := sv.query(head(fmt.Sprintf("(set-option :timeout %d)\n", tmo)), tmo); r2 == "unsat" {
		return r2, "z3 (mbqi)"
	} else if r2 == "sat" {
		return "sat", "z3 (mbqi)"
	}
	i := strings.Index(q, "(define-fun gdiv")
	if r2 := runCvc5(q[i:], tmo); r2 == "unsat" {
		return r2, "cvc5"
	}
	return r, "z3"
}

func main() {
	if len(os.Args) < 2 {
		die("usage: gover verify|check|list ...")
	}
	if d := os.Getenv("GOVER_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOVER_VERIF"); d != "" {
		verifDir = d
	}
	if f := os.Getenv("GOVER_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "list":
		cmdList()
	case "verify":
		cmdVerify(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func cmdList() {
	ss := newSession()
	for _, k := range []worldKey{{"", ""}, {"", "runes"}, {"windows", ""}} {
		w, err := ss.world(k.goos, k.pkg)
		if err != nil {
			die("%v", err)
		}
		ext := map[string][]string{}
		for _, fn := range w.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cm := c.Common()
					n := ""
					if cm.IsInvoke() {
						n = "iface " + typeName(cm.Value.Type()) + "." + cm.Method.Name()
					} else if sf := cm.StaticCallee(); sf != nil {
						if w.inPkg(sf) {
							continue
						}
						n = sf.String()
					} else if _, ok := cm.Value.(*ssa.Builtin); ok {
						continue
					} else {
						n = "dynamic " + cm.Value.String()
					}
					ext[n] = append(ext[n], w.nameOf(fn))
				}
			}
		}
		fmt.Println("==", k)
		for _, n := range sortedKeys(ext) {
			l := ext[n]
			if len(l) > 5 {
				l = append(l[:5:5], "...")
			}
			fmt.Println(n, "<-", strings.Join(l, " "))
		}
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	fnPat := fs.String("f", "", "comma separated function names, substring with *")
	prop := fs.String("p", "", "property")
	v := fs.Bool("v", false, "verbose")
	tmo := fs.Int("t", 3000, "timeout ms")
	fs.BoolVar(&fastFail, "fast", false, "only the first back end")
	par := fs.Int("j", runtime.NumCPU(), "parallelism")
	fs.Parse(args)
	verbose = *v
	ss := newSession()
	var cts []*Contract
	for _, ct := range ss.specs.order {
		if strings.HasPrefix(ct.fn, "iface ") || strings.HasPrefix(ct.fn, "extern ") || ct.trusted {
			continue
		}
		if *fnPat != "" {
			ok := false
			for _, p := range strings.Split(*fnPat, ",") {
				nm := ct.pkg + "/" + ct.fn
				if q := strings.TrimSuffix(p, "="); ct.fn == p || nm == p || strings.HasSuffix(nm, "."+q) || q == p && strings.Contains(nm, p) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		if *prop != "" && !ct.tags()[*prop] {
			continue
		}
		cts = append(cts, ct)
	}
	pool := NewPool(*par)
	res := make([]*FnResult, len(cts))
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for i, ct := range cts {
		w, err := ss.world(ct.goos, ct.pkg)
		if err != nil {
			die("%v", err)
		}
		i, ct := i, ct
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			res[i] = runVerify(w, ct, pool, func(o *Oblig) bool { return *prop == "" || ct.relevant(o, *prop) }, *tmo)
		}()
	}
	wg.Wait()
	pool.wg.Wait()
	bad := 0
	for _, r := range res {
		np, nf := 0, 0
		by := map[string]int{}
		var maxms int64
		for _, o := range r.obs {
			if o.res == "proved" {
				np++
				by[o.by]++
			} else if o.res != "skipped" {
				nf++
			}
			if o.ms > maxms {
				maxms = o.ms
			}
		}
		st := "ok"
		if nf > 0 || r.err != "" || r.missing {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %s: %d proved, %d failed, %d trivial, inv %d, paths %d, rets %d, sym %dms, max %dms %v %s\n", st, r.name, np, nf, r.trivial, r.invs, r.paths, r.rets, r.symMs, maxms, by, r.err)
		if r.missing {
			fmt.Println("     function not found")
		}
		for _, o := range r.obs {
			if o.res == "failed" {
				fmt.Printf("     FAILED %s %q at %s: %s (%dms)\n", o.kind, o.desc, o.where, o.model, o.ms)
				if verbose {
					fmt.Printf("        goal %s\n", o.goal)
					for _, h := range o.hyps {
						fmt.Printf("        hyp  %s\n", h)
					}
				}
			}
		}
		if verbose {
			for _, l := range r.loops {
				fmt.Println("     loop", l)
			}
			for _, l := range r.notes {
				fmt.Println("     note", l)
			}
			fmt.Println("     uses", r.used, "inlines", r.inlined)
		}
	}
	fmt.Printf("%d functions, %d bad, %d solver queries, %s solver time\n", len(res), bad, pool.nq, pool.solvMs)
	sort.Strings(nil)
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}
