package main

// The check command: decide one property.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// applicable decides whether a contract still fits the function it names
func (w *World) applicable(ct *Contract) string {
	fn := w.funcs[ct.fn]
	if fn == nil {
		return "not found"
	}
	if len(ct.params) != len(fn.Params) || len(ct.results) > fn.Signature.Results().Len() {
		return "signature changed"
	}
	return ""
}

func exportedAPI(name string) bool {
	name = strings.TrimPrefix(name, "(*")
	name = strings.TrimPrefix(name, "(")
	for _, p := range strings.Split(name, ").") {
		if !token.IsExported(p) {
			return false
		}
	}
	return true
}

type failure struct {
	Fn     string `json:"function"`
	World  string `json:"build"`
	Kind   string `json:"kind"`
	Desc   string `json:"obligation"`
	Where  string `json:"where,omitempty"`
	Solver string `json:"solver,omitempty"`
	Model  string `json:"detail,omitempty"`
}

type known struct{ prop, key, text string }

func knownFindings() []known {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(f) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), strings.Join(f[2:], " ")})
	}
	return out
}

func worldName(ct *Contract) string {
	n := "readline"
	if ct.pkg != "" {
		n = ct.pkg
	}
	if ct.goos != "" {
		n += "/" + ct.goos
	} else {
		n += "/linux"
	}
	return n
}

func cmdCheck(args []string) {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	noReplay := fs.Bool("noreplay", false, "do not search for a failing input")
	par := fs.Int("j", runtime.NumCPU(), "parallelism")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmo := 3000
	if tier == "thorough" {
		tmo = 15000
	}
	P := *prop
	ss := newSession()
	var cts []*Contract
	var trusted []string
	for _, ct := range ss.specs.order {
		if strings.HasPrefix(ct.fn, "iface ") || strings.HasPrefix(ct.fn, "extern ") {
			trusted = append(trusted, "assumed contract: "+ct.fn)
			continue
		}
		for _, a := range ct.assumes {
			if !ct.tags()[P] {
				break
			}
			trusted = append(trusted, "assumed without proof about "+ct.fn+": "+a.src)
		}
		for _, g := range ct.grants {
			if !ct.tags()[P] {
				break
			}
			trusted = append(trusted, "preconditions of "+g+" assumed without proof where "+ct.fn+" calls it")
		}
		for _, a := range ct.holds {
			if !ct.tags()[P] {
				break
			}
			trusted = append(trusted, "assumed without proof at each iteration of "+ct.fn+": "+a.src)
		}
		if ct.trusted {
			if ct.tags()[P] {
				trusted = append(trusted, "trusted contract: "+ct.fn)
			}
			continue
		}
		if ct.tags()[P] {
			cts = append(cts, ct)
		}
	}
	if len(cts) == 0 {
		die("no contract decides %s", P)
	}
	pool := NewPool(*par)
	res := make([]*FnResult, len(cts))
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	var fails []failure
	var skipped []string
	for i, ct := range cts {
		w, err := ss.world(ct.goos, ct.pkg)
		if err != nil {
			die("the tree does not load: %v", err)
		}
		if why := w.applicable(ct); why != "" {
			if exportedAPI(ct.fn) {
				fails = append(fails, failure{Fn: ct.fn, World: worldName(ct), Kind: "missing", Desc: "exported function " + why})
			} else {
				skipped = append(skipped, ct.fn+": "+why+"; verified through its callers")
			}
			continue
		}
		i, ct := i, ct
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			res[i] = runVerify(w, ct, pool, func(o *Oblig) bool { return ct.relevant(o, P) }, tmo)
		}()
	}
	wg.Wait()
	pool.wg.Wait()

	obs, disch, triv, paths, invs, nfn := 0, 0, 0, 0, 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	notes := map[string]bool{}
	models := map[string]bool{}
	usedC := map[string]bool{}
	inl := map[string]bool{}
	verified := map[string]bool{}
	type fnCov struct {
		Fn          string `json:"function"`
		Build       string `json:"build"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
		Paths       int    `json:"symbolic_paths"`
		Invariants  int    `json:"loop_invariants"`
	}
	var cov []fnCov
	for i, r := range res {
		if r == nil {
			continue
		}
		nfn++
		ct := cts[i]
		verified[ct.fn] = true
		fc := fnCov{Fn: ct.fn, Build: worldName(ct), Paths: r.paths, Invariants: r.invs}
		if r.err != "" {
			fails = append(fails, failure{Fn: ct.fn, World: worldName(ct), Kind: "verification", Desc: r.err})
		}
		for _, o := range r.obs {
			if o.res == "skipped" {
				continue
			}
			fc.Obligations++
			kinds[o.kind]++
			if o.res == "proved" {
				fc.Discharged++
				by[o.by]++
			} else {
				m := ""
				if o.goal != nil {
					m = trunc("goal: "+o.goal.String(), 1500)
				}
				fails = append(fails, failure{Fn: ct.fn, World: worldName(ct), Kind: o.kind, Desc: o.desc, Where: o.where, Solver: o.model, Model: m})
			}
		}
		obs += fc.Obligations
		disch += fc.Discharged
		triv += r.trivial
		paths += r.paths
		invs += r.invs
		for _, n := range r.notes {
			if !strings.HasPrefix(n, "template not applicable") {
				notes[n] = true
			}
		}
		for _, n := range r.models {
			models[n] = true
		}
		for _, n := range r.used {
			usedC[n] = true
		}
		for _, n := range r.inlined {
			inl[n] = true
		}
		cov = append(cov, fc)
	}
	bounded := runBounded(P, tier, seed)
	fails = append(fails, bounded.fails...)

	// split failures into known findings and violations
	var viol []failure
	kf := knownFindings()
	printed := map[string]bool{}
	for _, f := range fails {
		isKnown := false
		for _, k := range kf {
			if k.prop == P && (k.key == f.Fn+"/"+f.Kind || k.key == f.Desc) {
				isKnown = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", P, k.text)
				}
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	for _, f := range viol {
		fmt.Printf("failed: %s [%s] %s: %s %s\n", f.Fn, f.World, f.Kind, f.Desc, f.Where)
	}

	var rely []string
	for n := range usedC {
		if !verified[n] {
			rely = append(rely, n)
		}
	}
	sort.Strings(rely)
	tb := []string{
		"gover (the contract verifier in /verif/gover), golang.org/x/tools go/ssa",
		"z3 " + toolVersion(z3bin) + " and cvc5 as back ends",
		"the Go compiler and runtime",
	}
	tb = append(tb, trusted...)
	for _, m := range sortedKeys(models) {
		tb = append(tb, "library model: "+m)
	}
	as := []string{
		"int, int64 and uintptr are treated as mathematical integers; conversions to narrower types are checked or wrapped exactly",
		"each function is verified as sequential code: other goroutines do not change the state it reads",
		"callbacks, external writers and painters do not modify package memory or the slices passed to them",
	}
	for _, n := range sortedKeys(notes) {
		as = append(as, n)
	}
	for _, n := range rely {
		as = append(as, "callee contract proved by the check of another property: "+n)
	}
	solverS := (pool.solvMs + 0).Seconds()
	ev := map[string]interface{}{
		"property": P, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": obs, "discharged": disch,
			"checker_cmd":                             fmt.Sprintf("%s/bin/gover check -p %s", verifDir, P),
			"trusted_base":                            tb,
			"functions_under_contract":                cov,
			"functions_inlined":                       sortedKeys(inl),
			"obligations_by_kind":                     kinds,
			"discharged_by_back_end":                  by,
			"discharged_while_executing_symbolically": triv,
			"loop_invariants_proved":                  invs,
			"symbolic_paths":                          paths,
			"solver_seconds":                          solverS,
			"contracts_not_applicable":                skipped,
			"bounded_stand_ins":                       bounded.cov,
		},
		"assumptions": as,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	exit := 0
	if len(viol) > 0 {
		exit = 1
		rp := filepath.Join(verifDir, "evidence", "replay-"+P+".json")
		rep := map[string]interface{}{"property": P, "failed_obligations": viol}
		found := bounded.input
		if found == "" && !*noReplay {
			out, fi := searchInput(P, seed, tier)
			found = fi
			rep["search_output"] = trunc(out, 4000)
		}
		tail := " no-failing-input-found"
		if found != "" {
			rep["failing_input"] = found
			rep["how_to_replay"] = fmt.Sprintf("VERIF_SEED=%d %s/bin/gover replay -p %s", seed, verifDir, P)
			fmt.Println("failing input:", found)
			tail = ""
		}
		os.MkdirAll(filepath.Dir(rp), 0755)
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", P, rp, tail)
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", P+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	if exit == 0 {
		fmt.Printf("%s: %d functions, %d obligations discharged, %.1fs\n", P, nfn, disch, time.Since(t0).Seconds())
	}
	os.Exit(exit)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func toolVersion(bin string) string {
	out, _ := exec.Command(bin, "--version").Output()
	return strings.TrimSpace(string(out))
}

// ---------------------------------------------------------------- failing inputs on the real code

type boundedRun struct {
	fails []failure
	cov   []string
	input string
}

// runBounded runs the bounded stand-ins of a property, the tests named TestBoundedCxx of /verif/replay
func runBounded(P, tier string, seed int) boundedRun {
	var b boundedRun
	if !hasTest(P, "TestBounded"+P) {
		return b
	}
	out, fi, ok := runHarness(P, "TestBounded"+P, seed, tier, 240*time.Second)
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "BOUNDED: "); i >= 0 {
			b.cov = append(b.cov, l[i+9:])
		}
	}
	if !ok {
		d := fi
		if d == "" {
			d = "bounded check failed: " + trunc(out, 600)
		}
		b.input = fi
		b.fails = append(b.fails, failure{Fn: "bounded check", Kind: "bounded", Desc: d})
	}
	return b
}

func harnessFiles(P string) []string {
	l, _ := filepath.Glob(filepath.Join(verifDir, "replay", "common*_verif_test.go"))
	m, _ := filepath.Glob(filepath.Join(verifDir, "replay", strings.ToLower(P)+"*_verif_test.go"))
	if len(m) == 0 {
		return nil
	}
	return append(l, m...)
}

func hasTest(P, name string) bool {
	for _, f := range harnessFiles(P) {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func "+name+"(") {
			return true
		}
	}
	return false
}

func runHarness(P, test string, seed int, tier string, limit time.Duration) (string, string, bool) {
	files := harnessFiles(P)
	if files == nil {
		return "", "", true
	}
	dir, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return err.Error(), "", true
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	for _, f := range files {
		rep[filepath.Join(repoDir, "zz_"+filepath.Base(f))] = f
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), limit+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprint(limit), "-run", "^"+test+"$", "-v", ".")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "HOME="+dir, "GOCACHE="+goCache(), "GOPATH="+goPath())
	cmd.WaitDelay = 5 * time.Second
	b, err := cmd.CombinedOutput()
	out := string(b)
	fi := ""
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "FAILING-INPUT: "); i >= 0 {
			fi = strings.TrimSpace(l[i+15:])
			break
		}
	}
	return out, fi, err == nil
}

func goCache() string {
	b, _ := exec.Command("go", "env", "GOCACHE").Output()
	return strings.TrimSpace(string(b))
}
func goPath() string {
	b, _ := exec.Command("go", "env", "GOPATH").Output()
	return strings.TrimSpace(string(b))
}

func searchInput(P string, seed int, tier string) (string, string) {
	if !hasTest(P, "TestReplay"+P) {
		return "no search harness for this property", ""
	}
	lim := 100 * time.Second
	if tier == "thorough" {
		lim = 600 * time.Second
	}
	out, fi, ok := runHarness(P, "TestReplay"+P, seed, tier, lim)
	if ok {
		return out, ""
	}
	return out, fi
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	test := fs.String("t", "", "test name")
	fs.Parse(args)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	n := "TestReplay" + *prop
	if *test != "" {
		n = *test
	}
	out, fi, ok := runHarness(*prop, n, seed, os.Getenv("VERIF_TIER"), 100*time.Second)
	fmt.Print(out)
	if fi != "" {
		fmt.Println("failing input:", fi)
	}
	if !ok {
		os.Exit(1)
	}
}
