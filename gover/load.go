package main

// Loading /repo: parse, type check, build SSA.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type World struct {
	mu       *sync.Mutex
	fset     *token.FileSet
	prog     *ssa.Program
	pkg      *ssa.Package
	tpkg     *types.Package
	goos     string
	dir      string
	specs    *SpecSet
	funcs    map[string]*ssa.Function // by spec name
	fnName   map[*ssa.Function]string
	loops    map[*ssa.Function][]*Loop
	constG   map[*ssa.Global]bool
	allocsM  map[*ssa.Function]map[string]types.Type
	modM     map[*ssa.Function]map[string]bool
	loopMu   sync.Mutex
	types    map[string]types.Type
	tagTypes map[int64]types.Type
}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Standard   bool
	Module     *struct{ GoVersion string }
	ImportMap  map[string]string
}

func goEnv(goos string) []string {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	return env
}

// loadWorld loads package pat ("." or "./runes") under dir.
func loadWorld(dir, pat, goos string, specs *SpecSet) (*World, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard,Module,ImportMap", pat)
	cmd.Dir = dir
	cmd.Env = goEnv(goos)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	exports := map[string]string{}
	var target *listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pp := p
		exports[p.ImportPath] = p.Export
		target = &pp // the target comes last
	}
	if target == nil {
		return nil, fmt.Errorf("no package")
	}
	w := &World{mu: &globalMu, fset: token.NewFileSet(), goos: goos, dir: dir, specs: specs}
	var files []*ast.File
	for _, f := range target.GoFiles {
		af, err := parser.ParseFile(w.fset, filepath.Join(target.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := target.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	gv := "go1.15"
	if target.Module != nil && target.Module.GoVersion != "" {
		gv = "go" + target.Module.GoVersion
	}
	arch := "amd64"
	conf := types.Config{Importer: imp, GoVersion: gv, Sizes: types.SizesFor("gc", arch), Error: func(error) {}}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	tpkg := types.NewPackage(target.ImportPath, "")
	if len(files) > 0 {
		tpkg = types.NewPackage(target.ImportPath, files[0].Name.Name)
	}
	if err := types.NewChecker(&conf, w.fset, tpkg, info).Files(files); err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(w.fset, ssa.BareInits)
	seen := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if !seen[p] {
				seen[p] = true
				prog.CreatePackage(p, nil, nil, true)
				create(p.Imports())
			}
		}
	}
	create(tpkg.Imports())
	w.pkg = prog.CreatePackage(tpkg, files, info, false)
	w.pkg.Build()
	w.prog = prog
	w.tpkg = tpkg
	w.funcs = map[string]*ssa.Function{}
	w.fnName = map[*ssa.Function]string{}
	w.loops = map[*ssa.Function][]*Loop{}
	w.allocsM = map[*ssa.Function]map[string]types.Type{}
	w.modM = map[*ssa.Function]map[string]bool{}
	w.types = map[string]types.Type{}
	w.tagTypes = map[int64]types.Type{}
	for _, m := range w.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			w.addFn(m.Name(), m)
		case *ssa.Type:
			t := m.Type()
			w.types[m.Name()] = t
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn == nil || fn.Synthetic != "" {
						continue
					}
					_, isPtr := fn.Signature.Recv().Type().(*types.Pointer)
					if isPtr {
						w.addFn("(*"+m.Name()+")."+fn.Name(), fn)
					} else {
						w.addFn("("+m.Name()+")."+fn.Name(), fn)
					}
				}
			}
		}
	}
	w.findConstGlobals()
	if os.Getenv("GOVER_DEBUG") != "" {
		for g := range w.constG {
			fmt.Fprintln(os.Stderr, "const", g.Name())
		}
	}
	return w, nil
}

func (w *World) addFn(name string, fn *ssa.Function) {
	w.funcs[name] = fn
	w.fnName[fn] = name
	for i, a := range fn.AnonFuncs {
		w.addFn(fmt.Sprintf("%s$%d", name, i+1), a)
	}
}

// allFuncs returns every function with a body of the package
func (w *World) allFuncs() []*ssa.Function {
	var names []string
	for n := range w.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*ssa.Function
	for _, n := range names {
		out = append(out, w.funcs[n])
	}
	return out
}

// findConstGlobals: unexported package variables assigned only in package initialisation and whose address never escapes
func (w *World) findConstGlobals() {
	w.constG = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	check := func(fn *ssa.Function, isInit bool) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if i.Addr == g && isInit {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for _, fn := range w.allFuncs() {
		if fn != w.pkg.Func("init") {
			check(fn, false)
		}
	}
	if in := w.pkg.Func("init"); in != nil {
		bad2 := bad
		bad = map[*ssa.Global]bool{}
		check(in, true)
		for g := range bad2 {
			bad[g] = true
		}
	}
	for _, m := range w.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !bad[g] && !token.IsExported(g.Name()) {
			w.constG[g] = true
		}
		if g, ok := m.(*ssa.Global); ok && !bad[g] && strings.HasPrefix(g.Name(), "ColorTable") {
			w.constG[g] = true // exported tables never written by the package
		}
	}
}

// ---------------------------------------------------------------- loops

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	idx    int
	fn     *ssa.Function
	used   map[ssa.Value]bool
}

func (w *World) loopsOf(fn *ssa.Function) []*Loop {
	w.loopMu.Lock()
	defer w.loopMu.Unlock()
	if l, ok := w.loops[fn]; ok {
		return l
	}
	var out []*Loop
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					byHead[s] = l
					out = append(out, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	for i, l := range out {
		l.idx = i
		l.used = map[ssa.Value]bool{}
		for b := range l.body {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != nil {
						l.used[*o] = true
					}
				}
			}
		}
	}
	w.loops[fn] = out
	return out
}
func (w *World) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range w.loopsOf(b.Parent()) {
		if l.header == b {
			return l
		}
	}
	return nil
}

var globalMu sync.Mutex
