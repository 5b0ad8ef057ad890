package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	dir      string
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     []*packages.Package
	mod      string
	loopMap  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	client   *ssa.Package
	packets  *ssa.Package
	prims    *ssa.Package
	storage  *ssa.Package
	memory   *ssa.Package
	nfuncs   int
	visiting map[*ssa.Function]bool
	pureMap  map[*ssa.Function]bool
}

func load(dir string) (*Loaded, error) {
	env := os.Environ()
	env = append(env, "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./mqtt/...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages under %s/mqtt", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	std := append([]*packages.Package{}, pkgs...)
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == "slices" {
			std = append(std, p)
		}
	})
	prog, spkgs := ssautil.Packages(std, ssa.InstantiateGenerics)
	prog.Build()
	L := &Loaded{dir: dir, prog: prog, fset: prog.Fset, pkgs: pkgs, loopMap: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for i, p := range pkgs {
		if p.Module != nil {
			L.mod = p.Module.Path
		}
		rel := p.PkgPath
		switch {
		case strings.HasSuffix(rel, "/mqtt"):
			L.client = spkgs[i]
		case strings.HasSuffix(rel, "/mqtt/packets"):
			L.packets = spkgs[i]
		case strings.HasSuffix(rel, "/primitives"):
			L.prims = spkgs[i]
		case strings.HasSuffix(rel, "/mqtt/storage"):
			L.storage = spkgs[i]
		case strings.HasSuffix(rel, "/storage/memory"):
			L.memory = spkgs[i]
		}
	}
	if L.mod == "" {
		return nil, fmt.Errorf("module path not found")
	}
	if L.client == nil || L.packets == nil || L.prims == nil {
		return nil, fmt.Errorf("packages mqtt, mqtt/packets, mqtt/packets/primitives not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if L.inModule(fn) && len(fn.Blocks) > 0 {
			L.nfuncs++
		}
	}
	return L, nil
}

func (L *Loaded) inModule(fn *ssa.Function) bool {
	if strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "wrapper for") || strings.HasPrefix(fn.Synthetic, "thunk for") {
		return true
	}
	p := fn.Package()
	if p == nil {
		if o := fn.Origin(); o != nil && o != fn {
			return L.inModule(o)
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return L.modPath(o.Pkg().Path())
		}
		return false
	}
	return L.modPath(p.Pkg.Path())
}

// stdBody tells whether a function of the standard library is interpreted like one of the module.
func (L *Loaded) stdBody(fn *ssa.Function) bool {
	o := fn.Origin()
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o == nil {
		o = fn
	}
	if o.Object() == nil || o.Object().Pkg() == nil || o.Object().Pkg().Path() != "slices" {
		return false
	}
	switch o.Name() {
	case "Index", "IndexFunc", "Contains", "ContainsFunc", "Delete", "Clone", "Insert", "Concat":
		return true
	}
	return false
}

func (L *Loaded) modPath(p string) bool { return p == L.mod || strings.HasPrefix(p, L.mod+"/") }

// atomicStruct tells whether values of a struct type are kept in one cell: those of other modules.
func (L *Loaded) atomicStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if p == "io" && n.Obj().Name() == "LimitedReader" {
		return false
	}
	return !L.modPath(p)
}

func (L *Loaded) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := L.fset.Position(p)
	r, err := filepath.Rel(L.dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// loops maps the head of each natural loop to its body.
func (L *Loaded) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := L.loopMap[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := m[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					m[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	L.loopMap[fn] = m
	return m
}

// method finds a method of a named type of a package, with pointer receiver, through promotion too.
func (L *Loaded) method(p *ssa.Package, typ, name string) *ssa.Function {
	m := p.Members[typ]
	if m == nil {
		return nil
	}
	t, ok := m.(*ssa.Type)
	if !ok {
		return nil
	}
	return L.prog.LookupMethod(types.NewPointer(t.Type()), p.Pkg, name)
}

func (L *Loaded) namedType(p *ssa.Package, name string) types.Type {
	if m, ok := p.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

// exportedMethods lists the exported methods of a type.
func (L *Loaded) exportedMethods(t types.Type) []*ssa.Function {
	ms := L.prog.MethodSets.MethodSet(types.NewPointer(t))
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if fn := L.prog.MethodValue(ms.At(i)); fn != nil {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// pureLoop tells whether a function contains a loop, or calls one that does, and only computes its result from its arguments, without memory,
// maps, channels or calls of anything that is not pure itself. Such functions are analysed on their own.
func (L *Loaded) pureLoop(fn *ssa.Function) bool {
	if v, ok := L.pureMap[fn]; ok {
		return v
	}
	if L.pureMap == nil {
		L.pureMap = map[*ssa.Function]bool{}
	}
	L.pureMap[fn] = false
	r := len(fn.Blocks) > 0 && fn.Signature.Results().Len() > 0 && L.repeats(fn) && L.pureFn(fn, 0)
	L.pureMap[fn] = r
	return r
}

// repeats tells whether a function has a loop or is recursive, or calls one of the module that has or is.
func (L *Loaded) repeats(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if len(f.Blocks) > 0 && len(L.loops(f)) > 0 || L.recursive(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Call); ok {
					if c := x.Call.StaticCallee(); c != nil && L.inModule(c) && rec(c) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// recursive tells whether a function of the module may call itself.
func (L *Loaded) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				c := x.Call.StaticCallee()
				if c == fn {
					return true
				}
				if c != nil && L.inModule(c) && !seen[c] {
					seen[c] = true
					if rec(c) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// basicFn tells whether a function takes and returns only strings, numbers and booleans (its receiver aside), and slices
// of these if it does not write any memory.
func basicFn(fn *ssa.Function) bool {
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type().Underlying()
		if sl, ok := t.(*types.Slice); ok {
			if writesMemory(fn) {
				return false
			}
			t = sl.Elem().Underlying()
		}
		if _, ok := t.(*types.Basic); !ok {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// writesMemory tells whether a function may write to memory that is not a variable of its own.
func writesMemory(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear") {
					return true
				}
			}
		}
	}
	return false
}

// pureFn tells whether the result of a function depends on its arguments only and it changes nothing that its caller can
// see: with arguments that are values, all memory that it can reach is its own unless it goes through a global or its
// receiver.
func (L *Loaded) pureFn(fn *ssa.Function, depth int) bool {
	if L.visiting[fn] {
		return true
	}
	if L.visiting == nil {
		L.visiting = map[*ssa.Function]bool{}
	}
	L.visiting[fn] = true
	defer delete(L.visiting, fn)
	if depth > 5 || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 || !basicFn(fn) {
		return false
	}
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		for _, ref := range *fn.Params[0].Referrers() {
			switch ref.(type) {
			case *ssa.Call, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if _, isGlobal := (*op).(*ssa.Global); isGlobal {
					return false
				}
			}
			switch x := i.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Send, *ssa.Select, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeInterface:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				c := x.Call.StaticCallee()
				if c == nil {
					return false
				}
				if p := c.Package(); p != nil && (p.Pkg.Path() == "strings" || p.Pkg.Path() == "strconv" || p.Pkg.Path() == "unicode/utf8") && c.Signature.Recv() == nil {
					continue
				}
				if !L.inModule(c) || !L.pureFn(c, depth+1) {
					return false
				}
			}
		}
	}
	return true
}
