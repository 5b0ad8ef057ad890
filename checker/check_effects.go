package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: calls leave what they are given as it was; C37: there is no mutable state outside of objects.

func checkC36(r *Report, L *Loaded) {
	r.Rule = "interprocedural effect analysis: no WriteTo and no length or accessor function of the packets writes to memory that is reached from its receiver, other than the fields of its fixed header; no exported method of the client writes to memory that is reached from its arguments, other than the fixed header of a packet and the PacketIdentifier of the packet given to Publish"
	ef := runEffects(L)
	r.count("functions analysed", len(ef.fns))
	for _, p := range []*ssa.Package{L.packets, L.prims} {
		for _, n := range p.Pkg.Scope().Names() {
			t := L.namedType(p, n)
			if t == nil || !p.Pkg.Scope().Lookup(n).Exported() {
				continue
			}
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			for _, m := range L.exportedMethods(t) {
				name := m.Name()
				if name != "WriteTo" && name != "WriteToAsProperty" && name != "Length" {
					continue
				}
				r.count("encoders and length functions", 1)
				for _, e := range ef.sorted(m) {
					if e.root.kind != 'p' || e.root.idx != 0 || strings.Contains(e.root.path, "#header") {
						continue
					}
					r.violate("changes:"+n+"."+name+":"+e.root.path, e.pos, "%s.%s %s %s of what it encodes", n, name, e.what, pathName(e.root.path))
				}
			}
		}
	}
	c := clientFor(r, L)
	if c == nil {
		return
	}
	for _, m := range L.exportedMethods(c.Type) {
		r.count("client methods", 1)
		for _, e := range ef.sorted(m) {
			if e.root.kind != 'p' || e.root.idx == 0 || strings.Contains(e.root.path, "#header") {
				continue
			}
			par := m.Params[e.root.idx]
			if pt := namedOf(par.Type()); pt == nil || !L.modPath(pkgPath(pt)) {
				if _, isSlice := par.Type().Underlying().(*types.Slice); !isSlice {
					continue
				}
			}
			if m.Name() == "Publish" && e.root.path == ".PacketIdentifier" {
				r.count("packet identifiers assigned", 1)
				continue
			}
			r.violate("changes:"+m.Name()+":"+e.root.path, e.pos, "%s %s %s of its argument %s", m.Name(), e.what, pathName(e.root.path), par.Name())
		}
	}
	r.floor("encoders and length functions", 20)
	r.floor("client methods", 10)
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func pathName(p string) string {
	p = strings.Trim(strings.NewReplacer("*", "", "#header", "").Replace(p), ".")
	if p == "" {
		return "the value"
	}
	return p
}

func checkC37(r *Report, L *Loaded) {
	r.Rule = "interprocedural effect analysis: no function of the module, other than package initialization and functions that only sync.Once runs, writes to a package-level variable or to memory reached from one, except while a package-level mutex is held; nothing from a package-level sync.Pool is used after it was put back or outlives the call that got it"
	ef := runEffects(L)
	r.count("functions analysed", len(ef.fns))
	for _, p := range L.pkgs {
		sp := L.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				r.count("package-level variables", 1)
			}
		}
	}
	for _, fn := range ef.fns {
		if fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") || onlyOnce(fn) {
			continue
		}
		ef.globalWrites(r, fn)
		poolUses(r, L, ef, fn)
	}
	r.floor("functions analysed", 150)
	r.floor("package-level variables", 3)
}

// globalWrites reports the writes to what is reached from package-level variables.
func (ef *effects) globalWrites(r *Report, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var rs []root
			rt := func(v ssa.Value) { rs = append(rs, ef.roots(v, map[ssa.Value]bool{})...) }
			switch x := ins.(type) {
			case *ssa.Store:
				rt(x.Addr)
			case *ssa.MapUpdate:
				rt(x.Map)
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete", "clear":
						rt(c.Args[0])
					case "append":
						rs = append(rs, ef.appendsTo(c.Args[0])...)
					}
					break
				}
				fns, args := ef.callees(c)
				for _, g := range fns {
					if !ef.L.inModule(g) || len(g.Blocks) == 0 {
						if m := mutates(g); m != nil {
							for i, a := range args {
								if m(i) {
									rt(a)
								}
							}
						}
						continue
					}
					for _, e := range ef.sorted(g) {
						if e.root.kind == 'p' || e.root.kind == 'f' {
							rs = append(rs, ef.subst(e.root, c.Value, args, map[ssa.Value]bool{})...)
						}
					}
				}
			default:
				continue
			}
			r.count("writes and calls", 1)
			for _, q := range rs {
				if q.kind != 'g' || fromPool(q) || lockedByGlobal(ins) {
					continue
				}
				r.violate("global:"+fn.Name()+":"+q.name, ins.Pos(), "%s changes %s%s, which all users of the package share", fn.String(), q.name, pathName2(q.path))
			}
		}
	}
}

func pathName2(p string) string {
	if p == "" {
		return ""
	}
	return " (" + pathName(p) + ")"
}

func fromPool(q root) bool {
	g, ok := q.obj.(*ssa.Global)
	if !ok {
		return false
	}
	t := g.Type().(*types.Pointer).Elem()
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// onlyOnce tells whether a function is run by nothing but sync.Once.
func onlyOnce(fn *ssa.Function) bool {
	refs := fn.Referrers()
	n := 0
	once := func(u ssa.Instruction, v ssa.Value) bool {
		ci, ok := u.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && (g.String() == "(*sync.Once).Do" || strings.HasPrefix(g.String(), "sync.OnceFunc") || strings.HasPrefix(g.String(), "sync.OnceValue")) && ci.Common().Value != v
	}
	if refs != nil {
		for _, u := range *refs {
			if mc, ok := u.(*ssa.MakeClosure); ok {
				for _, w := range *mc.Referrers() {
					if !once(w, mc) {
						return false
					}
					n++
				}
				continue
			}
			if !once(u, fn) {
				return false
			}
			n++
		}
		return n > 0
	}
	// a function of the package or one without captured variables: look for its uses
	p := fn.Package()
	if p == nil {
		return false
	}
	for f := range pkgFunctions(p) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(fn) {
						if !once(ins, fn) {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}

func pkgFunctions(p *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return out
}

// lockedByGlobal tells whether a package-level mutex is held at an instruction: it is locked in a place that dominates it
// and not unlocked between.
func lockedByGlobal(at ssa.Instruction) bool {
	fn := at.Parent()
	isMutex := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Global:
				return x
			default:
				return nil
			}
		}
	}
	type op struct {
		ins  ssa.Instruction
		g    ssa.Value
		lock bool
	}
	var ops []op
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || len(c.Call.Args) == 0 {
				continue
			}
			switch g.String() {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				if m := isMutex(c.Call.Args[0]); m != nil {
					ops = append(ops, op{ins, m, true})
				}
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				if m := isMutex(c.Call.Args[0]); m != nil {
					ops = append(ops, op{ins, m, false})
				}
			}
		}
	}
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			return idx(a) < idx(b)
		}
		return a.Block().Dominates(b.Block())
	}
	for _, l := range ops {
		if !l.lock || !before(l.ins, at) {
			continue
		}
		ok := true
		for _, u := range ops {
			if !u.lock && u.g == l.g && before(l.ins, u.ins) && (before(u.ins, at) || reaches(u.ins, at, l.ins)) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// reaches tells whether control can get from one instruction to another without passing a third.
func reaches(from, to, without ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, start int) bool
	walk = func(b *ssa.BasicBlock, start int) bool {
		for k := start; k < len(b.Instrs); k++ {
			if b.Instrs[k] == to {
				return true
			}
			if b.Instrs[k] == without {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for k, x := range from.Block().Instrs {
		if x == from {
			return walk(from.Block(), k+1)
		}
	}
	return false
}

// poolUses reports what is got from a package-level sync.Pool and used after it was put back, or kept.
func poolUses(r *Report, L *Loaded, ef *effects, fn *ssa.Function) {
	var puts []*ssa.Call
	deferred := map[ssa.Value]bool{}
	var gets []*ssa.Call
	pool := func(c *ssa.CallCommon, m string) bool {
		g := c.StaticCallee()
		return g != nil && g.String() == "(*sync.Pool)."+m
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				if pool(&x.Call, "Put") {
					puts = append(puts, x)
				}
				if pool(&x.Call, "Get") {
					gets = append(gets, x)
				}
			case *ssa.Defer:
				if pool(&x.Call, "Put") {
					deferred[x.Call.Args[1]] = true
				}
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
					for _, b2 := range mc.Fn.(*ssa.Function).Blocks {
						for _, i2 := range b2.Instrs {
							if c, ok := i2.(*ssa.Call); ok && pool(&c.Call, "Put") {
								for _, bd := range mc.Bindings {
									deferred[bd] = true
								}
							}
						}
					}
				}
			}
		}
	}
	if len(gets) == 0 {
		return
	}
	r.count("uses of pools", len(gets))
	// everything that comes from what was got
	from := map[ssa.Value]bool{}
	var spread func(v ssa.Value)
	spread = func(v ssa.Value) {
		if from[v] || v.Referrers() == nil {
			return
		}
		from[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.Extract, *ssa.ChangeType:
				spread(x.(ssa.Value))
			case *ssa.UnOp:
				if pointerLike(x.Type()) {
					spread(x)
				}
			case *ssa.Store:
				if x.Val == v {
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						spread(a)
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
					spread(x)
				}
				if g := x.Call.StaticCallee(); g != nil && !L.inModule(g) {
					if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice {
						spread(x)
					}
				}
			}
		}
	}
	for _, g := range gets {
		spread(g)
	}
	put := len(deferred) > 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.Return); ok && (put || len(puts) > 0) {
				for _, v := range x.Results {
					if from[v] {
						r.violate("pool-returned:"+fn.Name(), x.Pos(), "%s returns memory that it puts back into a pool that all users share", fn.String())
					}
				}
			}
			if x, ok := ins.(*ssa.Store); ok && from[x.Val] && pointerLike(x.Val.Type()) && (put || len(puts) > 0) {
				if _, local := x.Addr.(*ssa.Alloc); !local {
					for _, q := range ef.roots(x.Addr, map[ssa.Value]bool{}) {
						if q.kind != 'l' {
							r.violate("pool-kept:"+fn.Name(), x.Pos(), "%s keeps memory that it puts back into a pool that all users share", fn.String())
						}
					}
				}
			}
		}
	}
	for _, p := range puts {
		for v := range from {
			for _, u := range *v.Referrers() {
				if u == ssa.Instruction(p) {
					continue
				}
				if _, dbg := u.(*ssa.DebugRef); dbg {
					continue
				}
				if _, ret := u.(*ssa.Return); ret {
					continue
				}
				for _, g := range gets {
					if reaches(p, u, g) {
						r.violate("pool-used:"+fn.Name(), u.Pos(), "%s uses memory after it put it back into a pool that all users share", fn.String())
					}
				}
			}
		}
	}
}

func init() {
	checks["C36"] = checkC36
	checks["C37"] = checkC37
}
