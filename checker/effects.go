package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Effect analysis. For every function of the module: which memory it may write to that it did not allocate itself, as
// access paths from its parameters, from what a closure captured and from package-level variables. Interprocedural, to a
// fixpoint; calls through interfaces go to every type of the module that implements them.

type root struct {
	kind byte // 'p' parameter, 'f' captured variable, 'g' package-level variable, 'l' local memory
	idx  int
	name string
	path string // .Field, [] and * (what is pointed to by what is there)
	obj  ssa.Value
}

type effect struct {
	root root
	pos  token.Pos
	what string
}

type effects struct {
	L      *Loaded
	fns    []*ssa.Function
	sum    map[*ssa.Function]map[string]*effect
	impls  map[*types.Func][]*ssa.Function
	named  []types.Type
	nsites int
}

const maxPath = 80

func (r root) with(s string) root {
	if len(r.path) < maxPath {
		r.path += s
	}
	return r
}

func (r root) key() string {
	return string(r.kind) + string(rune('0'+r.idx)) + r.name + r.path
}

func runEffects(L *Loaded) *effects {
	ef := &effects{L: L, sum: map[*ssa.Function]map[string]*effect{}, impls: map[*types.Func][]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(L.prog) {
		if L.inModule(fn) && len(fn.Blocks) > 0 {
			ef.fns = append(ef.fns, fn)
			ef.sum[fn] = map[string]*effect{}
		}
	}
	sort.Slice(ef.fns, func(i, j int) bool {
		if ef.fns[i].Pos() != ef.fns[j].Pos() {
			return ef.fns[i].Pos() < ef.fns[j].Pos()
		}
		return ef.fns[i].String() < ef.fns[j].String()
	})
	for _, p := range L.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					ef.named = append(ef.named, tn.Type())
				}
			}
		}
	}
	for round := 0; round < 20; round++ {
		grew := false
		for _, fn := range ef.fns {
			if ef.analyse(fn) {
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	return ef
}

func pointerLike(t types.Type) bool { return pointerLikeN(t, 0) }
func pointerLikeN(t types.Type, n int) bool {
	if n > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLikeN(u.Field(i).Type(), n+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerLikeN(u.Elem(), n+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLikeN(u.At(i).Type(), n+1) {
				return true
			}
		}
		return false
	}
	return true
}

// roots tells where a value of pointer kind may point to; for a struct, where what is in it may.
func (ef *effects) roots(v ssa.Value, on map[ssa.Value]bool) []root {
	if on[v] || len(on) > 200 {
		return nil
	}
	on[v] = true
	defer delete(on, v)
	all := func(vs ...ssa.Value) (out []root) {
		for _, x := range vs {
			out = append(out, ef.roots(x, on)...)
		}
		return dedup(out)
	}
	ext := func(x ssa.Value, s string) []root {
		rs := ef.roots(x, on)
		out := make([]root, 0, len(rs))
		for _, r := range rs {
			out = append(out, r.with(s))
		}
		return dedup(out)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return []root{{kind: 'p', idx: i}}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return []root{{kind: 'f', idx: i}}
			}
		}
	case *ssa.Global:
		return []root{{kind: 'g', name: x.String(), obj: x}}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return []root{{kind: 'l', name: v.Name(), obj: v}}
	case *ssa.FieldAddr:
		return ext(x.X, "."+effField(x.X.Type(), x.Field))
	case *ssa.Field:
		return ext(x.X, "."+effField(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		return ext(x.X, "[]")
	case *ssa.Index:
		return ext(x.X, "[]")
	case *ssa.Slice:
		return all(x.X)
	case *ssa.SliceToArrayPointer:
		return all(x.X)
	case *ssa.ChangeType:
		return all(x.X)
	case *ssa.ChangeInterface:
		return all(x.X)
	case *ssa.MakeInterface:
		return all(x.X)
	case *ssa.TypeAssert:
		return all(x.X)
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			return []root{{kind: 'l', name: v.Name(), obj: v}} // []byte(string)
		}
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return ef.loaded(ef.roots(rg.X, on), "[]", on)
			}
		}
		return all(x.Tuple)
	case *ssa.Lookup:
		return ef.loaded(ef.roots(x.X, on), "[]", on)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if !pointerLike(x.Type()) {
				return nil
			}
			return ef.loaded(ef.roots(x.X, on), "", on)
		}
		if x.Op == token.ARROW {
			return nil
		}
	case *ssa.Call:
		return ef.result(x, on)
	}
	return nil
}

func dedup(rs []root) []root {
	if len(rs) < 2 {
		return rs
	}
	seen := map[string]bool{}
	out := rs[:0:0]
	for _, r := range rs {
		k := r.key()
		if r.kind == 'l' && r.obj != nil && r.obj.Parent() != nil {
			k += r.obj.Parent().String()
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

// loaded is where something points to that was loaded from memory.
func (ef *effects) loaded(at []root, suffix string, on map[ssa.Value]bool) []root {
	var out []root
	for _, r := range at {
		if r.kind == 'l' {
			out = append(out, ef.contents(r.obj, on)...)
			continue
		}
		out = append(out, r.with(suffix+"*"))
	}
	return dedup(out)
}

// contents is where what was put into local memory may point to.
func (ef *effects) contents(obj ssa.Value, on map[ssa.Value]bool) []root {
	if obj == nil || obj.Parent() == nil {
		return nil
	}
	var out []root
	base := func(a ssa.Value) ssa.Value {
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
			case *ssa.IndexAddr:
				a = y.X
			case *ssa.Slice:
				a = y.X
			default:
				return a
			}
		}
	}
	for _, b := range obj.Parent().Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Store:
				if base(y.Addr) == obj && pointerLike(y.Val.Type()) {
					out = append(out, ef.roots(y.Val, on)...)
				}
			case *ssa.MapUpdate:
				if y.Map == obj {
					out = append(out, ef.roots(y.Value, on)...)
				}
			}
		}
	}
	if c, ok := obj.(*ssa.MakeClosure); ok {
		for _, b := range c.Bindings {
			out = append(out, ef.roots(b, on)...)
		}
	}
	return dedup(out)
}

// result is where the result of a call may point to.
func (ef *effects) result(x *ssa.Call, on map[ssa.Value]bool) []root {
	if !pointerLike(x.Type()) {
		return nil
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return append(ef.roots(x.Call.Args[0], on), root{kind: 'l', name: x.Name(), obj: x})
		}
		return nil
	}
	var out []root
	fns, args := ef.callees(&x.Call)
	for _, fn := range fns {
		if !ef.L.inModule(fn) || len(fn.Blocks) == 0 {
			if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice && !strings.Contains(fn.String(), "Clone") {
				for _, a := range args {
					if _, ok := a.Type().Underlying().(*types.Slice); ok {
						out = append(out, ef.roots(a, on)...)
					}
				}
			}
			out = append(out, root{kind: 'l', name: x.Name(), obj: x})
			continue
		}
		if on[fn] {
			continue
		}
		on[fn] = true
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, rv := range ret.Results {
					if !pointerLike(rv.Type()) {
						continue
					}
					for _, r := range ef.roots(rv, on) {
						out = append(out, ef.subst(r, x.Call.Value, args, on)...)
					}
				}
			}
		}
		delete(on, fn)
	}
	return dedup(out)
}

// subst turns a root of a callee into roots of the caller.
func (ef *effects) subst(r root, callee ssa.Value, args []ssa.Value, on map[ssa.Value]bool) []root {
	var from []root
	switch r.kind {
	case 'g', 'l':
		return []root{r}
	case 'p':
		if r.idx >= len(args) {
			return nil
		}
		from = ef.roots(args[r.idx], on)
	case 'f':
		if c, ok := callee.(*ssa.MakeClosure); ok && r.idx < len(c.Bindings) {
			from = ef.roots(c.Bindings[r.idx], on)
		}
	}
	var out []root
	for _, q := range from {
		if q.kind == 'l' {
			i := strings.Index(r.path, "*")
			if i < 0 {
				out = append(out, q)
				continue
			}
			for _, c := range ef.contents(q.obj, on) {
				out = append(out, c.with(r.path[:i]).with(r.path[i+1:]))
			}
			continue
		}
		out = append(out, q.with(r.path))
	}
	return dedup(out)
}

// dynTypes collects the types of what may be in an interface value, where all the places it comes from are in sight: what
// is made into an interface here, and, in a function literal that is only ever called where it was made, what the calls
// pass. It tells false where that is not so.
func dynTypes(v ssa.Value, into map[types.Type]bool, on map[ssa.Value]bool) bool {
	if on[v] {
		return true
	}
	on[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		into[x.X.Type()] = true
		return true
	case *ssa.ChangeInterface:
		return dynTypes(x.X, into, on)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !dynTypes(e, into, on) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		if fn.Parent() == nil {
			return false
		}
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
					for _, u := range *mc.Referrers() {
						call, ok := u.(ssa.CallInstruction)
						if _, dbg := u.(*ssa.DebugRef); dbg {
							continue
						}
						if !ok || call.Common().Value != ssa.Value(mc) || idx >= len(call.Common().Args) {
							return false
						}
						for _, a := range call.Common().Args {
							if a == ssa.Value(mc) {
								return false
							}
						}
						if !dynTypes(call.Common().Args[idx], into, on) {
							return false
						}
					}
					continue
				}
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().Value == ssa.Value(fn) {
					if idx >= len(call.Common().Args) || !dynTypes(call.Common().Args[idx], into, on) {
						return false
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(fn) {
						if call, ok := ins.(ssa.CallInstruction); !ok || call.Common().Value != ssa.Value(fn) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return false
}

// callees lists the functions that a call may go to, and the arguments including the receiver.
func (ef *effects) callees(c *ssa.CallCommon) ([]*ssa.Function, []ssa.Value) {
	if c.IsInvoke() {
		args := append([]ssa.Value{c.Value}, c.Args...)
		if ts := map[types.Type]bool{}; dynTypes(c.Value, ts, map[ssa.Value]bool{}) && len(ts) > 0 {
			var fns []*ssa.Function
			for t := range ts {
				if fn := ef.L.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); fn != nil {
					fns = append(fns, fn)
				}
			}
			sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
			return fns, args
		}
		if fns, ok := ef.impls[c.Method]; ok {
			return fns, args
		}
		var fns []*ssa.Function
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, t := range ef.named {
			for _, u := range []types.Type{t, types.NewPointer(t)} {
				if iface == nil || !types.Implements(u, iface) {
					continue
				}
				if fn := ef.L.prog.LookupMethod(u, c.Method.Pkg(), c.Method.Name()); fn != nil {
					fns = append(fns, fn)
				}
			}
		}
		ef.impls[c.Method] = fns
		return fns, args
	}
	if fn := c.StaticCallee(); fn != nil {
		return []*ssa.Function{fn}, c.Args
	}
	return nil, c.Args
}

// mutates lists the arguments that a function outside of the module writes to.
func mutates(fn *ssa.Function) func(i int) bool {
	n := fn.String()
	first := func(i int) bool { return i == 0 }
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	switch {
	case has("(*sync.", "(*sync/atomic.", "sync/atomic."):
		return nil
	case has("sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace", "maps.Copy", "maps.DeleteFunc", "encoding/binary.Put"):
		return first
	case has("(encoding/binary.bigEndian).Put", "(encoding/binary.littleEndian).Put", "io.ReadFull", "io.ReadAtLeast"):
		return func(i int) bool { return i == 1 }
	case has("encoding/binary.Read", "encoding/binary.Decode"):
		return func(i int) bool { return i > 0 }
	}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().(*types.Pointer); ok {
			return first
		}
	}
	return nil
}

// calledBack lists the methods of the module that a function outside of it may call on an argument that it gets as an
// interface: those of the interface, and those that the standard library looks for behind it.
func (ef *effects) calledBack(fn *ssa.Function, i int, arg ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range dynamicTypes(arg, map[ssa.Value]bool{}) {
		iface, ok := arg.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		names := map[string]bool{"String": true, "Error": true, "Format": true, "GoString": true, "Is": true, "As": true, "Unwrap": true}
		if iface.NumMethods() > 0 {
			names = map[string]bool{}
			for j := 0; j < iface.NumMethods(); j++ {
				names[iface.Method(j).Name()] = true
			}
			if names["Read"] {
				names["WriteTo"] = true
			}
			if names["Write"] {
				names["ReadFrom"], names["WriteString"] = true, true
			}
		}
		ms := ef.L.prog.MethodSets.MethodSet(t)
		for j := 0; j < ms.Len(); j++ {
			if names[ms.At(j).Obj().Name()] {
				if m := ef.L.prog.MethodValue(ms.At(j)); m != nil && ef.L.inModule(m) {
					out = append(out, m)
				}
			}
		}
	}
	return out
}

// dynamicTypes lists the types of what a function puts into an interface.
func dynamicTypes(v ssa.Value, on map[ssa.Value]bool) []types.Type {
	if on[v] {
		return nil
	}
	on[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.ChangeInterface:
		return dynamicTypes(x.X, on)
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			out = append(out, dynamicTypes(e, on)...)
		}
		return out
	}
	return nil
}

func (ef *effects) analyse(fn *ssa.Function) bool {
	grew := false
	add := func(rs []root, pos token.Pos, what string) {
		ef.nsites++
		for _, r := range rs {
			if r.kind == 'l' {
				continue
			}
			k := r.key()
			if ef.sum[fn][k] == nil {
				ef.sum[fn][k] = &effect{root: r, pos: pos, what: what}
				grew = true
			}
		}
	}
	rt := func(v ssa.Value) []root { return ef.roots(v, map[ssa.Value]bool{}) }
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				add(rt(x.Addr), x.Pos(), "assigns to")
			case *ssa.MapUpdate:
				var rs []root
				for _, r := range rt(x.Map) {
					rs = append(rs, r.with("[]"))
				}
				add(rs, x.Pos(), "changes")
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for _, e := range ef.sorted(g) {
					if e.root.kind == 'f' {
						add(ef.subst(e.root, x, nil, map[ssa.Value]bool{}), e.pos, e.what)
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete", "clear":
						var rs []root
						for _, r := range rt(c.Args[0]) {
							rs = append(rs, r.with("[]"))
						}
						add(rs, x.Pos(), "changes")
					case "append":
						add(ef.appendsTo(c.Args[0]), x.Pos(), "overwrites")
					}
					continue
				}
				fns, args := ef.callees(c)
				for _, g := range fns {
					if !ef.L.inModule(g) || len(g.Blocks) == 0 {
						if m := mutates(g); m != nil {
							for i, a := range args {
								if m(i) {
									var rs []root
									for _, r := range rt(a) {
										if i == 0 && g.Signature.Recv() != nil && r.kind != 'l' && strings.HasSuffix(r.path, "*") && c.IsInvoke() {
											continue
										}
										rs = append(rs, r)
									}
									add(rs, x.Pos(), "has "+g.Name()+" change")
								}
							}
						}
						for i, a := range args {
							for _, m := range ef.calledBack(g, i, a) {
								for _, e := range ef.sorted(m) {
									if e.root.kind == 'p' && e.root.idx == 0 {
										add(ef.subst(e.root, nil, []ssa.Value{a}, map[ssa.Value]bool{}), x.Pos(), "has "+m.Name()+", called by "+g.Name()+", change")
									}
								}
							}
						}
						continue
					}
					for _, e := range ef.sorted(g) {
						if e.root.kind == 'g' {
							continue // reported where it is
						}
						if e.root.kind == 'p' {
							add(ef.subst(e.root, c.Value, args, map[ssa.Value]bool{}), e.pos, e.what)
						}
					}
				}
			}
		}
	}
	return grew
}

// appendsTo is what an append may overwrite behind its first operand.
func (ef *effects) appendsTo(v ssa.Value) []root {
	cut := resliced(v, map[ssa.Value]bool{})
	var rs []root
	for _, r := range ef.roots(v, map[ssa.Value]bool{}) {
		if cut || r.kind == 'g' && spareCapacity(r.obj) {
			rs = append(rs, r.with("[]"))
		}
	}
	return rs
}

// resliced tells whether a slice may be a part of another one, so that something is behind it already.
func resliced(v ssa.Value, on map[ssa.Value]bool) bool {
	if on[v] {
		return false
	}
	on[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return x.High != nil && x.Max == nil || resliced(x.X, on)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if resliced(e, on) {
				return true
			}
		}
	case *ssa.ChangeType:
		return resliced(x.X, on)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return resliced(x.Call.Args[0], on)
		}
	}
	return false
}

// spareCapacity tells whether a package-level slice may have room behind its elements: it is not made from a literal.
func spareCapacity(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return false
	}
	for _, m := range g.Pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
					s, ok := st.Val.(*ssa.Slice)
					if !ok || s.High != nil {
						return true
					}
					if a, ok := s.X.(*ssa.Alloc); !ok || a.Comment != "slicelit" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (ef *effects) sorted(fn *ssa.Function) []*effect {
	var out []*effect
	for _, e := range ef.sum[fn] {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].root.key() < out[j].root.key() })
	return out
}

func effField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		f := st.Field(i)
		if n := namedOf(f.Type()); n != nil && n.Obj().Name() == "FixedHeader" {
			return f.Name() + "#header"
		}
		return f.Name()
	}
	return "?"
}
