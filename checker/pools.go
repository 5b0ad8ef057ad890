package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// poolGet tells whether a value is what a package-level sync.Pool gave, all of whose contents have one type, which is
// returned, and whether none of them is a nil pointer.
func (L *Loaded) poolGet(v ssa.Value) (t types.Type, notNil, ok bool) {
	c, isCall := v.(*ssa.Call)
	if !isCall || len(c.Call.Args) == 0 {
		return nil, false, false
	}
	if fn := c.Call.StaticCallee(); fn == nil || fn.String() != "(*sync.Pool).Get" {
		return nil, false, false
	}
	g, isG := c.Call.Args[0].(*ssa.Global)
	if !isG {
		return nil, false, false
	}
	notNil = true
	good := true
	put := func(x ssa.Value) {
		mi, isM := x.(*ssa.MakeInterface)
		if !isM {
			good = false
			return
		}
		if t == nil {
			t = mi.X.Type()
		} else if !types.Identical(t, mi.X.Type()) {
			good = false
		}
		y := mi.X
		if load, isL := y.(*ssa.UnOp); isL {
			// a variable that a deferred function captures
			if a, isA := load.X.(*ssa.Alloc); isA {
				for _, r := range *a.Referrers() {
					if st, isS := r.(*ssa.Store); isS && st.Addr == a {
						y = st.Val
					}
				}
			}
		}
		switch y := y.(type) {
		case *ssa.Alloc:
		case *ssa.TypeAssert:
			if c, isC := y.X.(*ssa.Call); !isC || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(*sync.Pool).Get" {
				notNil = false
			}
		default:
			notNil = false
		}
	}
	made := false
	maker := func(v ssa.Value) {
		fn, isFn := v.(*ssa.Function)
		if mc, isMC := v.(*ssa.MakeClosure); isMC {
			fn, isFn = mc.Fn.(*ssa.Function)
		}
		if !isFn || len(fn.Blocks) == 0 {
			good = false
			return
		}
		made = true
		for _, b := range fn.Blocks {
			if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
				put(ret.Results[0])
			}
		}
	}
	for fn := range ssautil.AllFunctions(L.prog) {
		if !L.inModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					for i, a := range cc.Args {
						if a != g {
							continue
						}
						f := cc.StaticCallee()
						switch {
						case f == nil || i != 0:
							good = false
						case f.String() == "(*sync.Pool).Put":
							put(cc.Args[1])
						case f.String() != "(*sync.Pool).Get":
							good = false
						}
					}
				case *ssa.Store:
					if x.Addr == g {
						// a literal
						load, isL := x.Val.(*ssa.UnOp)
						if !isL {
							good = false
							continue
						}
						for _, r := range *load.X.Referrers() {
							if fa, isF := r.(*ssa.FieldAddr); isF {
								for _, fr := range *fa.Referrers() {
									if st, isS := fr.(*ssa.Store); isS && st.Addr == fa {
										maker(st.Val)
									}
								}
							}
						}
						continue
					}
					if x.Val == g {
						good = false
					}
					if fa, isF := x.Addr.(*ssa.FieldAddr); isF && fa.X == g {
						maker(x.Val)
					}
				}
			}
		}
	}
	return t, notNil, good && made && t != nil
}
