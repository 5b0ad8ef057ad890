package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C10: flag bits.

// runMethod analyses a method of a type of the packets package on its own.
func runMethod(L *Loaded, named, method string, setup func(pr *packetRun, st *State, args []*Term)) *packetRun {
	t := L.namedType(L.packets, named)
	fn := L.method(L.packets, named, method)
	if t == nil || fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	pr := &packetRun{L: L, Name: named, Fn: fn, Typ: namedOf(t)}
	in := newInterp(L)
	in.root = named + "." + method
	in.model = pr.model
	pr.In = in
	pr.Obj = sym("p", types.NewPointer(pr.Typ))
	pr.IO = sym("w", nil)
	pr.Pos = mk("fa", "$consumed", 0, i64Type(), pr.IO)
	args := []*Term{pr.Obj}
	for _, p := range fn.Params[1:] {
		args = append(args, sym(p.Name(), p.Type()))
	}
	st := in.newState(fn, args)
	st.facts.assume(mkIsNil(pr.Obj), false)
	if setup != nil {
		// what it puts into args is passed
		setup(pr, st, args)
		for i, p := range fn.Params {
			st.top().env[p] = args[i]
		}
	}
	pr.Init = st.clone()
	in.run(st)
	return pr
}

// flagCheck compares the bits of values.
type flagCheck struct {
	r    *Report
	name string
	pr   *packetRun
}

func (c *flagCheck) returns(r *Report, f func(o *Outcome, rw *rewriter)) {
	if c.pr == nil {
		r.violate("missing:"+c.name, token.NoPos, "there is no %s", c.name)
		return
	}
	for _, u := range c.pr.In.undec {
		r.violate("undecided:"+c.name, c.pr.Fn.Pos(), "%s cannot be decided: %s", c.name, u)
	}
	n := 0
	for _, o := range c.pr.In.outcomes {
		if o.Kind != "return" {
			r.violate("panic:"+c.name, o.Pos, "%s may not return", c.name)
			continue
		}
		n++
		f(o, newRewriter(c.pr, o.State.facts))
	}
	r.count("paths through accessors", n)
	if n == 0 {
		r.violate("lost:"+c.name, c.pr.Fn.Pos(), "no path through %s was found", c.name)
	}
}

// want compares a value with the bits it should have.
func (c *flagCheck) want(o *Outcome, rw *rewriter, got *Term, want []*Poly, what string) {
	b := numberBits(rw.term(got), 8)
	for i, w := range want {
		if w == nil {
			continue
		}
		if g, w := rw.poly(bitAt(b, i)), rw.poly(w); !g.eq(w) {
			c.r.violate("bit:"+c.name, o.Pos, "%s: bit %d of %s is %s instead of %s", c.name, i, what, g, w)
			return
		}
		c.r.count("bits compared", 1)
	}
}

func bitRange(b []*Poly, lo, hi int) []*Poly {
	var out []*Poly
	for i := lo; i <= hi; i++ {
		out = append(out, bitAt(b, i))
	}
	return out
}

func checkC10(r *Report, L *Loaded) {
	r.Rule = "the bits of what each flag accessor, setter, encoder and decoder stores or writes are, as polynomials over the bits of its inputs, those that MQTT 5 defines, and all other bits of the byte are those from before; No Local is 0 on every path on which the filter begins with $share/"
	headerAccessors(r, L)
	topicSetters(r, L)
	publishFlags(r, L)
	connectFlags(r, L)
	sessionPresent(r, L)
	r.floor("bits compared", 150)
}

func headerAccessors(r *Report, L *Loaded) {
	cell := func(pr *packetRun) (*Term, []*Poly) {
		h, _ := headerCells(pr.Obj, pr.Typ)
		return h, numberBits(mk("init", "", 0, u8Of(pr), h), 8)
	}
	for _, m := range []string{"SetType", "GetType", "SetFlags", "GetFlags"} {
		var arg *Term
		pr := runMethod(L, "FixedHeader", m, func(pr *packetRun, st *State, args []*Term) {
			if len(args) > 1 {
				arg = args[1]
			}
		})
		c := &flagCheck{r, "FixedHeader." + m, pr}
		c.returns(r, func(o *Outcome, rw *rewriter) {
			h, old := cell(pr)
			now := pr.In.peek(o.State, h)
			switch m {
			case "SetType":
				c.want(o, rw, now, append(bitRange(old, 0, 3), bitRange(numberBits(arg, 8), 0, 3)...), "the header")
			case "SetFlags":
				c.want(o, rw, now, append(bitRange(numberBits(arg, 8), 0, 3), bitRange(old, 4, 7)...), "the header")
			case "GetType":
				c.want(o, rw, now, old, "the header")
				c.want(o, rw, o.Ret[0], append(bitRange(old, 4, 7), newPoly(), newPoly(), newPoly(), newPoly()), "the result")
			case "GetFlags":
				c.want(o, rw, now, old, "the header")
				c.want(o, rw, o.Ret[0], append(bitRange(old, 0, 3), newPoly(), newPoly(), newPoly(), newPoly()), "the result")
			}
		})
	}
}

func u8Of(pr *packetRun) types.Type {
	_, t := fieldAddr(pr.Obj, pr.Typ, "Header")
	if t == nil {
		return u8Type()
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		a, _ := fieldAddr(pr.Obj, pr.Typ, "Header")
		_, t = fieldAddr(a, t, "Header")
	}
	return t
}

func topicSetters(r *Report, L *Loaded) {
	setters := []struct {
		name   string
		lo, hi int
	}{{"SetQoS", 0, 1}, {"SetNoLocal", 2, 2}, {"SetRetainAsPublished", 3, 3}, {"SetRetainHandling", 4, 5}, {"SetFilter", -1, -1}}
	for _, s := range setters {
		for _, shared := range []bool{false, true} {
			var arg *Term
			pr := runMethod(L, "Topic", s.name, func(pr *packetRun, st *State, args []*Term) {
				fa, ft := fieldAddr(pr.Obj, pr.Typ, "filter")
				if fa == nil || len(args) < 2 {
					return
				}
				filter := func(t types.Type) *Term {
					rest := sym("filter", t)
					if shared {
						return mk("concat", "", 0, t, cStr("$share/"), rest)
					}
					// too short for a shared subscription
					st.facts.assume(tLe0(toPoly(pr.In.lenOf(st, rest)).minus(pConst(5))), true)
					return rest
				}
				if s.name == "SetFilter" {
					args[1] = filter(args[1].Typ)
				} else {
					st.heap[fa] = filter(ft)
				}
				arg = args[1]
			})
			name := "Topic." + s.name
			c := &flagCheck{r, name, pr}
			c.returns(r, func(o *Outcome, rw *rewriter) {
				oa, ot := fieldAddr(pr.Obj, pr.Typ, "options")
				fa, _ := fieldAddr(pr.Obj, pr.Typ, "filter")
				if oa == nil || fa == nil {
					r.violate("missing:"+name, token.NoPos, "topics have no options or filter")
					return
				}
				old := numberBits(mk("init", "", 0, ot, oa), 8)
				want := append([]*Poly{}, bitRange(old, 0, 7)...)
				if s.lo >= 0 {
					in := numberBits(arg, 8)
					if isBoolTerm(arg) {
						in = []*Poly{truthPoly(arg)}
					}
					for i := s.lo; i <= s.hi; i++ {
						want[i] = bitAt(in, i-s.lo)
					}
				}
				if shared && (s.name == "SetNoLocal" || s.name == "SetFilter") {
					want[2] = newPoly()
				}
				what := "the options"
				if shared {
					what += " (shared subscription)"
				}
				c.want(o, rw, pr.In.peek(o.State, oa), want, what)
				if s.name == "SetFilter" {
					if f := pr.In.peek(o.State, fa); rw.term(f) != rw.term(arg) {
						r.violate("filter:"+name, o.Pos, "%s sets another filter than it is given", name)
					}
				}
			})
		}
	}
}

// publishFlags looks at the first byte of a PUBLISH in both directions.
func publishFlags(r *Report, L *Loaded) {
	spec := specOf("Publish")
	var all []string
	for _, p := range spec.props {
		all = append(all, p.field)
	}
	for _, o := range []encOpts{{header: cInt(0)}, {}} {
		o.exact, o.noFail, o.small = true, true, true
		o.assume = family{unset: all}.assume
		o.done = func(pr *packetRun, oc *Outcome) {
			if oc.Kind != "return" || retErr(oc) == 1 {
				return
			}
			p := pr.path(oc)
			if len(p.items) == 0 || p.items[0].t == nil || p.items[0].t.Op != "b" {
				r.violate("first-byte:Publish", oc.Pos, "Publish.WriteTo does not begin with the first byte of the fixed header")
				return
			}
			x := &parse{p: p, s: &spec, f: p.f, sets: map[string]bool{}}
			r.count("bits compared", 8)
			if !x.firstByte(p.rw.term(p.items[0].t.Args[0])) {
				r.violate("flags:Publish", p.items[0].ev.Pos, "Publish.WriteTo: %s", x.bad)
			}
		}
		if runEncoder(L, "Publish", o) == nil {
			r.violate("missing:Publish", token.NoPos, "there is no encoder for Publish")
		}
	}
	for f := int64(0); f < 16; f++ {
		pr := runDecoder(L, "Publish", cInt(0x30|f))
		if pr == nil {
			r.violate("missing:Publish", token.NoPos, "there is no decoder for Publish")
			return
		}
		n := 0
		for _, o := range pr.In.outcomes {
			if o.Kind != "return" || retErr(o) == 1 {
				continue
			}
			n++
			for _, w := range []struct {
				field string
				v     int64
			}{{"Retain", f & 1}, {"QoS", f >> 1 & 3}, {"Duplicate", f >> 3}} {
				a, _ := fieldAddr(pr.Obj, pr.Typ, w.field)
				if a == nil {
					r.violate("missing:"+w.field, token.NoPos, "Publish has no field %s", w.field)
					continue
				}
				v := newRewriter(pr, o.State.facts).term(pr.In.peek(o.State, a))
				r.count("bits compared", 1)
				if !(v.isInt() && v.Int == w.v || v.isBool() && v.Int == w.v) {
					r.violate("decode:"+w.field, o.Pos, "a PUBLISH whose first byte is 0x%02X is decoded with %s %s", 0x30|f, w.field, v)
				}
			}
		}
		if n == 0 && f>>1&3 != 3 {
			r.violate("refuses:Publish", pr.Fn.Pos(), "a PUBLISH whose first byte is 0x%02X is never accepted", 0x30|f)
		}
	}
}

func specOf(typ string) encSpec {
	for _, s := range encSpecs() {
		if s.typ == typ {
			return s
		}
	}
	return encSpec{}
}

// connectFlags looks at the connect flags that are written.
func connectFlags(r *Report, L *Loaded) {
	spec := specOf("Connect")
	all := append(fieldNames(spec.props), fieldNames(spec.will)...)
	all = append(all, "ClientId")
	n := 0
	pr := runEncoder(L, "Connect", encOpts{exact: true, noFail: true, small: true, assume: family{unset: all}.assume, done: func(pr *packetRun, o *Outcome) {
		if o.Kind != "return" || retErr(o) == 1 {
			return
		}
		n++
		p := pr.path(o)
		// first byte, remaining length, protocol name, version, flags
		if len(p.items) < 10 || p.items[9].t == nil || p.items[9].t.Op != "b" {
			r.violate("flags:Connect", o.Pos, "Connect.WriteTo does not write the connect flags behind name and version")
			return
		}
		x := &parse{p: p, s: &spec, f: p.f, sets: map[string]bool{}}
		flags := p.rw.term(p.items[9].t.Args[0])
		b := x.bits(flags, 8)
		will := x.isSet("Will")
		q, ret := x.bits(p.pr.field("WillQos"), 8), x.truth(p.pr.field("WillRetain"))
		if !will {
			q, ret = nil, newPoly()
		}
		bit := func(on bool) *Poly {
			if on {
				return pConst(1)
			}
			return newPoly()
		}
		want := []*Poly{newPoly(), x.truth(p.pr.field("CleanSession")), bit(will), bitAt(q, 0), bitAt(q, 1), ret, bit(x.isSet("Password")), bit(x.isSet("Username"))}
		for i, w := range want {
			r.count("bits compared", 1)
			if !bitAt(b, i).eq(w) {
				r.violate("flags:Connect", p.items[9].ev.Pos, "Connect.WriteTo: bit %d of the connect flags is %s instead of %s", i, bitAt(b, i), w)
				return
			}
		}
	}})
	if pr == nil || n == 0 {
		r.violate("missing:Connect", token.NoPos, "no path through the encoder of Connect was found")
	}
}

// sessionPresent looks at what CONNACK's acknowledge flags are decoded to.
func sessionPresent(r *Report, L *Loaded) {
	pr := runDecoder(L, "Connack", cInt(0x20))
	if pr == nil {
		r.violate("missing:Connack", token.NoPos, "there is no decoder for Connack")
		return
	}
	a, _ := fieldAddr(pr.Obj, pr.Typ, "SessionPresent")
	if a == nil {
		r.violate("missing:SessionPresent", token.NoPos, "Connack has no field SessionPresent")
		return
	}
	n := 0
	for _, o := range pr.In.outcomes {
		if o.Kind != "return" || retErr(o) == 1 {
			continue
		}
		var first *Event
		for _, e := range o.State.trace {
			if e.Kind == "Read" {
				first = e
				break
			}
		}
		if first == nil {
			r.violate("session-present", o.Pos, "Connack.ReadFrom accepts a packet without reading its flags")
			continue
		}
		n++
		r.count("bits compared", 1)
		rw := newRewriter(pr, o.State.facts)
		got := rw.poly(truthPoly(rw.term(pr.In.peek(o.State, a))))
		its := items([]*Event{first})
		want := newPoly()
		if len(its) > 0 && its[0].kind == "byte" {
			want = rw.poly(bitAt(numberBits(bigEndian(its[0].d, its[0].i, 8), 8), 0))
		}
		if !got.eq(want) {
			r.violate("session-present", o.Pos, "SessionPresent is %s instead of bit 0 of the acknowledge flags (%s)", got, want)
		}
	}
	if n == 0 {
		r.violate("session-present", pr.Fn.Pos(), "no path through the decoder of Connack accepts a packet")
	}
}

func init() { checks["C10"] = checkC10 }

var _ = fmt.Sprint
var _ *ssa.Function
