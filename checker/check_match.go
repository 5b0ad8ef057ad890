package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// comparedWithWildcard tells whether what a function gets in a parameter is compared with the multi-level wildcard,
// directly or after it went through slicing, indexing, functions outside of the module and calls within it.
func comparedWithWildcard(fn *ssa.Function, param int) bool {
	return wildcardTaint(fn, param, map[[2]any]bool{})
}

func wildcardTaint(fn *ssa.Function, param int, seen map[[2]any]bool) bool {
	k := [2]any{fn, param}
	if seen[k] || param >= len(fn.Params) || len(fn.Blocks) == 0 {
		return false
	}
	seen[k] = true
	tainted := map[ssa.Value]bool{fn.Params[param]: true}
	found := false
	var scan func(f *ssa.Function)
	grew := true
	mark := func(v ssa.Value) {
		if v != nil && !tainted[v] {
			tainted[v] = true
			grew = true
		}
	}
	isWild := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, ok := constant.Int64Val(c.Value)
			return ok && n == '#'
		case constant.String:
			return strings.Contains(constant.StringVal(c.Value), "#")
		}
		return false
	}
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					if (x.Op == token.EQL || x.Op == token.NEQ) && (tainted[x.X] && isWild(x.Y) || tainted[x.Y] && isWild(x.X)) {
						found = true
					}
					if x.Op == token.ADD && (tainted[x.X] || tainted[x.Y]) {
						mark(x)
					}
					continue
				case *ssa.Store:
					if tainted[x.Val] {
						mark(x.Addr)
						if a, ok := x.Addr.(*ssa.IndexAddr); ok {
							mark(a.X)
						}
						if a, ok := x.Addr.(*ssa.FieldAddr); ok {
							mark(a.X)
						}
					}
					continue
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					for i, bnd := range x.Bindings {
						if tainted[bnd] {
							mark(g.FreeVars[i])
						}
					}
					continue
				case ssa.CallInstruction:
					c := x.Common()
					g := c.StaticCallee()
					any := false
					for i, a := range c.Args {
						if !tainted[a] {
							continue
						}
						any = true
						if g != nil && len(g.Blocks) > 0 && wildcardTaint(g, i, seen) {
							found = true
						}
					}
					if any && g != nil && len(g.Blocks) == 0 || any && g == nil {
						for _, a := range c.Args {
							if isWild(a) && g != nil {
								found = true
							}
						}
					}
					if v := x.Value(); any && v != nil && pointerOrText(v) {
						mark(v)
					}
					continue
				}
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil || !tainted[*op] {
						continue
					}
					// an index does not make what is found there depend on what it was computed from
					switch y := ins.(type) {
					case *ssa.Lookup:
						if *op != y.X {
							continue
						}
					case *ssa.Index:
						if *op != y.X {
							continue
						}
					case *ssa.IndexAddr:
						if *op != y.X {
							continue
						}
					case *ssa.Slice:
						if *op != y.X {
							continue
						}
					}
					mark(v)
				}
			}
		}
		for _, g := range f.AnonFuncs {
			scan(g)
		}
	}
	for grew {
		grew = false
		scan(fn)
	}
	return found
}

func pointerOrText(v ssa.Value) bool {
	return pointerLike(v.Type()) || strings.HasSuffix(v.Type().Underlying().String(), "string") || strings.HasSuffix(v.Type().Underlying().String(), "byte")
}

// matcher is a call that decides whether a topic matches a filter.
type matcher struct {
	fn            *ssa.Function
	filter, topic int
	exactF        bool // the filter and the topic are given as they are
	exactT        bool
	argF, argT    *Term
	pos           token.Pos
}

func (c *Client) matchers() []matcher {
	g := c.eventRegistries()
	var out []matcher
	seen := map[string]bool{}
	c.paths(func(p *path) {
		b := p.inbound()
		if p.name != "Poll" || b == nil || b.typ != "Publish" {
			return
		}
		topic := p.decodedField(b.e, "Topic")
		for _, t := range p.traversals(g.topic, 0) {
			for _, bi := range t.infos {
				var key *Term
				for _, e := range bi.body {
					if e.Kind == "RangeNext" && e.instr == t.e.instr {
						key = e.Args[1]
					}
				}
				if key == nil || topic == nil {
					continue
				}
				for res, args := range p.run.In.pureArgs {
					m := matcher{fn: p.run.In.pureFn[res], filter: -1, topic: -1, pos: t.e.Pos}
					n := 0
					for i, a := range args {
						if mentions(a, key) {
							m.filter, m.argF, m.exactF = i, a, unwrap(a) == unwrap(key)
							n++
						}
						if mentions(a, topic) {
							m.topic, m.argT, m.exactT = i, a, unwrap(a) == unwrap(topic)
							n++
						}
					}
					if m.fn == nil || m.filter < 0 || m.topic < 0 || n != 2 || m.filter == m.topic {
						continue
					}
					if k := fmt.Sprint(m.fn, m.filter, m.topic, m.exactF, m.exactT); !seen[k] {
						seen[k] = true
						out = append(out, m)
					}
				}
			}
		}
	})
	return out
}

func checkC29(r *Report, L *Loaded) {
	r.Rule = "the predicate that decides whether a publish is put into a topic-bound channel, interpreted over abstract strings (a window of characters around its cursors, everything else forgotten) until no new state is found, gives the answer of section 4.7 for every valid filter and every valid topic, and it is given the registered filter and the topic of the publish as they are"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	models, err := buildModels()
	if err != nil {
		r.violate("internal", 0, "the models cannot be built: %v", err)
		return
	}
	for _, mt := range c.matchers() {
		r.count("calls that match a topic with a filter", 1)
		if !mt.exactF || !mt.exactT {
			r.count("calls that were not decided", 1)
			r.sample(fmt.Sprintf("undecided: %s is given %s and %s", mt.fn.Name(), short(mt.argF), short(mt.argT)))
			continue
		}
		why := ""
		for _, lv := range []int{0, 2, 1} {
			m := newMachine(L, models, mt.fn)
			m.maxLevel = lv
			if m.limit = 300000; r.Tier != "thorough" {
				m.limit = 60000
			}
			bad, u := m.explore(mt.fn, mt.abstractArgs())
			r.count("abstract states visited", m.states)
			if bad != nil {
				r.violate("verdict:"+mt.fn.Name(), mt.fn.Pos(), "%s answers %s for the filter %q and the topic %q, where it must be %s", mt.fn.Name(), bad.got, bad.filter, bad.topic, bad.want)
				why = ""
				break
			}
			if u == "" {
				if why = ""; lv == 0 {
					r.count("matchers decided for levels of any length", 1)
				} else {
					r.count(fmt.Sprintf("matchers decided for levels of up to %d characters", lv), 1)
				}
				break
			}
			why = u
			r.sample(fmt.Sprintf("%s, levels of up to %d characters: %s", mt.fn.Name(), lv, u))
		}
		if why != "" {
			r.count("calls that were not decided", 1)
		}
	}
	r.floor("calls that match a topic with a filter", 1)
}

// endsWell tells whether the interpretation of the matchers over abstract strings shows that a function, which only they
// call, neither panics nor loops forever for any strings.
func (c *Client) endsWell(r *Report, fn *ssa.Function) bool {
	if c.wellEnding == nil {
		c.wellEnding = map[*ssa.Function]bool{}
		models, err := buildModels()
		if err != nil {
			return false
		}
		for _, mt := range c.matchers() {
			bad, why := &disagreement{}, "undecided"
			for _, lv := range []int{0, 2, 1} {
				m := newMachine(c.L, models, mt.fn)
				m.alone, m.maxLevel, m.limit = true, lv, 60000
				m.alphabet[1] = m.alphabet[0]
				if bad, why = m.explore(mt.fn, mt.abstractArgs()); bad != nil || why == "" {
					break
				}
			}
			if bad != nil || why != "" {
				continue
			}
			covered := map[*ssa.Function]bool{}
			var cover func(f *ssa.Function)
			cover = func(f *ssa.Function) {
				if covered[f] || !c.L.inModule(f) {
					return
				}
				covered[f] = true
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if x, ok := ins.(ssa.CallInstruction); ok && x.Common().StaticCallee() != nil {
							cover(x.Common().StaticCallee())
						}
					}
				}
			}
			cover(mt.fn)
			// what others call as well may be given other values
			for f := range ssautil.AllFunctions(c.L.prog) {
				if covered[f] || !c.L.inModule(f) {
					continue
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(nil) {
							if g, ok := (*op).(*ssa.Function); ok && g != mt.fn {
								delete(covered, g)
							}
						}
					}
				}
			}
			for f := range covered {
				c.wellEnding[f] = true
			}
		}
	}
	if c.wellEnding[fn] {
		r.count("functions proved over abstract strings", 1)
	}
	return c.wellEnding[fn]
}

func (mt matcher) abstractArgs() []tval {
	args := make([]tval, len(mt.fn.Params))
	for i := range args {
		args[i] = tval{kind: 'o'}
	}
	args[mt.filter] = tval{kind: 's', tag: 0, hi: toEnd, org: true}
	args[mt.topic] = tval{kind: 's', tag: 1, hi: toEnd, org: true}
	return args
}

func newMachine(L *Loaded, models *ssa.Package, code *ssa.Function) *machine {
	m := &machine{models: models, k0: 2, behind: 1, inModule: L.inModule, live: map[*ssa.Function]map[*ssa.BasicBlock][]map[ssa.Value]bool{}}
	chars := map[byte]bool{'/': true, '+': true, '#': true, '$': true, 'a': true, 'b': true}
	fns := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if fns[f] {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.Range); ok && isText(x.X.Type()) {
					m.wide = true
				}
				if x, ok := ins.(ssa.CallInstruction); ok {
					if g := x.Common().StaticCallee(); g != nil && L.inModule(g) {
						scan(g)
					}
				}
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					bt, ok := k.Type().Underlying().(*types.Basic)
					switch {
					case !ok:
					case bt.Info()&types.IsString != 0:
						s := constant.StringVal(k.Value)
						for i := 0; i < len(s) && len(chars) < 10; i++ {
							chars[s[i]] = true
						}
						if len(s)+1 > m.k0 && len(s) < 16 {
							m.k0 = len(s) + 1
						}
					case bt.Kind() == types.Uint8 || bt.Kind() == types.Int32:
						if n, ok := constant.Int64Val(k.Value); ok && n > 0 && n < 128 && len(chars) < 10 {
							chars[byte(n)] = true
						}
					case bt.Info()&types.IsInteger != 0:
						n, ok := constant.Int64Val(k.Value)
						if n < 0 {
							n = -n
						}
						if ok && n <= 16 {
							if int(n) > m.k0 {
								m.k0 = int(n)
							}
							if x, isOp := ins.(*ssa.BinOp); isOp && x.Op == token.SUB && int(n) > m.behind {
								m.behind = int(n)
							}
						}
					}
				}
			}
		}
	}
	scan(code)
	for c := range chars {
		m.alphabet[0] = append(m.alphabet[0], c)
		if c != '+' && c != '#' {
			m.alphabet[1] = append(m.alphabet[1], c)
		}
	}
	for i := range m.alphabet {
		a := m.alphabet[i]
		sort.Slice(a, func(x, y int) bool { return a[x] < a[y] })
	}
	return m
}

func init() { checks["C29"] = checkC29 }
