package main

import (
	"go/token"
	"go/types"
)

// storeRep is how the memory storage keeps its records: a slice of structs with an identifier and a packet, or a map.
type storeRep struct {
	field    string // region of the slice or map
	isMap    bool
	id, pkt  string // fields of an entry, for a slice
	ptr      bool   // the slice has pointers to entries
	elemType types.Type
}

func findStore(c *Client) *storeRep {
	st := c.Type.Underlying().(*types.Struct)
	var out *storeRep
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 && types.IsInterface(u.Elem()) {
				out, n = &storeRep{field: c.Label + "." + f.Name(), isMap: true}, n+1
			}
		case *types.Slice:
			et := u.Elem()
			ptr := false
			if p, ok := et.Underlying().(*types.Pointer); ok {
				et, ptr = p.Elem(), true
			}
			es, ok := et.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			rep := &storeRep{field: c.Label + "." + f.Name(), ptr: ptr, elemType: et}
			for j := 0; j < es.NumFields(); j++ {
				ft := es.Field(j).Type()
				if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 {
					rep.id = es.Field(j).Name()
				}
				if types.IsInterface(ft) {
					rep.pkt = es.Field(j).Name()
				}
			}
			if rep.id != "" && rep.pkt != "" {
				out, n = rep, n+1
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// elem takes a term apart that is a field of an element of the slice.
func (s *storeRep) elem(p *path, t *Term) (base, idx *Term, field string) {
	if t == nil || t.Op != "init" {
		return nil, nil, ""
	}
	a := t.Args[0]
	if a.Op != "fa" {
		return nil, nil, ""
	}
	field = a.Str
	b := a.Args[0]
	if s.ptr {
		if b.Op != "init" {
			return nil, nil, ""
		}
		b = b.Args[0]
	}
	if b.Op != "ia" {
		return nil, nil, ""
	}
	if p.regOf(b.Args[0]) != s.field {
		return nil, nil, ""
	}
	return b.Args[0], b.Args[1], field
}

// compared finds the indices of the elements whose identifier the facts know to be (un)equal to id.
func (s *storeRep) compared(p *path, F *Facts, id *Term, equal bool) []*Poly {
	var out []*Poly
	for t, v := range F.truth {
		if v != equal || t.Op != "eq0" {
			continue
		}
		q := toPoly(t.Args[0])
		for _, sg := range []int64{1, -1} {
			d := q.scale(sg).plus(toPoly(id)) // the identifier of the element, if the fact is about one
			as := d.atoms()
			if len(as) != 1 || !d.eq(pAtom(as[0])) {
				continue
			}
			if _, idx, f := s.elem(p, as[0]); idx != nil && f == s.id {
				out = append(out, toPoly(idx))
			}
		}
	}
	return out
}

func (s *storeRep) length(p *path, base *Term) *Poly {
	return pAtom(mk("len", "", 0, types.Typ[types.Int], base))
}

// base is the value of the slice when the method began.
func (s *storeRep) base(p *path) *Term {
	for _, e := range p.ev {
		if e.Kind == "Read" && e.Name == s.field {
			return e.Args[0]
		}
	}
	return nil
}

// unset tells whether a variable of a loop has the value that stands for "nothing found yet".
func unset(F *Facts, x *Term) (val, known bool) {
	switch {
	case isIntegral(x.Typ) || x.isInt() || x.Op == "poly":
		if F.proveLe(toPoly(x).plus(pConst(1))) {
			return true, true
		}
		if F.proveLe(toPoly(x).scale(-1)) {
			return false, true
		}
		return false, false
	case isBoolTerm(x) || x.isBool():
		v, k := F.eval(x)
		return !v, k
	}
	return F.eval(mkIsNil(x))
}

// flags are the variables of a loop that stay unset until an element matches.
func (s *storeRep) flags(p *path, rec *loopRec, id *Term) []*Term {
	cand := map[*Term]bool{}
	for _, bi := range rec.infos {
		for x := range bi.phi {
			cand[x] = true
		}
	}
	var out []*Term
	for x := range cand {
		ok, hits := true, 0
		for _, bi := range rec.infos {
			end := bi.phi[x]
			if bi.entry {
				st := bi.start[x]
				if st == nil {
					ok = false
					break
				}
				if u, k := unset(bi.facts, st); !k || !u {
					ok = false
					break
				}
				if end == nil || end == st {
					continue
				}
			}
			if end == nil || end == x {
				continue
			}
			if u, k := unset(bi.facts, end); k && u {
				// stays unset only if it was
				if w, k := unset(bi.facts, x); !bi.entry && !(k && w) {
					ok = false
					break
				}
				continue
			} else if !k {
				ok = false
				break
			}
			hits++
			eq := s.compared(p, bi.facts, id, true)
			if len(eq) == 0 {
				ok = false
				break
			}
			if isIntegral(x.Typ) {
				found := false
				for _, q := range eq {
					found = found || q.eq(toPoly(end))
				}
				if !found {
					ok = false
					break
				}
			}
		}
		if ok && hits > 0 {
			out = append(out, x)
		}
	}
	return out
}

// absent decides that no element has the identifier: every index was visited and compared unequal.
func (s *storeRep) absent(p *path, id *Term) bool {
	base := s.base(p)
	if base == nil {
		return false
	}
	n := s.length(p, base)
	if p.F.proveLe(n) {
		return true
	}
	for _, e := range p.ev {
		if e.Kind == "Write" && e.Name == s.field {
			break
		}
		if e.Kind == "Loop" && s.scanned(p, e.Loop, id, n) {
			return true
		}
	}
	return false
}

func (s *storeRep) scanned(p *path, rec *loopRec, id *Term, n *Poly) bool {
	var live []*bodyInfo
	fl := s.flags(p, rec, id)
	for _, bi := range rec.infos {
		dead := false
		for _, x := range fl {
			// the flag is unset at the end, so it was never set
			if u, k := unset(p.F, x); !k || !u {
				continue
			}
			if end := bi.phi[x]; end != nil && end != x {
				if u, k := unset(bi.facts, end); k && !u {
					dead = true
				}
			}
			if u, k := unset(bi.facts, x); k && !u && !bi.entry {
				dead = true
			}
		}
		if !dead {
			live = append(live, bi)
		}
	}
	if len(live) == 0 {
		return false
	}
	cand := map[*Term]bool{}
	for _, bi := range live {
		for x := range bi.phi {
			if isIntegral(x.Typ) {
				cand[x] = true
			}
		}
	}
next:
	for x := range cand {
		dir, off := int64(0), (*int64)(nil)
		var first *Poly
		for _, bi := range live {
			end, start := bi.phi[x], bi.start[x]
			if end == nil {
				continue next
			}
			ne := s.compared(p, bi.facts, id, false)
			cur := toPoly(x)
			if bi.entry {
				if start == nil {
					continue next
				}
				cur = toPoly(start)
			}
			d, ok := toPoly(unwrap(end)).minus(cur).isConst()
			if !ok || d != 1 && d != -1 || dir != 0 && dir != d {
				continue next
			}
			dir = d
			// the element that this iteration compared
			hit := false
			for _, q := range ne {
				if c, ok := q.minus(cur).isConst(); ok && (off == nil || *off == c) {
					off, hit = &c, true
				}
			}
			if !hit {
				continue next
			}
			if bi.entry {
				first = cur.plus(pConst(*off))
			}
		}
		if first == nil || off == nil {
			continue
		}
		nextIdx := toPoly(x).plus(pConst(*off)) // the index that would be compared next
		if dir == 1 && first.isZero() && p.F.proveLe(n.minus(nextIdx)) {
			return true
		}
		if dir == -1 && first.eq(n.minus(pConst(1))) && p.F.proveLe(nextIdx.plus(pConst(1))) {
			return true
		}
	}
	return false
}

// present decides that the element at some index has the identifier.
func (s *storeRep) present(p *path, id *Term) []*Poly {
	out := s.compared(p, p.F, id, true)
	for _, e := range p.ev {
		if e.Kind != "Loop" {
			continue
		}
		for _, x := range s.flags(p, e.Loop, id) {
			if u, k := unset(p.F, x); !k || u {
				continue
			}
			if isIntegral(x.Typ) {
				out = append(out, toPoly(x))
			}
		}
	}
	return out
}

func inPolys(q *Poly, l []*Poly) bool {
	for _, x := range l {
		if x.eq(q) {
			return true
		}
	}
	return false
}

// sliceOf takes base[lo:lo+n] apart.
func sliceOf(t, base *Term, n *Poly) (lo, ln *Poly, ok bool) {
	if t == base {
		return newPoly(), n, true
	}
	if t != nil && t.Op == "slice" && t.Args[0] == base {
		return toPoly(t.Args[1]), toPoly(t.Args[2]), true
	}
	return nil, nil, false
}

// changes are the events that change the records.
func (s *storeRep) changes(p *path) []*Event {
	var out []*Event
	walk(p.ev, false, func(e *Event, inLoop bool) {
		switch e.Kind {
		case "Write", "MapSet", "MapDel", "MapClear":
			if e.Name == s.field || e.Name == s.field+"[]" || e.Name == s.field+"[]->" {
				out = append(out, e)
			}
		case "Copy":
			if mentionsRegion(p, e.Args[0], s.field) {
				out = append(out, e)
			}
		}
	})
	return out
}

func mentionsRegion(p *path, t *Term, reg string) bool {
	if t == nil {
		return false
	}
	if p.regOf(t) == reg {
		return true
	}
	for _, a := range t.Args {
		if mentionsRegion(p, a, reg) {
			return true
		}
	}
	return false
}

// added decides that the only change is one new record at the end.
func (s *storeRep) added(p *path, ch []*Event, id, pkt *Term) bool {
	if len(ch) != 1 || ch[0].Kind != "Write" || ch[0].Name != s.field {
		return false
	}
	v := ch[0].Args[0]
	if v.Op != "append" || len(v.Args) != 2 || p.regOf(v.Args[0]) != s.field {
		return false
	}
	el := v.Args[1]
	get := func(f string) *Term {
		if s.ptr {
			a, _ := fieldAddr(el, s.elemType, f)
			return p.run.In.peek(p.o.State, a)
		}
		st := s.elemType.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return structField(el, s.elemType, i)
			}
		}
		return nil
	}
	return get(s.id) == id && get(s.pkt) == pkt
}

// filtered decides that a value is what a loop over all elements has appended to an empty slice: those, and only those,
// whose identifier it compared unequal.
func (s *storeRep) filtered(p *path, v, id *Term, n *Poly) bool {
	for _, e := range p.ev {
		if e.Kind != "Loop" || !e.Loop.isSym(v) {
			continue
		}
		var cands []*Term
		for _, bi := range e.Loop.infos {
			for x := range bi.phi {
				if isIntegral(x.Typ) {
					cands = append(cands, x)
				}
			}
		}
	next:
		for _, x := range cands {
			var off *int64
			var first *Poly
			began := false
			for _, bi := range e.Loop.infos {
				if !bi.entry && bi.gen != e.Loop.gen {
					continue // superseded
				}
				end, cur := bi.phi[x], toPoly(x)
				if bi.entry {
					if bi.start[x] == nil {
						continue next
					}
					cur = toPoly(bi.start[x])
				}
				if end == nil {
					continue next
				}
				was := bi.start[v] // before the first iteration
				if was != nil {
					if l := p.run.In.lenOf(p.o.State, was); !was.isNil() && !(l.isInt() && l.Int == 0) {
						continue next
					}
					began = true
				}
				now := bi.phi[v]
				same := func(t *Term) bool { return t == v && !bi.entry || bi.entry && was != nil && t == was }
				if d, ok := toPoly(unwrap(end)).minus(cur).isConst(); !ok || d != 1 {
					continue next
				}
				fits := func(l []*Poly) bool {
					for _, q := range l {
						if c, ok := q.minus(cur).isConst(); ok && (off == nil || *off == c) {
							off = &c
							return true
						}
					}
					return false
				}
				if now == nil || same(now) {
					if !fits(s.compared(p, bi.facts, id, true)) {
						continue next
					}
				} else {
					if now.Op != "append" || len(now.Args) != 2 || !same(now.Args[0]) || !fits(s.compared(p, bi.facts, id, false)) {
						continue next
					}
					if b, i := s.element(p, now.Args[1]); b != s.base(p) || !toPoly(i).eq(cur.plus(pConst(*off))) {
						continue next
					}
				}
				if bi.entry {
					first = cur.plus(pConst(*off))
				}
			}
			if !began || first == nil || !first.isZero() || !p.F.proveLe(n.minus(toPoly(x)).minus(pConst(*off))) {
				continue
			}
			return true
		}
	}
	return false
}

// element takes a term apart that is a whole element of the slice.
func (s *storeRep) element(p *path, el *Term) (base, idx *Term) {
	if s.ptr {
		if el.Op == "init" && el.Args[0].Op == "ia" && p.regOf(el.Args[0].Args[0]) == s.field {
			return el.Args[0].Args[0], el.Args[0].Args[1]
		}
		return nil, nil
	}
	st := s.elemType.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		b, x, f := s.elem(p, structField(el, s.elemType, i))
		if b == nil || f != st.Field(i).Name() || i > 0 && (b != base || x != idx) {
			return nil, nil
		}
		base, idx = b, x
	}
	return base, idx
}

// removed decides that the only change is that one of the given elements is gone.
func (s *storeRep) removed(p *path, ch []*Event, id *Term, at []*Poly) bool {
	base := s.base(p)
	if base == nil || len(ch) == 0 {
		return false
	}
	n := s.length(p, base)
	w := ch[len(ch)-1]
	// a cleared element behind the end does not count
	if w.Kind != "Write" || w.Name != s.field {
		return false
	}
	v := w.Args[0]
	rest := ch[:len(ch)-1]
	if len(rest) == 0 && len(at) > 0 && s.filtered(p, v, id, n) {
		return true
	}
	if v.Op == "appendslice" {
		lo1, n1, ok1 := sliceOf(v.Args[0], base, n)
		lo2, n2, ok2 := sliceOf(v.Args[1], base, n)
		return len(rest) == 0 && ok1 && ok2 && lo1.isZero() && inPolys(n1, at) && lo2.eq(n1.plus(pConst(1))) && lo2.plus(n2).eq(n)
	}
	if lo, ln, ok := sliceOf(v, base, n); ok && lo.isZero() && ln.eq(n.minus(pConst(1))) {
		if len(rest) > 0 && rest[0].Kind == "Copy" {
			lo1, n1, ok1 := sliceOf(rest[0].Args[0], base, n)
			lo2, n2, ok2 := sliceOf(rest[0].Args[1], base, n)
			if !ok1 || !ok2 || !inPolys(lo1, at) || !lo2.eq(lo1.plus(pConst(1))) || !lo2.plus(n2).eq(n) || !p.F.proveLe(n2.minus(n1)) {
				return false
			}
			// clearing the last element is all that may happen in between
			return len(rest) == 1 || s.onlyAt(p, rest[1:], n.minus(pConst(1)))
		}
	}
	return false
}

// onlyAt decides that element writes clear the element with the given index.
func (s *storeRep) onlyAt(p *path, ch []*Event, idx *Poly) bool {
	for _, e := range ch {
		if e.Kind != "Write" || e.Name != s.field+"[]" || e.Args[0] == nil {
			return false
		}
		z := e.Args[0]
		if !(z.isNil() || z.isInt() && z.Int == 0) {
			return false
		}
		a := e.Addr
		for a != nil && a.Op == "fa" {
			a = a.Args[0]
		}
		if a == nil || a.Op != "ia" || !toPoly(a.Args[1]).eq(idx) {
			return false
		}
	}
	return true
}

func isGlobalErr(t *Term, name string) bool {
	return t != nil && t.Op == "gerr" && (t.Str == name || len(t.Str) > len(name) && t.Str[len(t.Str)-len(name)-1:] == "."+name)
}

func checkC27(r *Report, L *Loaded) {
	r.Rule = "Every path through every exported method of memory.Storage, in a symbolic interpretation of the program in SSA form: Store succeeds only where a scan over the whole slice (its index starts at the first element, moves by one and ends at the length, and each iteration compared an identifier unequal) or a lookup shows that the record is absent, and then appends exactly {identifier, packet}; it returns ErrDuplicateEntry only where an element's identifier was compared equal, and changes nothing then. Get and Drop return ErrNoEntry only after such a complete scan, and otherwise return, or remove, exactly the element whose identifier was compared equal. All accesses hold one common lock without interruption, released on every path, and every index is proved to be in range."
	if L.memory == nil {
		r.violate("anchor", token.NoPos, "package storage/memory not found")
		return
	}
	t, _ := L.namedType(L.memory, "Storage").(*types.Named)
	if t == nil {
		r.violate("anchor", token.NoPos, "type memory.Storage not found")
		return
	}
	c := runObject(L, t, "s", true)
	if c.Problem != "" {
		r.violate("anchor", token.NoPos, "%s", c.Problem)
		return
	}
	for _, u := range c.Undec {
		r.violate("undecided", token.NoPos, "%s", u)
	}
	s := findStore(c)
	if s == nil {
		r.violate("anchor", token.NoPos, "the records of memory.Storage are not kept in one slice of identified entries or one map by identifier")
		return
	}
	for _, e := range c.LockErr {
		r.violate("lock:"+e, token.NoPos, "%s", e)
	}
	for _, o := range c.Obls {
		r.count("index, slice and map obligations", 1)
		if !o.Proved {
			r.violate("panic:"+o.Kind, o.Pos, "%s is not proved: %s", o.Desc, o.Fail)
		}
	}
	// one lock over all accesses
	var common map[string]bool
	for _, a := range c.Access {
		r.count("accesses to the records", 1)
		ls := map[string]bool{}
		for l, w := range a.Locks {
			if w || !a.Write {
				ls[l] = true
			}
		}
		if common == nil {
			common = ls
			continue
		}
		for l := range common {
			if !ls[l] {
				delete(common, l)
			}
		}
	}
	if len(common) == 0 && c.Access != nil {
		for _, a := range c.Access {
			if len(a.Locks) == 0 {
				r.violate("unlocked", a.Pos, "%s of %s without a lock", map[bool]string{true: "write", false: "read"}[a.Write], a.Region)
			}
		}
		r.violate("no common lock", token.NoPos, "the accesses to %s have no common lock", s.field)
	}
	for _, m := range []string{"Store", "Get", "Drop"} {
		if c.method(m) == nil {
			r.violate("anchor", token.NoPos, "method %s of memory.Storage not found", m)
		}
	}
	c.paths(func(p *path) {
		if p.name != "Store" && p.name != "Get" && p.name != "Drop" {
			for _, e := range s.changes(p) {
				r.violate("foreign change", e.Pos, "%s changes the records", p.name)
			}
			return
		}
		r.count("paths", 1)
		for _, l := range p.o.State.lockNames() {
			r.violate("lock kept:"+p.name, p.o.Pos, "%s returns with %s locked", p.name, l)
		}
		// no interruption between the first and the last access
		first, last := -1, -1
		for i, e := range p.ev {
			if (e.Kind == "Read" || e.Kind == "Write") && e.Name == s.field || (e.Kind == "MapGet" || e.Kind == "MapSet" || e.Kind == "MapDel") && e.Name == s.field+"[]" {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if first < 0 {
			r.violate("no access:"+p.name, p.o.Pos, "%s returns without looking at the records", p.name)
			return
		}
		if !p.sameSection(first, last) {
			r.violate("interrupted:"+p.name, p.o.Pos, "%s does not hold one lock over its whole access to the records", p.name)
		}
		id := p.run.Params[1]
		err, _ := p.err()
		ch := s.changes(p)
		if s.isMap {
			s.mapPath(r, p, id, err, ch)
			return
		}
		switch {
		case p.isNil(err):
			switch p.name {
			case "Store":
				if !s.absent(p, id) {
					r.violate("store: not absent", p.o.Pos, "Store succeeds without having found that no record has the identifier")
				}
				if !s.added(p, ch, id, p.run.Params[2]) {
					r.violate("store: change", p.o.Pos, "Store does not add exactly one record with the given identifier and packet")
				}
			case "Get":
				if len(ch) > 0 {
					r.violate("get: change", p.o.Pos, "Get changes the records")
				}
				b, idx, f := s.elem(p, p.o.Ret[0])
				if b == nil || f != s.pkt || b != s.base(p) || !inPolys(toPoly(idx), s.present(p, id)) {
					if !s.foundPacket(p, id, p.o.Ret[0]) {
						r.violate("get: value", p.o.Pos, "Get does not return the packet of the record whose identifier it compared equal")
					}
				}
			case "Drop":
				if !s.removed(p, ch, id, s.present(p, id)) {
					r.violate("drop: change", p.o.Pos, "Drop does not remove exactly the record whose identifier it compared equal")
				}
			}
		case p.nonNil(err):
			if len(ch) > 0 {
				r.violate("error: change:"+p.name, p.o.Pos, "%s changes the records and returns an error", p.name)
			}
			if p.name == "Store" {
				if !isGlobalErr(err, "ErrDuplicateEntry") {
					r.violate("store: error", p.o.Pos, "Store fails with another error than ErrDuplicateEntry")
				} else if len(s.present(p, id)) == 0 && !s.foundAny(p, id) {
					r.violate("store: not present", p.o.Pos, "Store returns ErrDuplicateEntry without having found a record with the identifier")
				}
			} else {
				if !isGlobalErr(err, "ErrNoEntry") {
					r.violate(p.name+": error", p.o.Pos, "%s fails with another error than ErrNoEntry", p.name)
				} else if !s.absent(p, id) {
					r.violate(p.name+": not absent", p.o.Pos, "%s returns ErrNoEntry without having found that no record has the identifier", p.name)
				}
			}
		default:
			r.violate("error:"+p.name, p.o.Pos, "it is not decided whether %s returns an error here", p.name)
		}
		r.sample(p.name + " at " + p.where())
	})
	r.floor("paths", 6)
	r.floor("accesses to the records", 4)
}

// foundAny decides presence by a flag of the scan.
func (s *storeRep) foundAny(p *path, id *Term) bool {
	for _, e := range p.ev {
		if e.Kind != "Loop" {
			continue
		}
		for _, x := range s.flags(p, e.Loop, id) {
			if u, k := unset(p.F, x); k && !u {
				return true
			}
		}
	}
	return false
}

// foundPacket decides that a variable of the scan was set to the packet of the element that matched.
func (s *storeRep) foundPacket(p *path, id, v *Term) bool {
	if !s.foundAny(p, id) {
		return false
	}
	for _, e := range p.ev {
		if e.Kind != "Loop" || !e.Loop.isSym(v) {
			continue
		}
		ok := true
		for _, bi := range e.Loop.infos {
			end := bi.phi[v]
			if end == nil || end == v || bi.entry && end == bi.start[v] {
				continue
			}
			_, idx, f := s.elem(p, end)
			if idx == nil || f != s.pkt || !inPolys(toPoly(idx), s.compared(p, bi.facts, id, true)) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// mapPath is the same for a storage that keeps its records in a map by identifier.
func (s *storeRep) mapPath(r *Report, p *path, id, err *Term, ch []*Event) {
	var get *Event
	for _, e := range p.ev {
		if e.Kind == "MapGet" && e.Name == s.field+"[]" && e.Args[1] == id && get == nil {
			get = e
		}
	}
	if get == nil {
		r.violate("no lookup:"+p.name, p.o.Pos, "%s does not look for the record", p.name)
		return
	}
	has, known := p.F.eval(get.Args[3])
	if !known {
		r.violate("unchecked:"+p.name, p.o.Pos, "%s does not depend on whether there is a record", p.name)
		return
	}
	fails := p.nonNil(err)
	if !fails && !p.isNil(err) {
		r.violate("error:"+p.name, p.o.Pos, "it is not decided whether %s returns an error here", p.name)
		return
	}
	if p.name == "Store" {
		if fails != has || fails && (len(ch) > 0 || !isGlobalErr(err, "ErrDuplicateEntry")) {
			r.violate("store", p.o.Pos, "Store does not fail with ErrDuplicateEntry, and change nothing, exactly if there is a record")
		}
		if !fails && !(len(ch) == 1 && ch[0].Kind == "MapSet" && ch[0].Args[1] == id && ch[0].Args[2] == p.run.Params[2]) {
			r.violate("store: change", p.o.Pos, "Store does not set exactly the record")
		}
		return
	}
	if fails == has || fails && (len(ch) > 0 || !isGlobalErr(err, "ErrNoEntry")) {
		r.violate(p.name, p.o.Pos, "%s does not fail with ErrNoEntry, and change nothing, exactly if there is no record", p.name)
	}
	if p.name == "Get" && !fails && (p.o.Ret[0] != get.Args[2] || len(ch) > 0) {
		r.violate("get: value", p.o.Pos, "Get does not return the record")
	}
	if p.name == "Drop" && !fails && !(len(ch) == 1 && ch[0].Kind == "MapDel" && ch[0].Args[1] == id) {
		r.violate("drop: change", p.o.Pos, "Drop does not remove exactly the record")
	}
}

func init() { checks["C27"] = checkC27 }
