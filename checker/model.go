package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The model of what lies outside of the client: the network connection, the storage, contexts, and the encoders and
// decoders of the packets, whose own code is decided by other checks.

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func typeIs(t types.Type, path, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func isConn(t *Term) bool {
	return t != nil && typeIs(t.Typ, "net", "Conn") && (t.Op == "init" || t.Op == "sym" || t.Op == "param")
}

func mentionsConn(t *Term) bool {
	if t == nil {
		return false
	}
	if isConn(t) {
		return true
	}
	if t.Op == "init" || t.Op == "fa" || t.Op == "ia" {
		return false
	}
	for _, a := range t.Args {
		if mentionsConn(a) {
			return true
		}
	}
	return false
}

// ioMethod tells whether a function is an encoder or decoder of the packets or primitives package, and of which type.
func (L *Loaded) ioMethod(fn *ssa.Function) (typ *types.Named, dec bool) {
	if fn == nil || fn.Signature.Recv() == nil {
		return nil, false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || n.Obj().Pkg() == nil {
		return nil, false
	}
	if p := n.Obj().Pkg().Path(); p != L.packets.Pkg.Path() && p != L.prims.Pkg.Path() {
		return nil, false
	}
	switch fn.Name() {
	case "WriteTo":
		return n, false
	case "ReadFrom":
		return n, true
	}
	return nil, false
}

func (in *Interp) fork(st *State, ret func(s *State, ok bool) *Term) []*State {
	n := st.clone()
	st.ghost["$ret"] = ret(st, true)
	n.ghost["$ret"] = ret(n, false)
	return []*State{st, n}
}

// havoc makes the fields of an object unknown, except those that keep selects.
func (in *Interp) havocObj(st *State, a *Term, t types.Type, name string, keep func(path string) bool, path string) {
	if u, ok := t.Underlying().(*types.Struct); ok && !in.L.atomicStruct(t) {
		for i := 0; i < u.NumFields(); i++ {
			p := path + "." + u.Field(i).Name()
			if keep != nil && keep(p) {
				continue
			}
			in.havocObj(st, mkFA(a, t, i), u.Field(i).Type(), name, keep, p)
		}
		return
	}
	st.heap[a] = sym(name+path, t)
}

// field finds the address of a field by name, through embedded structs.
func fieldAddr(a *Term, t types.Type, name string) (*Term, types.Type) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return mkFA(a, t, i), u.Field(i).Type()
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if r, rt := fieldAddr(mkFA(a, t, i), u.Field(i).Type(), name); r != nil {
				return r, rt
			}
		}
	}
	return nil, nil
}

// peek reads a cell without recording an access.
func (in *Interp) peek(st *State, a *Term) *Term {
	if v, ok := st.heap[a]; ok {
		return v
	}
	return in.defaultCell(st, a, a.Typ)
}

// packetField is the value that a field of a packet snapshot has.
func packetField(pkt *Term, name string) *Term {
	if pkt == nil || pkt.Op != "struct" || pkt.Typ == nil {
		return nil
	}
	u, ok := pkt.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields() && i < len(pkt.Args); i++ {
		if u.Field(i).Name() == name {
			return pkt.Args[i]
		}
	}
	for i := 0; i < u.NumFields() && i < len(pkt.Args); i++ {
		if u.Field(i).Embedded() {
			if r := packetField(pkt.Args[i], name); r != nil {
				return r
			}
		}
	}
	return nil
}

func bufContent(buf *Term) *Term { return mk("fa", "$content", 0, nil, buf) }

func (in *Interp) content(st *State, buf *Term) *Term {
	if v, ok := st.heap[bufContent(buf)]; ok {
		return v
	}
	if buf.Op == "alloc" && st.fresh[buf] || buf.Op == "newbuf" {
		return mk("content", "", 0, nil)
	}
	return mk("content", "", 0, nil, sym("unknown content of "+buf.String(), nil))
}

func unwrapIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// nameOfType is the name of a packet or primitive type.
func nameOfType(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func (in *Interp) clientModel(st *State, ci *CallInfo) ([]*State, bool) {
	one := func(v *Term) ([]*State, bool) {
		st.ghost["$ret"] = v
		return []*State{st}, true
	}
	ev := func(s *State, kind, name string, args ...*Term) *Event {
		e := &Event{Kind: kind, Name: name, Args: args, Pos: ci.pos, instr: ci.instr}
		in.event(s, e)
		e.Shared = in.sharedSnapshot(s)
		return e
	}
	errT := types.Universe.Lookup("error").Type()
	name := in.evalName(st, ci.instr)
	// fails makes a call with an error result fork into success and failure
	fails := func(kind, what string, args []*Term, tuple func(s *State, ok bool, err *Term) *Term) ([]*State, bool) {
		return in.fork(st, func(s *State, ok bool) *Term {
			var err *Term
			if ok {
				err = cNil()
			} else {
				err = sym(kind+"Err@"+name, errT)
				s.facts.assume(mkIsNil(err), false)
			}
			ev(s, kind, what, append(append([]*Term{}, args...), err)...)
			return tuple(s, ok, err)
		}), true
	}
	justErr := func(s *State, ok bool, err *Term) *Term { return err }
	tup := func(ts ...*Term) *Term { return mk("tuple", "", 0, nil, ts...) }

	if ci.recv != nil && isConn(ci.recv) && ci.method != nil {
		switch ci.method.Name() {
		case "Write":
			return fails("NetWrite", "", []*Term{in.unwrapBytes(st, ci.args[0])}, func(s *State, ok bool, err *Term) *Term {
				if ok {
					return tup(sym("written@"+name, types.Typ[types.Int]), err)
				}
				n := sym("written@"+name, types.Typ[types.Int])
				s.facts.assume(tLe0(toPoly(n).scale(-1)), true)
				s.facts.assume(tLe0(toPoly(n).minus(toPoly(in.lenOf(s, ci.args[0])))), true)
				s.trace[len(s.trace)-1].Ret = []*Term{n}
				return tup(n, err)
			})
		case "Read":
			return fails("NetRead", "", []*Term{ci.args[0]}, func(s *State, ok bool, err *Term) *Term {
				n := sym("read@"+name, types.Typ[types.Int])
				s.facts.assume(tLe0(toPoly(n).scale(-1)), true)
				s.facts.assume(tLe0(toPoly(n).minus(toPoly(in.lenOf(s, ci.args[0])))), true)
				return tup(n, err)
			})
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			return fails("SetDeadline", ci.method.Name(), ci.args, justErr)
		case "Close":
			return fails("ConnClose", "", nil, justErr)
		}
		in.undecided("call of net.Conn.%s at %s is not modelled", ci.method.Name(), in.posStr(ci.pos))
		return one(in.opaqueResult(st, ci))
	}
	if in.L.storage != nil && ci.itype != nil && ci.recv != nil && typeIs(ci.itype, in.L.storage.Pkg.Path(), "Storage") {
		n, known := st.facts.eval(mkIsNil(ci.recv))
		in.oblig(st, "nilcall", ci.instr, "storage is set when it is used", known && !n)
		st.facts.assume(mkIsNil(ci.recv), false)
		switch ci.method.Name() {
		case "Store":
			val := unwrapIface(ci.args[1])
			snap := in.snapshot(st, val)
			return fails("Store", nameOfType(ifaceType(ci.args[1])), []*Term{ci.args[0], val, snap}, justErr)
		case "Drop":
			return fails("Drop", "", []*Term{ci.args[0]}, justErr)
		case "Get":
			return fails("Get", "", []*Term{ci.args[0]}, func(s *State, ok bool, err *Term) *Term {
				return tup(sym("stored@"+name, ci.typ.(*types.Tuple).At(0).Type()), err)
			})
		}
	}
	if ci.itype != nil && typeIs(ci.itype, "context", "Context") && ci.recv != nil {
		switch ci.method.Name() {
		case "Deadline":
			t := mk("ctxdl", "", 0, nil, ci.recv)
			tt := ci.typ.(*types.Tuple)
			return one(tup(mk("res", "", 0, tt.At(0).Type(), t), mk("res", "", 1, tt.At(1).Type(), t)))
		case "Done":
			return one(mk("ctxdone", "", 0, ci.typ, ci.recv))
		case "Err":
			e := sym("ctxErr@"+name, errT)
			for _, x := range st.trace {
				if (x.Kind == "SelectBlock" || x.Kind == "Select") && x.Name == "recv" && x.Args[0].Op == "ctxdone" || x.Kind == "Recv" && x.Args[0].Op == "ctxdone" {
					st.facts.assume(mkIsNil(e), false)
				}
			}
			return one(e)
		}
	}
	switch ci.name {
	case "bytes.NewBuffer":
		b := mk("newbuf", name, 0, ci.typ)
		st.heap[bufContent(b)] = in.bytesContent(st, ci.args[0])
		return one(b)
	case "(*bytes.Buffer).Bytes":
		return one(mk("bufbytes", "", 0, ci.typ, in.content(st, ci.args[0])))
	case "(*bytes.Buffer).Reset":
		st.heap[bufContent(ci.args[0])] = mk("content", "", 0, nil)
		return one(cNil())
	case "(*bytes.Buffer).Grow":
		return one(cNil())
	case "(*bytes.Buffer).Len":
		n := mk("len", "", 0, types.Typ[types.Int], in.content(st, ci.args[0]))
		if len(in.content(st, ci.args[0]).Args) > 0 {
			st.facts.assume(tEq0(toPoly(n)), false)
		} else {
			n = cInt(0)
		}
		return one(n)
	case "(*bytes.Buffer).WriteTo":
		if isConn(unwrapIface(ci.args[1])) {
			c := in.content(st, ci.args[0])
			return fails("NetWrite", "", []*Term{c}, func(s *State, ok bool, err *Term) *Term {
				s.heap[bufContent(ci.args[0])] = mk("content", "", 0, nil, sym("rest@"+name, nil))
				n := sym("written@"+name, types.Typ[types.Int64])
				if !ok {
					s.facts.assume(tLe0(toPoly(n).scale(-1)), true)
					s.trace[len(s.trace)-1].Ret = []*Term{n}
				}
				return tup(n, err)
			})
		}
	case "time.Now":
		t := sym("now@"+name, ci.typ)
		ev(st, "Now", "", t)
		return one(t)
	case "time.Sleep", "runtime.Gosched":
		return one(cNil())
	}
	if strings.HasPrefix(ci.name, "net.Buffers") {
		in.undecided("call of %s at %s is not modelled", ci.name, in.posStr(ci.pos))
	}
	if n, dec := in.L.ioMethod(ci.fn); n != nil && len(ci.args) == 2 {
		obj := ci.args[0]
		if obj.isNil() {
			in.oblig(st, "nilderef", ci.instr, "receiver is not nil", false)
			return nil, true
		}
		if dec {
			return in.modelDecode(st, ci, n, obj, ci.args[1], name, ev, errT), true
		}
		return in.modelEncode(st, ci, n, obj, ci.args[1], name, ev, errT), true
	}
	if ci.fn == nil || !in.inline(ci.fn) {
		bad := mentionsConn(ci.recv)
		for _, a := range ci.args {
			bad = bad || mentionsConn(a)
		}
		if bad {
			in.undecided("the connection is handed to %s at %s, which is not modelled", ci.name, in.posStr(ci.pos))
		}
	}
	return nil, false
}

func ifaceType(t *Term) types.Type {
	if t.Op == "iface" {
		return t.Typ
	}
	return nil
}

func (in *Interp) bytesContent(st *State, b *Term) *Term {
	if b.Op == "slice" && b.Args[2].isInt() && b.Args[2].Int == 0 || b.isNil() {
		return mk("content", "", 0, nil)
	}
	if b.Op == "bufbytes" {
		return b.Args[0]
	}
	return mk("content", "", 0, nil, mk("rawbytes", "", 0, nil, b))
}

func (in *Interp) unwrapBytes(st *State, b *Term) *Term { return in.bytesContent(st, b) }

// snapshot is the value of the struct that a pointer points to.
func (in *Interp) snapshot(st *State, p *Term) *Term {
	if p == nil || p.Typ == nil {
		return cNil()
	}
	t := p.Typ
	if p.Op != "alloc" {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		} else {
			return p
		}
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return in.peek(st, p)
	}
	return in.snapStruct(st, p, t)
}
func (in *Interp) snapStruct(st *State, a *Term, t types.Type) *Term {
	u := t.Underlying().(*types.Struct)
	var args []*Term
	for i := 0; i < u.NumFields(); i++ {
		fa := mkFA(a, t, i)
		if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && !in.L.atomicStruct(u.Field(i).Type()) {
			args = append(args, in.snapStruct(st, fa, u.Field(i).Type()))
		} else {
			args = append(args, in.peek(st, fa))
		}
	}
	return mkStruct(t, args)
}

func (in *Interp) sharedSnapshot(st *State) map[string]*Term {
	m := map[string]*Term{}
	for a, v := range st.heap {
		if a.Op == "fa" {
			if n, ok := in.shared[a.Args[0]]; ok {
				m[n+"."+a.Str] = v
			}
		}
	}
	return m
}

func (in *Interp) modelEncode(st *State, ci *CallInfo, n *types.Named, obj, w *Term, name string, ev func(*State, string, string, ...*Term) *Event, errT types.Type) []*State {
	wt := unwrapIface(w)
	snap := in.snapPacket(st, obj, n)
	hdr, ht := fieldAddr(obj, n, "Header")
	return in.fork(st, func(s *State, ok bool) *Term {
		err := cNil()
		if !ok {
			err = sym("encodeErr@"+name, errT)
			s.facts.assume(mkIsNil(err), false)
		}
		ev(s, "Encode", n.Obj().Name(), obj, wt, snap, err)
		if hdr != nil {
			in.havocObj(s, hdr, ht, "encoded@"+name, nil, "")
		}
		if isConn(wt) {
			// every primitive is a write of its own
			ev(s, "NetWrite", "direct", mk("content", "direct", 0, nil, mk("partial", n.Obj().Name(), 0, nil, snap)), err)
		} else {
			c := in.content(s, wt)
			items := append([]*Term{}, c.Args...)
			if ok {
				items = append(items, mk("packet", n.Obj().Name(), 0, nil, snap))
			} else {
				items = append(items, mk("partial", n.Obj().Name(), 0, nil, snap))
			}
			s.heap[bufContent(wt)] = mk("content", "", 0, nil, items...)
		}
		return mk("tuple", "", 0, nil, sym("encoded@"+name+"#n", types.Typ[types.Int64]), err)
	})
}

func (in *Interp) snapPacket(st *State, obj *Term, n *types.Named) *Term {
	if _, ok := n.Underlying().(*types.Struct); ok {
		return in.snapStruct(st, obj, n)
	}
	return in.peek(st, obj)
}

func (in *Interp) modelDecode(st *State, ci *CallInfo, n *types.Named, obj, r *Term, name string, ev func(*State, string, string, ...*Term) *Event, errT types.Type) []*State {
	rt := unwrapIface(r)
	if isConn(rt) || mentionsConn(rt) {
		// fine
	}
	typ := n.Obj().Name()
	isPkt := n.Obj().Pkg().Path() == in.L.packets.Pkg.Path() && typ != "FixedHeader"
	keepHdr := isPkt
	hdrByte := (*Term)(nil)
	if isPkt {
		if h, _ := fieldAddr(obj, n, "Header"); h != nil {
			if hb, _ := fieldAddr(h, h.Typ, "Header"); hb != nil {
				hdrByte = in.peek(st, hb)
				if v, k := st.facts.eval(tEq0(toPoly(in.shr(hdrByte, 4, hb.Typ)))); !k || v {
					keepHdr = false
				}
			}
		}
	}
	keep := func(p string) bool {
		return keepHdr && strings.HasSuffix(p, ".Header") && !strings.Contains(strings.TrimSuffix(p, ".Header"), ".Header")
	}
	mkErr := func(s *State) *Term {
		err := sym("decodeErr@"+name, errT)
		s.facts.assume(mkIsNil(err), false)
		return err
	}
	res := func(s *State, err *Term) {
		s.ghost["$ret"] = mk("tuple", "", 0, nil, sym("decoded@"+name+"#n", types.Typ[types.Int64]), err)
	}
	fail := st.clone()
	var out []*State
	qosA, _ := fieldAddr(obj, n, "QoS")
	idA, _ := fieldAddr(obj, n, "PacketIdentifier")
	if isPkt && typ == "Publish" && qosA != nil && idA != nil {
		oldID := in.peek(st, idA)
		for q := int64(0); q <= 2; q++ {
			s := st
			if q < 2 {
				s = st.clone()
			}
			in.havocObj(s, obj, n, "decoded@"+name, keep, "")
			s.heap[qosA] = cInt(q)
			if q == 0 {
				s.heap[idA] = oldID
			} else {
				s.facts.assume(tEq0(toPoly(s.heap[idA])), false)
			}
			ev(s, "Decode", typ, obj, rt, in.snapPacket(s, obj, n), cNil())
			res(s, cNil())
			out = append(out, s)
		}
	} else {
		in.havocObj(st, obj, n, "decoded@"+name, keep, "")
		ev(st, "Decode", typ, obj, rt, in.snapPacket(st, obj, n), cNil())
		res(st, cNil())
		out = append(out, st)
	}
	in.havocObj(fail, obj, n, "undecoded@"+name, keep, "")
	e := mkErr(fail)
	ev(fail, "Decode", typ, obj, rt, in.snapPacket(fail, obj, n), e)
	res(fail, e)
	return append(out, fail)
}

// ---- running the whole client

type Run struct {
	Method   *ssa.Function
	Outcomes []*Outcome
	In       *Interp
	Params   []*Term
}

type Client struct {
	L          *Loaded
	Type       *types.Named
	Recv       *Term
	Runs       []*Run
	Guards     map[string]map[string]bool
	Access     []*Access
	Ctor       map[string]*Term // field -> value in a new client
	expiry     *string
	nilWrites  map[string]bool // parts of the state to which something was written that may be nil
	Fields     []string
	Undec      []string
	Obls       []*Oblig
	LockErr    []string
	Order      map[[2]string]string
	NPaths     int
	NEvents    int
	wellEnding map[*ssa.Function]bool
	Label      string
	Problem    string
}

func shortPos(in *Interp, p token.Pos) string { return in.posStr(p) }

// runClient analyses every exported method of the client type.
func runClient(L *Loaded, only ...string) *Client {
	t, ok := L.namedType(L.client, "Client").(*types.Named)
	if !ok {
		return &Client{L: L, Problem: "type Client not found in package mqtt"}
	}
	return runObject(L, t, "c", true)
}

// runObject analyses every exported method of a type.
func runObject(L *Loaded, t *types.Named, label string, ctor bool) *Client {
	c := &Client{L: L, Guards: map[string]map[string]bool{}, Order: map[[2]string]string{}, Ctor: map[string]*Term{}, Label: label}
	c.Type = t
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		c.Fields = append(c.Fields, st.Field(i).Name())
	}
	c.Recv = sym(label, types.NewPointer(t))
	if ctor {
		c.runCtor()
	}
	if c.Problem != "" {
		return c
	}
	ms := L.exportedMethods(t)
	// first pass: which locks protect what
	acc := map[string]*Access{}
	nilWrites := map[string]bool{} // of the first pass, which assumes that there are none before one is made
	for _, m := range ms {
		in := c.interp(m)
		in.allUnstable = true
		in.model = func(in *Interp, s *State, ci *CallInfo) ([]*State, bool) { return in.clientModel(s, ci) }
		in.noTrace = true
		c.exec(in, m)
		for k, a := range in.accesses {
			acc[k] = a
		}
		for k := range in.nilWrites {
			nilWrites[k] = true
		}
		for _, u := range in.undec {
			c.Undec = append(c.Undec, "first pass: "+u)
		}
	}
	for _, a := range acc {
		if !a.Write {
			continue
		}
		g, ok := c.Guards[a.Region]
		if !ok {
			g = map[string]bool{}
			for l, w := range a.Locks {
				if w {
					g[l] = true
				}
			}
			c.Guards[a.Region] = g
			continue
		}
		for l := range g {
			if w, held := a.Locks[l]; !held || !w {
				delete(g, l)
			}
		}
	}
	c.nilWrites = nilWrites
	// second pass
	accs := map[string]*Access{}
	for _, m := range ms {
		in := c.interp(m)
		in.guards = c.Guards
		in.keepBack = false
		in.model = func(in *Interp, s *State, ci *CallInfo) ([]*State, bool) { return in.clientModel(s, ci) }
		ps := c.exec(in, m)
		live := in.outcomes[:0]
		for _, o := range in.outcomes {
			if !stale(o.State) {
				live = append(live, o)
			}
		}
		in.outcomes = live
		r := &Run{Method: m, Outcomes: in.outcomes, In: in, Params: ps}
		c.Runs = append(c.Runs, r)
		for k, a := range in.accesses {
			accs[k] = a
		}
		c.Undec = append(c.Undec, in.undec...)
		for _, o := range in.obls {
			c.Obls = append(c.Obls, o)
		}
		for _, e := range in.lockErrs {
			c.LockErr = append(c.LockErr, e)
		}
		for k, v := range in.order {
			if _, ok := c.Order[k]; !ok {
				c.Order[k] = v
			}
		}
		for _, o := range in.outcomes {
			if o.Kind == "return" {
				c.NPaths++
			}
			c.NEvents += len(o.State.trace)
		}
	}
	for _, a := range accs {
		c.Access = append(c.Access, a)
	}
	sort.Slice(c.Access, func(i, j int) bool {
		if c.Access[i].Pos != c.Access[j].Pos {
			return c.Access[i].Pos < c.Access[j].Pos
		}
		return c.Access[i].Root < c.Access[j].Root
	})
	sort.Strings(c.LockErr)
	sort.Slice(c.Obls, func(i, j int) bool { return c.Obls[i].Pos < c.Obls[j].Pos })
	return c
}

func (c *Client) interp(m *ssa.Function) *Interp {
	in := newInterp(c.L)
	in.shared[c.Recv] = c.Label
	in.globals = true
	in.readEvents = true
	in.root = m.Name()
	in.assumeInit = func(st *State, a, v *Term) {
		// what the constructor sets and nobody sets to nil
		if a.Op == "fa" && a.Args[0] == c.Recv {
			if cv, ok := c.Ctor[a.Str]; ok && (cv.Op == "makemap" || cv.Op == "makechan") {
				if !c.nilWrites[c.Label+"."+a.Str] {
					st.facts.assume(mkIsNil(v), false)
				}
			}
			if typeIs(v.Typ, "net", "Conn") {
				st.facts.assume(mkIsNil(v), false)
			}
		}
	}
	return in
}

func (c *Client) exec(in *Interp, m *ssa.Function) []*Term {
	var args []*Term
	st0 := in.newState(m, make([]*Term, len(m.Params)))
	for i, p := range m.Params {
		t := c.Recv
		if i > 0 {
			t = sym(p.Name(), p.Type())
		}
		args = append(args, t)
		st0.top().env[p] = t
	}
	st0.facts.assume(mkIsNil(c.Recv), false)
	for i, p := range m.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && i > 0 {
			st0.facts.assume(mkIsNil(args[i]), false)
		}
	}
	in.run(st0)
	return args
}

// runCtor finds the function of the package that makes new clients and what it sets.
func (c *Client) runCtor() {
	var ctors []*ssa.Function
	pkg := c.L.prog.Package(c.Type.Obj().Pkg())
	for _, m := range pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || len(fn.Blocks) == 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() > 0 && types.Identical(rs.At(0).Type(), types.NewPointer(c.Type)) {
			ctors = append(ctors, fn)
		}
	}
	if len(ctors) != 1 {
		c.Problem = fmt.Sprintf("expected one constructor of %s, found %d", c.Type.Obj().Name(), len(ctors))
		return
	}
	in := newInterp(c.L)
	in.root = ctors[0].Name()
	in.model = func(in *Interp, s *State, ci *CallInfo) ([]*State, bool) { return in.clientModel(s, ci) }
	var args []*Term
	for _, p := range ctors[0].Params {
		args = append(args, sym(p.Name(), p.Type()))
	}
	in.run(in.newState(ctors[0], args))
	for _, o := range in.outcomes {
		if o.Kind != "return" || len(o.Ret) == 0 || o.Ret[0].Op != "alloc" {
			c.Problem = "the constructor of " + c.Type.Obj().Name() + " does not return a new object"
			return
		}
		st := c.Type.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isSyncType(st.Field(i).Type()) {
				continue
			}
			v := in.peek(o.State, mkFA(o.Ret[0], c.Type, i))
			if old, ok := c.Ctor[st.Field(i).Name()]; ok && old != v {
				v = sym("varies", st.Field(i).Type())
			}
			c.Ctor[st.Field(i).Name()] = v
		}
	}
	if len(c.Ctor) == 0 {
		c.Problem = "the constructor of " + c.Type.Obj().Name() + " could not be analysed"
	}
}
