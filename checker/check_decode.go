package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// step is one element of the layout of a packet.
type step struct {
	op    string // u8 u16 u32 str varint props tail stop
	field string
	must  bool // tail: at least one byte
}

type propSpec struct {
	id    int64
	kind  string
	field string
}

type decSpec struct {
	typ    string
	code   int64 // packet type, 0 for the fixed header
	flags  int64
	steps  []step
	props  []propSpec
	expect string
}

func parseSteps(s string) []step {
	var out []step
	for _, f := range strings.Fields(s) {
		op, field, _ := strings.Cut(f, ":")
		st := step{op: op, field: field}
		if strings.HasSuffix(op, "+") {
			st.op, st.must = strings.TrimSuffix(op, "+"), true
		}
		out = append(out, st)
	}
	return out
}

func parseProps(s string) []propSpec {
	var out []propSpec
	for _, f := range strings.Fields(s) {
		p := strings.Split(f, ":")
		var id int64
		fmt.Sscanf(p[0], "%x", &id)
		out = append(out, propSpec{id, p[1], p[2]})
	}
	return out
}

const ackProps = "1f:str:ReasonString 26:map:UserProperties"

// decSpecs is the layout of the packets that a server may send (MQTT 5, section 3).
func decSpecs() []decSpec {
	ack := func(t string, code, flags int64) decSpec {
		return decSpec{typ: t, code: code, flags: flags, steps: parseSteps("u16:PacketIdentifier stop u8:ReasonCode stop props"), props: parseProps(ackProps)}
	}
	sub := func(t string, code int64) decSpec {
		return decSpec{typ: t, code: code, steps: parseSteps("u16:PacketIdentifier props tail+:ReasonCodes"), props: parseProps(ackProps)}
	}
	return []decSpec{
		{typ: "FixedHeader", steps: parseSteps("u8:Header varint:Remaining")},
		{typ: "Connack", code: 2, steps: parseSteps("u8:Flags u8:ReasonCode stop props"), props: parseProps("11:u32:SessionExpiryInterval 21:u16:ReceiveMaximum 24:u8:MaximumQoS 25:u8:RetainAvailable 27:u32:MaximumPacketSize 12:str:ClientId 22:u16:TopicAliasMaximum 1f:str:ReasonString 26:map:UserProperties 28:u8:WildcardSubscriptions 29:u8:SubscriptionIdentifiers 2a:u8:SharedSubscriptions 13:u16:ServerKeepAlive 1a:str:ResponseInformation 1c:str:ServerReference 15:str:AuthenticationMethod 16:str:AuthenticationData")},
		{typ: "Publish", code: 3, steps: parseSteps("str:Topic pid:PacketIdentifier props tail:Payload"), props: parseProps("01:u8:PayloadFormatIndicator 02:u32:MessageExpiryInterval 23:u16:TopicAlias 08:str:ResponseTopic 09:str:CorrelationData 26:map:UserProperties 0b:varint:SubscriptionIdentifier 03:str:ContentType")},
		ack("Puback", 4, 0), ack("Pubrec", 5, 0), ack("Pubrel", 6, 2), ack("Pubcomp", 7, 0),
		sub("Suback", 9), sub("Unsuback", 11),
		{typ: "Disconnect", code: 14, steps: parseSteps("stop u8:ReasonCode stop props"), props: parseProps("11:u32:SessionExpiryInterval 1f:str:ReasonString 26:map:UserProperties 1c:str:ServerReference")},
		{typ: "Auth", code: 15, steps: parseSteps("stop u8:AuthenticateReasonCode stop props"), props: parseProps("15:str:AuthenticationMethod 16:str:AuthenticationData " + ackProps)},
	}
}

// decRun is one analysis of a decoder; a PUBLISH is analysed for each first byte.
type decRun struct {
	*packetRun
	spec  decSpec
	qos   int64
	flag  int64
	stops map[int]bool // steps at which a packet may end that some path accepts
}

func runDecoders(r *Report, L *Loaded) []*decRun {
	var out []*decRun
	for _, s := range decSpecs() {
		if !looksAt(s.typ) {
			continue
		}
		hdr := []*Term{nil}
		if s.code > 0 {
			hdr = []*Term{cInt(s.code<<4 | s.flags)}
		}
		if s.typ == "Publish" {
			hdr = nil
			for f := int64(0); f < 16; f++ {
				hdr = append(hdr, cInt(s.code<<4|f))
			}
		}
		for f, h := range hdr {
			pr := runDecoder(L, s.typ, h)
			if pr == nil {
				r.violate("missing:"+s.typ, token.NoPos, "the packets package has no decoder for %s", s.typ)
				break
			}
			d := &decRun{packetRun: pr, spec: s, flag: int64(f)}
			if s.typ == "Publish" {
				d.qos = int64(f) >> 1 & 3
			}
			r.count("decoder analyses", 1)
			for _, u := range pr.In.undec {
				r.violate("undecided:"+s.typ, pr.Fn.Pos(), "%s.ReadFrom cannot be decided: %s", s.typ, u)
			}
			out = append(out, d)
		}
	}
	return out
}

// item is a unit of the stream as a decoder sees it.
type item struct {
	kind string // byte, blob, varint, loop
	d    *Term
	i    int64
	ev   *Event
	pos  *Poly // position behind it
}

func readsIn(rec *loopRec) bool {
	for _, b := range rec.bodies {
		for _, e := range b {
			if e.Kind == "Read" || e.Kind == "ReadFail" || e.Loop != nil && readsIn(e.Loop) {
				return true
			}
		}
	}
	return false
}

func items(evs []*Event) []item {
	var out []item
	for _, e := range evs {
		switch e.Kind {
		case "Loop":
			if readsIn(e.Loop) {
				out = append(out, item{kind: "loop", ev: e})
			}
		case "Read":
			d, before := e.Args[0], toPoly(e.Args[1])
			switch {
			case d.Op != "data":
				out = append(out, item{kind: "varint", d: d, ev: e, pos: before.plus(pAtom(mk("vlen", "", 0, i64Type(), d)))})
			case d.Args[0].isInt() && d.Args[0].Int <= 64:
				for i := int64(0); i < d.Args[0].Int; i++ {
					out = append(out, item{kind: "byte", d: d, i: i, ev: e, pos: before.plus(pConst(i + 1))})
				}
			default:
				out = append(out, item{kind: "blob", d: d, ev: e, pos: before.plus(toPoly(d.Args[0]))})
			}
		}
	}
	return out
}

// number is the big-endian number in the next k bytes.
func number(its []item, k int) (*Term, bool) {
	if len(its) < k {
		return nil, false
	}
	same := true
	p := newPoly()
	for i := 0; i < k; i++ {
		if its[i].kind != "byte" {
			return nil, false
		}
		p = p.scale(256).plus(toPoly(bigEndian(its[i].d, its[i].i, 8)))
		same = same && its[i].d == its[0].d && its[i].i == its[0].i+int64(i)
	}
	if same {
		return bigEndian(its[0].d, its[0].i, 8*k), true
	}
	return polyTerm(p, types.Typ[types.Uint32]), true
}

// blobValue tells whether a value is the content of a block that was read.
func blobValue(st *State, v, d *Term) bool {
	if v == nil {
		return false
	}
	if v.Op == "string" || v.Op == "bytes" {
		v = v.Args[0]
	}
	if v == d {
		return true
	}
	return v.Op == "slice" && st != nil && st.heap[bufCell(v.Args[0])] == d && v.Args[1].isInt() && v.Args[1].Int == 0 && toPoly(v.Args[2]).eq(toPoly(d.Args[0]))
}

func isEmptyValue(f *Facts, v *Term) bool {
	return v != nil && (v.Op == "str" && v.Str == "" || v.isNil() || v.Op == "slice" && f.proveLe(toPoly(v.Args[2])) || (v.Op == "string") && v.Args[0].Op == "data" && f.proveLe(toPoly(v.Args[0].Args[0])))
}

// field matches one field of the given wire type. value is where it must have gone.
func matchField(f *Facts, st *State, kind string, its []item, value *Term) (rest []item, problem string) {
	width := map[string]int{"u8": 1, "u16": 2, "u32": 4}
	switch kind {
	case "u8", "u16", "u32":
		v, ok := number(its, width[kind])
		if !ok {
			return its, fmt.Sprintf("does not read %d bytes", width[kind])
		}
		if value != nil && !sameValue(value, v) {
			return its, "does not hold the number that was read"
		}
		return its[width[kind]:], ""
	case "varint":
		if len(its) == 0 || its[0].kind != "varint" {
			return its, "does not read a variable byte integer"
		}
		if value != nil && value != its[0].d {
			return its, "does not hold the variable byte integer that was read"
		}
		return its[1:], ""
	case "str":
		n, ok := number(its, 2)
		if !ok {
			return its, "does not read a 16-bit length"
		}
		its = its[2:]
		if len(its) > 0 && its[0].kind == "blob" && sameValue(its[0].d.Args[0], n) {
			if value != nil && !blobValue(st, value, its[0].d) && !(f.proveLe(toPoly(n)) && isEmptyValue(f, value)) {
				return its, "does not hold the bytes that were read"
			}
			return its[1:], ""
		}
		if f.proveLe(toPoly(n)) {
			if value != nil && !isEmptyValue(f, value) {
				return its, "is not empty for the length 0"
			}
			return its, ""
		}
		return its, "does not read as many bytes as the length in front of them says"
	}
	return its, "has an unknown wire type"
}

func (d *decRun) final(o *Outcome, name string) *Term {
	a, _ := fieldAddr(d.Obj, d.Typ, name)
	if a == nil {
		return nil
	}
	return d.In.peek(o.State, a)
}

func fieldCell(d *decRun, name string) *Term {
	a, _ := fieldAddr(d.Obj, d.Typ, name)
	return a
}

// layout matches what a path that succeeds read against the layout of the packet.
func (d *decRun) layout(o *Outcome) (problem string, loops []propLoop) {
	its := items(o.State.trace)
	f := o.State.facts
	for i, s := range d.spec.steps {
		if s.op == "pid" && d.qos == 0 {
			continue
		}
		if s.op == "stop" {
			if len(its) == 0 {
				if d.stops == nil {
					d.stops = map[int]bool{}
				}
				d.stops[i] = true
				return "", loops
			}
			continue
		}
		switch s.op {
		case "props":
			if len(its) == 0 || its[0].kind != "varint" {
				return "the property length is not read as a variable byte integer", loops
			}
			p := its[0]
			its = its[1:]
			if len(its) > 0 && its[0].kind == "loop" {
				loops = append(loops, propLoop{its[0].ev.Loop, p})
				its = its[1:]
			} else if !f.proveLe(toPoly(p.d)) {
				return "the properties are not read", loops
			}
		case "tail":
			v := d.final(o, s.field)
			if len(its) > 0 && its[0].kind != "loop" {
				it := its[0]
				whole := it.kind == "blob" || it.kind == "byte" && it.d.Args[0].isInt()
				if !whole || !blobValue(o.State, v, it.d) {
					return s.field + " does not hold the rest of the packet", loops
				}
				if it.kind == "byte" {
					its = its[it.d.Args[0].Int:]
				} else {
					its = its[1:]
				}
			}
		default:
			v := d.final(o, s.field)
			if v == nil {
				return "there is no field " + s.field, loops
			}
			kind := s.op
			if kind == "pid" {
				kind = "u16"
			}
			rest, bad := matchField(f, o.State, kind, its, v)
			if bad != "" {
				return s.field + " " + bad, loops
			}
			its = rest
		}
	}
	if len(its) > 0 {
		return "more is read than the packet has", loops
	}
	return "", loops
}

type propLoop struct {
	rec *loopRec
	p   item // the property length
}

// retErr is the error that a path returns: 0 none, 1 one, 2 either.
func retErr(o *Outcome) int {
	if len(o.Ret) == 0 {
		return 2
	}
	e := o.Ret[len(o.Ret)-1]
	v, k := o.State.facts.eval(mkIsNil(e))
	switch {
	case !k:
		return 2
	case v:
		return 0
	}
	return 1
}

func hasKind(tr []*Event, kind string) *Event {
	for _, e := range tr {
		if e.Kind == kind {
			return e
		}
	}
	return nil
}

// iteration is what one round of a property loop decodes.
func (d *decRun) iteration(r *Report, loop propLoop, bi *bodyInfo, seen map[int64]bool) {
	its := items(bi.body)
	name := d.spec.typ
	if hasKind(bi.body, "ReadFail") != nil {
		return // C05
	}
	if len(its) == 0 || its[0].kind != "byte" {
		r.violate("no-identifier:"+name, loop.p.ev.Pos, "%s: an iteration over the properties does not begin with an identifier byte", name)
		return
	}
	id := bigEndian(its[0].d, its[0].i, 8)
	iv := bi.facts.ivOf(id)
	where := its[0].ev.Pos
	if len(its) > 1 {
		where = its[1].ev.Pos
	}
	if iv.lo != iv.hi {
		r.violate("any-identifier:"+name, where, "%s: properties with identifiers from 0x%02X to 0x%02X are decoded alike, or skipped, instead of one at a time", name, iv.lo, iv.hi)
		return
	}
	var ps *propSpec
	for i := range d.spec.props {
		if d.spec.props[i].id == iv.lo {
			ps = &d.spec.props[i]
		}
	}
	if ps == nil {
		r.violate(fmt.Sprintf("not-allowed:%s:%02x", name, iv.lo), where, "%s: accepts the property 0x%02X, which MQTT 5 does not allow in this packet", name, iv.lo)
		return
	}
	seen[ps.id] = true
	r.count("property iterations", 1)
	its = its[1:]
	// what the iteration changes of the packet
	changed := map[*Term]*Term{}
	for s, v := range bi.phi {
		a := bi.cells[s]
		if a == nil || addrRoot(a) != d.Obj || v == bi.begin[s] {
			continue
		}
		changed[a] = v
	}
	cell := fieldCell(d, ps.field)
	if cell == nil {
		r.violate("no-field:"+name+"."+ps.field, where, "%s has no field %s for the property 0x%02X", name, ps.field, ps.id)
		return
	}
	var others []string
	for a := range changed {
		if a != cell {
			others = append(others, a.String())
		}
	}
	sort.Strings(others)
	if len(others) > 0 {
		r.violate(fmt.Sprintf("wrong-field:%s:%02x", name, ps.id), where, "%s: the property 0x%02X changes %s, it belongs to %s only", name, ps.id, strings.Join(others, ", "), ps.field)
		return
	}
	if ps.kind == "map" {
		var sets []*Event
		for _, e := range bi.body {
			if e.Kind == "MapSet" && sameMapType(e.Args[0], cell) {
				sets = append(sets, e)
			}
		}
		if len(sets) != 1 {
			r.violate("user-property:"+name, where, "%s: a user property is not stored exactly once", name)
			return
		}
		m := changed[cell]
		if m == nil {
			m = d.In.peek(d.Init, cell)
			for s, a := range bi.cells {
				if a == cell {
					m = bi.phi[s]
				}
			}
		}
		bad := ""
		if sets[0].Args[0] != m {
			bad = "is not stored in " + ps.field
		} else {
			var rest []item
			if rest, bad = matchField(bi.facts, nil, "str", its, sets[0].Args[1]); bad == "" {
				if rest, bad = matchField(bi.facts, nil, "str", rest, sets[0].Args[2]); bad == "" && len(rest) > 0 {
					bad = "reads more than its name and value"
				}
			}
		}
		if bad != "" {
			r.violate("user-property:"+name, where, "%s: a user property %s", name, bad)
		}
		return
	}
	v := changed[cell]
	if v == nil {
		r.violate(fmt.Sprintf("not-stored:%s:%02x", name, ps.id), where, "%s: the property 0x%02X is not stored in %s", name, ps.id, ps.field)
		return
	}
	rest, bad := matchField(bi.facts, nil, ps.kind, its, v)
	if bad == "" && len(rest) > 0 {
		bad = "reads more than its value"
	}
	if bad != "" {
		r.violate(fmt.Sprintf("wire-type:%s:%02x", name, ps.id), where, "%s: %s, property 0x%02X of type %s, %s", name, ps.field, ps.id, ps.kind, bad)
	}
}

// sameMapType is false for a map that cannot be the one in a cell.
func sameMapType(m, cell *Term) bool {
	if m.Typ == nil || cell.Typ == nil {
		return true
	}
	a, ok := m.Typ.Underlying().(*types.Map)
	b, ok2 := cell.Typ.Underlying().(*types.Map)
	return !ok || !ok2 || types.Identical(a.Key().Underlying(), b.Key().Underlying())
}

// forbidden tells whether the facts say that a property has a value that MQTT 5 forbids.
func forbidden(f *Facts, id int64, its []item) bool {
	switch id {
	case 0x21, 0x23:
		if v, ok := number(its, 2); ok {
			iv := f.ivOf(v)
			return iv.lo == 0 && iv.hi == 0
		}
	case 0x27:
		if v, ok := number(its, 4); ok {
			iv := f.ivOf(v)
			return iv.lo == 0 && iv.hi == 0
		}
	case 0x0b:
		if len(its) > 0 && its[0].kind == "varint" {
			return f.ivOf(its[0].d).hi == 0
		}
	case 0x01, 0x24, 0x25, 0x28, 0x29, 0x2a:
		if v, ok := number(its, 1); ok {
			return f.ivOf(v).lo > 1
		}
	}
	return false
}

// refused tells whether a path on which no read failed has a reason to refuse the packet.
func (d *decRun) refused(o *Outcome) (bool, string) {
	f := o.State.facts
	R := d.remaining()
	cur := toPoly(o.State.heap[d.Pos])
	if d.spec.typ == "Publish" && d.qos == 3 {
		return true, ""
	}
	its := items(o.State.trace)
	for _, e := range o.State.trace {
		if e.Kind == "ReadPart" && !f.proveLe(toPoly(e.Args[2])) {
			return true, "" // the stream may have ended
		}
	}
	if R == nil {
		return false, "of no kind that MQTT 5 knows"
	}
	less := func(a, b *Poly) bool { return f.proveLe(a.minus(b).plus(pConst(1))) }
	if less(R, cur) {
		return true, ""
	}
	for i, s := range d.spec.steps {
		switch s.op {
		case "stop":
			continue
		case "pid":
			if d.qos == 0 {
				continue
			}
			if v, ok := number(its, 2); ok {
				if iv := f.ivOf(v); iv.hi == 0 {
					return true, ""
				}
				if v, k := f.eval(tEq0(toPoly(v))); k && v {
					return true, ""
				}
			}
		}
		if len(its) == 0 {
			// the packet ends too early
			if !less(cur, R) && f.proveLe(R.minus(cur)) {
				switch s.op {
				case "tail":
					return s.must, "although it is complete"
				}
				for _, t := range d.spec.steps[:i] {
					_ = t
				}
				if i > 0 && d.spec.steps[i-1].op == "stop" {
					return false, "although it may end here"
				}
				return true, ""
			}
			if s.op == "tail" && !s.must {
				return false, "although nothing is wrong with it"
			}
			// not enough room for the next field
			need := map[string]int64{"u8": 1, "u16": 2, "u32": 4, "str": 2, "pid": 2, "props": 1, "varint": 1, "tail": 1}[s.op]
			if less(R, cur.plus(pConst(need))) {
				if i > 0 && d.spec.steps[i-1].op == "stop" && !less(cur, R) {
					return false, "although it may end here"
				}
				return true, ""
			}
			return false, "before it is read to its end"
		}
		switch s.op {
		case "props":
			if its[0].kind != "varint" {
				return true, "" // reported by the layout
			}
			p := its[0]
			end := p.pos.plus(toPoly(p.d))
			must := int64(0)
			if n := len(d.spec.steps); d.spec.steps[n-1].must {
				must = 1
			}
			if less(R, end.plus(pConst(must))) || less(end, cur) {
				return true, ""
			}
			its = its[1:]
			if len(its) > 0 && its[0].kind == "loop" {
				its = its[1:]
			}
			if len(its) > 0 && its[0].kind == "byte" && !f.proveLe(end.minus(toPoly(its[0].ev.Args[1]))) {
				// within an iteration
				iv := f.ivOf(bigEndian(its[0].d, its[0].i, 8))
				if iv.lo == iv.hi {
					for _, ps := range d.spec.props {
						if ps.id == iv.lo {
							if forbidden(f, ps.id, its[1:]) {
								return true, ""
							}
							return false, fmt.Sprintf("because of the property 0x%02X, which MQTT 5 allows", ps.id)
						}
					}
				} else {
					for _, ps := range d.spec.props {
						if in := f.allowed(bigEndian(its[0].d, its[0].i, 8), ps.id); in {
							return false, fmt.Sprintf("because of a property identifier that may be 0x%02X, which MQTT 5 allows", ps.id)
						}
					}
				}
				return true, ""
			}
			continue
		case "tail":
			its = nil
			continue
		}
		kind := s.op
		if kind == "pid" {
			kind = "u16"
		}
		rest, bad := matchField(f, nil, kind, its, nil)
		if bad != "" {
			return true, "" // in the middle of a field; reported by the layout if the field is wrong
		}
		its = rest
	}
	if d.spec.steps[len(d.spec.steps)-1].op != "tail" && less(cur, R) {
		return true, ""
	}
	return false, "although nothing is wrong with it"
}

// allowed tells whether the facts leave the value n to x.
func (f *Facts) allowed(x *Term, n int64) bool {
	iv := f.ivOf(x)
	if n < iv.lo || n > iv.hi {
		return false
	}
	v, k := f.eval(tEq0(toPoly(x).minus(pConst(n))))
	return !k || v
}

func checkC03(r *Report, L *Loaded) {
	r.Rule = "on every path through a decoder that ends without an error, the bytes read are the fields of the packet in the order and with the wire types of MQTT 5 and end up in their fields; each round of a property loop decodes one identifier that MQTT 5 allows in the packet into its field, all of these identifiers have such a round, and no path refuses a packet without a reason"
	r.Assume = append(r.Assume, "the decoder is given the first byte and the remaining length of the packet, with the type of the packet; a PUBLISH is analysed for each of the 16 possible flags", "variable byte integers are decoded as C08 says")
	runs := runDecoders(r, L)
	for _, d := range runs {
		name := d.spec.typ
		ok := 0
		seen := map[int64]bool{}
		done := map[*loopRec]bool{}
		for _, o := range d.In.outcomes {
			if o.Kind != "return" {
				continue
			}
			r.count("decoder paths", 1)
			if retErr(o) == 1 {
				if hasKind(o.State.trace, "ReadFail") == nil && name != "FixedHeader" {
					if fine, why := d.refused(o); !fine {
						r.violate("refuses:"+name, o.Pos, "%s refuses a packet %s", name, why)
					}
				}
				continue
			}
			if hasKind(o.State.trace, "ReadFail") != nil {
				continue // C05
			}
			ok++
			bad, loops := d.layout(o)
			if bad != "" {
				r.violate("layout:"+name+":"+strings.Fields(bad)[0], o.Pos, "%s: %s", name, bad)
			}
			for _, l := range loops {
				if done[l.rec] {
					continue
				}
				done[l.rec] = true
				for _, bi := range l.rec.infos {
					d.iteration(r, l, bi, seen)
				}
			}
			if name == "Publish" {
				if d.qos == 3 {
					r.violate("qos3", o.Pos, "a PUBLISH with QoS 3 is accepted")
				}
				if d.qos > 0 {
					v := d.final(o, "PacketIdentifier")
					if z, k := o.State.facts.eval(tEq0(toPoly(v))); !k || z {
						r.violate("pid0", o.Pos, "a PUBLISH with QoS %d and packet identifier 0 is accepted", d.qos)
					}
				}
			}
		}
		if name == "Publish" && d.qos == 3 {
			continue
		}
		if ok == 0 {
			r.violate("never:"+name, d.Fn.Pos(), "%s.ReadFrom never succeeds", name)
			continue
		}
		for i, s := range d.spec.steps {
			if s.op == "stop" && !d.stops[i] {
				r.violate(fmt.Sprintf("no-stop:%s:%d", name, i), d.Fn.Pos(), "%s does not accept a packet that ends before its %s, which MQTT 5 allows", name, d.spec.steps[i+1].op+" "+d.spec.steps[i+1].field)
			}
		}
		for _, ps := range d.spec.props {
			if !seen[ps.id] {
				r.violate(fmt.Sprintf("missing:%s:%02x", name, ps.id), d.Fn.Pos(), "%s does not decode the property 0x%02X (%s)", name, ps.id, ps.field)
			}
		}
		r.count("properties decoded", len(seen))
		r.sample(fmt.Sprintf("%s: %d paths succeed, %d property identifiers", name, ok, len(seen)))
	}
	r.floor("properties decoded", 50)
	r.floor("decoder paths", 100)
}

func checkC04(r *Report, L *Loaded) {
	r.Rule = "on every path through a decoder that ends without an error, the number of bytes consumed is the remaining length of the packet, and the properties end where the property length says; no read can go beyond the remaining length"
	r.Assume = append(r.Assume, "the decoder is given the first byte and the remaining length of the packet; io.LimitedReader delivers at most N bytes", "variable byte integers are decoded as C08 says")
	for _, d := range runDecoders(r, L) {
		name := d.spec.typ
		R := d.remaining()
		fixed := name == "FixedHeader"
		checkRead := func(e *Event, f *Facts) {
			if fixed || e.Kind != "Read" && e.Kind != "ReadFail" {
				return
			}
			r.count("reads", 1)
			for _, g := range e.Args[2:] {
				if f.proveLe(toPoly(g).minus(R)) {
					return
				}
			}
			r.violate("past-end:"+name, e.Pos, "%s may read beyond the end of the packet", name)
		}
		var walk func(tr []*Event, seen map[*loopRec]bool)
		walk = func(tr []*Event, seen map[*loopRec]bool) {
			for _, e := range tr {
				if e.Loop != nil {
					if seen[e.Loop] {
						continue
					}
					seen[e.Loop] = true
					for _, b := range e.Loop.bodies {
						walk(b, seen)
					}
					continue
				}
				checkRead(e, e.Facts)
			}
		}
		seen := map[*loopRec]bool{}
		for _, o := range d.In.outcomes {
			if o.Kind != "return" {
				continue
			}
			r.count("decoder paths", 1)
			walk(o.State.trace, seen)
			if retErr(o) == 1 || hasKind(o.State.trace, "ReadFail") != nil {
				continue
			}
			f := o.State.facts
			cur := toPoly(o.State.heap[d.Pos])
			same := func(a, b *Poly) bool { return f.proveLe(a.minus(b)) && f.proveLe(b.minus(a)) }
			if fixed {
				continue
			}
			r.count("successful paths", 1)
			if !same(cur, R) {
				r.violate("short:"+name, o.Pos, "%s succeeds although it may not have consumed exactly the remaining length of the packet", name)
			}
			_, loops := d.layout(o)
			for _, l := range loops {
				c := l.rec.mod[d.Pos]
				if c == nil || !same(toPoly(c), l.p.pos.plus(toPoly(l.p.d))) {
					r.violate("property-length:"+name, o.Pos, "%s succeeds although its properties may not end where the property length says", name)
				}
			}
		}
	}
	r.floor("successful paths", 30)
	r.floor("reads", 100)
}

func checkC05(r *Report, L *Loaded) {
	r.Rule = "no path through a decoder, and no round of a loop that goes on, passes over a read that failed; a path that ends without an error has read every buffer to its end"
	r.Assume = append(r.Assume, "the variable byte integer decoder is analysed in the same way, with its own loop")
	readErrors(r, L)
	r.floor("decoder paths", 100)
	r.floor("loop rounds", 30)
}

// readErrors checks that no failed read is passed over.
func readErrors(r *Report, L *Loaded) {
	runs := runDecoders(r, L)
	if v := runVarint(L, "ReadFrom"); v != nil {
		runs = append(runs, &decRun{packetRun: v, spec: decSpec{typ: "VariableByteInt"}})
	}
	for _, p := range []string{"PrimitiveByte", "PrimitiveUint16", "PrimitiveUint32", "PrimitiveString"} {
		if v := runPrimitive(L, p, "ReadFrom"); v != nil {
			runs = append(runs, &decRun{packetRun: v, spec: decSpec{typ: p}})
		}
	}
	for _, d := range runs {
		name := d.spec.typ
		var body func(e *Event)
		seen := map[*loopRec]bool{}
		body = func(e *Event) {
			if e.Loop == nil || seen[e.Loop] {
				return
			}
			seen[e.Loop] = true
			for _, b := range e.Loop.bodies {
				r.count("loop rounds", 1)
				if x := hasKind(b, "ReadFail"); x != nil {
					r.violate("goes-on:"+name, x.Pos, "%s goes on after a read that failed", name)
				}
				if x := hasKind(b, "ReadPart"); x != nil && !x.Facts.proveLe(toPoly(x.Args[2])) {
					r.violate("part:"+name, x.Pos, "%s goes on after a read that may have delivered only a part", name)
				}
				for _, x := range b {
					body(x)
				}
			}
		}
		for _, o := range d.In.outcomes {
			if o.Kind != "return" {
				continue
			}
			r.count("decoder paths", 1)
			for _, e := range o.State.trace {
				body(e)
			}
			if retErr(o) == 1 {
				continue
			}
			if x := hasKind(o.State.trace, "ReadFail"); x != nil {
				r.violate("ignored:"+name, x.Pos, "%s may return without an error although this read failed", name)
			}
			for _, e := range o.State.trace {
				if e.Kind == "ReadPart" {
					r.count("partial reads", 1)
					if !o.State.facts.proveLe(toPoly(e.Args[2])) {
						r.violate("part:"+name, e.Pos, "%s may return without an error although this read delivered only a part", name)
					}
				}
			}
		}
		if len(d.In.outcomes) == 0 {
			r.violate("lost:"+name, d.Fn.Pos(), "no path through the decoder of %s was found", name)
		}
	}
}

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C05"] = checkC05
}
