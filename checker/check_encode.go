package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// encSpec is the layout of a packet that the client may send (MQTT 5, section 3).
type encSpec struct {
	typ    string
	code   int64
	flags  int64
	steps  []step
	props  []propSpec
	will   []propSpec
	groups [][]string // fields whose combinations are covered separately in the quick tier
}

func encSpecs() []encSpec {
	ack := func(t string, code, flags int64) encSpec {
		return encSpec{typ: t, code: code, flags: flags, steps: parseSteps("u16:PacketIdentifier rc:ReasonCode"), props: parseProps(ackProps)}
	}
	return []encSpec{
		{typ: "Connect", code: 1, steps: parseSteps("name u8:Version cflags u16:KeepAlive props str:ClientId will user"),
			props: parseProps("11:u32:SessionExpiryInterval 21:u16:ReceiveMaximum 27:u32:MaximumPacketSize 22:u16:TopicAliasMaximum 19:u8:RequestResponseInformation 17:u8:RequestProblemInformation 26:map:UserProperties 15:str:AuthenticationMethod 16:str:AuthenticationData"),
			will:  parseProps("18:u32:WillDelayInterval 02:u32:WillMessageExpiryInterval 03:str:WillContentType 08:str:WillResponseTopic 09:str:WillCorrelationData 26:map:WillUserProperties")},
		{typ: "Publish", code: 3, steps: parseSteps("str:Topic pid:PacketIdentifier props blob:Payload"),
			props: parseProps("01:u8:PayloadFormatIndicator 02:u32:MessageExpiryInterval 23:u16:TopicAlias 08:str:ResponseTopic 09:str:CorrelationData 26:map:UserProperties 0b:vi:SubscriptionIdentifier 03:str:ContentType")},
		ack("Puback", 4, 0), ack("Pubrec", 5, 0), ack("Pubrel", 6, 2), ack("Pubcomp", 7, 0),
		{typ: "Subscribe", code: 8, flags: 2, steps: parseSteps("u16:PacketIdentifier props topics:options"), props: parseProps("0b:vi:SubscriptionIdentifier 26:map:UserProperties")},
		{typ: "Unsubscribe", code: 10, flags: 2, steps: parseSteps("u16:PacketIdentifier props topics"), props: parseProps("26:map:UserProperties")},
		{typ: "Disconnect", code: 14, steps: parseSteps("rc:ReasonCode"), props: parseProps("11:u32:SessionExpiryInterval 1f:str:ReasonString 26:map:UserProperties 1c:str:ServerReference")},
		{typ: "Auth", code: 15, steps: parseSteps("rc:AuthenticateReasonCode"), props: parseProps("15:str:AuthenticationMethod 16:str:AuthenticationData " + ackProps)},
		{typ: "FixedHeader"},
	}
}

// ---- what a path wrote against the layout

// parse matches what was written.
type parse struct {
	p    *encPath
	s    *encSpec
	rest []encItem
	bad  string
	f    *Facts // the facts of the path and what is assumed about the fields it did not look at
	sets map[string]bool
}

func (x *parse) fail(format string, a ...any) bool {
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, a...)
	}
	return false
}

// same tells whether a value is what a field holds on this path.
func (x *parse) same(a, b *Term) bool {
	a, b = x.p.rw.term(a), x.p.rw.term(b)
	return a == b || sameValue(a, b)
}

func (x *parse) bytes(its []encItem) []*Term {
	var out []*Term
	for _, it := range its {
		if it.t == nil || it.t.Op != "b" {
			return nil
		}
		out = append(out, it.t)
	}
	return out
}

// number takes a number of k bytes.
func (x *parse) number(k int, v *Term, what string) bool {
	if len(x.rest) < k {
		return x.fail("%s is not written", what)
	}
	bs := x.bytes(x.rest[:k])
	if bs == nil {
		return x.fail("%s is not written as %d bytes", what, k)
	}
	v = x.p.rw.term(v)
	if !emitsNumber(bs, v) {
		return x.fail("%s is not written where it belongs: %s instead", what, show(x.rest[:k]))
	}
	x.rest = x.rest[k:]
	return true
}

func show(its []encItem) string {
	var out []string
	for i, it := range its {
		if i == 4 {
			out = append(out, "...")
			break
		}
		s := it.String()
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

// str takes a string with its length in front.
func (x *parse) str(v *Term, what string) bool {
	n := x.p.pr.In.lenOf(nil, x.p.rw.term(v))
	if !x.number(2, n, "the length of "+what) {
		return false
	}
	return x.blob(v, what)
}

func (x *parse) blob(v *Term, what string) bool {
	v = x.p.rw.term(v)
	n := x.p.rw.term(x.p.pr.In.lenOf(nil, v))
	if len(x.rest) > 0 && x.rest[0].t != nil && x.rest[0].t.Op == "blob" && x.rest[0].t.Args[0] == v {
		x.rest = x.rest[1:]
		return true
	}
	if n.isInt() && n.Int == 0 {
		return true
	}
	if v.Op == "str" && len(x.rest) >= len(v.Str) {
		for i := range v.Str {
			if t := x.rest[i].t; t == nil || t != itemByte(cInt(int64(v.Str[i]))) {
				return x.fail("%s is not written behind its length", what)
			}
		}
		x.rest = x.rest[len(v.Str):]
		return true
	}
	return x.fail("%s is not written where it belongs: %s instead", what, show(x.rest[:min(1, len(x.rest))]))
}

// isSet tells whether a field is set on this path.
func (x *parse) isSet(name string) bool {
	if v, ok := x.sets[name]; ok {
		return v
	}
	c := x.p.pr.isSet(name)
	if c == nil {
		x.fail("there is no field %s", name)
		return false
	}
	v, k := x.f.eval(c)
	x.sets[name] = k && v
	return k && v
}

// value takes a value of the given wire type.
func (x *parse) value(kind string, v *Term, what string) bool {
	switch kind {
	case "u8":
		return x.number(1, v, what)
	case "u16":
		return x.number(2, v, what)
	case "u32":
		return x.number(4, v, what)
	case "str":
		return x.str(v, what)
	case "vi":
		if len(x.rest) == 0 || x.rest[0].t == nil || x.rest[0].t.Op != "vi" || !x.same(x.rest[0].t.Args[0], v) {
			return x.fail("%s is not written as a variable byte integer: %s instead", what, show(x.rest[:min(1, len(x.rest))]))
		}
		x.rest = x.rest[1:]
		return true
	}
	return x.fail("%s has an unknown wire type", what)
}

// props takes the properties, without their length.
func (x *parse) props(specs []propSpec) bool {
	missing := map[string]propSpec{}
	written := map[string]bool{}
	for _, s := range specs {
		if x.isSet(s.field) {
			missing[s.field] = s
		}
	}
	optional := map[string]propSpec{}
	var data propSpec
	for _, s := range specs {
		// authentication data goes with its method
		if s.field == "AuthenticationData" {
			data = s
			if !x.isSet("AuthenticationMethod") {
				delete(missing, s.field)
			} else if !x.isSet(s.field) {
				optional[s.field] = s
			}
		}
	}
	_ = data
	if strings.HasPrefix(specs[0].field, "Will") {
		optional["$payloadFormat"] = propSpec{id: 1, kind: "u8"}
	}
	for len(x.rest) > 0 {
		it := x.rest[0]
		if it.t == nil {
			// a loop over user properties
			var found *propSpec
			for _, s := range specs {
				if s.kind == "map" && it.over == x.p.rw.term(x.p.pr.field(s.field)) && !written[s.field] {
					s := s
					found = &s
				}
			}
			if found == nil {
				break
			}
			written[found.field] = true
			m := it.over
			b := &parse{p: x.p, s: x.s, rest: it.body, f: x.f, sets: x.sets}
			ok := b.number(1, cInt(found.id), "the identifier of a user property") &&
				b.str(mk("key", "", 0, nil, m), "the name of a user property") &&
				b.str(mk("val", "", 0, nil, m), "the value of a user property")
			if !ok {
				return x.fail("%s: %s", found.field, b.bad)
			}
			if len(b.rest) > 0 {
				return x.fail("%s: more is written than name and value", found.field)
			}
			delete(missing, found.field)
			x.rest = x.rest[1:]
			continue
		}
		if it.t.Op != "b" || !it.t.Args[0].isInt() {
			break
		}
		id := it.t.Args[0].Int
		var hit *propSpec
		for _, set := range []map[string]propSpec{missing, optional} {
			for _, s := range set {
				if s.id == id && s.kind != "map" && hit == nil {
					s := s
					hit = &s
				}
			}
		}
		if hit == nil {
			break
		}
		save := x.rest
		x.rest = x.rest[1:]
		if hit.field == "" {
			delete(optional, "$payloadFormat")
			if !x.number(1, cInt(0), "the payload format indicator of the will") {
				return false
			}
			continue
		}
		what := fmt.Sprintf("%s (property 0x%02X)", hit.field, hit.id)
		if !x.value(hit.kind, x.p.pr.field(hit.field), what) {
			if _, opt := optional[hit.field]; opt {
				// it may also not be there, and this is something else
				x.rest, x.bad = save, ""
				delete(optional, hit.field)
				break
			}
			return false
		}
		delete(missing, hit.field)
		delete(optional, hit.field)
	}
	var names []string
	for f := range missing {
		names = append(names, f)
	}
	sort.Strings(names)
	if len(names) > 0 {
		return x.fail("%s is set, but is not written with its identifier 0x%02X and value where the properties are (next: %s)", names[0], missing[names[0]].id, show(x.rest[:min(2, len(x.rest))]))
	}
	return true
}

// propSection takes the properties with their length.
func (x *parse) propSection(specs []propSpec, what string) bool {
	if len(x.rest) == 0 || x.rest[0].t == nil || x.rest[0].t.Op != "vi" {
		return x.fail("the length of %s is not written: %s instead", what, show(x.rest[:min(1, len(x.rest))]))
	}
	n := toPoly(x.rest[0].t.Args[0])
	x.rest = x.rest[1:]
	before := x.rest
	if !x.props(specs) {
		return false
	}
	size := x.p.size(before[:len(before)-len(x.rest)])
	if d := x.p.reduce(n.minus(size)); !d.isZero() {
		return x.fail("the length of %s is %s than their size", what, off(d))
	}
	return true
}

func off(d *Poly) string {
	if c, ok := d.isConst(); ok {
		if c < 0 {
			return fmt.Sprintf("%d less", -c)
		}
		return fmt.Sprintf("%d more", c)
	}
	s := d.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return "by (" + s + ") other"
}

func (x *parse) packet() bool {
	p, s := x.p, x.s
	if len(x.rest) < 2 || x.rest[0].t == nil || x.rest[0].t.Op != "b" {
		return x.fail("no fixed header is written")
	}
	first := p.rw.term(x.rest[0].t.Args[0])
	if !x.firstByte(first) {
		return false
	}
	x.rest = x.rest[1:]
	if x.rest[0].t == nil || x.rest[0].t.Op != "vi" {
		return x.fail("the remaining length is not written behind the first byte")
	}
	if s.code == 0 {
		if !x.value("vi", p.pr.field("Remaining"), "the remaining length") {
			return false
		}
		if len(x.rest) > 0 {
			return x.fail("more is written than the fixed header")
		}
		return true
	}
	x.rest = x.rest[1:]
	var flags *Term
	for _, st := range s.steps {
		switch st.op {
		case "name":
			for _, c := range []int64{0, 4, 'M', 'Q', 'T', 'T'} {
				if !x.number(1, cInt(c), "the protocol name") {
					return false
				}
			}
		case "cflags":
			if len(x.rest) == 0 || x.rest[0].t == nil || x.rest[0].t.Op != "b" {
				return x.fail("the connect flags are not written")
			}
			flags = p.rw.term(x.rest[0].t.Args[0])
			x.rest = x.rest[1:]
		case "pid":
			q := p.pr.field("QoS")
			if v, k := x.f.eval(tEq0(toPoly(q))); k && v {
				continue
			} else if !k {
				return x.fail("the packet identifier does not depend on the QoS")
			}
			if !x.number(2, p.pr.field(st.field), st.field) {
				return false
			}
		case "u8", "u16", "str", "u32":
			v := p.pr.field(st.field)
			if v == nil {
				return x.fail("there is no field %s", st.field)
			}
			if !x.value(st.op, v, st.field) {
				return false
			}
		case "props":
			if !x.propSection(s.props, "the properties") {
				return false
			}
		case "blob":
			if !x.blob(p.pr.field(st.field), st.field) {
				return false
			}
		case "rc":
			// the reason code and the properties may be left out if there is nothing to tell
			rc := p.pr.field(st.field)
			if rc == nil {
				return x.fail("there is no field %s", st.field)
			}
			any := false
			for _, ps := range s.props {
				if x.isSet(ps.field) && !(ps.field == "AuthenticationData" && !x.isSet("AuthenticationMethod")) {
					any = true
				}
			}
			if len(x.rest) == 0 {
				if any {
					return x.fail("the properties are left out although some are set")
				}
				if v, k := x.f.eval(tEq0(toPoly(rc))); !k || !v {
					return x.fail("the reason code is left out although it may not be 0")
				}
				return true
			}
			if !x.number(1, rc, st.field) {
				return false
			}
			if len(x.rest) == 0 && s.typ != "Auth" {
				if any {
					return x.fail("the properties are left out although some are set")
				}
				return true
			}
			if !x.propSection(s.props, "the properties") {
				return false
			}
		case "topics":
			ts := p.rw.term(p.pr.field("Topics"))
			n := p.rw.term(p.pr.In.lenOf(nil, ts))
			if len(x.rest) == 0 || x.rest[0].t != nil {
				return x.fail("the topics are not written behind the properties")
			}
			it := x.rest[0]
			if it.n != n && !(n.isInt() && it.n.isInt() && n.Int == it.n.Int) {
				return x.fail("not every topic is written")
			}
			et := ts.Typ.Underlying().(*types.Slice).Elem()
			idx := elemNo(0)
			if it.n.isInt() {
				idx = cInt(0)
			}
			el := mkIA(ts, idx, et)
			fa, ft := fieldAddr(el, et, "filter")
			oa, ot := fieldAddr(el, et, "options")
			if fa == nil || oa == nil {
				return x.fail("topics have no filter or options")
			}
			b := &parse{p: p, s: s, rest: it.body, f: x.f, sets: x.sets}
			ok := b.str(mk("init", "", 0, ft, fa), "the filter")
			if ok && st.field == "options" {
				ok = b.number(1, mk("init", "", 0, ot, oa), "the subscription options")
			}
			if !ok {
				return x.fail("in the topics: %s", b.bad)
			}
			if len(b.rest) > 0 {
				return x.fail("more is written for a topic than MQTT defines: %s", show(b.rest))
			}
			x.rest = x.rest[1:]
		case "will":
			if !x.will(flags) {
				return false
			}
		case "user":
			for _, u := range []struct {
				bit   int
				field string
			}{{7, "Username"}, {6, "Password"}} {
				on, ok := x.flag(flags, u.bit)
				if !ok {
					return x.fail("the flag of %s is not decided on the path", u.field)
				}
				if on != x.isSet(u.field) {
					return x.fail("the flag of %s is %v, but that it is set is %v", u.field, on, x.isSet(u.field))
				}
				if on && !x.str(p.pr.field(u.field), u.field) {
					return false
				}
			}
		}
		if x.bad != "" {
			return false
		}
	}
	if len(x.rest) > 0 {
		return x.fail("more is written than the packet has: %s", show(x.rest))
	}
	return true
}

// firstByte looks at the packet type and the flags of the fixed header.
func (x *parse) firstByte(first *Term) bool {
	p, s := x.p, x.s
	b := x.bits(first, 8)
	if s.code == 0 {
		if !x.sameBits(b, x.bits(p.pr.field("Header"), 8)) {
			return x.fail("the first byte is not the header")
		}
		return true
	}
	for i := 0; i < 4; i++ {
		if !bitAt(b, 4+i).eq(pConst(s.code >> uint(i) & 1)) {
			return x.fail("the packet type in the first byte is not %d", s.code)
		}
	}
	if s.typ == "Publish" {
		want := make([]*Poly, 4)
		q := x.bits(p.pr.field("QoS"), 8)
		want[0], want[3] = x.truth(p.pr.field("Retain")), x.truth(p.pr.field("Duplicate"))
		want[1], want[2] = bitAt(q, 0), bitAt(q, 1)
		for i, w := range want {
			if !bitAt(b, i).eq(w) {
				return x.fail("bit %d of the first byte is not what retain, QoS and duplicate say", i)
			}
		}
		return true
	}
	for i := 0; i < 4; i++ {
		if !bitAt(b, i).eq(pConst(s.flags >> uint(i) & 1)) {
			return x.fail("the reserved flags in the first byte are not %d", s.flags)
		}
	}
	return true
}

func (x *parse) bits(v *Term, w int) []*Poly {
	var out []*Poly
	for _, b := range numberBits(x.p.rw.term(v), w) {
		out = append(out, x.p.reduce(b))
	}
	return out
}

func (x *parse) truth(v *Term) *Poly { return x.p.reduce(truthPoly(x.p.rw.term(v))) }

func (x *parse) sameBits(a, b []*Poly) bool { return sameBits(a, b) }

func (x *parse) flag(flags *Term, i int) (on, ok bool) {
	if flags == nil {
		return false, false
	}
	c, ok := bitAt(x.bits(flags, 8), i).isConst()
	return c == 1, ok
}

// will takes the will, if its flag is set.
func (x *parse) will(flags *Term) bool {
	p := x.p
	on, ok := x.flag(flags, 2)
	if !ok {
		return x.fail("the will flag is not decided on the path")
	}
	b := x.bits(flags, 8)
	q, r := x.bits(p.pr.field("WillQos"), 8), x.truth(p.pr.field("WillRetain"))
	if !on {
		q, r = nil, newPoly()
	}
	want := []*Poly{newPoly(), x.truth(p.pr.field("CleanSession")), nil, bitAt(q, 0), bitAt(q, 1), r}
	for i, w := range want {
		if w != nil && !bitAt(b, i).eq(w) {
			return x.fail("bit %d of the connect flags is not what the fields say", i)
		}
	}
	if x.isSet("Will") && !on {
		return x.fail("a will is set, but the will flag is not")
	}
	if !on {
		return true
	}
	if !x.isSet("Will") && !x.isSet("WillTopic") {
		return x.fail("the will flag is set without a will")
	}
	return x.propSection(x.s.will, "the will properties") && x.str(p.pr.field("WillTopic"), "WillTopic") && x.str(p.pr.field("Will"), "Will")
}

// variants are the ways to complete what a path knows about which fields are set.
func (p *encPath) variants(s *encSpec) []map[string]bool {
	var open []string
	names := []string{}
	for _, ps := range append(append([]propSpec{}, s.props...), s.will...) {
		names = append(names, ps.field)
	}
	if s.typ == "Connect" {
		names = append(names, "Username", "Password", "Will")
	}
	for _, n := range names {
		if c := p.pr.isSet(n); c != nil {
			if _, k := p.f.eval(c); !k {
				open = append(open, n)
			}
		}
	}
	out := []map[string]bool{{}}
	if len(open) > 0 {
		all := map[string]bool{}
		none := map[string]bool{}
		for _, n := range open {
			all[n], none[n] = true, false
		}
		out = []map[string]bool{none, all}
	}
	return out
}

// layout is the problem with what the path wrote, if there is one.
func (p *encPath) layout(s *encSpec) string {
	for _, v := range p.variants(s) {
		x := &parse{p: p, s: s, rest: p.items, f: p.f, sets: map[string]bool{}}
		// properties of a will that is not sent do not matter
		for k, b := range v {
			x.sets[k] = b
		}
		if !x.packet() {
			return x.bad
		}
	}
	return ""
}

// lengths is the problem with the lengths that the path wrote or returned.
func (p *encPath) lengths(s *encSpec) string {
	if len(p.items) < 2 || p.items[0].t == nil || p.items[1].t == nil || p.items[1].t.Op != "vi" {
		return "no fixed header is written"
	}
	all := p.reduce(p.size(p.items))
	if s.code != 0 {
		rem := toPoly(p.items[1].t.Args[0])
		if d := p.reduce(rem.minus(p.size(p.items[2:]))); !d.isZero() {
			return "the remaining length is " + off(d) + " than what follows"
		}
	}
	if d := p.reduce(toPoly(p.rw.term(p.o.Ret[0]))).minus(all); !d.isZero() {
		return "the number of bytes that is returned is " + off(d) + " than what was written"
	}
	return ""
}

// sections checks the property lengths of a path: every variable byte integer behind the first must be the size of the
// properties that follow it.
func (p *encPath) sections(s *encSpec) string {
	if s.code == 0 {
		return ""
	}
	for _, v := range p.variants(s) {
		x := &parse{p: p, s: s, rest: p.items, f: p.f, sets: map[string]bool{}}
		for k, b := range v {
			x.sets[k] = b
		}
		if !x.packet() && strings.Contains(x.bad, "than their size") {
			return x.bad
		}
	}
	return ""
}

// ---- which packets are looked at

// family restricts which fields are set: presence of the fields in set and unset is decided, the others split the paths.
type family struct {
	name       string
	set, unset []string
}

func (fam family) assume(pr *packetRun, st *State) bool {
	for _, n := range fam.set {
		if c := pr.isSet(n); c != nil && !st.facts.assume(c, true) {
			return false
		}
	}
	for _, n := range fam.unset {
		if c := pr.isSet(n); c != nil && !st.facts.assume(c, false) {
			return false
		}
	}
	return true
}

func fieldNames(ps []propSpec) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.field)
	}
	return out
}

func except(all []string, drop ...string) []string {
	var out []string
	for _, a := range all {
		keep := true
		for _, d := range drop {
			keep = keep && a != d
		}
		if keep {
			out = append(out, a)
		}
	}
	return out
}

// families are the combinations of set fields that are analysed. For CONNECT, whose fields have more than 250,000
// combinations, the quick tier takes all combinations of the properties with no and with a full rest, all combinations of
// the will with no and with a full rest, and every property with every field of the will.
func (s *encSpec) families(full bool) []family {
	if s.typ != "Connect" {
		return []family{{name: "all"}}
	}
	props, will := fieldNames(s.props), fieldNames(s.will)
	rest := []string{"Username", "Password", "CleanSession"}
	var out []family
	if full {
		// one part for each combination of five fields
		cut := []string{"SessionExpiryInterval", "WillDelayInterval", "UserProperties", "Username", "ReceiveMaximum"}
		for k := 0; k < 1<<len(cut); k++ {
			f := family{name: fmt.Sprintf("part %d", k)}
			for i, c := range cut {
				if k>>i&1 == 1 {
					f.set = append(f.set, c)
				} else {
					f.unset = append(f.unset, c)
				}
			}
			out = append(out, f)
		}
		return out
	}
	cat := func(a ...[]string) []string {
		var out []string
		for _, b := range a {
			out = append(out, b...)
		}
		return out
	}
	out = append(out,
		family{name: "properties, nothing else", unset: cat(will, rest, []string{"Will", "WillTopic", "ClientId", "WillRetain"})},
		family{name: "properties, all else", set: cat(will, rest, []string{"Will", "WillTopic", "ClientId", "WillRetain"})},
		family{name: "will, nothing else", unset: cat(props, rest)},
		family{name: "will, all else", set: cat(props, rest)},
		family{name: "flags, no properties", unset: cat(props, will)},
		family{name: "flags, all properties", set: cat(props, will)},
	)
	for _, a := range props {
		for _, b := range will {
			out = append(out, family{name: a + " with " + b, set: []string{a, b, "Will", "WillTopic"}, unset: cat(except(props, a), except(will, b), []string{"WillRetain"})})
		}
	}
	return out
}

// headers are the states of the fixed header field in which the encoder is called: new, or left from encoding before.
func (s *encSpec) headers() []*Term {
	switch s.typ {
	case "Publish":
		return []*Term{cInt(0), cInt(0x3f)}
	case "Puback", "Pubrec", "Pubrel", "Pubcomp", "Disconnect", "Auth":
		return []*Term{cInt(0), cInt(s.code<<4 | s.flags)}
	}
	return []*Term{nil}
}

// encJob is one analysis of an encoder.
type encJob struct {
	s   encSpec
	hdr int
	fam family
}

func encJobs(full bool) []encJob {
	var out []encJob
	for _, s := range encSpecs() {
		if !looksAt(s.typ) {
			continue
		}
		for h := range s.headers() {
			for _, f := range s.families(full) {
				if s.typ == "Publish" {
					// split for speed
					out = append(out, encJob{s, h, family{name: "no user properties", unset: []string{"UserProperties"}}}, encJob{s, h, family{name: "user properties", set: []string{"UserProperties"}}})
					continue
				}
				out = append(out, encJob{s, h, f})
			}
		}
	}
	return out
}

// eachPath runs the encoders and calls f for every path that returns without an error.
func eachPath(r *Report, L *Loaded, full bool, only int, of int, f func(p *encPath, s *encSpec)) {
	debug.SetGCPercent(200)
	for i, j := range encJobs(full) {
		if i%of != only {
			continue
		}
		j := j
		paths := 0
		pr := runEncoder(L, j.s.typ, encOpts{exact: true, noFail: true, small: true, header: j.s.headers()[j.hdr], assume: j.fam.assume,
			done: func(pr *packetRun, o *Outcome) {
				if o.Kind == "return" && retErr(o) == 1 {
					return
				}
				if o.Kind != "return" {
					return
				}
				p := pr.path(o)
				paths++
				if p.fail != "" {
					r.violate("undecided:"+j.s.typ, o.Pos, "%s.WriteTo cannot be decided: %s", j.s.typ, p.fail)
					return
				}
				f(p, &j.s)
			}})
		if pr == nil {
			r.violate("missing:"+j.s.typ, token.NoPos, "the packets package has no encoder for %s", j.s.typ)
			continue
		}
		for _, u := range pr.In.undec {
			r.violate("undecided:"+j.s.typ, pr.Fn.Pos(), "%s.WriteTo cannot be decided: %s", j.s.typ, u)
		}
		r.count("paths through encoders that succeed", paths)
		r.count("paths of "+j.s.typ, paths)
		if paths == 0 {
			r.count("combinations without a path", 1)
		}
	}
}

// parallel runs a check in several processes, each with a part of the work, and merges what they report.
func parallel(r *Report, L *Loaded, f func(r *Report, part, of int)) {
	if s := os.Getenv("VERIF_PART"); s != "" {
		var part, of int
		fmt.Sscanf(s, "%d/%d", &part, &of)
		f(r, part, of)
		return
	}
	cpus := min(runtime.NumCPU(), 8)
	of := cpus
	if r.Tier == "thorough" {
		of = 6 * cpus // for the sake of memory
	}
	exe, err := os.Executable()
	if err != nil || of == 1 {
		f(r, 0, 1)
		return
	}
	outs := make([][]byte, of)
	var wg sync.WaitGroup
	slots := make(chan bool, cpus)
	for i := 0; i < of; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			c := exec.Command(exe, "part", r.ID, L.dir)
			c.Env = append(os.Environ(), fmt.Sprintf("VERIF_PART=%d/%d", i, of))
			outs[i], _ = c.Output()
		}(i)
	}
	wg.Wait()
	for i, b := range outs {
		if !r.merge(b) {
			r.violate("internal", token.NoPos, "part %d of the analysis did not end: %s", i, string(b))
		}
	}
}

func isPart() bool { return os.Getenv("VERIF_PART") != "" }

func checkC01(r *Report, L *Loaded) {
	r.Rule = "on every path through every WriteTo that returns nil, the Remaining Length and the property lengths equal the sizes of what is written behind them, and the returned count the size of all that was written, as polynomials over the lengths of the fields; loops over user properties and topics count as sums over their elements"
	full := r.Tier == "thorough"
	parallel(r, L, func(r *Report, part, of int) {
		eachPath(r, L, full, part, of, func(p *encPath, s *encSpec) {
			if bad := p.lengths(s); bad != "" {
				r.violate("length:"+s.typ, p.pr.Fn.Pos(), "%s.WriteTo: %s", s.typ, bad)
			} else if bad := p.sections(s); bad != "" {
				r.violate("length:"+s.typ, p.pr.Fn.Pos(), "%s.WriteTo: %s", s.typ, bad)
			}
			r.count("lengths compared", 3)
		})
	})
	r.Assume = append(r.Assume, "packets are smaller than 4 GiB, so that sums of lengths do not overflow 32 bits")
	floorEncoders(r)
}

func floorEncoders(r *Report) {
	if os.Getenv("VERIF_PART") != "" {
		return
	}
	for _, s := range encSpecs() {
		r.floor("paths of "+s.typ, 1)
	}
}

func checkC02(r *Report, L *Loaded) {
	r.Rule = "what every path through every WriteTo that returns nil has written, byte by byte, is the layout that MQTT 5 gives to the packet, with every field that is set on the path exactly once in its place and no other optional field"
	full := r.Tier == "thorough"
	parallel(r, L, func(r *Report, part, of int) {
		eachPath(r, L, full, part, of, func(p *encPath, s *encSpec) {
			if bad := p.layout(s); bad != "" && !strings.Contains(bad, "than their size") {
				r.violate("layout:"+s.typ, p.pr.Fn.Pos(), "%s.WriteTo: %s", s.typ, bad)
			}
			r.count("packets matched", 1)
		})
	})
	r.Assume = append(r.Assume, "packets are smaller than 4 GiB; strings are no longer than their length prefix can tell (C09 shows that longer ones are refused)")
	floorEncoders(r)
}

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}
