package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// registries are the maps of event channels that the client delivers to, and how it goes through them.
type registries struct {
	maps    map[string]bool            // regions whose values are delivered to
	fan     map[ssa.Instruction]string // traversals that deliver -> region
	general string                     // keyed by identifier
	topic   string                     // keyed by filter
	elem    types.Type
}

func isEventChan(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	ch, ok := t.Typ.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n := namedOf(ch.Elem())
	return n != nil && n.Obj().Name() == "Event" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/mqtt")
}

// isEventOffer tells whether something is put into an event channel.
func isEventOffer(e *Event) bool {
	if e.Kind != "Offer" && e.Kind != "Send" {
		return false
	}
	if isEventChan(e.Args[0]) {
		return true
	}
	return len(e.Args) > 2 && e.Args[2] != nil && e.Args[2].Typ != nil && nameOfType(e.Args[2].Typ) == "Event"
}

func (c *Client) eventRegistries() *registries {
	g := &registries{maps: map[string]bool{}, fan: map[ssa.Instruction]string{}}
	c.paths(func(p *path) {
		p.inLoops(func(e *Event, body []*Event, i int) {
			if !isEventOffer(e) {
				return
			}
			base, _ := baseField(e.Args[0])
			for j := i; j >= 0; j-- {
				n := body[j]
				if n.Kind == "RangeNext" && base != nil && n.Args[2] == base {
					g.maps[n.Name] = true
					g.fan[n.instr] = n.Name
					if b, ok := n.Args[1].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						g.topic = n.Name
					} else {
						g.general = n.Name
					}
					break
				}
			}
		})
	})
	return g
}

// offers counts the traversals of the event channels that deliver something, after an event of the path.
func (p *path) offers(g *registries, from int) (int, *Event) {
	n := 0
	var first *Event
	note := func(e *Event) {
		n++
		if first == nil {
			first = e
		}
	}
	for _, e := range p.ev[from:] {
		switch {
		case isEventOffer(e):
			note(e)
		case e.Kind == "RangeNext" && g.fan[e.instr] != "":
			note(e)
		}
	}
	return n, first
}

// traversal is one pass over a map at the top level of a path.
type traversal struct {
	i        int
	e        *Event
	bodies   [][]*Event
	infos    []*bodyInfo
	complete bool
}

func (p *path) traversals(region string, from int) []traversal {
	var out []traversal
	var loop *Event
	for i := from; i < len(p.ev); i++ {
		e := p.ev[i]
		if e.Kind == "Loop" {
			loop = e
			continue
		}
		if e.Kind != "RangeNext" || e.Name != region {
			continue
		}
		t := traversal{i: i, e: e}
		if v, k := p.F.eval(e.Args[3]); k && !v {
			t.complete = true
		}
		if loop != nil {
			if loop.Ctx == e.Ctx && loop.Loop.head == e.instr.Block() {
				t.bodies = loop.Loop.bodies
				t.infos = loop.Loop.now()
			}
		}
		loop = nil
		out = append(out, t)
	}
	return out
}

func hasOffer(tr []*Event) *Event {
	var f *Event
	walk(tr, false, func(e *Event, _ bool) {
		if isEventOffer(e) && f == nil {
			f = e
		}
	})
	return f
}

// checkEventValue decides whether what is delivered is the packet that it should be.
func (p *path) checkEventValue(r *Report, e *Event, code int64, obj *Term) {
	r.count("deliveries", 1)
	if e.Kind == "Send" || e.Name != "send" {
		r.violate("blocks:"+p.name, e.Pos, "%s may block when it delivers an event", p.name)
	}
	snap := e.Args[2]
	if len(e.Args) < 3 || snap == nil || snap.Op != "struct" {
		r.violate("value:"+p.name, e.Pos, "%s delivers an event whose contents are not known", p.name)
		return
	}
	pt, data := packetField(snap, "PacketType"), packetField(snap, "Data")
	if k, ok := toPoly(unwrap(pt)).isConst(); !ok || k != code {
		r.violate("type:"+p.name, e.Pos, "%s delivers an event of type %s where the packet has type %d", p.name, short(pt), code)
	}
	if unwrapIface(data) != obj {
		r.violate("data:"+p.name, e.Pos, "%s delivers an event with %s, which is not the packet that it is about", p.name, short(data))
	}
}

func checkC23(r *Report, L *Loaded) {
	r.Rule = "every path that handled an incoming packet (but PINGRESP and duplicate publishes) and returns nil, sent a DISCONNECT or received an accepted CONNACK goes through all of the general event channels exactly once and puts one event with the type of that packet and that packet into each without blocking; a PUBLISH is also put into exactly those topic-bound channels whose filter matchTopic accepts for its topic; a channel is closed only while it is registered as open and is removed from that register and from every map that is delivered to in the same critical section; a channel gets into such a map only while it is registered as open"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "unreleased") {
		return
	}
	g := c.eventRegistries()
	if g.general == "" || g.topic == "" {
		r.violate("anchor:event channels", 0, "expected one map of general and one of topic-bound event channels that are delivered to, found %v", g.maps)
		return
	}
	c.paths(func(p *path) {
		// what is to be delivered
		code, obj, need, from := int64(0), (*Term)(nil), false, 0
		topicWanted := false
		var topic *Term
		b := p.inbound()
		switch {
		case p.name == "Poll" && b != nil:
			code, obj, from = packetCode[b.typ], b.obj, b.i
			need = p.okReturn()
			if b.typ == "Publish" {
				topic = p.decodedField(b.e, "Topic")
				dup, known := p.duplicate(ro, b)
				if !known {
					if di, _ := p.sent("Disconnect", b.i); di < 0 && need {
						r.violate("undecided", p.o.Pos, "Poll does not decide whether a PUBLISH is a duplicate")
						return
					}
				}
				if dup {
					need = false
					if n, e := p.offers(g, b.i); n > 0 {
						r.violate("duplicate-delivered", e.Pos, "Poll delivers a duplicate QoS 2 PUBLISH")
					}
				}
				topicWanted = need
			}
			if di, d := p.sent("Disconnect", b.i); d != nil {
				code, from = 14, di
				obj = p.encodedObj(di)
				need = p.ok(d) && !p.failsAfter(di)
				topic, topicWanted = nil, false
			}
		case p.name == "Connect":
			i := p.index(0, func(e *Event) bool { return e.Kind == "Decode" && e.Name == "Connack" && p.ok(e) })
			if i >= 0 {
				code, obj, from = 2, p.ev[i].Args[0], i
				need = p.okReturn()
			}
		default:
			if i, d := p.sent("Disconnect", 0); d != nil {
				code, obj, from = 14, p.encodedObj(i), i
				need = p.okReturn() && p.ok(d)
			}
		}
		// deliveries outside of traversals
		for i, e := range p.ev {
			if isEventOffer(e) {
				r.violate("direct:"+p.name, e.Pos, "%s delivers an event to a channel other than by going through the registered ones", p.name)
			}
			_ = i
		}
		p.inLoops(func(e *Event, body []*Event, i int) {
			if !isEventOffer(e) {
				return
			}
			base, _ := baseField(e.Args[0])
			ok := false
			for j := i; j >= 0; j-- {
				if body[j].Kind == "RangeNext" && body[j].Args[2] == base && base != nil && sameSection(body, j, i) {
					ok = true
				}
			}
			if !ok {
				r.violate("direct:"+p.name, e.Pos, "%s delivers an event to a channel that it did not just find registered", p.name)
			}
			if obj == nil {
				r.violate("unexpected:"+p.name, e.Pos, "%s delivers an event although no packet was received or sent that is to be signalled", p.name)
				return
			}
			p.checkEventValue(r, e, code, obj)
		})
		count := func(region string) (n int) {
			for _, t := range p.traversals(region, 0) {
				if g.fan[t.e.instr] == "" {
					continue
				}
				delivers := len(t.bodies) == 0
				for _, bd := range t.bodies {
					if hasOffer(bd) != nil {
						delivers = true
					}
				}
				if !delivers {
					continue
				}
				n++
				r.count("traversals that deliver", 1)
				if t.i < from {
					r.violate("early:"+p.name, t.e.Pos, "%s delivers an event before the packet was received or sent", p.name)
				}
				if !t.complete {
					r.violate("incomplete:"+p.name, t.e.Pos, "%s may stop before it delivered an event to all channels", p.name)
				}
				for _, bi := range t.infos {
					bd := bi.body
					if bi.impossible(t.e) {
						continue
					}
					m := 0
					walk(bd, false, func(e *Event, in bool) {
						if isEventOffer(e) {
							m++
							if in {
								m += 100
							}
						}
					})
					want := 1
					if region == g.topic {
						ok := false
						want, ok = p.matched(t, bi, topic)
						if !ok {
							r.violate("match-undecided:"+p.name, t.e.Pos, "%s goes through the topic-bound channels without deciding whether the filter matches the topic of the publish", p.name)
							continue
						}
						if want == 1 {
							r.count("matching filters", 1)
						} else {
							r.count("filters that do not match", 1)
						}
					}
					if m != want {
						r.violate("deliveries:"+p.name, t.e.Pos, "%s delivers an event %d times to a channel, where it must be %d", p.name, m, want)
					}
				}
			}
			return
		}
		n := count(g.general)
		if need && n != 1 || !need && n > 1 {
			r.violate("general:"+p.name, p.o.Pos, "%s delivers a packet of type %d %d times to the general event channels", p.name, code, n)
		}
		m := count(g.topic)
		if topicWanted && m != 1 || !topicWanted && m > 1 {
			r.violate("topic:"+p.name, p.o.Pos, "%s goes %d times through the topic-bound channels for a packet of type %d", p.name, m, code)
		}
		if topic == nil && m > 0 {
			r.violate("topic:"+p.name, p.o.Pos, "%s goes through the topic-bound channels for a packet of type %d", p.name, code)
		}
		if need {
			r.count("packets to be signalled", 1)
		}
	})
	eventTypestate(r, c, g)
	bindings(r, c, g)
	r.floor("deliveries", 20)
	r.floor("traversals that deliver", 20)
	r.floor("packets to be signalled", 20)
	r.floor("matching filters", 1)
	r.floor("filters that do not match", 1)
	r.floor("bindings to topics", 1)
}

func (p *path) failsAfter(i int) bool {
	for _, e := range p.ev[i+1:] {
		if p.evErr(e) != nil && !p.ok(e) {
			return true
		}
	}
	return false
}

// encodedObj is the packet object whose encoding a network write carries.
func (p *path) encodedObj(i int) *Term {
	for j := i; j >= 0; j-- {
		if e := p.ev[j]; e.Kind == "Encode" && p.ok(e) {
			return e.Args[0]
		}
	}
	return nil
}

// impossible tells whether an iteration over a map of event channels assumes a registered channel to be nil; wholeChannel
// makes sure that only channels that were made get registered.
func (bi *bodyInfo) impossible(next *Event) bool {
	for _, e := range bi.body {
		if e.Kind != "RangeNext" || e.instr != next.instr {
			continue
		}
		for t, v := range bi.facts.truth {
			if v && t.Op == "isnil" && isEventChan(t.Args[0]) {
				if b, _ := baseField(t.Args[0]); b == e.Args[2] {
					return true
				}
			}
		}
	}
	return false
}

// matched decides whether an iteration over the topic-bound channels found that the filter matches.
func (p *path) matched(t traversal, bi *bodyInfo, topic *Term) (want int, ok bool) {
	var key *Term
	for _, e := range bi.body {
		if e.Kind == "RangeNext" && e.instr == t.e.instr {
			key = e.Args[1]
		}
	}
	if key == nil || topic == nil {
		return 0, false
	}
	for res, args := range p.run.In.pureArgs {
		hasTopic, hasKey := false, false
		for _, a := range args {
			hasTopic = hasTopic || mentions(a, topic)
			hasKey = hasKey || mentions(a, key)
		}
		if !hasTopic || !hasKey {
			continue
		}
		if fn := p.run.In.pureFn[res]; fn != nil && len(fn.Params) == len(args) {
			// what is compared with the wildcards is the filter
			role := -1
			for i, n := 0, 0; i < len(args); i++ {
				if comparedWithWildcard(fn, i) {
					if role = i; n > 0 {
						role = -1
					}
					n++
				}
			}
			if role >= 0 && !mentions(args[role], key) && mentions(args[role], topic) {
				return 0, false
			}
		}
		if v, known := bi.facts.eval(res); known {
			if v {
				return 1, true
			}
			return 0, true
		}
	}
	return 0, false
}

// eventTypestate decides that event channels are closed at most once and never sent to after that.
func eventTypestate(r *Report, c *Client, g *registries) {
	open := map[string]bool{}
	each := func(f func(p *path, tr []*Event, F *Facts, i int, e *Event)) {
		c.paths(func(p *path) {
			seen := map[*loopRec]bool{}
			var rec func(tr []*Event, F *Facts)
			rec = func(tr []*Event, F *Facts) {
				for i, e := range tr {
					f(p, tr, F, i, e)
					if e.Kind == "Loop" && !seen[e.Loop] {
						seen[e.Loop] = true
						for _, bi := range e.Loop.now() {
							rec(bi.body, bi.facts)
						}
					}
				}
			}
			rec(p.ev, p.F)
		})
	}
	each(func(p *path, tr []*Event, F *Facts, i int, e *Event) {
		if e.Kind != "Close" {
			return
		}
		r.count("closed channels", 1)
		if len(e.Locks) == 0 {
			r.violate("close-unlocked:"+p.name, e.Pos, "%s closes a channel without holding a lock", p.name)
			return
		}
		reg, _ := c.guardedOnce(tr, i, e.Args[0])
		if reg == "" {
			r.violate("closed-twice:"+p.name, e.Pos, "%s closes %s without making sure, in the same critical section, that this happens once", p.name, short(e.Args[0]))
			return
		}
		open[reg] = true
		for j, x := range tr {
			if x.Kind == "Close" && j < i && x.Args[0] == e.Args[0] {
				r.violate("closed-twice:"+p.name, e.Pos, "%s closes %s twice", p.name, short(e.Args[0]))
			}
			if (x.Kind == "Send" || x.Kind == "Offer") && j > i && x.Args[0] == e.Args[0] {
				r.violate("sent-after-close:"+p.name, x.Pos, "%s sends to %s after closing it", p.name, short(e.Args[0]))
			}
		}
		if !isEventChan(e.Args[0]) {
			return
		}
		// removed from everything that is delivered to
		base, _ := baseField(e.Args[0])
		lock := e.Locks[len(e.Locks)-1]
		for m := range g.maps {
			if !c.purged(tr, F, i, base, m, lock) {
				r.violate("still-registered:"+p.name+":"+m, e.Pos, "%s closes %s and leaves it in %s, which events are delivered to", p.name, short(e.Args[0]), m)
			}
		}
	})
	if len(open) == 0 {
		r.floor("closed channels", 1)
		return
	}
	for reg := range open {
		if !c.registryFresh(reg) {
			r.violate("reopened:"+reg, 0, "identifiers get into %s other than as new values of a counter", reg)
		}
	}
	// what gets into the maps that are delivered to is open
	each(func(p *path, tr []*Event, _ *Facts, i int, e *Event) {
		if e.Kind != "MapSet" || !g.maps[e.Name] {
			return
		}
		r.count("registrations", 1)
		id := packetField(e.Args[2], "id")
		ok := false
		for j := range tr {
			x := tr[j]
			if !(x.Kind == "MapGet" || x.Kind == "MapSet") || !open[x.Name] || id == nil || !same(x.Args[1], id) {
				continue
			}
			if x.Kind == "MapGet" {
				if v, k := e.Facts.eval(x.Args[3]); j > i || !k || !v {
					continue
				}
				// not closed in between
				bad := false
				for _, y := range tr[j:i] {
					bad = bad || y.Kind == "MapDel" && open[y.Name]
				}
				if bad {
					continue
				}
			}
			if sameSection(tr, i, j) {
				ok = true
			}
		}
		if !ok {
			r.violate("registered-closed:"+p.name, e.Pos, "%s puts a channel into %s that is not known to be open", p.name, e.Name)
		}
	})
	// an event channel value always combines the channel and the identifier it was created with
	each(func(p *path, tr []*Event, _ *Facts, i int, e *Event) {
		if e.Kind == "MapSet" && g.maps[e.Name] {
			c.wholeChannel(r, p, e.Args[2], e)
		}
	})
	c.paths(func(p *path) {
		for _, v := range p.o.Ret {
			if v != nil && v.Op == "struct" && packetField(v, "id") != nil && packetField(v, "channel") != nil {
				c.wholeChannel(r, p, v, nil)
			}
		}
	})
}

// wholeChannel checks that an event channel value is new, or a copy of another.
func (c *Client) wholeChannel(r *Report, p *path, v *Term, e *Event) {
	pos := p.o.Pos
	if e != nil {
		pos = e.Pos
	}
	if v == nil || v.Op != "struct" {
		return
	}
	var base *Term
	fresh := 0
	for _, f := range []string{"id", "channel", "done"} {
		t := packetField(v, f)
		if t == nil {
			continue
		}
		if t.Op == "makechan" {
			fresh++
			continue
		}
		b, n := baseField(t)
		if b == nil || n != f {
			if f == "id" {
				fresh++
				continue
			}
			r.violate("mixed-channel:"+p.name, pos, "%s makes an event channel value of %s", p.name, short(v))
			return
		}
		if f == "id" && p.regOf(t) != "" && b.Op == "param" {
			fresh++ // a counter of the client
			continue
		}
		if base != nil && base != b {
			r.violate("mixed-channel:"+p.name, pos, "%s makes an event channel value of parts of different ones", p.name)
			return
		}
		base = b
	}
	if base != nil && fresh > 0 {
		r.violate("mixed-channel:"+p.name, pos, "%s makes an event channel value of new parts and parts of another", p.name)
	}
}

// purged tells whether a closed channel is removed from a map before the lock is released.
func (c *Client) purged(tr []*Event, F *Facts, i int, base *Term, m, lock string) bool {
	start, end := 0, len(tr)
	for j := i; j >= 0; j-- {
		if tr[j].Kind == "Unlock" && tr[j].Name == lock {
			start = j
			break
		}
	}
	for j := i; j < len(tr); j++ {
		if tr[j].Kind == "Unlock" && tr[j].Name == lock {
			end = j
			break
		}
	}
	var loop *Event
	for j := start; j < end; j++ {
		e := tr[j]
		switch {
		case e.Kind == "MapClear" && e.Name == m:
			return true
		case e.Kind == "MapDel" && e.Name == m:
			if b, f := baseField(e.Args[1]); b == base && f == "id" && c.keyedByID(m) {
				return true
			}
		case e.Kind == "Loop":
			loop = e
		case e.Kind == "RangeNext" && e.Name == m:
			if v, k := F.eval(e.Args[3]); !k || v {
				continue // left early
			}
			if loop != nil && (loop.Ctx != e.Ctx || loop.Loop.head != e.instr.Block()) {
				loop = nil
			}
			if loop == nil {
				return true // there was none
			}
			ok := true
			for _, bi := range loop.Loop.now() {
				if !c.bodyPurges(bi, e, base, m) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// bodyPurges tells whether an iteration over a map removes the entry, or found that it is not the channel that was closed.
func (c *Client) bodyPurges(bi *bodyInfo, next *Event, base *Term, m string) bool {
	var key, val *Term
	for _, e := range bi.body {
		if e.Kind == "RangeNext" && e.instr == next.instr {
			key, val = e.Args[1], e.Args[2]
		}
	}
	if key == nil {
		return true // another loop in front of this one
	}
	for _, e := range bi.body {
		if e.Kind == "MapDel" && e.Name == m && e.Args[1] == key {
			return true
		}
	}
	// an iteration without a removal knows that the identifiers differ
	for t, v := range bi.facts.truth {
		if !v && (t.Op == "eq0" || t.Op == "eq") && mentionsField(t, base) && mentionsField(t, val) {
			return true
		}
	}
	return false
}

// mentionsField tells whether a term contains the identifier or the channel of a value.
func mentionsField(t, base *Term) bool {
	if t == nil {
		return false
	}
	if b, f := baseField(t); b == base && (f == "id" || f == "channel" || f == "done") {
		return true
	}
	if t.P != nil {
		for _, a := range toPoly(t).atoms() {
			if a != t && mentionsField(a, base) {
				return true
			}
		}
	}
	for _, a := range t.Args {
		if mentionsField(a, base) {
			return true
		}
	}
	return false
}

// keyedByID tells whether values get into a map only under their own identifier.
func (c *Client) keyedByID(m string) bool {
	ok, n := true, 0
	c.paths(func(p *path) {
		walk(p.ev, false, func(e *Event, _ bool) {
			if e.Kind == "MapSet" && e.Name == m {
				n++
				if id := packetField(e.Args[2], "id"); id == nil || !same(id, e.Args[1]) {
					ok = false
				}
			}
		})
	})
	return ok && n > 0
}

// bindings decides what subscribing does to the event channels.
func bindings(r *Report, c *Client, g *registries) {
	c.paths(func(p *path) {
		walk(p.ev, false, func(e *Event, _ bool) {
			if e.Kind != "MapSet" || e.Name != g.topic {
				return
			}
			r.count("bindings to topics", 1)
			if p.name != "Subscribe" {
				r.violate("bound:"+p.name, e.Pos, "%s binds an event channel to a topic", p.name)
			}
		})
	})
}

func init() { checks["C23"] = checkC23 }
