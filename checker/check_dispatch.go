package main

import "go/types"

// C41: what was acknowledged is delivered; C42: each packet is decoded once, as what its fixed header says; C43: requests
// carry what the application asked for.

func checkC41(r *Report, L *Loaded) {
	r.Rule = "on every path of Poll after a decoded PUBLISH that is not a duplicate of an unreleased one: if a PUBACK or PUBREC was written, with or without success, or the identifier stays among the unreleased ones, then the path goes through all of the general and all of the topic-bound event channels to deliver it"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "unreleased") {
		return
	}
	g := c.eventRegistries()
	if g.general == "" || g.topic == "" {
		r.violate("anchor:event channels", 0, "expected one map of general and one of topic-bound event channels that are delivered to, found %v", g.maps)
		return
	}
	c.paths(func(p *path) {
		b := p.inbound()
		if p.name != "Poll" || b == nil || b.typ != "Publish" {
			return
		}
		dup, known := p.duplicate(ro, b)
		if known && dup {
			r.count("duplicates", 1)
			return
		}
		var why string
		pos := p.o.Pos
		for _, e := range p.ev[b.i:] {
			switch {
			case e.Kind == "NetWrite":
				if t, _ := packetOf(e); t == "Puback" || t == "Pubrec" {
					why, pos = "a "+t+" was sent for it", e.Pos
					if p.failed(e) {
						why = "a " + t + " may have reached the server"
						r.count("acknowledgements that failed", 1)
					}
				}
			case e.Kind == "MapSet" && e.Name == ro.unreleased && why == "":
				why, pos = "its identifier is remembered as received", e.Pos
			case e.Kind == "MapDel" && e.Name == ro.unreleased && same(e.Args[1], b.id) && why == "its identifier is remembered as received":
				why = ""
			}
		}
		if why == "" {
			return
		}
		r.count("acknowledged publishes", 1)
		for _, region := range []string{g.general, g.topic} {
			done := false
			for _, t := range p.traversals(region, b.i) {
				delivers := len(t.bodies) == 0
				for _, bd := range t.bodies {
					delivers = delivers || hasOffer(bd) != nil
				}
				if g.fan[t.e.instr] != "" && t.complete && delivers {
					done = true
				}
			}
			if !done {
				r.violate("lost:"+region, pos, "Poll can return (at %s) without having delivered a PUBLISH to %s although %s: the server will not send it again", p.where(), region, why)
			}
		}
	})
	r.floor("acknowledged publishes", 20)
	r.floor("acknowledgements that failed", 4)
	r.floor("duplicates", 1)
}

func checkC42(r *Report, L *Loaded) {
	r.Rule = "on every path of a client method what is read from the connection is a first byte, then the remaining length, then at most one control packet; the packet's decoder is that of the type in the first byte and was given that first byte and remaining length; nothing is read after a failed read or after the packet; a path that returns nil has read nothing, a whole packet, or a fixed header whose remaining length is zero"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		var hdr, rem *Term
		var pkt, bad *Event
		started, partial := false, false
		for _, e := range p.ev {
			if e.Kind == "NetRead" {
				r.count("paths with other reads (not decided)", 1)
				return
			}
			if e.Kind != "Decode" {
				continue
			}
			if e.Args[1] == nil || !isConn(e.Args[1]) && !mentionsConn(e.Args[1]) {
				r.count("paths that decode from elsewhere (not decided)", 1)
				return
			}
			r.count("reads", 1)
			if bad != nil {
				r.violate("after-failure:"+p.name, e.Pos, "%s reads a %s after a read failed", p.name, e.Name)
				return
			}
			if pkt != nil {
				r.violate("after-packet:"+p.name, e.Pos, "%s reads a %s after it decoded a %s", p.name, e.Name, pkt.Name)
				return
			}
			if !p.ok(e) {
				bad = e
				partial = started
			}
			started = true
			switch {
			case e.Name == "FixedHeader":
				if hdr != nil {
					r.violate("order:"+p.name, e.Pos, "%s reads a fixed header where the remaining length or the packet follows", p.name)
					return
				}
				if p.ok(e) {
					hdr, rem = packetField(e.Args[2], "Header"), packetField(e.Args[2], "Remaining")
				}
			case isPacketType(e.Name):
				h := packetField(e.Args[2], "Header")
				hb, hr := packetField(h, "Header"), packetField(h, "Remaining")
				if hb == nil || hr == nil {
					r.violate("header-unknown:"+e.Name, e.Pos, "%s decodes a %s without a fixed header", p.name, e.Name)
					return
				}
				if hdr != nil {
					if rem == nil {
						r.violate("order:"+p.name, e.Pos, "%s decodes a %s without having read the remaining length", p.name, e.Name)
						return
					}
					if p.ok(e) && !same(hb, hdr) {
						r.violate("header:"+e.Name, e.Pos, "%s decodes a %s that was not given the first byte that was read: its decoder reads another fixed header", p.name, e.Name)
						return
					}
					if p.ok(e) && !same(hr, rem) {
						r.violate("remaining:"+e.Name, e.Pos, "%s decodes a %s that was not given the remaining length that was read", p.name, e.Name)
						return
					}
					hb = hdr
				}
				if p.ok(e) {
					pkt = e
					for _, v := range e.Facts.allowedValues(hb, 0, 255) {
						if hdr != nil && v>>4 != packetCode[e.Name] {
							r.violate("type:"+e.Name, e.Pos, "%s decodes a packet of type %d as a %s", p.name, v>>4, e.Name)
							return
						}
					}
					r.count("packets decoded as a "+e.Name, 1)
				}
			case hdr == nil:
				if e.Name == "VariableByteInt" {
					r.violate("order:"+p.name, e.Pos, "%s reads a variable byte integer where a packet begins", p.name)
					return
				}
				if p.ok(e) {
					hdr = e.Args[2]
				}
			case rem == nil:
				if e.Name != "VariableByteInt" {
					r.violate("order:"+p.name, e.Pos, "%s reads a %s where the remaining length follows", p.name, e.Name)
					return
				}
				if p.ok(e) {
					rem = e.Args[2]
				}
			default:
				r.violate("order:"+p.name, e.Pos, "%s reads a %s where the contents of a packet follow", p.name, e.Name)
				return
			}
		}
		if !started {
			return
		}
		r.count("paths that read", 1)
		if !p.okReturn() || pkt != nil {
			return
		}
		switch {
		case bad != nil && !partial: // nothing arrived
		case bad != nil:
			r.violate("cut-short:"+p.name, p.o.Pos, "%s can return nil although reading a %s failed in the middle of a packet", p.name, bad.Name)
		case hdr != nil && rem != nil && p.zero(rem):
			r.count("packets without contents", 1)
		default:
			r.violate("unread:"+p.name, p.o.Pos, "%s can return nil without having read the contents of a packet: they would be taken for the next one", p.name)
		}
	})
	r.floor("paths that read", 50)
	r.floor("packets without contents", 1)
	for _, n := range []string{"Connack", "Publish", "Puback", "Pubrec", "Pubrel", "Pubcomp", "Suback", "Unsuback", "Disconnect", "Auth"} {
		r.floor("packets decoded as a "+n, 1)
	}
}

// elementOf finds the element of a list that a value was read from; rest names the fields of the element that lead to it.
func elementOf(v, list *Term) (index *Poly, field string, ok bool) {
	if v == nil {
		return nil, "", false
	}
	v = stripConv(unwrap(v))
	if v.Op != "init" {
		return nil, "", false
	}
	a := v.Args[0]
	for a.Op == "fa" {
		if field == "" {
			field = a.Str
		}
		a = a.Args[0]
	}
	if a.Op != "ia" || a.Args[0] != list && stripConv(a.Args[0]) != list {
		return nil, "", false
	}
	return toPoly(a.Args[1]), field, true
}

// topicElem decides which of the given topics a topic of a request is.
func topicElem(t, list *Term) (index *Poly, problem string, ok bool) {
	if t == nil || t.Op != "struct" {
		return nil, "", false
	}
	u, isS := t.Typ.Underlying().(*types.Struct)
	if !isS {
		return nil, "", false
	}
	elems, _ := list.Typ.Underlying().(*types.Slice)
	if elems == nil {
		return nil, "", false
	}
	_, plain := elems.Elem().Underlying().(*types.Basic)
	for i, v := range t.Args {
		name := u.Field(i).Name()
		k, f, found := elementOf(v, list)
		if !found {
			if k, isC := toPoly(stripConv(unwrap(v))).isConst(); isIntegral(u.Field(i).Type()) && isC {
				if plain && k == 0 {
					continue
				}
				return nil, "sets " + name + " to a constant", true
			}
			return nil, "", false
		}
		if !plain && f != name {
			return nil, "takes " + name + " from " + f, true
		}
		if index != nil && !index.eq(k) {
			return nil, "takes its parts from different topics", true
		}
		index = k
	}
	return index, "", index != nil
}

// allTopics decides whether a list holds all the elements of another one in order; why is empty if it does, ok is false if
// that is not known.
func (p *path) allTopics(v, list *Term) (why string, ok bool) {
	v = stripConv(unwrap(v))
	for _, e := range p.ev {
		if e.Kind != "Loop" {
			continue
		}
		rec := e.Loop
		mine := false
		for _, bi := range rec.now() {
			_, mine = bi.start[v]
			if mine {
				break
			}
		}
		if !mine {
			continue
		}
		var ind *Term
		var off int64
		for _, bi := range rec.now() {
			st, end := bi.start[v], bi.phi[v]
			if st == nil || end == nil {
				return "", false
			}
			empty := st.Op == "nil" || p.is(mkIsNil(st), true) || p.zero(mk("len", "", 0, types.Typ[types.Int], st))
			if !empty {
				return "", false
			}
			from := v
			if bi.entry {
				from = st
			}
			if end == from {
				return "leaves out a topic", true
			}
			if end.Op != "append" || len(end.Args) < 2 || end.Args[0] != from {
				return "", false
			}
			if len(end.Args) != 2 {
				return "adds more than one topic for one that was given", true
			}
			k, problem, known := topicElem(end.Args[1], list)
			if !known {
				return "", false
			}
			if problem != "" {
				return problem, true
			}
			if bi.entry {
				c, isC := k.isConst()
				if !isC {
					return "", false
				}
				if c != 0 {
					return "does not begin with the first topic", true
				}
				continue
			}
			if _, isC := k.isConst(); isC {
				return "adds the same topic again and again", true
			}
			found := false
			for s, end := range bi.phi {
				if s == v || !isIntegral(s.Typ) {
					continue
				}
				c, isC := k.minus(toPoly(s)).isConst()
				step, isS := toPoly(unwrap(end)).minus(toPoly(s)).isConst()
				if !isC || !isS {
					continue
				}
				if step != 1 {
					return "does not go through the topics one by one", true
				}
				found = true
				if ind != nil && (ind != s || off != c) {
					return "", false
				}
				ind, off = s, c
			}
			if !found {
				return "", false
			}
		}
		if ind == nil {
			// there is only one iteration: it is the last one if there is only one topic
			return "", false
		}
		// at the end all were seen
		n := mk("len", "", 0, types.Typ[types.Int], list)
		if p.F.proveEq(toPoly(ind).plus(pConst(off)), toPoly(n)) {
			return "", true
		}
		return "may stop before the last topic", true
	}
	if v.Op == "append" || v.Op == "nil" {
		return "does not carry all topics", true
	}
	return "", false
}

func checkC43(r *Report, L *Loaded) {
	r.Rule = "what is encoded for the connection is what the caller asked for: Publish encodes the given packet with nothing but the packet identifier changed; the topics of SUBSCRIBE and UNSUBSCRIBE are built by a loop that adds exactly one topic in each iteration, with filter and options of the given topic at the loop's index, which starts at zero, grows by one and has reached the number of topics at the end; DISCONNECT has reason code 0x04 exactly where publishing the will was asked for, and the given session expiry interval exactly where that of the CONNECT packet is known to be non-zero"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	c.paths(func(p *path) {
		for _, e := range p.ev {
			if e.Kind != "NetWrite" {
				continue
			}
			typ, snap := packetOf(e)
			switch {
			case typ == "Publish" && p.name == "Publish":
				var pub *Term
				for i, prm := range p.run.Method.Params {
					if nameOfType(prm.Type()) == "Publish" {
						pub = p.run.Params[i]
					}
				}
				if pub == nil || snap == nil {
					r.count("requests of another form (not decided)", 1)
					continue
				}
				r.count("publishes", 1)
				u, _ := snap.Typ.Underlying().(*types.Struct)
				for i, v := range snap.Args {
					name := u.Field(i).Name()
					if name == "PacketIdentifier" || name == "Header" || !u.Field(i).Exported() {
						continue
					}
					a := mkFA(pub, snap.Typ, i)
					want := mk("init", "", 0, u.Field(i).Type(), a)
					v := stripConv(unwrap(v))
					if v == want || v.Op == "init" && v.Args[0] == a || isIntegral(u.Field(i).Type()) && p.F.proveEq(toPoly(v), toPoly(want)) {
						continue
					}
					if _, isC := toPoly(v).isConst(); isC || v.Op == "nil" || v.Op == "init" {
						r.violate("publish:"+name, e.Pos, "Publish sends a packet with %s %s, which is not that of the packet it was given", name, short(v))
					} else {
						r.count("fields of another form (not decided)", 1)
					}
				}
			case typ == "Subscribe" || typ == "Unsubscribe":
				var list *Term
				for i, prm := range p.run.Method.Params {
					if _, ok := prm.Type().Underlying().(*types.Slice); ok {
						list = p.run.Params[i]
					}
				}
				topics := packetField(snap, "Topics")
				if list == nil || topics == nil {
					r.count("requests of another form (not decided)", 1)
					continue
				}
				why, ok := p.allTopics(topics, list)
				switch {
				case !ok:
					r.count("requests of another form (not decided)", 1)
				case why != "":
					r.violate("topics:"+p.name, e.Pos, "%s sends a %s that %s (%s)", p.name, typ, why, short(topics))
				default:
					r.count("lists of topics", 1)
				}
			case typ == "Disconnect" && p.name != "Poll":
				r.count("disconnects", 1)
				var will, expiry *Term
				for i, prm := range p.run.Method.Params {
					if i == 0 {
						continue
					}
					if b, ok := prm.Type().Underlying().(*types.Basic); ok {
						switch {
						case b.Info()&types.IsBoolean != 0:
							will = p.run.Params[i]
						case b.Info()&types.IsInteger != 0:
							expiry = p.run.Params[i]
						}
					}
				}
				rc := packetField(snap, "ReasonCode")
				if will != nil {
					v, known := p.F.eval(will)
					switch {
					case !known:
						r.violate("will-undecided:"+p.name, e.Pos, "%s sends a DISCONNECT without having looked whether the will is to be published", p.name)
					case v && !p.equals(rc, 4):
						r.violate("will:"+p.name, e.Pos, "%s sends a DISCONNECT with reason code %s where the will is to be published", p.name, short(rc))
					case !v && !p.zero(rc):
						r.violate("no-will:"+p.name, e.Pos, "%s sends a DISCONNECT with reason code %s where the will is not to be published", p.name, short(rc))
					}
				}
				p.expiryCarried(r, e, packetField(snap, "SessionExpiryInterval"), expiry)
			}
		}
	})
	r.floor("publishes", 5)
	r.floor("disconnects", 5)
}

// expiryCarried decides whether a DISCONNECT carries the session expiry interval that was asked for, if the CONNECT packet
// had one.
func (p *path) expiryCarried(r *Report, e *Event, sei, asked *Term) {
	if sei == nil {
		return
	}
	var held *Term
	for _, x := range p.ev {
		if x == e {
			break
		}
		if x.Kind == "Read" && x.Name == p.c.expiryRegion() {
			held = x.Args[0]
		}
	}
	if asked == nil {
		if !p.zero(sei) {
			r.violate("expiry:"+p.name, e.Pos, "%s sends a DISCONNECT with session expiry interval %s although none was asked for", p.name, short(sei))
		}
		return
	}
	// the parameter has more values than the property
	if v := stripConv(unwrap(sei)); v.Op == "trunc" && (v.Str == "u32" || v.Str == "s32" || v.Str == "u64") {
		sei = v.Args[0]
	}
	switch {
	case p.zero(asked) && p.zero(sei):
	case held == nil:
		r.violate("expiry-undecided:"+p.name, e.Pos, "%s sends a DISCONNECT without having looked whether the CONNECT packet had a session expiry interval", p.name)
	case p.nonzero(held) && !same(sei, asked):
		r.violate("expiry:"+p.name, e.Pos, "%s sends a DISCONNECT with session expiry interval %s, which is not the one that was asked for", p.name, short(sei))
	case !p.nonzero(held) && !p.zero(held):
		r.violate("expiry-undecided:"+p.name, e.Pos, "%s sends a DISCONNECT without having looked whether the CONNECT packet had a session expiry interval", p.name)
	case p.zero(held) && !p.zero(sei):
		r.violate("expiry:"+p.name, e.Pos, "%s sends a DISCONNECT with a session expiry interval although the CONNECT packet had none", p.name)
	}
}

// expiryRegion is the part of the client's state in which Connect keeps the session expiry interval of the CONNECT packet.
func (c *Client) expiryRegion() string {
	if c.expiry != nil {
		return *c.expiry
	}
	found := map[string]bool{}
	c.paths(func(p *path) {
		if p.name != "Connect" || !p.okReturn() {
			return
		}
		for _, e := range p.writes() {
			typ, snap := packetOf(e)
			if typ != "Connect" {
				continue
			}
			for _, w := range p.ev {
				if w.Kind == "Write" && stripConv(unwrap(w.Args[0])) == stripConv(unwrap(packetField(snap, "SessionExpiryInterval"))) {
					found[w.Name] = true
				}
			}
		}
	})
	s := ""
	if len(found) == 1 {
		for k := range found {
			s = k
		}
	}
	c.expiry = &s
	return s
}

func init() {
	checks["C41"] = checkC41
	checks["C42"] = checkC42
	checks["C43"] = checkC43
}
