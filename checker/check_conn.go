package main

import (
	"go/types"
	"strings"
)

// usesNet tells whether an event reads from or writes to the network connection.
func usesNet(e *Event) bool {
	return e.Kind == "NetWrite" || e.Kind == "NetRead" || e.Kind == "Decode"
}

// noNetInLoops reports network use inside of loops, where it would not be bounded.
func noNetInLoops(r *Report, p *path) {
	p.inLoops(func(e *Event, _ []*Event, _ int) {
		if usesNet(e) || e.Kind == "ConnClose" || e.Kind == "SetDeadline" {
			r.violate("net-in-loop:"+p.name, e.Pos, "%s uses the network in a loop: the number of packets it handles is not fixed", p.name)
		}
	})
}

func hasNet(p *path) bool {
	return p.index(0, usesNet) >= 0
}

func checkC14(r *Report, L *Loaded) {
	r.Rule = "every write to the network connection hands over exactly one control packet that was encoded without error, holding the connection lock; after a write that failed with bytes possibly written, the connection is closed before the connection lock is released and before any other write"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "connected") {
		return
	}
	c.paths(func(p *path) {
		one := func(e *Event) {
			r.count("network writes", 1)
			if e.Name == "direct" {
				r.violate("piecemeal:"+p.name, e.Pos, "%s encodes a packet straight to the network connection, one write for each field", p.name)
				return
			}
			if t, _ := packetOf(e); t == "" {
				r.violate("not-one-packet:"+p.name, e.Pos, "%s writes %s to the network connection, which is not exactly one completely encoded packet", p.name, short(e.Args[0]))
			}
			if !contains(e.Locks, ro.conn) {
				r.violate("unlocked-write:"+p.name, e.Pos, "%s writes to the network connection without holding %s", p.name, ro.conn)
			}
		}
		p.inLoops(func(e *Event, body []*Event, i int) {
			if e.Kind != "NetWrite" {
				return
			}
			one(e)
			if v, k := e.Facts.eval(mkIsNil(e.Args[1])); !k || !v {
				closed := false
				for _, x := range body[i+1:] {
					closed = closed || x.Kind == "ConnClose"
				}
				if !closed {
					r.violate("partial-write:"+p.name, e.Pos, "%s goes on after a write that may have failed part-way", p.name)
				}
			}
		})
		for i, e := range p.ev {
			if e.Kind != "NetWrite" {
				continue
			}
			one(e)
			if p.ok(e) {
				continue
			}
			if len(e.Ret) > 0 && p.F.proveLe(toPoly(e.Ret[0])) {
				continue // nothing was written
			}
			r.count("failed writes followed", 1)
			closed := false
			for _, x := range p.ev[i+1:] {
				if x.Kind == "ConnClose" {
					closed = true
					break
				}
				if x.Kind == "NetWrite" || x.Kind == "Unlock" && x.Name == ro.conn {
					break
				}
			}
			if !closed {
				r.violate("partial-write:"+p.name, e.Pos, "after a write of %s that failed part-way, %s neither closes the connection before it releases %s nor before the next write", short(e.Args[0]), p.name, ro.conn)
			}
		}
		// nothing is written after the connection was closed
		closed := false
		for _, e := range p.ev {
			if e.Kind == "ConnClose" {
				closed = true
			}
			if e.Kind == "NetWrite" && closed {
				r.violate("write-after-close:"+p.name, e.Pos, "%s writes to the connection after it closed it", p.name)
			}
		}
	})
	r.floor("network writes", 40)
	r.floor("failed writes followed", 10)
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func checkC15(r *Report, L *Loaded) {
	r.Rule = "at every network write, while the connection lock is held, the connected flag has been read as true since the lock was acquired (as false for CONNECT); a call that may return a nil error has used the network in that state"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "connected") {
		return
	}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		sentConnect := false
		used := false
		for _, e := range p.ev {
			if !usesNet(e) {
				continue
			}
			want := true
			typ := "a packet"
			if e.Kind == "NetWrite" {
				typ, _ = packetOf(e)
				if typ == "Connect" {
					want, sentConnect = false, true
				}
				if p.ok(e) {
					used = true
				}
			} else {
				typ = "read"
				if sentConnect {
					want = false
				}
				used = used || e.Kind == "Decode"
			}
			if e.Kind == "NetWrite" && typ == "Connect" && p.name != "Connect" {
				r.violate("connect-elsewhere:"+p.name, e.Pos, "%s sends a CONNECT packet", p.name)
			}
			r.count("network uses", 1)
			if !contains(e.Locks, ro.conn) {
				r.violate("unlocked:"+p.name, e.Pos, "%s uses the network without holding %s", p.name, ro.conn)
				continue
			}
			v := e.shared(ro.flag)
			if !p.is(v, want) {
				r.violate("unchecked:"+p.name+":"+typ, e.Pos, "%s uses the network (%s) where %s is not known to be %v under the same hold of %s", p.name, typ, ro.flag, want, ro.conn)
			}
		}
		if !p.networkMethod() {
			return
		}
		if p.okReturn() {
			r.count("returns without an error", 1)
			if !used {
				r.violate("silent:"+p.name, p.o.Pos, "%s can return without an error although it used the network for nothing", p.name)
			}
		}
	})
	r.floor("network uses", 100)
	r.floor("returns without an error", 20)
}

// networkMethod tells whether a method uses the network on any of its paths.
func (p *path) networkMethod() bool {
	for _, o := range p.run.Outcomes {
		for _, e := range o.State.trace {
			if usesNet(e) {
				return true
			}
		}
	}
	return false
}

// waitClass is a kind of channel on which calls wait.
type waitClass struct {
	field string // a channel in a field of the client
	reg   string // a channel of the call's own, kept in this map
}

func (c *Client) waitClasses(r *Report) []waitClass {
	m := map[waitClass]bool{}
	c.paths(func(p *path) {
		var flat []*Event
		walk(p.ev, false, func(e *Event, _ bool) { flat = append(flat, e) })
		for _, e := range flat {
			if e.Kind != "SelectBlock" && e.Kind != "Recv" {
				continue
			}
			for _, ch := range append(append([]*Term{}, e.Args...), e.Ret...) {
				if ch == nil || ch.Op == "ctxdone" || ch.Typ == nil {
					continue
				}
				if _, ok := ch.Typ.Underlying().(*types.Chan); !ok {
					continue
				}
				if reg := p.regOf(ch); reg != "" {
					m[waitClass{field: reg}] = true
					continue
				}
				found := false
				for _, s := range flat {
					if s.Kind == "MapSet" && s.Args[2] == ch && strings.HasPrefix(s.Name, "c.") {
						m[waitClass{reg: s.Name}] = true
						found = true
					}
				}
				if !found {
					r.violate("unknown-wait:"+p.name, e.Pos, "%s waits on a channel that nothing else can know", p.name)
				}
			}
		}
	})
	var out []waitClass
	for w := range m {
		out = append(out, w)
	}
	return out
}

// wokenAfter tells whether a path wakes the waiting calls of a class at or after an event.
func (p *path) wokenAfter(from int, w waitClass, flagAt int) bool {
	for i := from; i < len(p.ev); i++ {
		e := p.ev[i]
		if w.field != "" {
			if (e.Kind == "Offer" || e.Kind == "Send" || e.Kind == "Close") && p.regOf(e.Args[0]) == w.field && (i > flagAt || p.sameSection(i, flagAt)) {
				return true
			}
			continue
		}
		if e.Kind == "RangeNext" && e.Name == w.reg && p.is(e.Args[3], false) {
			// every entry was visited
			ok := true
			for k := i - 1; k >= from; k-- {
				l := p.ev[k]
				if l.Kind != "Loop" {
					continue
				}
				for _, b := range l.Loop.bodies {
					var v *Term
					offered := false
					for _, x := range b {
						if x.Kind == "RangeNext" && x.Name == w.reg {
							v = x.Args[2]
						}
						if (x.Kind == "Offer" || x.Kind == "Send" || x.Kind == "Close") && v != nil && x.Args[0] == v {
							offered = true
						}
					}
					if v != nil && !offered {
						ok = false
					}
				}
			}
			if ok && (i > flagAt || p.sameSection(i, flagAt)) {
				return true
			}
		}
	}
	return false
}

// endsConnection tells what is missing for the connected state to have ended after an event.
func (p *path) endsConnection(i int, ro *Roles, ws []waitClass) string {
	closed := -1
	flag := -1
	for j := i; j < len(p.ev); j++ {
		e := p.ev[j]
		switch e.Kind {
		case "ConnClose":
			closed = j
		case "Write":
			if e.Name == ro.flag {
				if e.Args[0].isFalse() {
					flag = j
				} else {
					flag = -1
				}
			}
		case "Unlock":
			if e.Name == ro.conn {
				j = len(p.ev)
			}
		}
	}
	if closed < 0 {
		return "the connection is not closed"
	}
	if flag < 0 {
		// it may have been false all the time
		if v := p.ev[i].shared(ro.flag); !p.is(v, false) || p.name != "Connect" {
			return ro.flag + " is not cleared"
		}
		flag = i
		return ""
	}
	for _, w := range ws {
		if !p.wokenAfter(i, w, flag) {
			return "calls that wait on " + w.field + w.reg + " are not woken after " + ro.flag + " was cleared"
		}
	}
	return ""
}

const errTimeout = "os.ErrDeadlineExceeded"

// timedOut decides whether an error is a timeout.
func (p *path) timedOut(err *Term) (val, known bool) {
	for t, v := range p.F.truth {
		if t.Op == "errIs" && t.Args[0] == err && t.Args[1].Op == "gerr" && t.Args[1].Str == errTimeout {
			return v, true
		}
		if t.Op == "eq" && v && (t.Args[0] == err && t.Args[1].Op == "gerr" && t.Args[1].Str == errTimeout || t.Args[1] == err && t.Args[0].Op == "gerr" && t.Args[0].Str == errTimeout) {
			return true, true
		}
	}
	return false, false
}

// disallowed are the packet types that a server may not send to a connected client.
var disallowed = map[int64]string{0: "reserved", 1: "CONNECT", 2: "CONNACK", 8: "SUBSCRIBE", 10: "UNSUBSCRIBE", 12: "PINGREQ"}

func checkC16(r *Report, L *Loaded) {
	r.Rule = "the connected flag is set only after a CONNACK with a reason code below 0x80 was decoded; after every event that ends the connection (DISCONNECT sent or received, failed read or decode other than a first-byte timeout, forbidden packet type, failed handshake, overdue ping) the path clears the flag, closes the connection and offers a wake-up to every channel that API calls wait on"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "connected", "channel on which Publish waits", "waiting calls") {
		return
	}
	ws := c.waitClasses(r)
	r.count("kinds of waiting calls", len(ws))
	r.floor("kinds of waiting calls", 2)
	if v := c.Ctor[strings.TrimPrefix(ro.flag, "c.")]; v == nil || !v.isFalse() {
		r.violate("new-client", 0, "a new client does not start in the disconnected state")
	}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if e.Kind == "Write" && e.Name == ro.flag {
				r.violate("flag-in-loop:"+p.name, e.Pos, "%s changes %s in a loop", p.name, ro.flag)
			}
		})
		must := func(i int, key, why string) {
			r.count("events that end the connection", 1)
			if msg := p.endsConnection(i, ro, ws); msg != "" {
				r.violate("stays-connected:"+p.name+":"+key, p.ev[i].Pos, "%s: after %s, %s (the path returns at %s)", p.name, why, msg, p.where())
			}
		}
		connackOK := false
		sentConnect := -1
		first := true
		for i, e := range p.ev {
			switch e.Kind {
			case "Write":
				if e.Name != ro.flag {
					continue
				}
				switch {
				case e.Args[0].isTrue():
					r.count("transitions to connected", 1)
					if !connackOK {
						r.violate("connected-early:"+p.name, e.Pos, "%s sets %s without having decoded a CONNACK with a reason code below 0x80", p.name, ro.flag)
					}
				case e.Args[0].isFalse():
				default:
					r.violate("flag-value:"+p.name, e.Pos, "%s sets %s to a value that is not a constant", p.name, ro.flag)
				}
			case "ConnClose":
				connackOK = false
			case "NetWrite":
				typ, snap := packetOf(e)
				if typ == "Connect" && p.ok(e) {
					sentConnect = i
				}
				if typ == "Disconnect" {
					rc := packetField(snap, "ReasonCode")
					if p.ok(e) {
						must(i, "disconnect-sent", "a DISCONNECT was sent")
					} else if rc != nil && p.atLeast(rc, 0x80) {
						must(i, "disconnect-failed", "sending the DISCONNECT for a protocol violation failed")
					}
				}
			case "Encode":
				if e.Name == "Disconnect" && p.failed(e) && p.atLeast(packetField(e.Args[2], "ReasonCode"), 0x80) {
					must(i, "disconnect-failed", "encoding the DISCONNECT for a protocol violation failed")
				}
			case "SetDeadline":
				if !first && sentConnect < 0 && p.failed(e) {
					must(i, "deadline-failed", "setting the deadline for the rest of a packet failed")
				}
			case "Decode":
				wasFirst := first
				first = false
				if p.ok(e) {
					if e.Name == "Connack" && sentConnect >= 0 && p.below(p.decodedField(e, "ReasonCode"), 0x80) {
						connackOK = true
					}
					if e.Name == "Disconnect" {
						must(i, "disconnect-received", "a DISCONNECT was received")
					}
					continue
				}
				if wasFirst && sentConnect < 0 {
					to, known := p.timedOut(p.evErr(e))
					if known && to {
						r.count("first-byte timeouts", 1)
						for _, x := range p.ev[i+1:] {
							if x.Kind == "Write" || x.Kind == "ConnClose" || usesNet(x) || x.Kind == "MapSet" || x.Kind == "MapDel" {
								r.violate("timeout-changes:"+p.name, x.Pos, "%s changes the state of the client after a first-byte read that only timed out", p.name)
							}
						}
						continue
					}
					if !known {
						r.violate("timeout-unknown:"+p.name, e.Pos, "%s does not tell a first-byte read that timed out from one that failed", p.name)
						continue
					}
				}
				must(i, "decode-failed:"+e.Name, "reading "+e.Name+" failed")
			}
		}
		if sentConnect >= 0 {
			if err, _ := p.err(); !p.isNil(err) {
				must(sentConnect, "handshake", "the handshake failed")
			}
		}
		if p.name == "Poll" {
			if i, h := p.header(); h != nil {
				for _, t := range p.headerTypes() {
					if n, bad := disallowed[t]; bad {
						// the rest of the header may not have been read yet
						if j := p.index(i+1, func(e *Event) bool { return (e.Kind == "Decode" || e.Kind == "SetDeadline") && p.failed(e) }); j >= 0 {
							continue
						}
						must(i, "forbidden-type", "a packet of type "+n+" was received")
					}
				}
			}
			if e, has := p.err(); has && e.Op == "iface" && e.Args[0].isInt() && e.Args[0].Int == 0x8D {
				if p.index(0, func(e *Event) bool { return e.Kind == "ConnClose" }) < 0 {
					r.violate("stays-connected:Poll:ping-overdue", p.o.Pos, "Poll reports an overdue ping response without closing the connection")
				} else {
					must(0, "ping-overdue", "the ping response was overdue")
				}
			}
		}
		// a call that leaves the wait for quota since the connection is gone hands the wake-up on
		if p.name == "Publish" {
			waited := -1
			for i, e := range p.ev {
				if e.Kind != "Loop" {
					continue
				}
				for _, b := range e.Loop.bodies {
					for _, x := range b {
						if x.Kind == "SelectBlock" && x.Name == "recv" && p.regOf(x.Args[0]) == ro.sem {
							waited = i
						}
					}
				}
			}
			if waited < 0 {
				return
			}
			// the first decision after the wait
			for i := waited + 1; i < len(p.ev); i++ {
				e := p.ev[i]
				if e.Kind == "Write" && e.Name == ro.sendQ || e.Kind == "SelectBlock" {
					break
				}
				if e.Kind == "Read" && e.Name == ro.flag && p.is(e.Args[0], false) {
					r.count("waits that end with the connection", 1)
					j := p.index(waited+1, func(x *Event) bool {
						return (x.Kind == "Offer" || x.Kind == "Send") && p.regOf(x.Args[0]) == ro.sem
					})
					if j < 0 {
						r.violate("wakeup-lost", e.Pos, "a call to Publish that was woken since the connection ended does not wake the next one")
					}
					break
				}
			}
		}
	})
	r.floor("transitions to connected", 1)
	r.floor("events that end the connection", 50)
	r.floor("first-byte timeouts", 1)
	r.floor("waits that end with the connection", 1)
}

func seconds(t *Term) *Poly { return toPoly(t).scale(1000000000) }

// lastWrite is the last value written to a part of the client's state on a path.
func (p *path) lastWrite(reg string) *Event {
	var w *Event
	for _, e := range p.ev {
		if e.Kind == "Write" && e.Name == reg {
			w = e
		}
	}
	return w
}

func checkC24(r *Report, L *Loaded) {
	r.Rule = "Connect writes exactly one CONNECT packet before it reads, decodes only a fixed header of type CONNACK and that CONNACK, returns its reason code if that is 0x80 or above and nil only below that; the keep-alive interval and session expiry interval that it leaves behind are those of the packets, and DISCONNECT carries a session expiry interval only where that is known to be non-zero"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "keep-alive", "connected") {
		return
	}
	// what decides whether a DISCONNECT may carry a session expiry interval
	expiry := map[string]bool{}
	var checks []func()
	var connects []*path
	c.paths(func(p *path) {
		if p.name == "Connect" {
			connects = append(connects, p)
			return
		}
		for _, e := range p.ev {
			if e.Kind != "NetWrite" {
				continue
			}
			typ, snap := packetOf(e)
			if typ != "Disconnect" {
				continue
			}
			r.count("DISCONNECT packets sent", 1)
			sei := packetField(snap, "SessionExpiryInterval")
			if sei == nil || p.zero(sei) {
				continue
			}
			found := ""
			for t, v := range p.F.truth {
				if t.Op == "eq0" && !v {
					if reg := p.regOf(t.Args[0]); reg != "" {
						found = reg
						expiry[reg] = true
					}
				}
			}
			for t, iv := range p.F.iv {
				if reg := p.regOf(t); reg != "" && iv.lo >= 1 && isIntegral(t.Typ) && found == "" && !strings.Contains(typeName(t.Typ), "Duration") {
					found = reg
					expiry[reg] = true
				}
			}
			if found == "" {
				r.violate("expiry-unchecked:"+p.name, e.Pos, "%s may send a DISCONNECT with a session expiry interval without knowing that the CONNECT had one", p.name)
			}
		}
	})
	for _, p := range connects {
		noNetInLoops(r, p)
		r.count("paths through Connect", 1)
		var packet *Term
		for i, prm := range p.run.Method.Params {
			if nameOfType(prm.Type()) == "Connect" {
				packet = p.run.Params[i]
			}
		}
		if packet == nil {
			r.violate("anchor:packet", p.o.Pos, "Connect has no CONNECT packet among its parameters")
			return
		}
		sent := false
		var hdr *Term
		var connack *Event
		var connectSnap *Term
		for _, e := range p.ev {
			switch e.Kind {
			case "NetWrite":
				typ, snap := packetOf(e)
				if typ != "Connect" || sent {
					r.violate("sends:"+typ, e.Pos, "Connect sends %s, not just one CONNECT packet", short(e.Args[0]))
				}
				sent = true
				connectSnap = snap
			case "Encode":
				if e.Name == "Connect" && e.Args[0] != packet {
					r.violate("other-packet", e.Pos, "Connect sends another packet than the one it was given")
				}
			case "NetRead":
				r.violate("raw-read", e.Pos, "Connect reads from the connection without a decoder")
			case "Decode":
				if !sent {
					r.violate("reads-first", e.Pos, "Connect reads before it sent the CONNECT packet")
				}
				switch {
				case e.Name == "FixedHeader":
					if p.ok(e) {
						hdr = packetField(e.Args[2], "Header")
					}
				case !isPacketType(e.Name):
					if p.ok(e) && hdr == nil {
						hdr = e.Args[2]
					}
				case e.Name == "Connack":
					if !p.ok(e) {
						continue
					}
					connack = e
					if hdr == nil {
						r.violate("no-header", e.Pos, "Connect decodes the CONNACK without its header")
						continue
					}
					for _, v := range e.Facts.allowedValues(hdr, 0, 255) {
						if v>>4 != 2 {
							r.violate("accepts-other", e.Pos, "Connect decodes a packet of type %d as CONNACK", v>>4)
							break
						}
					}
				default:
					r.violate("decodes:"+e.Name, e.Pos, "Connect decodes a packet of type %s", e.Name)
				}
			}
		}
		err, _ := p.err()
		if err == nil {
			continue
		}
		var rc *Term
		if connack != nil {
			rc = p.decodedField(connack, "ReasonCode")
		}
		if !p.nonNil(err) {
			r.count("successful connects", 1)
			if connack == nil || !p.below(rc, 0x80) {
				r.violate("nil-without-connack", p.o.Pos, "Connect can return nil without having decoded a CONNACK with a reason code below 0x80")
				continue
			}
			if w := p.lastWrite(ro.flag); w == nil || !w.Args[0].isTrue() {
				r.violate("nil-unconnected", p.o.Pos, "Connect can return nil without entering the connected state")
			}
			// keep-alive
			ska, ka := p.decodedField(connack, "ServerKeepAlive"), packetField(connectSnap, "KeepAlive")
			var want *Poly
			switch {
			case p.nonzero(ska):
				want = seconds(ska)
			case p.zero(ska):
				want = seconds(ka)
			default:
				r.violate("keepalive-undecided", p.o.Pos, "Connect does not distinguish whether the server has a keep-alive interval")
				continue
			}
			w := p.lastWrite(ro.ka)
			r.count("keep-alive decisions", 1)
			switch {
			case w == nil:
				r.violate("keepalive-kept", p.o.Pos, "Connect returns nil without setting the keep-alive interval that was negotiated, so that of an earlier connection stays")
			case !p.F.proveEq(toPoly(unwrap(w.Args[0])), want):
				r.violate("keepalive-value", w.Pos, "Connect sets the keep-alive interval to %s where it must be %s", short(w.Args[0]), want.key())
			}
			// session expiry
			for reg := range expiry {
				w := p.lastWrite(reg)
				if w == nil || unwrap(w.Args[0]) != packetField(connectSnap, "SessionExpiryInterval") {
					r.violate("expiry-value", p.o.Pos, "Connect does not keep the session expiry interval of the CONNECT packet in %s, which decides whether a DISCONNECT may carry one", reg)
				}
			}
		}
		if connack != nil && p.atLeast(rc, 0x80) {
			r.count("refused connects", 1)
			isCode := err.Op == "iface" && typeName(err.Typ) == "mqtt.ReasonCode" && stripConv(err.Args[0]) == rc
			isClose := false
			for _, e := range p.ev {
				if e.Kind == "ConnClose" && p.failed(e) && p.evErr(e) == err {
					isClose = true
				}
			}
			if !isCode && !isClose {
				r.violate("refusal", p.o.Pos, "Connect returns %s where the server refused the connection with a reason code", short(err))
			}
		} else if connack != nil && !p.below(rc, 0x80) {
			r.violate("reason-undecided", p.o.Pos, "Connect returns after a CONNACK without having checked its reason code")
		}
	}
	for _, f := range checks {
		f()
	}
	r.floor("paths through Connect", 10)
	r.floor("successful connects", 3)
	r.floor("refused connects", 1)
	r.floor("DISCONNECT packets sent", 2)
}

func stripConv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "wrap") {
		t = t.Args[0]
	}
	return t
}

// timeAdd takes a term apart that adds a duration to the current time.
func timeAdd(t *Term) (now, d *Term) {
	if t != nil && t.Op == "call" && t.Str == "(time.Time).Add" && len(t.Args) == 2 && t.Args[0].Op == "sym" && strings.HasPrefix(t.Args[0].Str, "now@") {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

func isZeroTime(t *Term) bool {
	if t == nil || t.Op != "struct" {
		return false
	}
	for _, a := range t.Args {
		if !(a.isInt() && a.Int == 0 || a.isNil()) {
			return false
		}
	}
	return true
}

// overdue decides whether the path found the current time to be after a deadline kept by the client.
func (p *path) overdue() (reg string, val, known bool) {
	for t, v := range p.F.truth {
		if t.Op != "call" || len(t.Args) != 2 {
			continue
		}
		now, dl := t.Args[0], t.Args[1]
		if t.Str == "(time.Time).Before" {
			now, dl = dl, now
		} else if t.Str != "(time.Time).After" {
			continue
		}
		if now.Op == "sym" && strings.HasPrefix(now.Str, "now@") {
			if reg := p.timeReg(dl); reg != "" {
				return reg, v, true
			}
		}
	}
	return "", false, false
}

// timeReg is the part of the client's state that a time was read from.
func (p *path) timeReg(t *Term) string {
	if reg := p.regOf(t); reg != "" {
		return reg
	}
	return ""
}

func checkC25(r *Report, L *Loaded) {
	r.Rule = "KeepAlive writes exactly one PINGREQ; every path of Poll that uses the network has decided that the keep-alive interval is zero or the ping response deadline has not passed, and 0x8D is returned (or a failure to close) exactly where it has; the deadline is written only after a CONNACK was accepted and after a PINGRESP, with the current time plus twice the interval; a PINGRESP with a body is refused"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "keep-alive", "connected") {
		return
	}
	dls := map[string]bool{}
	c.paths(func(p *path) {
		if p.name == "Poll" {
			if reg, _, k := p.overdue(); k {
				dls[reg] = true
			}
		}
	})
	var problems []string
	dl := one("ping response deadline compared with the current time by Poll", dls, &problems)
	for _, m := range problems {
		r.violate("anchor:deadline", 0, "%s", m)
	}
	if dl == "" {
		return
	}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		if p.name == "KeepAlive" {
			n := 0
			for _, e := range p.writes() {
				n++
				typ, snap := packetOf(e)
				h, rem := packetField(snap, "Header"), packetField(snap, "Remaining")
				if typ != "FixedHeader" || h == nil || !h.isInt() || h.Int != 0xC0 || rem == nil || !rem.isInt() || rem.Int != 0 {
					r.violate("pingreq", e.Pos, "KeepAlive sends %s, which is not a PINGREQ", short(e.Args[0]))
				}
			}
			r.count("paths through KeepAlive", 1)
			if n > 1 || n == 0 && p.okReturn() {
				r.violate("pingreq-count", p.o.Pos, "KeepAlive sends %d packets", n)
			}
			if n == 1 && p.failed(p.writes()[0]) == p.okReturn() {
				r.violate("pingreq-error", p.o.Pos, "KeepAlive returns without an error although it failed to send the PINGREQ")
			}
		}
		// the deadline is written by nothing else
		for i, e := range p.ev {
			if e.Kind != "Write" || e.Name != dl {
				continue
			}
			r.count("writes of the ping response deadline", 1)
			now, d := timeAdd(e.Args[0])
			if now == nil {
				r.violate("deadline-value:"+p.name, e.Pos, "%s sets the ping response deadline to %s, which is not a time from now", p.name, short(e.Args[0]))
				continue
			}
			// the interval at that time: the last value written, or the one read
			ka := p.kaAt(ro, i)
			if ka == nil || !toPoly(unwrap(d)).eq(toPoly(unwrap(ka)).scale(2)) {
				r.violate("deadline-value:"+p.name, e.Pos, "%s extends the ping response deadline by %s, which is not twice the keep-alive interval", p.name, short(d))
			}
			t0 := p.index(0, func(x *Event) bool { return x.Kind == "Now" && x.Args[0] == now })
			switch p.name {
			case "Connect":
				j := p.index(0, func(x *Event) bool { return x.Kind == "Decode" && x.Name == "Connack" && p.ok(x) })
				if j < 0 || j > i || t0 < j {
					r.violate("deadline-early:Connect", e.Pos, "Connect sets the ping response deadline before the CONNACK arrived")
				}
			case "Poll":
				j, _ := p.header()
				if !p.onlyType(13) || t0 < j {
					r.violate("deadline-extended:Poll", e.Pos, "Poll extends the ping response deadline when it receives something other than a PINGRESP")
				}
				if _, rem := p.remaining(); !p.zero(rem) {
					r.violate("deadline-body:Poll", e.Pos, "Poll extends the ping response deadline for a PINGRESP that may have a body")
				}
			default:
				r.violate("deadline-written:"+p.name, e.Pos, "%s changes the ping response deadline", p.name)
			}
		}
		wrote := p.index(0, func(e *Event) bool { return e.Kind == "Write" && e.Name == dl }) >= 0
		if p.name == "Connect" && p.okReturn() && !wrote {
			r.violate("deadline-unset:Connect", p.o.Pos, "Connect can succeed without setting the ping response deadline")
		}
		if p.name != "Poll" {
			e, has := p.err()
			if has && e.Op == "iface" && e.Args[0].isInt() && e.Args[0].Int == 0x8D {
				r.violate("timeout-elsewhere:"+p.name, p.o.Pos, "%s reports a keep-alive timeout", p.name)
			}
			return
		}
		_, over, known := p.overdue()
		ka := p.kaAt(ro, len(p.ev))
		none := ka != nil && p.F.proveLe(toPoly(ka))
		some := ka != nil && p.atLeast(ka, 1)
		net := hasNet(p)
		if net {
			r.count("paths of Poll that read", 1)
			if !(none || known && !over) {
				r.violate("overdue-ignored", p.o.Pos, "Poll uses the network although the ping response may be overdue")
			}
		}
		e, _ := p.err()
		is8d := e != nil && e.Op == "iface" && e.Args[0].isInt() && e.Args[0].Int == 0x8D
		if is8d {
			r.count("keep-alive timeouts", 1)
			if !(some && known && over) {
				r.violate("false-timeout", p.o.Pos, "Poll reports a keep-alive timeout although the keep-alive interval may be zero or the ping response deadline may not have passed")
			}
		}
		if some && known && over && !is8d {
			closeErr := false
			for _, x := range p.ev {
				closeErr = closeErr || x.Kind == "ConnClose" && p.failed(x) && p.evErr(x) == e
			}
			if !closeErr {
				r.violate("overdue-unreported", p.o.Pos, "Poll does not report that the ping response is overdue")
			}
		}
		if some && known && over && p.index(0, func(x *Event) bool { return x.Kind == "ConnClose" }) < 0 {
			r.violate("overdue-open", p.o.Pos, "Poll does not close the connection although the ping response is overdue")
		}
		// closing because of anything else is the subject of other properties
		if p.onlyType(13) {
			ri, rem := p.remaining()
			if rem == nil {
				return
			}
			r.count("PINGRESP paths", 1)
			if p.okReturn() {
				if !p.zero(rem) {
					r.violate("pingresp-body", p.o.Pos, "Poll accepts a PINGRESP that may have a body")
				}
				if !wrote {
					r.violate("pingresp-ignored", p.o.Pos, "Poll does not extend the ping response deadline when it receives a PINGRESP")
				}
			} else if p.nonzero(rem) && p.index(ri, func(x *Event) bool { return x.Kind == "ConnClose" }) < 0 {
				r.violate("pingresp-body-open", p.o.Pos, "Poll leaves the connection open with the body of a PINGRESP unread")
			}
		}
	})
	r.floor("writes of the ping response deadline", 2)
	r.floor("paths through KeepAlive", 4)
	r.floor("keep-alive timeouts", 1)
	r.floor("PINGRESP paths", 2)
}

// kaAt is the keep-alive interval before an event: what was last written or read.
func (p *path) kaAt(ro *Roles, i int) *Term {
	for j := i - 1; j >= 0; j-- {
		e := p.ev[j]
		if (e.Kind == "Write" || e.Kind == "Read") && e.Name == ro.ka {
			return e.Args[0]
		}
	}
	return nil
}

func checkC26(r *Report, L *Loaded) {
	r.Rule = "on every path of every exported method, a successful SetDeadline call precedes the first network read or write, under the same hold of the connection lock, with the deadline of the method's context if it has one and no deadline otherwise (KeepAlive: one and a half times the interval from now, or none); after a failed one nothing is read or written"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "keep-alive") {
		return
	}
	methods := map[string]bool{}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		for i, e := range p.ev {
			if e.Kind == "SetDeadline" && !p.ok(e) {
				if j := p.index(i+1, usesNet); j >= 0 {
					r.violate("after-failure:"+p.name, p.ev[j].Pos, "%s uses the network after setting the deadline failed", p.name)
				}
			}
		}
		fw := p.index(0, func(e *Event) bool { return e.Kind == "NetWrite" })
		p.deadlineExtended(r)
		fr := p.index(0, func(e *Event) bool { return e.Kind == "NetRead" || e.Kind == "Decode" })
		for k, i := range []int{fw, fr} {
			if i < 0 {
				continue
			}
			methods[p.name] = true
			r.count("first uses of the network", 1)
			what, alt := "writes", "SetWriteDeadline"
			if k == 1 {
				what, alt = "reads", "SetReadDeadline"
			}
			set := -1
			for j := i - 1; j >= 0; j-- {
				e := p.ev[j]
				if e.Kind == "Unlock" && e.Name == ro.conn {
					break
				}
				if e.Kind == "SetDeadline" && (e.Name == "SetDeadline" || e.Name == alt) && p.ok(e) {
					set = j
					break
				}
			}
			if set < 0 {
				r.violate("no-deadline:"+p.name, p.ev[i].Pos, "%s %s before it set its own deadline for the network connection", p.name, what)
				continue
			}
			if k == 1 && fw >= 0 && fw < fr || k == 0 && fr >= 0 && fr < fw {
				continue // decided for what came first
			}
			p.checkDeadline(r, ro, p.ev[set])
		}
	})
	r.count("methods that use the network", len(methods))
	r.floor("methods that use the network", 7)
	r.floor("first uses of the network", 50)
	r.floor("packets whose first byte arrived", 50)
}

// deadlineExtended decides for Poll that the deadline for the arrival of a packet does not apply to what follows its first
// byte.
func (p *path) deadlineExtended(r *Report) {
	if p.name != "Poll" {
		return
	}
	i := p.index(0, func(e *Event) bool { return e.Kind == "Decode" && p.ok(e) })
	if i < 0 || p.ev[i].Name == "FixedHeader" {
		return
	}
	j := p.index(i+1, usesNet)
	if j < 0 {
		return
	}
	r.count("packets whose first byte arrived", 1)
	var last *Event
	for _, e := range p.ev[:j] {
		if e.Kind == "SetDeadline" && p.ok(e) {
			last = e
		}
	}
	if last == nil {
		return
	}
	arg := last.Args[0]
	if arg.Op == "res" && arg.Args[0].Op == "ctxdl" {
		// it is none if the context has none
		if v, known := p.F.eval(mk("res", "", 1, nil, arg.Args[0])); known && !v {
			return
		}
		r.violate("not-extended:"+p.name, p.ev[j].Pos, "%s reads the rest of a packet, or answers it, with the deadline for the arrival of its first byte", p.name)
	}
}

func (p *path) checkDeadline(r *Report, ro *Roles, e *Event) {
	var ctx *Term
	for i, prm := range p.run.Method.Params {
		if typeIs(prm.Type(), "context", "Context") {
			ctx = p.run.Params[i]
		}
	}
	arg := e.Args[0]
	if ctx != nil {
		base := mk("ctxdl", "", 0, nil, ctx)
		val, has := mk("res", "", 0, arg.Typ, base), mk("res", "", 1, nil, base)
		v, known := p.F.eval(has)
		switch {
		case arg == val && (!known || v):
		case arg == val: // contexts without a deadline return the zero time
		case isZeroTime(arg) && known && !v:
		default:
			r.violate("deadline-value:"+p.name, e.Pos, "%s sets the deadline to %s, which is not that of its context", p.name, short(arg))
		}
		return
	}
	ka := p.kaAt(ro, len(p.ev))
	if ka == nil {
		r.violate("deadline-value:"+p.name, e.Pos, "%s sets a deadline without knowing the keep-alive interval", p.name)
		return
	}
	if isZeroTime(arg) {
		if !p.F.proveLe(toPoly(ka)) {
			r.violate("deadline-value:"+p.name, e.Pos, "%s sets no deadline although the keep-alive interval may be above zero", p.name)
		}
		return
	}
	_, d := timeAdd(arg)
	if d == nil || !p.atLeast(ka, 1) || !isOneAndHalf(d, ka) {
		r.violate("deadline-value:"+p.name, e.Pos, "%s sets the deadline to %s, which is not one and a half times the keep-alive interval from now", p.name, short(arg))
	}
}

// isOneAndHalf tells whether a duration is 3/2 of another, for every value of that.
func isOneAndHalf(d, ka *Term) bool {
	for _, v := range []int64{1, 2, 3, 4, 7, 1000000001, 60000000000, 65535000000000} {
		got, ok := ceval(d, map[*Term]int64{ka: v})
		if !ok || got != v+v/2 {
			return false
		}
	}
	return true
}

// clientErrors checks that failures inside of the client's methods reach the caller (part of C07).
func clientErrors(r *Report, L *Loaded) {
	c := clientFor(r, L)
	if c == nil {
		return
	}
	c.paths(func(p *path) {
		err, has := p.err()
		first := true
		check := func(e *Event, F *Facts, inLoop bool) {
			fe := p.evErr(e)
			if e.Kind == "Decode" {
				wasFirst := first
				first = false
				if wasFirst && p.name == "Poll" {
					if to, k := p.timedOut(fe); k && to {
						return
					}
				}
			}
			if fe == nil || e.Kind == "ConnClose" {
				return
			}
			if v, k := F.eval(mkIsNil(fe)); k && v {
				return
			}
			for t, v := range p.F.truth {
				if v && (t.Op == "errIs" || t.Op == "eq") && len(t.Args) == 2 {
					for k := 0; k < 2; k++ {
						if t.Args[k] == fe && t.Args[1-k].Op == "gerr" {
							s := t.Args[1-k].Str
							if e.Kind == "Store" && strings.HasSuffix(s, "storage.ErrDuplicateEntry") || e.Kind == "Drop" && strings.HasSuffix(s, "storage.ErrNoEntry") {
								r.count("tolerated storage results", 1)
								return
							}
						}
					}
				}
			}
			r.count("failures followed to the return", 1)
			what := e.Kind
			if e.Name != "" {
				what += " of " + e.Name
			}
			if !has || inLoop || !p.nonNil(err) {
				r.violate("swallowed:"+p.name+":"+e.Kind+":"+e.Name, e.Pos, "%s can return nil (at %s) although %s failed", p.name, p.where(), what)
			}
		}
		for _, e := range p.ev {
			check(e, p.F, false)
		}
		p.inLoops(func(e *Event, _ []*Event, _ int) { check(e, e.Facts, true) })
	})
	r.floor("failures followed to the return", 50)
}

func init() {
	checks["C14"] = checkC14
	checks["C15"] = checkC15
	checks["C16"] = checkC16
	checks["C24"] = checkC24
	checks["C25"] = checkC25
	checks["C26"] = checkC26
}
