package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

// equals decides whether an integer term is a constant.
func (p *path) equals(t *Term, n int64) bool {
	return t != nil && p.is(tEq0(toPoly(t).minus(pConst(n))), true)
}
func (p *path) differs(t *Term, n int64) bool {
	return t != nil && p.is(tEq0(toPoly(t).minus(pConst(n))), false)
}

// same decides whether two integer terms are the same value, whatever type they are converted to.
func same(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = stripConv(unwrap(a)), stripConv(unwrap(b))
	return a == b || toPoly(a).eq(toPoly(b))
}

// inbound is what a path of Poll decoded.
type inbound struct {
	i   int
	e   *Event
	typ string
	id  *Term
	qos *Term
	obj *Term
}

func (p *path) inbound() *inbound {
	i, e := p.decoded()
	if e == nil {
		return nil
	}
	b := &inbound{i: i, e: e, typ: e.Name, id: p.decodedField(e, "PacketIdentifier"), obj: e.Args[0]}
	if e.Name == "Publish" {
		b.qos = p.decodedField(e, "QoS")
	}
	return b
}

// duplicate decides whether the incoming publish repeats a QoS 2 message that was not released yet.
func (p *path) duplicate(ro *Roles, b *inbound) (dup, known bool) {
	if p.zero(b.qos) || p.equals(b.qos, 1) || p.below(b.qos, 2) {
		return false, true
	}
	for _, e := range p.ev[b.i:] {
		if e.Kind == "MapSet" && e.Name == ro.unreleased {
			break
		}
		if e.Kind == "MapGet" && e.Name == ro.unreleased && same(e.Args[1], b.id) {
			if v, k := p.F.eval(e.Args[3]); k {
				if v && !p.equals(b.qos, 2) {
					return false, p.differs(b.qos, 2)
				}
				return v, true
			}
		}
	}
	return false, false
}

// failures tells whether something outside of the client failed on the path after an event, or the connection was closed.
func (p *path) failures(from int) bool {
	for i, e := range p.ev[from:] {
		if e.Kind == "ConnClose" || p.evErr(e) != nil && !p.ok(e) && !p.mayBeThere(from+i) {
			return true
		}
	}
	return false
}

func (p *path) sent(typ string, from int) (int, *Event) {
	for i := from; i < len(p.ev); i++ {
		if p.ev[i].Kind == "NetWrite" {
			if t, _ := packetOf(p.ev[i]); t == typ {
				return i, p.ev[i]
			}
		}
	}
	return -1, nil
}

var replies = map[string]bool{"Puback": true, "Pubrec": true, "Pubrel": true, "Pubcomp": true}

// wantReply is the packet that must answer an incoming one; known is false if the path does not decide it.
func (p *path) wantReply(b *inbound) (want string, known bool) {
	switch b.typ {
	case "Publish":
		switch {
		case p.zero(b.qos):
			return "", true
		case p.equals(b.qos, 1):
			return "Puback", true
		case p.equals(b.qos, 2):
			return "Pubrec", true
		}
		return "", false
	case "Pubrec":
		rc := p.decodedField(b.e, "ReasonCode")
		switch {
		case p.below(rc, 0x80):
			return "Pubrel", true
		case p.atLeast(rc, 0x80):
			return "", true
		}
		return "", false
	case "Pubrel":
		return "Pubcomp", true
	}
	return "", true
}

func checkC17(r *Report, L *Loaded) {
	r.Rule = "on every path of Poll the type of the decoded packet is the one its first byte says, at most one packet is written, and only after the decoding; it is the reply that the decoded packet requires, with its packet identifier and a reason code below 0x80, or DISCONNECT 0x93 for a publish with the receive quota known to be zero; a path that returns nil has written the required reply without error, and one that has written none has found a failure, which a storage operation is only where the record is known not to be there already, or not to be gone already"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "receive quota", "unreleased") {
		return
	}
	mayReceive := map[int64]bool{3: true, 4: true, 5: true, 6: true, 7: true, 9: true, 11: true, 13: true, 14: true, 15: true}
	c.paths(func(p *path) {
		noNetInLoops(r, p)
		if p.name != "Poll" {
			for _, e := range p.writes() {
				if t, _ := packetOf(e); replies[t] {
					r.violate("reply-elsewhere:"+p.name, e.Pos, "%s sends a %s although it handles no incoming packet", p.name, t)
				}
			}
			return
		}
		b := p.inbound()
		w := p.writes()
		if b == nil {
			for _, e := range w {
				r.violate("unsolicited", e.Pos, "Poll sends %s although no packet was decoded", short(e.Args[0]))
			}
			_, rem := p.remaining()
			if p.okReturn() && rem != nil {
				for _, t := range p.headerTypes() {
					if t != 13 {
						r.violate("unhandled", p.o.Pos, "Poll can return nil for an incoming packet of type %d without decoding it", t)
						break
					}
				}
			}
			return
		}
		r.count("handled packets", 1)
		r.count("paths for "+b.typ, 1)
		if code := packetCode[b.typ]; !p.onlyType(code) || !mayReceive[code] {
			r.violate("wrong-type:"+b.typ, b.e.Pos, "Poll decodes a %s although the first byte does not say that it is one", b.typ)
		}
		if j := p.index(b.i+1, func(e *Event) bool { return e.Kind == "Decode" || e.Kind == "NetRead" }); j >= 0 {
			r.violate("second-read:"+b.typ, p.ev[j].Pos, "Poll reads on after it decoded a packet")
		}
		want, known := p.wantReply(b)
		if len(w) > 1 {
			r.violate("replies:"+b.typ, w[1].Pos, "Poll sends %d packets for one %s", len(w), b.typ)
		}
		replied, over := false, false
		for _, e := range w {
			i := p.index(0, func(x *Event) bool { return x == e })
			typ, snap := packetOf(e)
			if i < b.i {
				r.violate("early:"+b.typ, e.Pos, "Poll sends a %s before it decoded the packet", typ)
			}
			if typ == "Disconnect" && b.typ == "Publish" {
				over = true
				r.count("receive maximum exceeded", 1)
				p.excessDisconnect(r, ro, b, e, i)
				continue
			}
			if typ != want || !known || want == "" {
				r.violate("reply:"+b.typ+":"+typ, e.Pos, "Poll answers a %s with a %s", b.typ, typ)
				continue
			}
			if !same(packetField(snap, "PacketIdentifier"), b.id) {
				r.violate("reply-id:"+typ, e.Pos, "Poll sends a %s with identifier %s, which is not that of the %s it answers", typ, short(packetField(snap, "PacketIdentifier")), b.typ)
			}
			if rc := packetField(snap, "ReasonCode"); rc != nil && !p.below(rc, 0x80) && !((typ == "Pubrel" || typ == "Pubcomp") && p.equals(rc, 0x92)) {
				r.violate("reply-reason:"+typ, e.Pos, "Poll sends a %s with reason code %s", typ, short(rc))
			}
			replied = replied || p.ok(e)
			r.count("replies", 1)
		}
		if p.okReturn() {
			if !known {
				r.violate("reply-undecided:"+b.typ, p.o.Pos, "Poll returns nil for a %s without having decided whether it needs a reply", b.typ)
			} else if want != "" && !replied {
				r.violate("unanswered:"+b.typ, p.o.Pos, "Poll can return nil for a %s without having sent the %s", b.typ, want)
			}
		} else if known && want != "" && !replied && !over && !p.failures(b.i) {
			if !(b.typ == "Publish" && p.zero(b.id)) {
				r.violate("unanswered:"+b.typ, p.o.Pos, "Poll can fail to answer a %s with a %s although nothing failed but that storage has a record already, or none any more", b.typ, want)
			}
		}
	})
	for t := range mayReceive {
		if t == 13 {
			continue
		}
		for n, v := range packetCode {
			if v == t {
				r.floor("paths for "+n, 1)
			}
		}
	}
	r.floor("replies", 8)
	r.floor("receive maximum exceeded", 1)
}

// quotaZero tells whether the receive quota that was read between two events is known to be zero.
func (p *path) quotaZero(ro *Roles, from, to int) bool {
	for j := to; j > from; j-- {
		if e := p.ev[j]; e.Kind == "Read" && e.Name == ro.recvQ {
			return p.zero(unwrap(e.Args[0]))
		}
	}
	return false
}

// excessDisconnect is the rule for a DISCONNECT that answers a PUBLISH.
func (p *path) excessDisconnect(r *Report, ro *Roles, b *inbound, e *Event, i int) {
	_, snap := packetOf(e)
	rc := packetField(snap, "ReasonCode")
	dup, dk := p.duplicate(ro, b)
	if !p.equals(rc, 0x93) {
		r.violate("disconnect-reason", e.Pos, "Poll answers a PUBLISH with DISCONNECT %s", short(rc))
	}
	if !p.atLeast(b.qos, 1) || !dk || dup || !p.quotaZero(ro, b.i, i) {
		r.violate("disconnect-unjustified", e.Pos, "Poll answers a PUBLISH with DISCONNECT where the receive quota is not known to be zero, or the publish may be a duplicate or have QoS 0")
	}
}

// changes sums up the changes that a path makes to a counter; ok is false if one of the writes is not a change by a
// constant.
func (p *path) changes(reg string, from int) (idx []int, ds []int64, ok bool) {
	ok = true
	for i := from; i < len(p.ev); i++ {
		e := p.ev[i]
		if e.Kind == "Write" && e.Name == reg {
			d, k := delta(e)
			if !k {
				ok = false
			}
			idx = append(idx, i)
			ds = append(ds, d)
		}
	}
	return
}

// capRegion is the part of the client's state that is set to the same values as a quota by Connect.
func (c *Client) capRegion(quota string) string {
	cands := map[string]bool{}
	first := true
	c.paths(func(p *path) {
		if p.name != "Connect" || !p.okReturn() {
			return
		}
		w := p.lastWrite(quota)
		if w == nil {
			return
		}
		now := map[string]bool{}
		for _, e := range p.ev {
			if e.Kind == "Write" && e.Name != quota {
				if l := p.lastWrite(e.Name); l.Args[0] == w.Args[0] {
					now[e.Name] = true
				}
			}
		}
		for k := range cands {
			if !now[k] {
				delete(cands, k)
			}
		}
		if first {
			cands, first = now, false
		}
	})
	var found []string
	for k := range cands {
		found = append(found, k)
	}
	if len(found) == 1 {
		return found[0]
	}
	// more than one happens to be set to the same: the one that limits the quota
	for _, k := range found {
		used := false
		c.paths(func(p *path) {
			for _, e := range p.ev {
				if e.Kind == "Read" && e.Name == k && p.name != "Connect" {
					used = true
				}
			}
		})
		if used {
			return k
		}
	}
	return ""
}

// attempts counts how often a path gives a unit back to a quota after an event: by an increment, or by finding in a
// critical section that the quota is at its maximum.
func (p *path) attempts(r *Report, quota, capReg string, from int) int {
	n := 0
	inc, sat := false, false
	var v, m *Term
	flush := func() {
		if !inc && v != nil && m != nil && p.F.proveLe(toPoly(unwrap(m)).minus(toPoly(unwrap(v)))) {
			sat = true
		}
		if sat {
			n++
		}
		inc, sat, v, m = false, false, nil, nil
	}
	for i := from; i < len(p.ev); i++ {
		e := p.ev[i]
		switch {
		case e.Kind == "Unlock":
			flush()
		case e.Kind == "Read" && e.Name == quota:
			v = e.Args[0]
		case e.Kind == "Read" && e.Name == capReg:
			m = e.Args[0]
		case e.Kind == "Write" && e.Name == quota:
			d, ok := delta(e)
			switch {
			case ok && d == 1:
				n++
				inc = true
				if m == nil || !e.Facts.proveLe(toPoly(unwrap(e.Args[1])).plus(pConst(1)).minus(toPoly(unwrap(m)))) {
					r.violate("above-maximum:"+p.name, e.Pos, "%s increments %s where it is not known to be below the receive maximum", p.name, quota)
				}
			case ok && d == -1:
				v, m, inc = nil, nil, true
			}
		}
	}
	flush()
	return n
}

func checkC18(r *Report, L *Loaded) {
	r.Rule = "the send quota is decremented only by Publish, once, with the value known to be at least one in the same critical section, before a PUBLISH with QoS above 0 is written; Publish with an error gives back exactly what it took, and without an error nothing; Poll gives back exactly one unit on every path after it decoded a PUBACK, a PUBCOMP or a PUBREC with reason code 0x80 or above, and on no other; an increment happens only below the server's receive maximum; Connect sets both from the CONNACK"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "send quota") {
		return
	}
	capReg := c.capRegion(ro.sendQ)
	if capReg == "" {
		r.violate("anchor:receive maximum", 0, "Connect does not keep the server's receive maximum next to the send quota")
		return
	}
	c.paths(func(p *path) {
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if e.Kind == "Write" && (e.Name == ro.sendQ || e.Name == capReg) {
				r.violate("loop:"+p.name, e.Pos, "%s changes the send quota in a loop", p.name)
			}
		})
		idx, ds, ok := p.changes(ro.sendQ, 0)
		for k, i := range idx {
			e := p.ev[i]
			r.count("changes of the send quota", 1)
			switch {
			case p.name == "Connect":
			case !ok || ds[k] != 1 && ds[k] != -1:
				r.violate("change:"+p.name, e.Pos, "%s changes the send quota from %s to %s", p.name, short(e.Args[1]), short(e.Args[0]))
			case p.name != "Publish" && p.name != "Poll":
				r.violate("elsewhere:"+p.name, e.Pos, "%s changes the send quota", p.name)
			case ds[k] == -1 && p.name != "Publish":
				r.violate("taken:"+p.name, e.Pos, "%s takes a unit of send quota", p.name)
			}
		}
		if p.name != "Connect" {
			if w := p.lastWrite(capReg); w != nil {
				r.violate("maximum:"+p.name, w.Pos, "%s changes the server's receive maximum", p.name)
			}
		}
		switch p.name {
		case "Publish":
			pub := p.run.Params[len(p.run.Params)-1]
			taken := -1
			nt := 0
			for k, i := range idx {
				if ds[k] == -1 {
					nt++
					taken = i
					r.count("units taken", 1)
					e := p.ev[i]
					if !e.Facts.proveLe(pConst(1).minus(toPoly(unwrap(e.Args[1])))) {
						r.violate("taken-at-zero", e.Pos, "Publish decrements the send quota where it is not known to be above zero")
					}
				}
			}
			if nt > 1 {
				r.violate("taken-twice", p.o.Pos, "Publish takes %d units of send quota for one publish", nt)
			}
			qos := p.publishQoS(pub)
			if nt > 0 && !p.atLeast(qos, 1) {
				r.violate("taken-for-qos0", p.ev[taken].Pos, "Publish takes send quota for a publish that may have QoS 0")
			}
			for i, e := range p.ev {
				if e.Kind != "NetWrite" {
					continue
				}
				_, snap := packetOf(e)
				q := packetField(snap, "QoS")
				if q != nil && !p.zero(q) && (taken < 0 || taken > i) {
					r.violate("not-taken", e.Pos, "Publish sends a PUBLISH with QoS above 0 without having taken a unit of send quota")
				}
			}
			err, _ := p.err()
			from := 0
			if taken >= 0 {
				from = taken
			}
			n := p.attempts(r, ro.sendQ, capReg, from)
			switch {
			case nt == 0:
				for _, d := range ds {
					if d == 1 {
						r.violate("given-not-taken", p.o.Pos, "Publish gives back a unit of send quota that it had not taken")
					}
				}
			case p.isNil(err) && n != 0:
				r.violate("given-on-success", p.o.Pos, "Publish gives a unit of send quota back although it succeeded")
			case p.nonNil(err) && n != 1:
				r.violate("not-given-back", p.o.Pos, "Publish returns an error and gives %d units of send quota back for the one it took", n)
			case !p.isNil(err) && !p.nonNil(err):
				r.violate("undecided", p.o.Pos, "Publish does not decide whether to give a unit of send quota back")
			}
		case "Poll":
			b := p.inbound()
			if b == nil {
				if len(idx) > 0 {
					r.violate("given-early", p.ev[idx[0]].Pos, "Poll changes the send quota before it decoded a packet")
				}
				return
			}
			want := 0
			switch b.typ {
			case "Puback", "Pubcomp":
				want = 1
			case "Pubrec":
				rc := p.decodedField(b.e, "ReasonCode")
				if p.atLeast(rc, 0x80) {
					want = 1
				} else if !p.below(rc, 0x80) {
					r.violate("pubrec-undecided", p.o.Pos, "Poll does not check the reason code of a PUBREC")
				}
			}
			for _, i := range idx {
				if i < b.i {
					r.violate("given-early", p.ev[i].Pos, "Poll changes the send quota before it decoded a packet")
				}
			}
			n := p.attempts(r, ro.sendQ, capReg, b.i)
			r.count("acknowledged publishes", want)
			if n != want {
				r.violate("given:"+b.typ, b.e.Pos, "Poll gives back %d units of send quota for a %s (returning at %s), where it must be %d", n, b.typ, p.where(), want)
			}
		case "Connect":
			k := p.index(0, func(e *Event) bool { return e.Kind == "Decode" && e.Name == "Connack" && p.ok(e) })
			for _, i := range idx {
				if k < 0 || i < k {
					r.violate("set-early", p.ev[i].Pos, "Connect sets the send quota before it received the CONNACK")
				}
			}
			if !p.okReturn() {
				return
			}
			if k < 0 {
				return // decided by C24
			}
			p.maximumSet(r, ro.sendQ, p.decodedField(p.ev[k], "ReceiveMaximum"), "send quota")
			p.maximumSet(r, capReg, p.decodedField(p.ev[k], "ReceiveMaximum"), "limit of the send quota")
		}
	})
	r.floor("changes of the send quota", 5)
	r.floor("units taken", 3)
	r.floor("acknowledged publishes", 3)
	r.floor("initialisations", 2)
}

// maximumSet decides whether a quota is set to a receive maximum, 65,535 if that is absent.
func (p *path) maximumSet(r *Report, reg string, max *Term, what string) {
	r.count("initialisations", 1)
	w := p.lastWrite(reg)
	if w == nil {
		r.violate("unset:"+reg, p.o.Pos, "%s succeeds without setting the %s", p.name, what)
		return
	}
	v := unwrap(w.Args[0])
	switch {
	case p.nonzero(max) && same(v, max):
	case p.zero(max) && p.equals(v, 65535):
	default:
		r.violate("initial:"+reg, w.Pos, "%s sets the %s to %s, where it must be the receive maximum %s, or 65535 if that is absent", p.name, what, short(v), short(max))
	}
}

// publishQoS is the QoS that the publish of a call has.
func (p *path) publishQoS(pub *Term) *Term {
	for _, e := range p.ev {
		if e.Kind == "NetWrite" || e.Kind == "Encode" {
			var snap *Term
			if e.Kind == "NetWrite" {
				_, snap = packetOf(e)
			} else {
				snap = e.Args[2]
			}
			if q := packetField(snap, "QoS"); q != nil {
				return q
			}
		}
	}
	for t := range p.F.iv {
		if t.Op == "init" && t.Args[0].Op == "fa" && t.Args[0].Str == "QoS" && t.Args[0].Args[0] == pub {
			return t
		}
	}
	for t := range p.F.truth {
		var found *Term
		for _, a := range t.Args {
			if a.Op == "init" && a.Args[0].Op == "fa" && a.Args[0].Str == "QoS" && a.Args[0].Args[0] == pub {
				found = a
			}
		}
		if found != nil {
			return found
		}
	}
	return nil
}

func checkC19(r *Report, L *Loaded) {
	r.Rule = "on every path of Poll after a decoded PUBLISH: QoS 0 and duplicates leave the receive quota alone; otherwise it is decremented once with the value known to be at least one, or known to be zero, in which case DISCONNECT 0x93 is sent; it is incremented exactly once after a PUBACK was written, and after a PUBCOMP was written if the message was found among the unreleased ones, from which it is removed in the same critical section, where an increment happens only below the receive maximum and counts as done at it; Connect sets it from the CONNECT packet; nothing else changes it"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "receive quota", "unreleased") {
		return
	}
	capReg := c.capRegion(ro.recvQ)
	if capReg == "" {
		r.violate("anchor:receive maximum", 0, "Connect does not keep the client's receive maximum next to the receive quota")
		return
	}
	c.paths(func(p *path) {
		if p.name != "Connect" {
			if w := p.lastWrite(capReg); w != nil {
				r.violate("maximum:"+p.name, w.Pos, "%s changes the client's receive maximum", p.name)
			}
		}
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if e.Kind == "Write" && (e.Name == ro.recvQ || e.Name == capReg) {
				r.violate("loop:"+p.name, e.Pos, "%s changes the receive quota in a loop", p.name)
			}
		})
		idx, ds, ok := p.changes(ro.recvQ, 0)
		r.count("changes of the receive quota", len(idx))
		if p.name != "Poll" && p.name != "Connect" && len(idx) > 0 {
			r.violate("elsewhere:"+p.name, p.ev[idx[0]].Pos, "%s changes the receive quota", p.name)
		}
		switch p.name {
		case "Connect":
			k := p.index(0, func(e *Event) bool { return e.Kind == "Decode" && e.Name == "Connack" && p.ok(e) })
			for _, i := range idx {
				if k < 0 || i < k {
					r.violate("set-early", p.ev[i].Pos, "Connect sets the receive quota before it received the CONNACK")
				}
			}
			if p.okReturn() {
				var max *Term
				for _, e := range p.writes() {
					if t, s := packetOf(e); t == "Connect" {
						max = packetField(s, "ReceiveMaximum")
					}
				}
				if max != nil {
					p.maximumSet(r, ro.recvQ, max, "receive quota")
					p.maximumSet(r, capReg, max, "limit of the receive quota")
				}
			}
		case "Poll":
			for k, i := range idx {
				if !ok || ds[k] != 1 && ds[k] != -1 {
					r.violate("change", p.ev[i].Pos, "Poll changes the receive quota from %s to %s", short(p.ev[i].Args[1]), short(p.ev[i].Args[0]))
					return
				}
			}
			b := p.inbound()
			if b == nil {
				if len(idx) > 0 {
					r.violate("early", p.ev[idx[0]].Pos, "Poll changes the receive quota before it decoded a packet")
				}
				return
			}
			for _, i := range idx {
				if i < b.i {
					r.violate("early", p.ev[i].Pos, "Poll changes the receive quota before it decoded a packet")
				}
			}
			takes, gives := 0, 0
			takeAt, giveAt := -1, -1
			for k, i := range idx {
				if ds[k] == -1 {
					takes++
					takeAt = i
					e := p.ev[i]
					if !e.Facts.proveLe(pConst(1).minus(toPoly(unwrap(e.Args[1])))) {
						r.violate("taken-at-zero", e.Pos, "Poll decrements the receive quota where it is not known to be above zero")
					}
				} else {
					gives++
					giveAt = i
				}
			}
			wantTake, wantGive := 0, 0
			ackAt := -1
			switch b.typ {
			case "Publish":
				if i, e := p.sent("Disconnect", b.i); e != nil {
					p.excessDisconnect(r, ro, b, e, i)
				}
				if !p.zero(b.qos) && !p.atLeast(b.qos, 1) {
					if takes > 0 || !p.failures(b.i) {
						r.violate("undecided", p.o.Pos, "Poll does not decide whether a PUBLISH has a QoS above 0")
					}
					return
				}
				dup, known := false, true
				if !p.zero(b.qos) {
					dup, known = p.duplicate(ro, b)
				}
				if !known {
					r.violate("duplicate-undecided", p.o.Pos, "Poll does not decide whether a QoS 2 PUBLISH is a duplicate")
					return
				}
				if !p.zero(b.qos) && !dup {
					wantTake = 1
					// the decision: zero or not
					di, _ := p.sent("Disconnect", b.i)
					if takes == 0 {
						end := len(p.ev) - 1
						if p.quotaZero(ro, b.i, end) {
							wantTake = 0
							r.count("publishes beyond the receive maximum", 1)
							if di < 0 && !p.failures(b.i) {
								r.violate("excess-accepted", p.o.Pos, "Poll accepts a PUBLISH beyond the receive maximum")
							}
							if p.okReturn() {
								r.violate("excess-accepted", p.o.Pos, "Poll returns nil for a PUBLISH beyond the receive maximum")
							}
						}
					} else if di >= 0 {
						r.violate("excess-wrong", p.ev[di].Pos, "Poll disconnects for a PUBLISH for which there was receive quota")
					}
				}
				if j, a := p.sent("Puback", b.i); a != nil && p.ok(a) && p.equals(b.qos, 1) {
					wantGive = 1
					ackAt = j
					if gives == 0 {
						// a quota that is found to be at its maximum has no unit to be given back
						gives = p.attempts(r, ro.recvQ, capReg, ackAt)
					}
				}
			case "Pubrel":
				if j, a := p.sent("Pubcomp", b.i); a != nil && p.ok(a) {
					ackAt = j
					var get *Event
					gi := -1
					for i := b.i; i < len(p.ev); i++ {
						if e := p.ev[i]; e.Kind == "MapGet" && e.Name == ro.unreleased && same(e.Args[1], b.id) {
							get, gi = e, i
						}
					}
					if get == nil {
						if gives > 0 || p.okReturn() {
							r.violate("release-unchecked", p.o.Pos, "Poll handles a PUBREL without looking up whether the message was received")
						}
						return
					}
					v, known := p.F.eval(get.Args[3])
					if !known {
						r.violate("release-unchecked", get.Pos, "Poll handles a PUBREL without deciding whether the message was received")
						return
					}
					if v {
						wantGive = 1
						// a unit that would take the quota beyond the maximum counts as returned
						gives = p.attempts(r, ro.recvQ, capReg, ackAt)
						r.count("released messages", 1)
						di := p.index(b.i, func(e *Event) bool {
							return e.Kind == "MapDel" && e.Name == ro.unreleased && same(e.Args[1], b.id)
						})
						if di < 0 || !p.sameSection(gi, di) || giveAt >= 0 && !p.lockedSame(ro, gi, giveAt) {
							r.violate("released-twice", get.Pos, "Poll returns receive quota for a PUBREL without removing the message from the unreleased ones in the same critical section")
						}
					}
				}
			}
			r.count("decisions about the receive quota", 1)
			if takes != wantTake {
				pos := b.e.Pos
				if takeAt >= 0 {
					pos = p.ev[takeAt].Pos
				}
				r.violate("taken:"+b.typ, pos, "Poll takes %d units of receive quota for a %s (returning at %s), where it must be %d", takes, b.typ, p.where(), wantTake)
			}
			if gives != wantGive || giveAt >= 0 && giveAt < ackAt {
				pos := b.e.Pos
				if giveAt >= 0 {
					pos = p.ev[giveAt].Pos
				}
				r.violate("given:"+b.typ, pos, "Poll returns %d units of receive quota for a %s (returning at %s), where it must be %d, after the acknowledgement was sent", gives, b.typ, p.where(), wantGive)
			}
		}
	})
	r.floor("changes of the receive quota", 5)
	r.floor("decisions about the receive quota", 20)
	r.floor("publishes beyond the receive maximum", 1)
	r.floor("released messages", 1)
	r.floor("initialisations", 1)
}

// lockedSame tells whether two events happen under one hold of some lock, be it the connection lock.
func (p *path) lockedSame(ro *Roles, i, j int) bool { return p.sameSection(i, j) }

func checkC21(r *Report, L *Loaded) {
	r.Rule = "every PUBLISH with QoS above 0, SUBSCRIBE and UNSUBSCRIBE that is written carries an identifier that is known to be non-zero, that was looked up in the set of identifiers in use and not found, and that was added to it in the same critical section before the write; identifiers are removed from the set only when the call failed to send, or for a decoded PUBACK, PUBCOMP, SUBACK, UNSUBACK or PUBREC with reason code 0x80 or above with that identifier, and then always; where a search for an identifier ends with none, its loop moves by an odd step and goes round 65,536 times (65,535 if it never looks at zero)"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "identifiers in use") {
		return
	}
	assigns := map[string]bool{"Publish": true, "Subscribe": true, "Unsubscribe": true}
	c.paths(func(p *path) {
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if (e.Kind == "MapSet" || e.Kind == "MapDel") && e.Name == ro.inflight {
				r.violate("loop:"+p.name, e.Pos, "%s changes the set of identifiers in use in a loop", p.name)
			}
		})
		if w := p.lastWrite(strings.TrimSuffix(ro.inflight, "[]")); w != nil {
			r.violate("replaced:"+p.name, w.Pos, "%s replaces the set of identifiers in use", p.name)
		}
		if assigns[p.name] && isGlobalErr(p.errTerm(), "ErrPacketIdentifierInUse") {
			for _, e := range p.ev {
				if e.Kind == "Loop" {
					p.gaveUp(r, ro, e)
				}
			}
		}
		// what was marked by this call
		type mark struct {
			i  int
			id *Term
		}
		var marks []mark
		b := p.inbound()
		for i, e := range p.ev {
			switch {
			case e.Kind == "MapClear" && e.Name == ro.inflight:
				r.violate("cleared:"+p.name, e.Pos, "%s forgets all identifiers in use", p.name)
			case e.Kind == "MapSet" && e.Name == ro.inflight:
				if !assigns[p.name] {
					r.violate("marked:"+p.name, e.Pos, "%s marks a packet identifier as in use", p.name)
				}
				marks = append(marks, mark{i, e.Args[1]})
				r.count("identifiers marked", 1)
				g := -1
				for j := i; j >= 0; j-- {
					x := p.ev[j]
					if x.Kind == "MapGet" && x.Name == ro.inflight && same(x.Args[1], e.Args[1]) {
						if v, k := p.F.eval(x.Args[3]); k && !v {
							g = j
						}
					}
				}
				if g < 0 {
					r.violate("unchecked:"+p.name, e.Pos, "%s marks identifier %s as in use without having found that it is not", p.name, short(e.Args[1]))
				} else if !p.sameSectionMutex(g, i) {
					r.violate("unchecked:"+p.name, e.Pos, "%s gives up the lock between checking that identifier %s is not in use and marking it", p.name, short(e.Args[1]))
				}
				if !p.nonzero(unwrap(e.Args[1])) && !p.nonzero(e.Args[1]) {
					r.violate("zero:"+p.name, e.Pos, "%s uses identifier %s, which is not known to be non-zero", p.name, short(e.Args[1]))
				}
			case e.Kind == "MapDel" && e.Name == ro.inflight:
				r.count("identifiers freed", 1)
				switch {
				case assigns[p.name]:
					mine := -1
					for _, m := range marks {
						if same(m.id, e.Args[1]) {
							mine = m.i
						}
					}
					sentOK := p.index(0, func(x *Event) bool { return x.Kind == "NetWrite" && !p.failed(x) }) >= 0
					if mine < 0 || sentOK || !p.nonNil(p.errTerm()) {
						r.violate("freed:"+p.name, e.Pos, "%s frees identifier %s although the packet may have been sent, or it was not this call that marked it", p.name, short(e.Args[1]))
					}
				case p.name == "Poll" && b != nil && b.i < i && p.endsExchange(b) && same(e.Args[1], b.id):
				default:
					r.violate("freed:"+p.name, e.Pos, "%s frees identifier %s although its exchange has not ended", p.name, short(e.Args[1]))
				}
			}
		}
		if p.name == "Poll" && b != nil && p.endsExchange(b) {
			r.count("exchanges that ended", 1)
			if p.index(b.i, func(e *Event) bool {
				return e.Kind == "MapDel" && e.Name == ro.inflight && same(e.Args[1], b.id)
			}) < 0 {
				r.violate("leaked:"+b.typ, b.e.Pos, "Poll does not free the identifier of a %s (returning at %s)", b.typ, p.where())
			}
		}
		for i, e := range p.ev {
			if e.Kind != "NetWrite" {
				continue
			}
			typ, snap := packetOf(e)
			if !assigns[typ] {
				continue
			}
			if typ == "Publish" {
				q := packetField(snap, "QoS")
				if p.zero(q) {
					continue
				}
			}
			r.count("packets with identifiers sent", 1)
			id := packetField(snap, "PacketIdentifier")
			marked := false
			for _, m := range marks {
				marked = marked || m.i < i && same(m.id, id)
			}
			if !marked {
				r.violate("unmarked:"+p.name, e.Pos, "%s sends a %s with identifier %s that it has not marked as in use", p.name, typ, short(id))
			}
		}
		// a call that fails before or while it sends frees what it marked
		if assigns[p.name] && p.nonNil(p.errTerm()) && p.index(0, func(x *Event) bool { return x.Kind == "NetWrite" && !p.failed(x) }) < 0 {
			for _, m := range marks {
				if p.index(m.i, func(e *Event) bool {
					return e.Kind == "MapDel" && e.Name == ro.inflight && same(e.Args[1], m.id)
				}) < 0 {
					r.violate("leaked:"+p.name, p.o.Pos, "%s fails to send and leaves identifier %s in use", p.name, short(m.id))
				}
			}
		}
	})
	r.floor("identifiers marked", 3)
	r.floor("identifiers freed", 6)
	r.floor("packets with identifiers sent", 3)
	r.floor("exchanges that ended", 5)
}

func (p *path) errTerm() *Term { e, _ := p.err(); return e }

// sameSectionMutex is sameSection for locks other than those held for the whole of network operations.
func (p *path) sameSectionMutex(i, j int) bool {
	if i > j {
		i, j = j, i
	}
	for _, l := range p.ev[i].Locks {
		if !contains(p.ev[j].Locks, l) {
			continue
		}
		name := strings.TrimSuffix(l, "(R)")
		ok := true
		for k := i; k <= j; k++ {
			if p.ev[k].Kind == "Unlock" && p.ev[k].Name == name {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// endsExchange tells whether an incoming packet ends the exchange of the packet that it acknowledges.
func (p *path) endsExchange(b *inbound) bool {
	switch b.typ {
	case "Puback", "Pubcomp", "Suback", "Unsuback":
		return true
	case "Pubrec":
		return p.atLeast(p.decodedField(b.e, "ReasonCode"), 0x80)
	}
	return false
}

func checkC28(r *Report, L *Loaded) {
	r.Rule = "on every path of Poll after a decoded QoS 2 PUBLISH the identifier was looked up among the unreleased messages: if found, a PUBREC is written and nothing is delivered, stored or taken from the receive quota; if not found, it is added before the PUBREC is written and, if Poll returns nil, the message is delivered; identifiers are added for nothing else, and removed exactly when the PUBCOMP for their PUBREL was written"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "unreleased", "receive quota") {
		return
	}
	reg := c.eventRegistries()
	set := strings.TrimSuffix(ro.unreleased, "[]")
	c.paths(func(p *path) {
		newSession := p.newSession()
		p.inLoops(func(e *Event, body []*Event, _ int) {
			if (e.Kind == "MapSet" || e.Kind == "MapDel") && e.Name == ro.unreleased && !newSession {
				r.violate("loop:"+p.name, e.Pos, "%s changes the set of unreleased messages in a loop", p.name)
			}
		})
		if w := p.lastWrite(set); w != nil && !newSession {
			r.violate("replaced:"+p.name, w.Pos, "%s replaces the set of unreleased messages although the server did not start a new session", p.name)
		}
		b := p.inbound()
		if p.name == "Connect" && p.okReturn() && b != nil && b.typ == "Connack" {
			sp := p.decodedField(b.e, "SessionPresent")
			switch {
			case p.is(sp, true):
				r.count("continued sessions", 1)
			case newSession:
				r.count("new sessions", 1)
				if !p.emptied(set, ro.unreleased, b.i) {
					r.violate("session-kept", p.o.Pos, "Connect keeps the unreleased messages of the earlier session when the server starts a new one: publishes with their identifiers would not be delivered")
				}
			default:
				r.violate("session-undecided", p.o.Pos, "Connect returns nil without having looked whether the server continued the session")
			}
		}
		for i, e := range p.ev {
			if e.Name != ro.unreleased {
				continue
			}
			switch e.Kind {
			case "MapClear":
				if newSession {
					continue
				}
				r.violate("cleared:"+p.name, e.Pos, "%s forgets all unreleased messages", p.name)
			case "MapSet":
				if p.name != "Poll" || b == nil || b.typ != "Publish" || !p.equals(b.qos, 2) || !same(e.Args[1], b.id) || i < b.i {
					r.violate("added:"+p.name, e.Pos, "%s adds %s to the unreleased messages although no QoS 2 publish with that identifier was received", p.name, short(e.Args[1]))
				}
			case "MapDel":
				if newSession {
					continue
				}
				j := -1
				if b != nil {
					var a *Event
					if j, a = p.sent("Pubcomp", b.i); a == nil || !p.ok(a) {
						j = -1
					}
				}
				if p.name != "Poll" || b == nil || b.typ != "Pubrel" || !same(e.Args[1], b.id) || j < 0 || j > i {
					r.violate("removed:"+p.name, e.Pos, "%s removes %s from the unreleased messages although no PUBCOMP was sent for it", p.name, short(e.Args[1]))
				}
			}
		}
		if p.name != "Poll" || b == nil {
			return
		}
		switch {
		case b.typ == "Publish" && p.equals(b.qos, 2):
			r.count("paths for QoS 2 publishes", 1)
			dup, known := p.duplicate(ro, b)
			if !known {
				r.violate("undecided", p.o.Pos, "Poll does not decide whether a QoS 2 PUBLISH is a duplicate")
				return
			}
			if dup {
				r.count("paths for duplicates", 1)
				if n, e := p.offers(reg, b.i); n > 0 {
					r.violate("delivered-twice", e.Pos, "Poll delivers a duplicate QoS 2 PUBLISH")
				}
				for _, e := range p.ev[b.i:] {
					if e.Kind == "Store" {
						r.violate("stored-twice", e.Pos, "Poll stores a record for a duplicate QoS 2 PUBLISH")
					}
					if e.Kind == "Write" && e.Name == ro.recvQ {
						r.violate("counted-twice", e.Pos, "Poll counts a duplicate QoS 2 PUBLISH against the receive quota")
					}
				}
				if _, a := p.sent("Pubrec", b.i); a == nil && !p.failures(b.i) && !p.zero(b.id) {
					r.violate("unanswered", p.o.Pos, "Poll does not answer a duplicate QoS 2 PUBLISH with a PUBREC")
				}
				return
			}
			j, a := p.sent("Pubrec", b.i)
			if a != nil {
				m := p.index(b.i, func(e *Event) bool {
					return e.Kind == "MapSet" && e.Name == ro.unreleased && same(e.Args[1], b.id)
				})
				if m < 0 || m > j {
					r.violate("not-remembered", a.Pos, "Poll answers a QoS 2 PUBLISH without having remembered its identifier")
				}
			}
			if p.okReturn() {
				if n, _ := p.offers(reg, b.i); n == 0 {
					r.violate("not-delivered", p.o.Pos, "Poll does not deliver a new QoS 2 PUBLISH")
				}
			}
		case b.typ == "Pubrel":
			if _, a := p.sent("Pubcomp", b.i); a != nil && p.ok(a) {
				r.count("paths for releases", 1)
				gone := false
				for _, e := range p.ev[b.i:] {
					if e.Kind == "MapGet" && e.Name == ro.unreleased && same(e.Args[1], b.id) && p.is(e.Args[3], false) {
						gone = true // it was not there
					}
					gone = gone || e.Kind == "MapDel" && e.Name == ro.unreleased && same(e.Args[1], b.id)
				}
				if !gone {
					r.violate("not-released", a.Pos, "Poll does not forget the identifier of a QoS 2 message after its PUBCOMP was sent (returning at %s)", p.where())
				}
			}
		}
	})
	r.floor("paths for QoS 2 publishes", 5)
	r.floor("paths for duplicates", 1)
	r.floor("paths for releases", 2)
	r.floor("new sessions", 1)
	r.floor("continued sessions", 1)
}

// newSession tells whether Connect accepted a CONNACK that says that the server did not continue the session.
func (p *path) newSession() bool {
	if p.name != "Connect" {
		return false
	}
	b := p.inbound()
	return b != nil && b.typ == "Connack" && p.below(p.decodedField(b.e, "ReasonCode"), 0x80) && p.is(p.decodedField(b.e, "SessionPresent"), false)
}

// emptied tells whether a map of the client is empty after an event: it was replaced by a new one, cleared, or all its keys
// were deleted one by one.
func (p *path) emptied(reg, keys string, from int) bool {
	done := false
	looped := map[ssa.Instruction]bool{} // the iterations that some loop of the path made
	for i := from + 1; i < len(p.ev); i++ {
		e := p.ev[i]
		switch {
		case e.Kind == "RangeNext" && e.Name == keys && !looped[e.instr] && p.is(e.Args[3], false):
			done = true // there was no first key
		case e.Kind == "Write" && e.Name == reg:
			done = e.Args[0].Op == "makemap"
		case e.Kind == "MapClear" && e.Name == keys:
			done = true
		case e.Kind == "MapSet" && e.Name == keys:
			done = false
		case e.Kind == "Loop":
			all, some := true, false
			for _, body := range e.Loop.bodies {
				var next *Event
				del := false
				for _, x := range body {
					if x.Kind == "RangeNext" && x.Name == keys {
						next = x
						looped[x.instr] = true
					}
					del = del || x.Kind == "MapDel" && x.Name == keys && next != nil && x.Args[1] == next.Args[1]
				}
				some = some || next != nil
				all = all && next != nil && del
			}
			// it ends when the map has no more keys
			end := p.index(i+1, func(x *Event) bool { return x.Kind == "RangeNext" && x.Name == keys && p.is(x.Args[3], false) })
			if some && all && end >= 0 {
				done = true
			}
		}
	}
	return done
}

// tolerated tells whether the path found that a storage operation failed only because the record was already there or
// already gone.
func (p *path) tolerated(e *Event) bool { return p.recordState(e, true) }

// mayBeThere tells whether a storage operation may have failed on the path only because the record was already there or
// already gone.
func (p *path) mayBeThere(i int) bool {
	e := p.ev[i]
	if e.Kind != "Store" && e.Kind != "Drop" || p.recordState(e, false) {
		return false
	}
	for _, x := range p.ev[:i] {
		if x.Kind == "Drop" || x.Kind == "Get" {
			return false // what is there was looked at before
		}
	}
	return true
}

// recordState tells whether the path found that a storage operation failed because the record was already there or already
// gone, or found that it did not.
func (p *path) recordState(e *Event, want bool) bool {
	fe := p.evErr(e)
	for t, v := range p.F.truth {
		if v == want && (t.Op == "errIs" || t.Op == "eq") && len(t.Args) == 2 {
			for k := 0; k < 2; k++ {
				if t.Args[k] == fe && t.Args[1-k].Op == "gerr" {
					s := t.Args[1-k].Str
					if e.Kind == "Store" && strings.HasSuffix(s, "storage.ErrDuplicateEntry") || e.Kind == "Drop" && strings.HasSuffix(s, "storage.ErrNoEntry") {
						return true
					}
				}
			}
		}
	}
	return false
}

// storageUnset tells whether the path found that no storage is set.
func (p *path) storageUnset(ro *Roles) bool {
	for _, e := range p.ev {
		if e.Kind == "Read" && e.Name == ro.storage && p.isNil(e.Args[0]) {
			return true
		}
	}
	return false
}

func checkC20(r *Report, L *Loaded) {
	r.Rule = "on every path on which storage is not known to be unset: Store of the publish under its identifier succeeded before a PUBLISH with QoS above 0 is written; Store of a PUBREC succeeded, or found it there, before the PUBREC for a new QoS 2 message is written; Drop of the publish, then Store of the PUBREC succeeded before PUBREL is written; Drop happens only for the identifier of a decoded PUBACK, PUBREC, PUBREL or PUBCOMP, and on every path that handles one and returns nil; nothing else is stored, and nothing is written after a storage operation failed"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "storage", "unreleased") {
		return
	}
	ends := map[string]bool{"Puback": true, "Pubrec": true, "Pubrel": true, "Pubcomp": true}
	c.paths(func(p *path) {
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if e.Kind == "Store" || e.Kind == "Drop" {
				r.violate("loop:"+p.name, e.Pos, "%s changes the storage in a loop", p.name)
			}
		})
		b := p.inbound()
		unset := p.storageUnset(ro)
		stored := func(typ string, id *Term, before int) int {
			for i := before - 1; i >= 0; i-- {
				e := p.ev[i]
				if e.Kind == "Store" && e.Name == typ && same(e.Args[0], id) && (p.ok(e) || p.tolerated(e)) {
					return i
				}
			}
			return -1
		}
		dropped := func(id *Term, from, before int) int {
			for i := before - 1; i >= from; i-- {
				e := p.ev[i]
				if e.Kind == "Drop" && same(e.Args[0], id) && (p.ok(e) || p.tolerated(e)) {
					return i
				}
			}
			return -1
		}
		for i, e := range p.ev {
			switch e.Kind {
			case "Store":
				r.count("records stored", 1)
				ok := false
				switch p.name {
				case "Publish":
					snap := e.Args[2]
					ok = e.Name == "Publish" && snap != nil && p.atLeast(packetField(snap, "QoS"), 1) && same(packetField(snap, "PacketIdentifier"), e.Args[0])
					if ok && p.index(0, func(x *Event) bool { return x.Kind == "NetWrite" }) >= 0 && !p.ok(e) && p.tolerated(e) {
						ok = false
					}
				case "Poll":
					if b != nil && b.i < i && e.Name == "Pubrec" && same(e.Args[0], b.id) {
						snap := e.Args[2]
						ok = b.typ == "Publish" && p.equals(b.qos, 2) || b.typ == "Pubrec" && p.below(p.decodedField(b.e, "ReasonCode"), 0x80)
						ok = ok && snap != nil && same(packetField(snap, "PacketIdentifier"), b.id)
						if b.typ == "Publish" {
							if dup, known := p.duplicate(ro, b); !known || dup {
								ok = false
							}
						}
					}
				}
				if !ok {
					r.violate("stored:"+p.name+":"+e.Name, e.Pos, "%s stores a record of type %s under %s that its exchange does not need", p.name, e.Name, short(e.Args[0]))
				}
			case "Drop":
				r.count("records dropped", 1)
				if p.name != "Poll" || b == nil || b.i > i || !ends[b.typ] || !same(e.Args[0], b.id) {
					r.violate("dropped:"+p.name, e.Pos, "%s drops the record of %s although no packet was received that ends its need", p.name, short(e.Args[0]))
				}
			case "NetWrite":
				typ, snap := packetOf(e)
				id := packetField(snap, "PacketIdentifier")
				if unset {
					continue
				}
				switch {
				case typ == "Publish" && !p.zero(packetField(snap, "QoS")):
					r.count("ordered writes", 1)
					if s := stored("Publish", id, i); s < 0 || !p.ok(p.ev[s]) {
						r.violate("not-stored:Publish", e.Pos, "%s sends a PUBLISH with QoS above 0 that was not stored", p.name)
					}
				case typ == "Pubrec" && b != nil:
					if dup, known := p.duplicate(ro, b); known && dup {
						continue
					}
					r.count("ordered writes", 1)
					if stored("Pubrec", b.id, i) < 0 {
						r.violate("not-stored:Pubrec", e.Pos, "%s sends a PUBREC before the record of the message was stored", p.name)
					}
				case typ == "Pubrel" && b != nil:
					r.count("ordered writes", 1)
					s := stored("Pubrec", b.id, i)
					if s < 0 || !p.ok(p.ev[s]) || dropped(b.id, b.i, s) < 0 {
						r.violate("not-stored:Pubrel", e.Pos, "%s sends a PUBREL before the PUBREC has replaced the record of the publish", p.name)
					}
				}
			}
			if (e.Kind == "Store" || e.Kind == "Drop") && !p.ok(e) && !p.tolerated(e) {
				r.count("storage failures followed", 1)
				if j := p.index(i+1, func(x *Event) bool { return x.Kind == "NetWrite" }); j >= 0 {
					r.violate("sent-after-failure:"+p.name, p.ev[j].Pos, "%s sends a packet although %s failed", p.name, e.Kind)
				}
			}
		}
		if p.name == "Poll" && b != nil && ends[b.typ] && !unset && p.okReturn() {
			r.count("records that are no longer needed", 1)
			if dropped(b.id, b.i, len(p.ev)) < 0 {
				r.violate("not-dropped:"+b.typ, b.e.Pos, "Poll handles a %s and leaves the record of the exchange in storage (returning at %s)", b.typ, p.where())
			}
			if b.typ == "Pubrec" {
				// what remains must be the PUBREC
				d := dropped(b.id, b.i, len(p.ev))
				s := stored("Pubrec", b.id, len(p.ev))
				if s >= 0 && d > s {
					r.violate("dropped-again:Pubrec", p.ev[d].Pos, "Poll drops the record of the PUBREC that it just stored")
				}
			}
		}
	})
	r.floor("records stored", 3)
	r.floor("records dropped", 4)
	r.floor("ordered writes", 3)
	r.floor("storage failures followed", 4)
	r.floor("records that are no longer needed", 4)
}

// gaveUp decides whether a search for a packet identifier that is not in use, which found none, looked at all of them.
func (p *path) gaveUp(r *Report, ro *Roles, l *Event) {
	rec := l.Loop
	var looks []*bodyInfo
	keys := map[*bodyInfo]*Term{}
	for _, bi := range rec.now() {
		for _, e := range bi.body {
			if e.Kind == "MapGet" && e.Name == ro.inflight && keys[bi] == nil {
				keys[bi] = e.Args[1]
				looks = append(looks, bi)
			}
		}
	}
	if len(looks) == 0 {
		return
	}
	// the part of the identifier that changes
	bare := func(t *Term) *Poly {
		for t != nil && (t.Op == "wrap" || t.Op == "trunc" || t.Op == "conv") {
			t = t.Args[0]
		}
		return toPoly(t)
	}
	var s *Term
	var fixed *bodyInfo
	mayZero := false
	for _, bi := range looks {
		k := bare(stripConv(unwrap(keys[bi])))
		if bi.entry {
			if c, isC := k.isConst(); !isC || c == 0 {
				mayZero = true
			}
			continue
		}
		var in []*Term
		for _, a := range k.atoms() {
			if rec.isSym(a) {
				in = append(in, a)
			}
		}
		if len(in) == 0 {
			fixed = bi
			continue
		}
		if len(in) > 1 || s != nil && s != in[0] {
			r.count("searches of another form (not decided)", 1)
			return
		}
		s = in[0]
	}
	if fixed != nil {
		if s == nil {
			r.violate("same-again:"+p.name, l.Pos, "%s looks for a free identifier at %s again and again, although another one may be free", p.name, short(keys[fixed]))
		} else {
			r.count("searches of another form (not decided)", 1)
		}
		return
	}
	step := func(bi *bodyInfo, s *Term) (int64, bool) {
		if bi.phi[s] == nil || bi.start[s] == nil {
			return 0, false
		}
		from := pAtom(s)
		if bi.entry {
			from = toPoly(stripConv(unwrap(bi.start[s])))
		}
		return bare(stripConv(unwrap(bi.phi[s]))).minus(from).isConst()
	}
	if s == nil {
		r.count("searches of another form (not decided)", 1)
		return
	}
	for _, bi := range rec.now() {
		d, ok := step(bi, s)
		switch {
		case !ok:
			r.count("searches of another form (not decided)", 1)
			return
		case d%2 == 0:
			r.violate("same-again:"+p.name, l.Pos, "%s looks for a free identifier without going through all of them", p.name)
			return
		}
	}
	need := int64(65535)
	if mayZero {
		need = 65536
	}
	for k := range rec.now()[0].phi {
		if !isIntegral(k.Typ) {
			continue
		}
		counts := true
		var first *Poly
		for _, bi := range rec.now() {
			d, ok := step(bi, k)
			counts = counts && ok && d == 1
			if bi.start[k] != nil {
				first = toPoly(bi.start[k])
			}
		}
		if !counts || first == nil || !first.constOnly() {
			continue
		}
		n := pAtom(k).minus(first)
		early := false
		for _, bi := range rec.now() {
			if !bi.entry {
				early = true
				if !bi.facts.proveLe(n.minus(pConst(need - 2))) {
					early = false
					break
				}
			}
		}
		if early {
			r.violate("gave-up:"+p.name, l.Pos, "%s gives up looking for a free identifier before it looked at all of them", p.name)
			return
		}
		if p.F.proveLe(pConst(need).minus(n)) {
			r.count("searches of all identifiers", 1)
			return
		}
	}
	r.count("searches of another form (not decided)", 1)
}

// ackedCodes decides, for a path that may return nil, whether all the reason codes of the acknowledgement are below 0x80.
func (p *path) ackedCodes(recv *Term, ackType string) string {
	isCodes := func(t *Term) bool {
		if t == nil || !mentions(t, recv) || !strings.HasSuffix(t.String(), ".ReasonCodes") {
			return false
		}
		return strings.Contains(t.String(), "."+ackType+"(")
	}
	errT := p.errTerm()
	var why = "it does not check all reason codes"
	for _, e := range p.ev {
		if e.Kind != "Loop" {
			continue
		}
		rec := e.Loop
		var codes *Term
		good := true
		idx := map[*bodyInfo]*Poly{}
		for _, bi := range rec.now() {
			// which code does this iteration look at
			found := false
			for t, iv := range bi.facts.iv {
				if t.Op != "init" || t.Args[0].Op != "ia" || !isCodes(t.Args[0].Args[0]) {
					continue
				}
				if k := toPoly(t.Args[0].Args[1]); rec.ofIteration(bi, k) {
					codes, idx[bi] = t.Args[0].Args[0], k
					found = iv.hi <= 0x7f
				}
			}
			if found {
				continue
			}
			// this iteration saw a bad code: no path that returns nil may have made it
			excluded := false
			for s, end := range bi.phi {
				if s == errT || p.isNilKnown(s) {
					if !p.sticky(rec, s) {
						continue
					}
					if v, k := bi.facts.eval(mkIsNil(end)); k && !v {
						excluded = true
					}
				}
				if v, k := p.F.eval(s); k && isBoolTerm(s) && p.stickyBool(rec, s, v) {
					if w, k2 := bi.facts.eval(end); k2 && w != v {
						excluded = true
					}
				}
			}
			if !excluded {
				good = false
			}
		}
		if codes == nil {
			continue
		}
		if !good {
			why = "a reason code of 0x80 or above does not make it fail"
			continue
		}
		// the loop ends only after the last code
		if ok, _ := p.covers(rec, idx, codes); !ok {
			why = "it may not look at every reason code"
			continue
		}
		return ""
	}
	return why
}

// ofIteration tells whether an index is one of an iteration itself, and not of another loop.
func (rec *loopRec) ofIteration(bi *bodyInfo, k *Poly) bool {
	for _, a := range k.atoms() {
		if rec.isSym(a) {
			return !bi.entry && len(k.atoms()) == 1
		}
	}
	if bi.entry {
		for _, s := range bi.start {
			if s != nil && (s.Op == "int" || isIntegral(s.Typ)) && k.minus(toPoly(s)).constOnly() {
				return true
			}
		}
	}
	return false
}

func (p *path) isNilKnown(s *Term) bool {
	v, k := p.F.eval(mkIsNil(s))
	return k && v
}

// sticky tells whether something that the loop set to non-nil stays non-nil.
func (p *path) sticky(rec *loopRec, s *Term) bool {
	for _, bi := range rec.now() {
		end := bi.phi[s]
		if end == nil || end == s {
			continue
		}
		if v, k := bi.facts.eval(mkIsNil(end)); k && !v {
			continue
		}
		if v, k := bi.facts.eval(mkIsNil(s)); k && v {
			continue
		}
		if bi.entry && bi.start[s] != nil && bi.start[s].isNil() {
			continue
		}
		return false
	}
	return true
}

// stickyBool is the same for a flag that has the given value at the end only if it never had the other.
func (p *path) stickyBool(rec *loopRec, s *Term, final bool) bool {
	for _, bi := range rec.now() {
		end := bi.phi[s]
		if end == nil || end == s {
			continue
		}
		if v, k := bi.facts.eval(end); k && v != final {
			continue
		}
		if v, k := bi.facts.eval(s); k && v == final {
			continue
		}
		if bi.entry && bi.start[s] != nil {
			if v, k := bi.facts.eval(bi.start[s]); k && v == final {
				continue
			}
		}
		return false
	}
	return true
}

func (rec *loopRec) isSym(t *Term) bool {
	for _, bi := range rec.now() {
		if _, ok := bi.phi[t]; ok {
			return true
		}
	}
	return false
}

func (p *Poly) constOnly() bool { _, ok := p.isConst(); return ok }

func checkC22(r *Report, L *Loaded) {
	r.Rule = "Subscribe and Unsubscribe register a channel with room for one response under the identifier of their packet before they write it, remove it on every return, and wait in one select on that channel and the context; they may return nil only after a response was received that is the right acknowledgement, has as many reason codes as topics were given, and none of them is 0x80 or above; Poll hands a decoded SUBACK or UNSUBACK, without blocking, to the channel registered under its identifier, and to nothing else"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "waiting") {
		return
	}
	ack := map[string]string{"Subscribe": "Suback", "Unsubscribe": "Unsuback"}
	c.paths(func(p *path) {
		p.inLoops(func(e *Event, _ []*Event, _ int) {
			if (e.Kind == "MapSet" || e.Kind == "MapDel") && e.Name == ro.waits {
				r.violate("loop:"+p.name, e.Pos, "%s changes the waiting calls in a loop", p.name)
			}
			if e.Kind == "SelectBlock" || e.Kind == "Recv" {
				if ack[p.name] != "" {
					r.violate("wait-loop:"+p.name, e.Pos, "%s waits in a loop", p.name)
				}
			}
		})
		if w := p.lastWrite(strings.TrimSuffix(ro.waits, "[]")); w != nil {
			r.violate("replaced:"+p.name, w.Pos, "%s replaces the map of waiting calls", p.name)
		}
		want := ack[p.name]
		if want == "" {
			for i, e := range p.ev {
				if (e.Kind == "MapSet" || e.Kind == "MapDel" || e.Kind == "MapClear") && e.Name == ro.waits {
					r.violate("elsewhere:"+p.name, e.Pos, "%s changes the waiting calls", p.name)
				}
				_ = i
			}
			p.checkRespond(r, ro)
			return
		}
		r.count("paths through "+p.name, 1)
		reg := p.index(0, func(e *Event) bool { return e.Kind == "MapSet" && e.Name == ro.waits })
		var key, ch *Term
		if reg >= 0 {
			key, ch = p.ev[reg].Args[1], p.ev[reg].Args[2]
			if ch.Op != "makechan" || !p.atLeast(ch.Args[0], 1) {
				r.violate("no-room:"+p.name, p.ev[reg].Pos, "%s waits on a channel that is not a new one with room for a response", p.name)
			}
			del := p.last(func(e *Event) bool { return e.Kind == "MapDel" && e.Name == ro.waits && same(e.Args[1], key) })
			if del < reg {
				r.violate("not-removed:"+p.name, p.o.Pos, "%s returns without removing its registration for a response", p.name)
			}
			if j := p.index(reg+1, func(e *Event) bool { return e.Kind == "MapSet" && e.Name == ro.waits }); j >= 0 {
				r.violate("registered-twice:"+p.name, p.ev[j].Pos, "%s registers for a response twice", p.name)
			}
		}
		for i, e := range p.ev {
			if (e.Kind == "MapDel" || e.Kind == "MapClear") && e.Name == ro.waits && (reg < 0 || e.Kind == "MapClear" || !same(e.Args[1], key)) {
				r.violate("removed-other:"+p.name, e.Pos, "%s removes the registration of another call", p.name)
			}
			if e.Kind == "NetWrite" {
				_, snap := packetOf(e)
				if reg < 0 || reg > i || !same(packetField(snap, "PacketIdentifier"), key) {
					r.violate("unregistered:"+p.name, e.Pos, "%s sends its packet before it registered for the response with its identifier", p.name)
				}
			}
		}
		// the wait
		wi := p.index(0, func(e *Event) bool { return e.Kind == "SelectBlock" || e.Kind == "Recv" })
		wrote := p.index(0, func(e *Event) bool { return e.Kind == "NetWrite" && p.ok(e) })
		if wi >= 0 {
			e := p.ev[wi]
			hasCtx, hasCh, other := false, false, false
			for _, a := range append(append([]*Term{}, e.Args[:1]...), e.Ret...) {
				switch {
				case a == nil:
				case a.Op == "ctxdone":
					hasCtx = true
				case a == ch:
					hasCh = true
				default:
					other = true
				}
			}
			r.count("waits", 1)
			if !hasCtx || !hasCh || other || wrote < 0 || wrote > wi {
				r.violate("wait:"+p.name, e.Pos, "%s does not wait for exactly its response or the end of its context, after its packet was sent", p.name)
			}
			del := p.index(reg, func(e *Event) bool { return e.Kind == "MapDel" && e.Name == ro.waits && same(e.Args[1], key) })
			if del >= 0 && del < wi {
				r.violate("removed-early:"+p.name, p.ev[del].Pos, "%s removes its registration before it waited", p.name)
			}
			if j := p.index(wi+1, func(e *Event) bool { return e.Kind == "SelectBlock" || e.Kind == "Recv" }); j >= 0 {
				r.violate("waits-again:"+p.name, p.ev[j].Pos, "%s waits twice", p.name)
			}
		}
		if !p.okReturn() {
			return
		}
		r.count("returns without an error", 1)
		if wi < 0 || p.ev[wi].Args[0] != ch {
			r.violate("no-response:"+p.name, p.o.Pos, "%s can return nil without having received a response", p.name)
			return
		}
		// which value was received, and was its type checked
		var recv *Term
		for t, v := range p.F.truth {
			if v && t.Op == "typeis" && strings.HasSuffix(t.Str, "packets."+want) && strings.Contains(t.Args[0].String(), "#recv") {
				recv = t.Args[0]
			}
		}
		if recv == nil {
			r.violate("response-type:"+p.name, p.o.Pos, "%s can return nil although the response may not be a %s", p.name, want)
			return
		}
		topics := p.run.Params[len(p.run.Params)-1]
		nt := mk("len", "", 0, types.Typ[types.Int], topics)
		countOK := false
		for t, v := range p.F.truth {
			if v && t.Op == "eq0" && mentions(t, recv) && mentions(t, nt) {
				q := toPoly(t.Args[0])
				// len(codes) - len(topics)
				if q.constPart() == 0 && len(q.atoms()) == 2 && strings.Contains(t.String(), "ReasonCodes") {
					var lens []*Term
					for _, a := range q.atoms() {
						lens = append(lens, a)
					}
					if toPoly(lens[0]).minus(toPoly(lens[1])).eq(q) || toPoly(lens[1]).minus(toPoly(lens[0])).eq(q) {
						countOK = true
					}
				}
			}
		}
		if !countOK {
			r.violate("response-count:"+p.name, p.o.Pos, "%s can return nil although the response may not have one reason code for each topic", p.name)
		}
		if why := p.ackedCodes(recv, want); why != "" {
			r.violate("response-codes:"+p.name, p.o.Pos, "%s can return nil although a topic was refused: %s", p.name, why)
		}
	})
	r.floor("paths through Subscribe", 10)
	r.floor("paths through Unsubscribe", 10)
	r.floor("waits", 4)
	r.floor("returns without an error", 2)
	r.floor("responses handed over", 2)
}

// checkRespond decides what methods other than the waiting ones put into the channels of waiting calls.
func (p *path) checkRespond(r *Report, ro *Roles) {
	b := p.inbound()
	handed := 0
	found, known := false, true
	looked := false
	for i, e := range p.ev {
		if e.Kind == "MapGet" && e.Name == ro.waits {
			if b == nil || b.i > i || b.typ != "Suback" && b.typ != "Unsuback" || !same(e.Args[1], b.id) {
				r.violate("respond-key:"+p.name, e.Pos, "%s looks up a waiting call under %s, which is not the identifier of a decoded acknowledgement", p.name, short(e.Args[1]))
				continue
			}
			looked = true
			found, known = p.F.eval(e.Args[3])
			// what is sent to it
			for _, s := range p.ev[i:] {
				if (s.Kind == "Offer" || s.Kind == "Send") && s.Args[0] == e.Args[2] {
					handed++
					r.count("responses handed over", 1)
					if s.Kind == "Send" || s.Name != "send" {
						r.violate("respond-blocks:"+p.name, s.Pos, "%s may block when it hands over a response", p.name)
					}
					if !known || !found {
						r.violate("respond-nobody:"+p.name, s.Pos, "%s hands over a response that nobody is known to wait for", p.name)
					}
					if v := unwrapIface(s.Args[1]); v != b.obj {
						r.violate("respond-value:"+p.name, s.Pos, "%s hands over %s, which is not the acknowledgement that arrived", p.name, short(s.Args[1]))
					}
					if !p.sameSection(p.index(0, func(x *Event) bool { return x == e }), p.index(0, func(x *Event) bool { return x == s })) {
						r.violate("respond-unlocked:"+p.name, s.Pos, "%s hands over a response outside of the critical section in which it looked up who waits for it", p.name)
					}
				}
			}
		}
	}
	if p.name == "Poll" && b != nil && (b.typ == "Suback" || b.typ == "Unsuback") {
		switch {
		case !looked:
			r.violate("unanswered:"+b.typ, b.e.Pos, "Poll does not look up the call that waits for a %s", b.typ)
		case !known && p.okReturn():
			r.violate("respond-undecided:"+b.typ, b.e.Pos, "Poll does not decide whether a call waits for a %s", b.typ)
		case found && handed != 1:
			r.violate("unanswered:"+b.typ, b.e.Pos, "Poll hands over a %s %d times to the call that waits for it", b.typ, handed)
		}
	}
}

func init() {
	checks["C17"] = checkC17
	checks["C18"] = checkC18
	checks["C19"] = checkC19
	checks["C20"] = checkC20
	checks["C21"] = checkC21
	checks["C22"] = checkC22
	checks["C28"] = checkC28
}
