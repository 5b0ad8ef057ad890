package main

import (
	"go/token"
	"go/types"
	"strings"
)

// C44: event channels from their creation to their closing.

// subElement finds an element of a list in a term.
func subElement(t, list *Term) *Poly {
	if t == nil {
		return nil
	}
	if t.Op == "ia" && (t.Args[0] == list || stripConv(t.Args[0]) == list) {
		return toPoly(t.Args[1])
	}
	for _, a := range t.Args {
		if k := subElement(a, list); k != nil {
			return k
		}
	}
	return nil
}

// codeRange is what an iteration knows about the reason code it looks at.
func codeRange(rec *loopRec, bi *bodyInfo) (lo, hi int64, ok bool) {
	for t, iv := range bi.facts.iv {
		if t.Op != "init" || t.Args[0].Op != "ia" || !strings.HasSuffix(t.Args[0].Args[0].String(), ".ReasonCodes") {
			continue
		}
		k := toPoly(t.Args[0].Args[1])
		if rec.ofIteration(bi, k) {
			return iv.lo, iv.hi, true
		}
	}
	return 0, 0, false
}

// covers decides whether the iterations of a loop look at all elements of a list, one by one, in either direction; idx is
// the index that each iteration uses, nil if it uses none.
func (p *path) covers(rec *loopRec, idx map[*bodyInfo]*Poly, list *Term) (ok, known bool) {
	var ind *Term
	var off int64
	for _, bi := range rec.now() {
		k := idx[bi]
		if k == nil || bi.entry {
			continue
		}
		as := k.atoms()
		if len(as) != 1 || !rec.isSym(as[0]) || !k.minus(pAtom(as[0])).constOnly() {
			return false, false
		}
		o := k.constPart()
		if ind != nil && (ind != as[0] || o != off) {
			return false, false
		}
		ind, off = as[0], o
	}
	if ind == nil {
		return false, false
	}
	n := toPoly(mk("len", "", 0, types.Typ[types.Int], list))
	var step int64
	for _, bi := range rec.now() {
		s, end := bi.start[ind], bi.phi[ind]
		if s == nil || end == nil {
			return false, false
		}
		first := toPoly(s).plus(pConst(off))
		if k := idx[bi]; k != nil && bi.entry && !k.eq(first) {
			return false, true
		}
		from := pAtom(ind)
		if bi.entry {
			from = toPoly(s)
		}
		d, isC := toPoly(unwrap(end)).minus(from).isConst()
		if !isC || d != 1 && d != -1 || step != 0 && d != step {
			return false, true
		}
		step = d
		last := first.minus(n).plus(pConst(1))
		if d == 1 && !first.isZero() || d == -1 && !(bi.facts.proveLe(last) && bi.facts.proveLe(pConst(0).minus(last))) {
			return false, true
		}
	}
	at := pAtom(ind).plus(pConst(off))
	if step < 0 {
		return p.F.proveLe(at.plus(pConst(1))), true
	}
	return p.F.proveLe(n.minus(at)), true
}

func checkC44(r *Report, L *Loaded) {
	r.Rule = "every path of CreateEventChannel returns a channel with room for at least one event and at least the number asked for, a Done channel with room for what is sent to it, and an identifier above what a topic without a channel has, under which it registered that same value among the general event channels and the open ones; every path of CloseEventChannel either found that the channel is not open, or closes it and announces that on Done; every iteration over the topics of a SUBACK or UNSUBACK that found a reason code below 0x80 binds the topic's channel to its filter and takes it from the general ones, or found that it is not open (closes the channel that is bound to the filter, or found that there is none), and no other iteration does; these iterations go through all topics"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	g := c.eventRegistries()
	if g.general == "" || g.topic == "" {
		r.violate("anchor:event channels", 0, "expected one map of general and one of topic-bound event channels that are delivered to, found %v", g.maps)
		return
	}
	// the maps that tell which channels are open
	open := map[string]bool{}
	c.paths(func(p *path) {
		p.eachTrace(func(tr []*Event, _ *Facts) {
			for i, e := range tr {
				if e.Kind == "Close" && isEventChan(e.Args[0]) {
					if reg, _ := c.guardedOnce(tr, i, e.Args[0]); reg != "" {
						open[reg] = true
					}
				}
			}
		})
	})
	doneFields := map[string]bool{}
	sendsDone := false
	var dones []madeChan
	created := false
	c.paths(func(p *path) {
		if p.name == "CreateEventChannel" && p.o.Kind == "return" && len(p.o.Ret) > 0 {
			created = true
			if dn := c.createdChannel(r, p, g, open, doneFields); dn != nil {
				dones = append(dones, madeChan{dn, p.F, p.o.Pos})
			}
		}
	})
	if !created {
		r.violate("anchor:CreateEventChannel", 0, "there is no CreateEventChannel that returns a channel")
		return
	}
	// notOpen tells whether it was found that a channel is not open
	notOpen := func(tr []*Event, F *Facts, base *Term) bool {
		for _, e := range tr {
			if e.Kind != "MapGet" || !open[e.Name] {
				continue
			}
			if b, _ := baseField(e.Args[1]); b != base {
				continue
			}
			if v, k := F.eval(e.Args[3]); k && !v {
				return true
			}
		}
		return false
	}
	closes := func(tr []*Event, base *Term) *Event {
		for _, e := range tr {
			if e.Kind == "Close" && isEventChan(e.Args[0]) {
				if b, _ := baseField(e.Args[0]); base == nil || b == base {
					return e
				}
			}
		}
		return nil
	}
	announced := func(p *path, tr []*Event, cl *Event) {
		base, _ := baseField(cl.Args[0])
		n := false
		for _, e := range tr {
			if e.Kind != "Send" && e.Kind != "Offer" && e.Kind != "Close" || isEventChan(e.Args[0]) {
				continue
			}
			if b, f := baseField(e.Args[0]); b == base && doneFields[f] {
				n = true
				sendsDone = sendsDone || e.Kind != "Close"
			}
		}
		r.count("closed event channels", 1)
		if !n {
			r.violate("silent:"+p.name, cl.Pos, "%s closes an event channel without announcing it on Done", p.name)
		}
	}
	c.paths(func(p *path) {
		p.eachTrace(func(tr []*Event, _ *Facts) {
			if cl := closes(tr, nil); cl != nil {
				announced(p, tr, cl)
			}
		})
		switch p.name {
		case "CloseEventChannel":
			if p.o.Kind != "return" {
				return
			}
			var ch *Term
			for i, prm := range p.run.Method.Params {
				if nameOfType(prm.Type()) == "EventChannel" {
					ch = p.run.Params[i]
				}
			}
			if ch == nil {
				r.count("paths of another form (not decided)", 1)
				return
			}
			r.count("paths of CloseEventChannel", 1)
			if closes(p.ev, ch) == nil && !notOpen(p.ev, p.F, ch) {
				r.violate("not-closed", p.o.Pos, "CloseEventChannel can return without having closed a channel that may be open")
			}
		case "Subscribe", "Unsubscribe":
			var list *Term
			for i, prm := range p.run.Method.Params {
				if _, ok := prm.Type().Underlying().(*types.Slice); ok {
					list = p.run.Params[i]
				}
			}
			if list == nil {
				return
			}
			done := false
			for _, e := range p.ev {
				if e.Kind == "Loop" && c.ackLoop(r, p, g, open, e, list, notOpen, closes) {
					done = true
				}
			}
			if p.okReturn() && !done {
				r.violate("no-bindings:"+p.name, p.o.Pos, "%s can return nil without having gone through the topics that the server accepted", p.name)
			}
		}
	})
	for _, dn := range dones {
		if sendsDone && !dn.F.proveLe(pConst(1).minus(toPoly(unwrap(dn.t.Args[0])))) {
			r.violate("done-no-room", dn.pos, "CreateEventChannel returns a Done channel without room for what is sent to it: CloseEventChannel would block")
		}
	}
	r.floor("created event channels", 2)
	r.floor("closed event channels", 2)
	r.floor("paths of CloseEventChannel", 2)
	r.floor("accepted topics of Subscribe", 2)
	r.floor("accepted topics of Unsubscribe", 2)
	r.floor("refused topics", 2)
}

// eachTrace visits the events of a path and those of every iteration of its loops, with what is known there.
func (p *path) eachTrace(f func(tr []*Event, F *Facts)) {
	seen := map[*loopRec]bool{}
	var rec func(tr []*Event, F *Facts)
	rec = func(tr []*Event, F *Facts) {
		f(tr, F)
		for _, e := range tr {
			if e.Kind == "Loop" && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, bi := range e.Loop.now() {
					rec(bi.body, bi.facts)
				}
			}
		}
	}
	rec(p.ev, p.F)
}

// madeChan is a channel that a path makes.
type madeChan struct {
	t   *Term
	F   *Facts
	pos token.Pos
}

// createdChannel checks a path that makes an event channel.
func (c *Client) createdChannel(r *Report, p *path, g *registries, open map[string]bool, doneFields map[string]bool) *Term {
	v := p.o.Ret[0]
	ch, dn, id := packetField(v, "C"), packetField(v, "Done"), packetField(v, "id")
	if ch == nil || dn == nil || id == nil {
		r.violate("created", p.o.Pos, "CreateEventChannel returns something else than a new event channel: %s", short(v))
		return nil
	}
	ch, dn = stripConv(unwrap(ch)), stripConv(unwrap(dn))
	r.count("created event channels", 1)
	if ch.Op != "makechan" || dn.Op != "makechan" {
		r.violate("created", p.o.Pos, "CreateEventChannel returns an event channel whose channels are not new")
		return nil
	}
	u := v.Typ.Underlying().(*types.Struct)
	var own *Term
	for i, a := range v.Args {
		switch a := stripConv(unwrap(a)); {
		case a == dn:
			doneFields[u.Field(i).Name()] = true
		case a.Op == "makechan" && a != ch:
			r.violate("created-split", p.o.Pos, "CreateEventChannel gives the application another channel than the one events are delivered to")
		case a == ch && u.Field(i).Name() != "C":
			own = a
		}
	}
	if own == nil {
		r.violate("created-split", p.o.Pos, "CreateEventChannel gives the application another channel than the one events are delivered to")
	}
	if !p.F.proveLe(pConst(1).minus(toPoly(unwrap(ch.Args[0])))) {
		r.violate("no-room", p.o.Pos, "CreateEventChannel may return a channel without room for an event: events would be lost even if it is read all the time")
	}
	for i, prm := range p.run.Method.Params {
		if i > 0 && isIntegral(prm.Type()) {
			if !p.F.proveLe(toPoly(p.run.Params[i]).minus(toPoly(unwrap(ch.Args[0])))) {
				r.violate("less-room", p.o.Pos, "CreateEventChannel may return a channel with room for less than %s events", prm.Name())
			}
		}
	}
	// registered as it is
	reg := false
	opened := map[string]bool{}
	for _, e := range p.ev {
		if e.Kind != "MapSet" {
			continue
		}
		if e.Name == g.general && same(e.Args[1], id) {
			reg = true
			for j, a := range e.Args[2].Args {
				if e.Args[2].Op == "struct" && j < len(v.Args) && a != v.Args[j] {
					r.violate("registered-other", e.Pos, "CreateEventChannel registers another channel than the one it returns")
				}
			}
		}
		if open[e.Name] && same(e.Args[1], id) {
			opened[e.Name] = true
		}
	}
	if !reg {
		r.violate("unregistered", p.o.Pos, "CreateEventChannel returns a channel that no events are delivered to")
		return nil
	}
	for o := range open {
		if !opened[o] {
			r.violate("unregistered:"+o, p.o.Pos, "CreateEventChannel returns a channel that counts as closed")
		}
	}
	// the identifier is not that of a topic without a channel, nor that of an earlier channel
	counted := false
	for _, w := range p.ev {
		if w.Kind != "Write" || w.Args[1] == nil || w.Args[0] == nil || !isIntegral(w.Args[0].Typ) || !strings.HasPrefix(w.Name, "c.") {
			continue
		}
		old, now := toPoly(w.Args[1]), toPoly(unwrap(w.Args[0]))
		var first int64
		switch {
		case toPoly(id).eq(old):
			first = 1
		case toPoly(id).eq(now):
			first = 0
		default:
			continue
		}
		counted = true
		if d, isC := now.minus(old).isConst(); !isC || d < 1 {
			r.violate("identifier-again", w.Pos, "CreateEventChannel does not go on to another identifier: it could be given to two channels")
		}
		init := c.Ctor[strings.TrimPrefix(w.Name, "c.")]
		if k, isC := toPoly(unwrap(init)).isConst(); init == nil || !isC || k < first {
			r.violate("identifier-zero", w.Pos, "the first event channel gets the identifier of a topic without a channel, which is zero")
		}
		r.count("identifiers of event channels", 1)
		c.paths(func(q *path) {
			if q.name == p.name {
				return
			}
			for _, e := range q.ev {
				if e.Kind == "Write" && e.Name == w.Name {
					r.violate("identifier-again", e.Pos, "%s changes the counter of the identifiers of event channels", q.name)
				}
			}
		})
	}
	if as := toPoly(id).atoms(); !counted && (len(as) == 0 || len(as) == 1 && as[0].Op == "init") {
		r.violate("identifier-again", p.o.Pos, "CreateEventChannel does not go on to another identifier: it could be given to two channels")
	}
	return dn
}

// closesElsewhere tells whether a method has another loop that closes event channels.
func (c *Client) closesElsewhere(name string, not *loopRec) bool {
	found := false
	c.paths(func(p *path) {
		if p.name != name || found {
			return
		}
		p.eachTrace(func(tr []*Event, _ *Facts) {
			for _, e := range tr {
				if e.Kind != "Loop" || e.Loop.head == not.head {
					continue
				}
				for _, bi := range e.Loop.now() {
					for _, x := range bi.body {
						found = found || x.Kind == "Close" && isEventChan(x.Args[0])
					}
				}
			}
		})
	})
	return found
}

// ackLoop checks a loop of Subscribe or Unsubscribe over what the server answered; it returns false if it is another loop.
func (c *Client) ackLoop(r *Report, p *path, g *registries, open map[string]bool, l *Event, list *Term, notOpen func([]*Event, *Facts, *Term) bool, closes func([]*Event, *Term) *Event) bool {
	rec := l.Loop
	mine, codes := false, false
	for _, bi := range rec.now() {
		for _, e := range bi.body {
			if (e.Kind == "MapGet" || e.Kind == "MapSet" || e.Kind == "MapDel") && (e.Name == g.topic || e.Name == g.general) {
				mine = true
			}
		}
		if _, _, ok := codeRange(rec, bi); ok {
			codes = true
		}
	}
	if !mine || !codes {
		return false
	}
	idx := map[*bodyInfo]*Poly{}
	for _, bi := range rec.now() {
		lo, hi, known := codeRange(rec, bi)
		switch {
		case known && lo >= 0x80:
			r.count("refused topics", 1)
			for _, e := range bi.body {
				if e.Kind == "MapSet" && e.Name == g.topic || e.Kind == "Close" {
					r.violate("refused:"+p.name, e.Pos, "%s treats a topic that the server refused as if it was accepted", p.name)
				}
			}
			continue
		case !known || hi > 0x7f:
			r.violate("undecided:"+p.name, l.Pos, "%s goes through the topics without deciding which of them the server accepted", p.name)
			continue
		}
		r.count("accepted topics of "+p.name, 1)
		if p.name == "Subscribe" {
			var set *Event
			si := -1
			for i, e := range bi.body {
				if e.Kind == "MapSet" && e.Name == g.topic {
					set, si = e, i
				}
			}
			if set == nil {
				// the channel is not open
				ok := false
				for _, e := range bi.body {
					if e.Kind == "MapGet" && open[e.Name] && subElement(e.Args[1], list) != nil {
						if v, k := bi.facts.eval(e.Args[3]); k && !v {
							ok = true
							idx[bi] = subElement(e.Args[1], list)
						}
					}
				}
				if !ok {
					r.violate("not-bound", l.Pos, "Subscribe leaves the event channel of an accepted topic unbound although it may be open")
				}
				continue
			}
			kk, vk := subElement(set.Args[1], list), subElement(set.Args[2], list)
			if kk == nil || vk == nil {
				r.violate("bound-other", set.Pos, "Subscribe binds %s to %s, which is not the topic's own", short(set.Args[2]), short(set.Args[1]))
				continue
			}
			if !kk.eq(vk) {
				r.violate("bound-other", set.Pos, "Subscribe binds the channel of one topic to the filter of another")
			}
			idx[bi] = kk
			id := packetField(set.Args[2], "id")
			gone := false
			for i, e := range bi.body {
				if e.Kind == "MapDel" && e.Name == g.general && id != nil && same(e.Args[1], id) && sameSection(bi.body, si, i) {
					gone = true
				}
			}
			if !gone {
				r.violate("still-general", set.Pos, "Subscribe binds an event channel to a topic and leaves it among the general ones: it gets other events as well, and publishes twice")
			}
			continue
		}
		// Unsubscribe
		var get *Event
		for _, e := range bi.body {
			if e.Kind == "MapGet" && e.Name == g.topic && subElement(e.Args[1], list) != nil {
				get = e
			}
		}
		if get == nil {
			r.violate("not-looked-up", l.Pos, "Unsubscribe does not look for the event channel that is bound to a filter that the server accepted")
			continue
		}
		idx[bi] = subElement(get.Args[1], list)
		v, k := bi.facts.eval(get.Args[3])
		switch {
		case !k:
			r.violate("not-looked-up", get.Pos, "Unsubscribe does not decide whether an event channel is bound to a filter that the server accepted")
		case v && closes(bi.body, get.Args[2]) == nil && !notOpen(bi.body, bi.facts, get.Args[2]):
			if c.closesElsewhere(p.name, rec) {
				r.count("loops of another form (not decided)", 1)
				continue
			}
			r.violate("left-open", get.Pos, "Unsubscribe leaves the event channel open that is bound to a filter that the server accepted")
		}
	}
	ok, known := p.covers(rec, idx, list)
	switch {
	case !known:
		r.count("loops of another form (not decided)", 1)
	case !ok:
		r.violate("incomplete:"+p.name, l.Pos, "%s may not go through all topics that the server accepted", p.name)
	default:
		r.count("loops over all topics", 1)
	}
	return true
}

func init() { checks["C44"] = checkC44 }
