package main

import (
	"go/token"
	"strings"
)

// C32: no wake-up of a waiting publisher is lost; C33: packets are handled one at a time; C35: waits end with the context.

// waitsOn tells whether an event waits on a channel in a field of the client, and whether it received from it.
func (p *path) waitsOn(e *Event, reg string) (waits, received bool) {
	if e.Kind != "SelectBlock" && e.Kind != "Recv" {
		return false, false
	}
	if len(e.Args) > 0 && e.Args[0] != nil && p.regOf(e.Args[0]) == reg {
		return true, true
	}
	for _, c := range e.Ret {
		if c != nil && p.regOf(c) == reg {
			return true, false
		}
	}
	return false, false
}

// wakes tells whether an event leaves a wake-up in the channel, unless there is one already.
func (p *path) wakes(e *Event, reg string) bool {
	return (e.Kind == "Offer" || e.Kind == "Send") && p.regOf(e.Args[0]) == reg
}

func checkC32(r *Report, L *Loaded) {
	r.Rule = "the channel on which Publish waits for quota keeps a wake-up that nobody waits for yet; a call waits on it only after it found, since its last wait and within one critical section, that the client is connected and the quota is zero; every increment of the quota and every end of the connected state leaves a wake-up, in the same critical section or later on the path; a call that was woken and does not wait again leaves a wake-up for the next one, unless the quota that it left is known to be zero"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock", "connected flag", "send quota", "channel on which Publish waits") {
		return
	}
	// room for one wake-up
	for f, v := range c.Ctor {
		if c.Label+"."+f == ro.sem {
			r.count("channels of wake-ups", 1)
			if v.Op != "makechan" || !newFacts().proveLe(pConst(1).minus(toPoly(v.Args[0]))) {
				r.violate("no-room", token.NoPos, "a wake-up on %s is lost if nobody waits at that time: the channel has no room for it", ro.sem)
			}
		}
	}
	c.paths(func(p *path) {
		for _, e := range p.ev {
			if e.Kind == "Write" && e.Name == ro.sem {
				r.violate("replaced:"+p.name, e.Pos, "%s replaces %s", p.name, ro.sem)
			}
		}
		// what leaves a wake-up
		for i, e := range p.ev {
			if e.Kind != "Write" || p.name == "Connect" && e.Name == ro.sendQ {
				continue
			}
			why := ""
			switch e.Name {
			case ro.sendQ:
				if d, k := delta(e); k && d <= 0 {
					continue
				}
				why = "giving back send quota"
			case ro.flag:
				if !e.Args[0].isFalse() {
					continue
				}
				why = "leaving the connected state"
			default:
				continue
			}
			r.count("changes that have to wake", 1)
			ok := false
			for j, x := range p.ev {
				if p.wakes(x, ro.sem) && (j > i || p.sameSection(i, j)) {
					ok = true
				}
			}
			if !ok {
				r.violate("not-woken:"+p.name+":"+why, e.Pos, "%s may leave publishers waiting: nothing is put into %s after %s", p.name, ro.sem, why)
			}
		}
		// waits
		justified := func(ev []*Event, F *Facts, i int) bool {
			for j := i - 1; j >= 0; j-- {
				if w, _ := p.waitsOn(ev[j], ro.sem); w || ev[j].Kind == "Loop" && p.loopWaits(ev[j], ro.sem) {
					break
				}
				if ev[j].Kind != "Read" || ev[j].Name != ro.sendQ {
					continue
				}
				if v, k := F.eval(tEq0(toPoly(unwrap(ev[j].Args[0])))); !k || !v {
					continue
				}
				s := ev[j].shared(ro.flag)
				if s == nil {
					for k := 0; k < i; k++ {
						if ev[k].Kind == "Read" && ev[k].Name == ro.flag && sameSection(ev, k, j) {
							s = ev[k].Args[0]
						}
					}
				}
				if s == nil {
					continue
				}
				if v, k := F.eval(s); k && v {
					return true
				}
			}
			return false
		}
		visit := func(ev []*Event, F *Facts) {
			for i, e := range ev {
				if w, _ := p.waitsOn(e, ro.sem); w {
					r.count("waits", 1)
					if !justified(ev, F, i) {
						r.violate("waits:"+p.name, e.Pos, "%s may wait for quota although there is some, or the connection has ended", p.name)
					}
				}
			}
		}
		visit(p.ev, p.F)
		p.eachLoop(func(e *Event) {
			for _, bi := range e.Loop.now() {
				visit(bi.body, bi.facts)
			}
		})
		// what becomes of a wake-up
		last := -1
		for i, e := range p.ev {
			if w, got := p.waitsOn(e, ro.sem); w {
				last = -1
				if got {
					last = i
				}
			} else if e.Kind == "Loop" && p.loopWaits(e, ro.sem) {
				last = i
			}
		}
		if last < 0 {
			return
		}
		r.count("calls that were woken", 1)
		for j := last + 1; j < len(p.ev); j++ {
			e := p.ev[j]
			if p.wakes(e, ro.sem) {
				return
			}
			if e.Kind == "Write" && e.Name == ro.sendQ && p.zero(unwrap(e.Args[0])) {
				return
			}
		}
		r.violate("swallowed:"+p.name, p.o.Pos, "%s may take the wake-up of another waiting call with it: it leaves none although there may be quota left, or the connection has ended", p.name)
	})
	r.floor("channels of wake-ups", 1)
	r.floor("changes that have to wake", 10)
	r.floor("waits", 2)
	r.floor("calls that were woken", 2)
}

// loopWaits tells whether an iteration of a loop waits on the channel.
func (p *path) loopWaits(l *Event, reg string) bool {
	for _, b := range l.Loop.bodies {
		for _, e := range b {
			if w, _ := p.waitsOn(e, reg); w {
				return true
			}
		}
	}
	return false
}

// eachLoop visits the loops of the path, and those within them.
func (p *path) eachLoop(f func(e *Event)) {
	seen := map[*loopRec]bool{}
	var rec func(ev []*Event)
	rec = func(ev []*Event) {
		for _, e := range ev {
			if e.Kind == "Loop" && !seen[e.Loop] {
				seen[e.Loop] = true
				f(e)
				for _, b := range e.Loop.bodies {
					rec(b)
				}
			}
		}
	}
	rec(p.ev)
}

func checkC33(r *Report, L *Loaded) {
	r.Rule = "on every path of every client method the connection lock is held without interruption from the first network use to the last network write and the last delivery of an event, and nothing is left to another goroutine; event channels are only ever sent to"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	ro := c.roles()
	if !ro.need(r, "lock") {
		return
	}
	g := c.eventRegistries()
	if g.general == "" {
		r.violate("anchor:event channels", 0, "expected a map of general event channels that are delivered to, found %v", g.maps)
		return
	}
	delivers := func(e *Event) bool {
		return isEventOffer(e) || e.Kind == "RangeNext" && g.fan[e.instr] != ""
	}
	c.paths(func(p *path) {
		var flat []*Event
		walk(p.ev, false, func(e *Event, _ bool) { flat = append(flat, e) })
		for _, e := range flat {
			if e.Kind == "Go" {
				r.violate("goroutine:"+p.name, e.Pos, "%s leaves work to another goroutine, whose order is not determined", p.name)
			}
			for _, ch := range append(append([]*Term{}, e.Args...), e.Ret...) {
				if (e.Kind == "Recv" || (e.Kind == "Select" || e.Kind == "SelectBlock") && e.Name != "send") && isEventChan(ch) && !isEventOffer(e) {
					if e.Kind == "Recv" || len(e.Args) > 0 && ch == e.Args[0] {
						r.violate("receives:"+p.name, e.Pos, "%s takes events out of an event channel", p.name)
					}
				}
			}
		}
		first := p.index(0, func(e *Event) bool { return usesNet(e) })
		if first < 0 {
			return
		}
		last := p.last(func(e *Event) bool { return usesNet(e) && e.Kind != "ConnClose" || delivers(e) })
		if last < first {
			return
		}
		r.count("paths that use the network", 1)
		if n := p.last(delivers); n >= first {
			r.count("paths that deliver events", 1)
		}
		for k := first; k <= last; k++ {
			e := p.ev[k]
			if e.Kind == "Unlock" && e.Name == ro.conn {
				r.violate("interrupted:"+p.name, e.Pos, "%s releases %s before it is done with the packet: what it sends or delivers after that may get in front of or behind that of another call", p.name, ro.conn)
			}
			if (delivers(e) || usesNet(e)) && !contains(e.Locks, ro.conn) {
				r.violate("unordered:"+p.name, e.Pos, "%s sends or delivers something without holding %s", p.name, ro.conn)
			}
		}
	})
	r.floor("paths that use the network", 100)
	r.floor("paths that deliver events", 20)
}

func checkC35(r *Report, L *Loaded) {
	r.Rule = "every blocking channel operation of a client method that can block is a select that also receives from the Done channel of the method's own context, and a path on which that was received waits for nothing after it and returns an error, which is not one of another meaning"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	c.paths(func(p *path) {
		own := func(ch *Term) bool {
			if ch == nil || ch.Op != "ctxdone" {
				return false
			}
			for _, a := range p.run.Params {
				if mentions(ch.Args[0], a) {
					return true
				}
			}
			return false
		}
		visit := func(ev []*Event, body bool) {
			for i, e := range ev {
				switch {
				case e.Kind == "Call" && (e.Name == "(*sync.WaitGroup).Wait" || e.Name == "(*sync.Cond).Wait"):
					r.violate("uncancellable:"+p.name, e.Pos, "%s waits where its context cannot end it", p.name)
					continue
				case e.Kind == "SelectBlock" || e.Kind == "Recv" || e.Kind == "Send":
				default:
					continue
				}
				if e.Kind == "Send" && c.cannotBlock(ev, i) {
					continue
				}
				r.count("waits", 1)
				has, took := false, false
				for _, ch := range append(append([]*Term{}, e.Args...), e.Ret...) {
					has = has || own(ch)
				}
				took = e.Kind != "Send" && e.Name != "send" && len(e.Args) > 0 && own(e.Args[0])
				if !has {
					r.violate("uncancellable:"+p.name, e.Pos, "%s waits where the end of its context does not end it", p.name)
				}
				if !took {
					continue
				}
				r.count("contexts that end", 1)
				if body {
					r.violate("goes-on:"+p.name, e.Pos, "%s goes on after its context has ended", p.name)
					continue
				}
				for _, x := range ev[i+1:] {
					if x.Kind == "SelectBlock" || x.Kind == "Recv" || x.Kind == "Loop" && hasWait(x) {
						r.violate("goes-on:"+p.name, x.Pos, "%s waits again after its context has ended", p.name)
					}
					if x.Kind == "NetWrite" || x.Kind == "NetRead" {
						r.violate("goes-on:"+p.name, x.Pos, "%s uses the network after its context has ended", p.name)
					}
				}
				if p.okReturn() {
					r.violate("no-error:"+p.name, p.o.Pos, "%s can return nil although its context ended while it waited", p.name)
				} else if err, _ := p.err(); err != nil && err.Op == "gerr" && !strings.Contains(err.Str, "context.") {
					r.violate("other-error:"+p.name, p.o.Pos, "%s returns %s, not the error of its context, although that ended while it waited", p.name, short(err))
				}
			}
		}
		visit(p.ev, false)
		p.eachLoop(func(e *Event) {
			for _, b := range e.Loop.bodies {
				visit(b, true)
			}
		})
	})
	r.floor("waits", 10)
	r.floor("contexts that end", 3)
}

func hasWait(l *Event) bool {
	for _, b := range l.Loop.bodies {
		for _, e := range b {
			if e.Kind == "SelectBlock" || e.Kind == "Recv" {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C32"] = checkC32
	checks["C33"] = checkC33
	checks["C35"] = checkC35
}
