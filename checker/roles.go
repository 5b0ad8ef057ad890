package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// path is one way through an exported method.
type path struct {
	c    *Client
	run  *Run
	o    *Outcome
	F    *Facts
	ev   []*Event
	name string
	hdr  []int64
	hset bool
}

func (c *Client) paths(f func(p *path)) {
	for _, run := range c.Runs {
		for _, o := range run.Outcomes {
			if o.Kind != "return" {
				continue
			}
			f(&path{c: c, run: run, o: o, F: o.State.facts, ev: o.State.trace, name: run.Method.Name()})
		}
	}
}

func (p *path) is(t *Term, want bool) bool {
	if t == nil {
		return false
	}
	v, k := p.F.eval(t)
	return k && v == want
}
func (p *path) isNil(t *Term) bool  { return t != nil && p.is(mkIsNil(t), true) }
func (p *path) nonNil(t *Term) bool { return t != nil && p.is(mkIsNil(t), false) }

// zero and nonzero decide an integer term.
func (p *path) zero(t *Term) bool    { return t != nil && p.is(tEq0(toPoly(t)), true) }
func (p *path) nonzero(t *Term) bool { return t != nil && p.is(tEq0(toPoly(t)), false) }
func (p *path) atLeast(t *Term, n int64) bool {
	return t != nil && p.F.proveLe(pConst(n).minus(toPoly(t)))
}
func (p *path) below(t *Term, n int64) bool {
	return t != nil && p.F.proveLe(toPoly(t).minus(pConst(n-1)))
}

// err is the error that the method returns; hasErr is false if it returns none.
func (p *path) err() (e *Term, hasErr bool) {
	rs := p.run.Method.Signature.Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return nil, false
	}
	return p.o.Ret[len(p.o.Ret)-1], true
}

// okReturn tells whether the method may return a nil error.
func (p *path) okReturn() bool {
	e, has := p.err()
	return !has || !p.nonNil(e)
}

func (p *path) index(from int, f func(e *Event) bool) int {
	for i := from; i < len(p.ev); i++ {
		if i >= 0 && f(p.ev[i]) {
			return i
		}
	}
	return -1
}

func (p *path) last(f func(e *Event) bool) int {
	for i := len(p.ev) - 1; i >= 0; i-- {
		if f(p.ev[i]) {
			return i
		}
	}
	return -1
}

// sameSection tells whether some lock is held without interruption between two events.
func (p *path) sameSection(i, j int) bool { return sameSection(p.ev, i, j) }

func sameSection(ev []*Event, i, j int) bool {
	if i > j {
		i, j = j, i
	}
	for _, l := range ev[i].Locks {
		if !contains(ev[j].Locks, l) {
			continue
		}
		ok := true
		for k := i; k <= j; k++ {
			if ev[k].Kind == "Unlock" && ev[k].Name == strings.TrimSuffix(l, "(R)") {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (p *path) where() string { return p.c.L.pos(p.o.Pos) }

// regOf names the client state that a value was read from.
func (p *path) regOf(v *Term) string { return p.run.In.regOf(v) }
func (in *Interp) regOf(v *Term) string {
	if v == nil {
		return ""
	}
	switch v.Op {
	case "init":
		return in.region(v.Args[0])
	case "sym":
		if s, ok := v.Ref.(string); ok {
			return s
		}
	}
	return ""
}

// delta is by how much a write changes an integer.
func delta(e *Event) (int64, bool) {
	if len(e.Args) < 2 || e.Args[0] == nil || e.Args[1] == nil {
		return 0, false
	}
	if !isIntegral(e.Args[1].Typ) && !e.Args[1].isInt() && e.Args[1].Op != "poly" && e.Args[1].Op != "wrap" {
		return 0, false
	}
	return toPoly(unwrap(e.Args[0])).minus(toPoly(unwrap(e.Args[1]))).isConst()
}

// packetOf is the packet that a network write carries, if it is exactly one.
func packetOf(e *Event) (typ string, snap *Term) {
	c := e.Args[0]
	if c == nil || c.Op != "content" || len(c.Args) != 1 || c.Args[0].Op != "packet" {
		return "", nil
	}
	return c.Args[0].Str, c.Args[0].Args[0]
}

// writes lists the network writes of the path.
func (p *path) writes() []*Event {
	var out []*Event
	for _, e := range p.ev {
		if e.Kind == "NetWrite" {
			out = append(out, e)
		}
	}
	return out
}

func (p *path) evErr(e *Event) *Term {
	switch e.Kind {
	case "NetWrite", "NetRead", "SetDeadline", "ConnClose", "Store", "Drop", "Get", "Encode", "Decode":
		return e.Args[len(e.Args)-1]
	}
	return nil
}
func (p *path) ok(e *Event) bool     { return p.isNil(p.evErr(e)) }
func (p *path) failed(e *Event) bool { return p.nonNil(p.evErr(e)) }

var packetCode = map[string]int64{"Connect": 1, "Connack": 2, "Publish": 3, "Puback": 4, "Pubrec": 5, "Pubrel": 6, "Pubcomp": 7,
	"Subscribe": 8, "Suback": 9, "Unsubscribe": 10, "Unsuback": 11, "Disconnect": 14, "Auth": 15}

func isPacketType(n string) bool { _, ok := packetCode[n]; return ok }

// decoded is the event of the first control packet that was decoded successfully.
func (p *path) decoded() (int, *Event) {
	for i, e := range p.ev {
		if e.Kind == "Decode" && isPacketType(e.Name) && p.ok(e) {
			return i, e
		}
	}
	return -1, nil
}

func (p *path) decodedField(e *Event, f string) *Term { return packetField(e.Args[2], f) }

// header is the first byte of the packet that was read and the index of the event after which it is known.
func (p *path) header() (int, *Term) {
	for i, e := range p.ev {
		if e.Kind != "Decode" || !p.ok(e) {
			continue
		}
		if e.Name == "FixedHeader" {
			return i, packetField(e.Args[2], "Header")
		}
		if isPacketType(e.Name) {
			return -1, nil
		}
		return i, e.Args[2]
	}
	return -1, nil
}

// remaining is the remaining length that was read, and the index of the event.
func (p *path) remaining() (int, *Term) {
	for i, e := range p.ev {
		if e.Kind != "Decode" || !p.ok(e) {
			continue
		}
		if e.Name == "FixedHeader" {
			return i, packetField(e.Args[2], "Remaining")
		}
		if e.Name == "VariableByteInt" {
			return i, e.Args[2]
		}
		if isPacketType(e.Name) {
			return -1, nil
		}
	}
	return -1, nil
}

// headerTypes lists the packet types that the facts of the path allow the incoming packet to have.
func (p *path) headerTypes() []int64 {
	if p.hset {
		return p.hdr
	}
	p.hset = true
	_, h := p.header()
	if h == nil {
		return nil
	}
	seen := map[int64]bool{}
	for _, v := range p.F.allowedValues(h, 0, 255) {
		if !seen[v>>4] {
			seen[v>>4] = true
			p.hdr = append(p.hdr, v>>4)
		}
	}
	return p.hdr
}

func (p *path) onlyType(n int64) bool {
	h := p.headerTypes()
	return len(h) == 1 && h[0] == n
}

// Roles says which parts of the client's state serve which purpose, as found from how the code uses them.
type Roles struct {
	conn       string // lock
	flag       string // connected state
	ka         string // keep-alive interval
	sendQ      string
	recvQ      string
	inflight   string
	unreleased string
	waits      string
	storage    string
	sem        string
	problems   []string
}

func one(what string, m map[string]bool, problems *[]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) != 1 {
		*problems = append(*problems, fmt.Sprintf("expected one %s in the client, found %v", what, ks))
		if len(ks) == 0 {
			return ""
		}
	}
	return ks[0]
}

func (c *Client) roles() *Roles {
	r := &Roles{}
	flag, ka, sq, rq, infl, unrel, waits, stor, sem := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	c.paths(func(p *path) {
		switch p.name {
		case "IsConnected":
			flag[p.regOf(p.o.Ret[0])] = true
		case "KeepAliveInterval":
			ka[p.regOf(p.o.Ret[0])] = true
		}
		var id *Term
		if _, d := p.decoded(); d != nil {
			id = p.decodedField(d, "PacketIdentifier")
		}
		for _, e := range p.ev {
			switch e.Kind {
			case "Write":
				if d, ok := delta(e); ok && d == -1 {
					if p.name == "Publish" {
						sq[e.Name] = true
					}
					if p.name == "Poll" {
						rq[e.Name] = true
					}
				}
			case "MapSet":
				switch p.name {
				case "Publish":
					infl[e.Name] = true
				case "Poll":
					if e.Args[1] == id {
						unrel[e.Name] = true
					}
				case "Subscribe", "Unsubscribe":
					if e.Args[2].Op == "makechan" {
						waits[e.Name] = true
					}
				}
			case "Read":
				if c.L.storage != nil && typeIs(e.Args[0].Typ, c.L.storage.Pkg.Path(), "Storage") {
					stor[e.Name] = true
				}
			}
		}
		if p.name == "Publish" {
			walk(p.ev, false, func(e *Event, _ bool) {
				if e.Kind == "SelectBlock" || e.Kind == "Recv" {
					for _, ch := range append(append([]*Term{}, e.Args...), e.Ret...) {
						if ch != nil && ch.Op != "ctxdone" {
							if reg := p.regOf(ch); reg != "" {
								sem[reg] = true
							}
						}
					}
				}
			})
		}
	})
	r.conn = c.connLock()
	if r.conn == "" {
		r.problems = append(r.problems, "there is no single lock that is held at every network read and write")
	}
	r.flag = one("connected flag returned by IsConnected", flag, &r.problems)
	r.ka = one("keep-alive interval returned by KeepAliveInterval", ka, &r.problems)
	r.sendQ = one("send quota decremented by Publish", sq, &r.problems)
	r.recvQ = one("receive quota decremented by Poll", rq, &r.problems)
	r.inflight = one("set of packet identifiers in use filled by Publish", infl, &r.problems)
	r.unreleased = one("set of unreleased QoS 2 messages filled by Poll", unrel, &r.problems)
	r.waits = one("map of waiting calls filled by Subscribe", waits, &r.problems)
	r.storage = one("storage", stor, &r.problems)
	r.sem = one("channel on which Publish waits for quota", sem, &r.problems)
	return r
}

// need reports what could not be identified among the given problems' subjects.
func (ro *Roles) need(r *Report, what ...string) bool {
	ok := true
	for _, p := range ro.problems {
		for _, w := range what {
			if strings.Contains(p, w) {
				r.violate("anchor:"+w, 0, "%s", p)
				ok = false
			}
		}
	}
	return ok
}

// shared is the value of a part of the client's state at an event, as far as it is known and cannot change.
func (e *Event) shared(reg string) *Term { return e.Shared[reg] }

// inLoops visits what happens inside of the loops of the path.
func (p *path) inLoops(f func(e *Event, body []*Event, i int)) {
	seen := map[*loopRec]bool{}
	var rec func(ev []*Event)
	rec = func(ev []*Event) {
		for _, e := range ev {
			if e.Kind == "Loop" && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, b := range e.Loop.bodies {
					for i, x := range b {
						f(x, b, i)
					}
					rec(b)
				}
			}
		}
	}
	rec(p.ev)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
