package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// walk visits the events of a trace and, marked as such, those of the iterations of its loops.
func walk(tr []*Event, inLoop bool, f func(e *Event, inLoop bool)) {
	walkRec(tr, inLoop, map[*loopRec]bool{}, f)
}
func walkRec(tr []*Event, inLoop bool, seen map[*loopRec]bool, f func(e *Event, inLoop bool)) {
	for _, e := range tr {
		f(e, inLoop)
		if e.Kind == "Loop" && !seen[e.Loop] {
			seen[e.Loop] = true
			for _, b := range e.Loop.bodies {
				walkRec(b, true, seen, f)
			}
		}
	}
}

// clientFor runs the analysis of the client and reports what stands in its way.
func clientFor(r *Report, L *Loaded) *Client {
	c := shareClient
	if c == nil {
		c = runClient(L)
	}
	r.Assume = append(r.Assume,
		"clients are made by the package's constructor and their pointers are not nil",
		"net.Conn keeps its contract: Write returns an error if it wrote less than asked for",
		"storage implementations and contexts keep their contracts and do not call the client")
	if c.Problem != "" {
		r.violate("anchor", token.NoPos, "%s", c.Problem)
		return nil
	}
	for _, u := range c.Undec {
		r.violate("undecided", token.NoPos, "%s", u)
	}
	r.count("exported methods of Client", len(c.Runs))
	r.count("paths through exported methods", c.NPaths)
	r.count("events on these paths", c.NEvents)
	r.floor("exported methods of Client", 8)
	r.floor("paths through exported methods", 200)
	return c
}

func (c *Client) method(name string) *Run {
	for _, r := range c.Runs {
		if r.Method.Name() == name {
			return r
		}
	}
	return nil
}

// connLock is the lock that is held at every use of the network.
func (c *Client) connLock() string {
	var set map[string]bool
	for _, r := range c.Runs {
		for _, o := range r.Outcomes {
			walk(o.State.trace, false, func(e *Event, _ bool) {
				if e.Kind != "NetWrite" && !(e.Kind == "Decode" && isConn(e.Args[1])) {
					return
				}
				m := map[string]bool{}
				for _, l := range e.Locks {
					if set == nil || set[l] {
						m[l] = true
					}
				}
				set = m
			})
		}
	}
	var out []string
	for l := range set {
		if !strings.HasSuffix(l, "(R)") {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	if len(out) != 1 {
		return ""
	}
	return out[0]
}

func init() {
	checks["C11"] = func(r *Report, L *Loaded) {
		r.Rule = "lock typestate: on every path of every exported method of Client, each lock of the client is released at the return, no lock is unlocked that is not held, and no lock is acquired that the call chain holds"
		c := clientFor(r, L)
		if c == nil {
			return
		}
		for _, run := range c.Runs {
			for _, o := range run.Outcomes {
				if o.Kind != "return" {
					continue
				}
				for l, x := range o.State.locks {
					r.violate("held-at-return:"+run.Method.Name()+":"+l, o.Pos, "%s returns with %s held, acquired at %s", run.Method.Name(), l, L.pos(x.pos))
				}
				n := 0
				for _, e := range o.State.trace {
					if e.Kind == "Lock" {
						n++
					}
				}
				r.count("acquisitions followed to their release", n)
			}
		}
		for _, e := range c.LockErr {
			r.violate("lock-error:"+strings.Fields(e)[0], token.NoPos, "%s", e)
		}
		locks := map[string]bool{}
		for _, run := range c.Runs {
			for _, o := range run.Outcomes {
				walk(o.State.trace, false, func(e *Event, _ bool) {
					if e.Kind == "Lock" {
						locks[e.Name] = true
						r.sample(fmt.Sprintf("%s acquires %s at %s", run.Method.Name(), e.Name, L.pos(e.Pos)))
					}
				})
			}
		}
		r.count("locks", len(locks))
		r.floor("locks", 2)
		r.floor("acquisitions followed to their release", 500)
	}
	checks["C12"] = func(r *Report, L *Loaded) {
		r.Rule = "lock-order graph over all exported methods is acyclic; at every network read or write only the connection lock is held, and at every channel operation that can block no lock at all, except for the first send to a buffered channel that is guarded by a once-only registry"
		c := clientFor(r, L)
		if c == nil {
			return
		}
		// order
		adj := map[string][]string{}
		for k := range c.Order {
			adj[k[0]] = append(adj[k[0]], k[1])
		}
		r.count("lock order pairs", len(c.Order))
		for k, where := range c.Order {
			// is k[0] reachable from k[1]?
			seen := map[string]bool{}
			var dfs func(x string) bool
			dfs = func(x string) bool {
				if x == k[0] {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for _, y := range adj[x] {
					if dfs(y) {
						return true
					}
				}
				return false
			}
			if dfs(k[1]) {
				r.violate("cycle:"+k[0]+">"+k[1], token.NoPos, "%s is acquired while %s is held at %s, but elsewhere they are acquired in the opposite order", k[1], k[0], where)
			}
			r.sample(fmt.Sprintf("%s before %s at %s", k[0], k[1], where))
		}
		cl := c.connLock()
		if cl == "" {
			r.violate("anchor:connection lock", token.NoPos, "there is no single lock that is held at every network read and write")
			return
		}
		nb, nn := 0, 0
		for _, run := range c.Runs {
			for _, o := range run.Outcomes {
				var flat []*Event
				walk(o.State.trace, false, func(e *Event, _ bool) { flat = append(flat, e) })
				for i, e := range flat {
					switch {
					case e.Kind == "NetWrite" || e.Kind == "NetRead" || e.Kind == "Decode" && isConn(e.Args[1]):
						nn++
						for _, l := range e.Locks {
							if l != cl {
								r.violate("io-under-lock:"+run.Method.Name()+":"+l, e.Pos, "%s uses the network while it holds %s (%s)", run.Method.Name(), l, e.Ctx)
							}
						}
					case e.Kind == "SelectBlock" || e.Kind == "Send" || e.Kind == "Recv":
						nb++
						if len(e.Locks) == 0 {
							continue
						}
						if e.Kind == "Send" && c.cannotBlock(flat, i) {
							continue
						}
						r.violate("wait-under-lock:"+run.Method.Name()+":"+strings.Join(e.Locks, "+"), e.Pos, "%s waits on a channel while it holds %s (%s)", run.Method.Name(), strings.Join(e.Locks, ", "), e.Ctx)
					case e.Kind == "Call" && (e.Name == "(*sync.WaitGroup).Wait" || e.Name == "(*sync.Cond).Wait"):
						if len(e.Locks) > 0 {
							r.violate("wait-under-lock:"+run.Method.Name(), e.Pos, "%s waits while it holds %s", run.Method.Name(), strings.Join(e.Locks, ", "))
						}
					}
				}
			}
		}
		r.count("network operations", nn)
		r.count("blocking channel operations", nb)
		r.floor("network operations", 100)
		r.floor("blocking channel operations", 10)
		r.floor("lock order pairs", 1)
	}
	checks["C13"] = func(r *Report, L *Loaded) {
		r.Rule = "static lockset: for every pair of accesses to the same client state (fields and contents of its maps) from exported methods, one of them a write, some lock is held at both and exclusively at one of them"
		c := clientFor(r, L)
		if c == nil {
			return
		}
		by := map[string][]*Access{}
		for _, a := range c.Access {
			by[a.Region] = append(by[a.Region], a)
		}
		pairs := 0
		var regs []string
		for reg := range by {
			regs = append(regs, reg)
		}
		sort.Strings(regs)
		for _, reg := range regs {
			as := by[reg]
			w := false
			for i, a := range as {
				w = w || a.Write
				for _, b := range as[i:] {
					if !a.Write && !b.Write {
						continue
					}
					pairs++
					ok := false
					for l, x := range a.Locks {
						if y, has := b.Locks[l]; has && (x || y) {
							ok = true
						}
					}
					if !ok {
						p, q := a, b
						if !p.Write {
							p, q = b, a
						}
						r.violate("race:"+reg+":"+p.Root+":"+q.Root, p.Pos, "%s is written in %s (holding %s) and accessed at %s in %s (holding %s) without a common lock", reg, p.Root, lockList(p), L.pos(q.Pos), q.Root, lockList(q))
					}
				}
			}
			if w {
				r.count("written regions", 1)
				r.sample(fmt.Sprintf("%s: %d accesses", reg, len(as)))
			}
		}
		for _, run := range c.Runs {
			for _, o := range run.Outcomes {
				walk(o.State.trace, false, func(e *Event, _ bool) {
					if e.Kind == "Go" {
						r.violate("goroutine:"+run.Method.Name(), e.Pos, "%s starts a goroutine, whose accesses are not analysed", run.Method.Name())
					}
				})
			}
		}
		// the address of client state must not be handed out
		r.count("accesses", len(c.Access))
		r.count("pairs", pairs)
		r.floor("written regions", 10)
		r.floor("accesses", 100)
	}
}

func lockList(a *Access) string {
	var out []string
	for l, w := range a.Locks {
		if !w {
			l += " for reading"
		}
		out = append(out, l)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "no lock"
	}
	return strings.Join(out, ", ")
}

// base is the struct value that a field was taken from, and the name of the field.
func baseField(t *Term) (*Term, string) {
	if t == nil {
		return nil, ""
	}
	switch t.Op {
	case "fld":
		return t.Args[0], t.Str
	case "init":
		if a := t.Args[0]; a.Op == "fa" {
			return a.Args[0], a.Str
		}
	}
	return nil, ""
}

// guardedOnce finds the registry that makes sure that what happens at index i to a part of a struct value happens only
// once: a map in which the identifier of the value was found and from which it is removed in the same critical section.
func (c *Client) guardedOnce(tr []*Event, i int, part *Term) (reg string, key *Term) {
	base, _ := baseField(part)
	if base == nil {
		return "", nil
	}
	e := tr[i]
	for j := i; j >= 0; j-- {
		g := tr[j]
		if g.Kind == "Unlock" {
			for _, l := range e.Locks {
				if l == g.Name {
					return "", nil
				}
			}
		}
		if g.Kind != "MapGet" || g.Name == "" || !strings.HasPrefix(g.Name, "c.") {
			continue
		}
		if v, k := e.Facts.eval(g.Args[3]); !k || !v {
			continue
		}
		kb, _ := baseField(g.Args[1])
		if kb != base {
			continue
		}
		// the entry must be removed before the lock is released
		for m := j; m < len(tr); m++ {
			d := tr[m]
			if d.Kind == "Unlock" && contains(e.Locks, d.Name) {
				break
			}
			if d.Kind == "MapDel" && d.Name == g.Name && d.Args[1] == g.Args[1] {
				return g.Name, g.Args[1]
			}
		}
	}
	return "", nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// cannotBlock tells whether a send is the only one that a channel with room for it can ever get.
func (c *Client) cannotBlock(tr []*Event, i int) bool {
	ch := tr[i].Args[0]
	reg, _ := c.guardedOnce(tr, i, ch)
	if reg == "" {
		return false
	}
	_, fname := baseField(ch)
	// every channel that is put into this field has room
	ok := c.chanFieldCap(namedBase(ch), fname) >= 1
	// no other send to such a channel
	n := 0
	for _, e := range tr {
		if (e.Kind == "Send" || e.Kind == "Offer") && e.Args[0] == ch && e.instr != tr[i].instr {
			n++
		}
	}
	return ok && n == 0 && c.registryFresh(reg)
}

func namedBase(ch *Term) types.Type {
	b, _ := baseField(ch)
	if b == nil {
		return nil
	}
	return b.Typ
}

// chanFieldCap is the least capacity of the channels that are stored in a field of a struct type anywhere.
func (c *Client) chanFieldCap(_ types.Type, field string) int64 {
	least := int64(-1)
	for _, run := range c.Runs {
		for _, o := range run.Outcomes {
			if o.Kind != "return" {
				continue
			}
			consider := func(v *Term, facts *Facts) {
				if v == nil || v.Op != "struct" {
					return
				}
				f := packetField(v, field)
				if f == nil || f.Op != "makechan" {
					return
				}
				lo := facts.ivOf(f.Args[0]).lo
				if least < 0 || lo < least {
					least = lo
				}
			}
			for _, e := range o.State.trace {
				if e.Kind == "MapSet" {
					consider(e.Args[2], e.Facts)
				}
			}
			for _, v := range o.Ret {
				consider(v, o.State.facts)
			}
		}
	}
	return least
}

// registryFresh tells whether identifiers get into a registry only when they are new: as the value of a counter that is
// incremented in the same critical section.
func (c *Client) registryFresh(reg string) bool {
	n := 0
	for _, run := range c.Runs {
		for _, o := range run.Outcomes {
			bad := false
			var flat []*Event
			walk(o.State.trace, false, func(e *Event, _ bool) { flat = append(flat, e) })
			for i, e := range flat {
				if e.Kind != "MapSet" || e.Name != reg {
					continue
				}
				n++
				key := e.Args[1]
				ok := false
				for j := i; j < len(flat); j++ {
					w := flat[j]
					if w.Kind == "Unlock" && contains(e.Locks, w.Name) {
						break
					}
					if w.Kind == "Write" && w.Args[1] != nil && w.Args[1] == key && toPoly(w.Args[0]).minus(toPoly(key)).eq(pConst(1)) {
						ok = true
					}
				}
				for j := i; j >= 0 && !ok; j-- {
					w := flat[j]
					if w.Kind == "Unlock" && contains(e.Locks, w.Name) {
						break
					}
					if w.Kind == "Write" && w.Args[1] != nil && toPoly(w.Args[0]).minus(toPoly(w.Args[1])).eq(pConst(1)) && (w.Args[1] == key || w.Args[0] == key) {
						ok = true
					}
				}
				if !ok {
					bad = true
				}
			}
			if bad {
				return false
			}
		}
	}
	return n > 0
}
