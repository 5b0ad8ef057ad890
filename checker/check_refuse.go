package main

import (
	"go/token"
	"go/types"
)

// C09: what cannot be represented is refused.

// limitOf is how long something that is written may be.
func (p *encPath) limitOf(v *Term) (limit int64, what string) {
	if pl := p.pr.field("Payload"); pl != nil && p.pr.Name == "Publish" && v == pl {
		return maxRemaining, "a payload of more than 268,435,455 bytes"
	}
	return 65535, "a string of more than 65,535 bytes"
}

// tooLong looks for a string that may be longer than its length prefix can tell.
func (p *encPath) tooLong(its []encItem, f func(it encItem, what string), n *int) {
	for _, it := range its {
		if it.t == nil {
			p.tooLong(it.body, f, n)
			continue
		}
		if it.t.Op != "blob" {
			continue
		}
		*n++
		v := it.t.Args[0]
		limit, what := p.limitOf(v)
		over := toPoly(p.pr.In.lenOf(nil, v)).minus(pConst(limit))
		if p.f.proveLe(over) {
			continue
		}
		raw := toPoly(p.pr.In.lenOf(nil, it.raw.Args[0])).minus(pConst(limit))
		if it.ev.Facts != nil && it.ev.Facts.proveLe(raw) {
			continue
		}
		f(it, what+" ("+v.String()+")")
	}
}

// encRule is something that an encoder has to refuse: it may not succeed if all of these hold.
type encRule struct {
	what string
	cond func(pr *packetRun) []*Term
}

func above(pr *packetRun, field string, limit int64) *Term {
	return tLe0(pConst(limit + 1).minus(toPoly(pr.field(field))))
}

func encRules(typ string) []encRule {
	switch typ {
	case "Publish":
		return []encRule{
			{"a QoS above 2", func(pr *packetRun) []*Term { return []*Term{above(pr, "QoS", 2)} }},
			{"neither a topic nor a topic alias", func(pr *packetRun) []*Term {
				return []*Term{tNot(pr.isSet("Topic")), tNot(pr.isSet("TopicAlias"))}
			}},
			{"a payload of more than 268,435,455 bytes", func(pr *packetRun) []*Term {
				l := pr.In.lenOf(nil, pr.field("Payload"))
				return []*Term{tLe0(pConst(maxRemaining + 1).minus(toPoly(l)))}
			}},
		}
	case "Connect":
		return []encRule{
			{"a will QoS above 2", func(pr *packetRun) []*Term { return []*Term{above(pr, "WillQos", 2)} }},
		}
	case "Subscribe", "Unsubscribe":
		return []encRule{
			{"no topics", func(pr *packetRun) []*Term { return []*Term{tNot(pr.isSet("Topics"))} }},
		}
	}
	return nil
}

// p09justified tells whether the branches taken imply that the packet cannot be represented.
func p09justified(pr *packetRun, o *Outcome, rules []encRule) bool {
	f := o.State.facts
	if p09holds(pr, f, rules) {
		return true
	}
	// an error that an iteration of a loop left behind
	for _, e := range o.State.trace {
		if e.Loop == nil {
			continue
		}
		infos := e.Loop.now()
		if len(infos) == 0 {
			continue
		}
	next:
		for s := range infos[0].start {
			if v, k := f.eval(mkIsNil(s)); !k || v {
				continue
			}
			for _, bi := range infos {
				b, p := bi.begin[s], bi.phi[s]
				if b == nil || p == nil {
					continue next
				}
				isNil := func(t *Term) (v, k bool) { return bi.facts.eval(mkIsNil(t)) }
				if bi.entry {
					if v, k := isNil(b); !k || !v {
						continue next // it was there before
					}
				}
				if v, k := isNil(p); k && v || p == b {
					continue
				}
				if v, k := isNil(b); k && !v {
					continue
				}
				if !p09holds(pr, bi.facts, rules) {
					continue next
				}
			}
			return true
		}
	}
	return false
}

func p09holds(pr *packetRun, f *Facts, rules []encRule) bool {
	for _, rule := range rules {
		all := true
		for _, c := range rule.cond(pr) {
			v, k := f.eval(c)
			all = all && k && v
		}
		if all {
			return true
		}
	}
	pl := pr.field("Payload")
	for _, l := range f.lengths() {
		if pl != nil && pr.Name == "Publish" && l == pr.In.lenOf(nil, pl) {
			continue
		}
		if f.proveLe(pConst(65536).minus(pAtom(l))) && l.Args[0].Typ != nil {
			if b, ok := l.Args[0].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		}
	}
	// more in total than a remaining length can tell
	for _, q := range f.le {
		if q.constPart() > maxRemaining-1000 && len(q.m) > 2 {
			return true
		}
	}
	for t, iv := range f.iv {
		if (t.Op == "wrap" || t.Op == "trunc" || t.Op == "poly") && iv.lo > maxRemaining {
			return true
		}
	}
	return false
}

func checkC09(r *Report, L *Loaded) {
	r.Rule = "on every path through every encoder that returns nil, the branches taken imply that every string that was written is no longer than 65,535 bytes and the payload no longer than 268,435,455; and they contradict a QoS or will QoS above 2, a publish without topic and alias, and an empty topic list"
	r.Assume = append(r.Assume, "the lengths of all fields of a packet together are less than 4 GiB", "the variable byte integer encoder refuses what it cannot represent (C08)")
	for _, s := range encSpecs() {
		s := s
		rules := encRules(s.typ)
		for hi, h := range s.headers() {
			if hi > 0 {
				break
			}
			for _, fam := range s.errorFamilies(r.Tier == "thorough") {
				pr := runEncoder(L, s.typ, encOpts{noFail: true, header: h, assume: fam.assume, done: func(pr *packetRun, o *Outcome) {
					if o.Kind != "return" {
						return
					}
					if retErr(o) != 0 {
						r.count("paths that refuse", 1)
						if !p09justified(pr, o, rules) {
							r.violate("refuses:"+s.typ, o.Pos, "%s.WriteTo may refuse a packet that is within the limits of MQTT 5", s.typ)
						}
					}
					if retErr(o) == 1 {
						return
					}
					r.count("paths that may succeed", 1)
					p := pr.path(o)
					if p.fail != "" {
						r.violate("undecided:"+s.typ, o.Pos, "%s.WriteTo cannot be decided: %s", s.typ, p.fail)
						return
					}
					n := 0
					p.tooLong(p.items, func(it encItem, what string) {
						r.violate("long:"+s.typ, it.ev.Pos, "%s.WriteTo writes %s with a length that cannot tell it", s.typ, what)
					}, &n)
					r.count("strings that are written", n)
					for _, rule := range rules {
						f := o.State.facts.clone()
						possible := true
						for _, c := range rule.cond(pr) {
							possible = possible && f.assume(c, true)
						}
						r.count("refusals examined", 1)
						if possible {
							r.violate("accepts:"+s.typ+":"+rule.what, o.Pos, "%s.WriteTo may succeed with %s", s.typ, rule.what)
						}
					}
				}})
				if pr == nil {
					r.violate("missing:"+s.typ, token.NoPos, "the packets package has no encoder for %s", s.typ)
					break
				}
				for _, u := range pr.In.undec {
					r.violate("undecided:"+s.typ, pr.Fn.Pos(), "%s.WriteTo cannot be decided: %s", s.typ, u)
				}
				if s.props == nil {
					break
				}
			}
		}
	}
	r.floor("strings that are written", 200)
	r.floor("refusals examined", 100)
}

func init() { checks["C09"] = checkC09 }
