package main

import (
	"go/token"
	"strings"
)

// C30: encoders and decoders agree.

// bothWays are the packet types that are encoded and decoded.
func bothWays() map[string]bool {
	dec := map[string]bool{}
	for _, d := range decSpecs() {
		dec[d.typ] = true
	}
	out := map[string]bool{}
	for _, e := range encSpecs() {
		if dec[e.typ] {
			out[e.typ] = true
		}
	}
	return out
}

// onlyTypes restricts what eachPath and runDecoders look at.
var onlyTypes map[string]bool

func looksAt(typ string) bool { return onlyTypes == nil || onlyTypes[typ] }

// sub does another check as a part of this one.
func (r *Report) sub(f func(r *Report, L *Loaded)) {
	s := newReport(r.ID, r.L)
	s.Tier = r.Tier
	f(s, r.L)
	for _, v := range s.Viol {
		if strings.HasPrefix(v.Key, "floor:") {
			continue
		}
		if k := v.Key + "|" + v.Where; !r.seen[k] {
			r.seen[k] = true
			r.Viol = append(r.Viol, v)
		}
	}
	for k, n := range s.Counts {
		if k != loadedCount {
			r.Counts[k] += n
		}
	}
	for _, x := range s.Samples {
		r.sample(x)
	}
}

func checkC30(r *Report, L *Loaded) {
	both := bothWays()
	onlyTypes = both
	defer func() { onlyTypes = nil }()
	// each way against the same table: what every path of the encoder writes, and what every path of the decoder makes of it
	parallel(r, L, func(r *Report, part, of int) {
		eachPath(r, L, r.Tier == "thorough", part, of, func(p *encPath, s *encSpec) {
			if bad := p.layout(s); bad != "" && !strings.Contains(bad, "than their size") {
				r.violate("encoder:"+s.typ, p.pr.Fn.Pos(), "%s.WriteTo: %s", s.typ, bad)
			} else if bad := p.lengths(s); bad != "" {
				r.violate("encoder:"+s.typ, p.pr.Fn.Pos(), "%s.WriteTo: %s", s.typ, bad)
			}
			r.count("packets matched", 1)
		})
	})
	if isPart() {
		return
	}
	decs := map[string]decSpec{}
	for _, d := range decSpecs() {
		decs[d.typ] = d
	}
	for _, e := range encSpecs() {
		if !both[e.typ] {
			continue
		}
		d := decs[e.typ]
		var a, b []string
		for _, p := range e.props {
			a = append(a, propKey(p))
		}
		for _, p := range d.props {
			b = append(b, propKey(p))
		}
		r.count("properties compared", len(a))
		if !sameSet(a, b) {
			r.violate("tables:"+e.typ, token.NoPos, "the tables of %s for encoding and decoding differ", e.typ)
		}
	}
	r.sub(checkC03)
	r.sub(checkC04)
	r.sub(checkC08)
	r.sub(func(r *Report, L *Loaded) {
		headerAccessors(r, L)
		publishFlags(r, L)
	})
	r.Rule = "for each packet type that is encoded and decoded, every path of the encoder that succeeds writes, and every path of the decoder that succeeds reads, the same table of fields: same place, wire type, property identifier and flag bits, each written from and read into the same field of the packet; variable byte integers are inverse to each other, the lengths are exact, and the decoder refuses nothing of what the encoder writes"
	r.Assume = append(r.Assume, "packets are smaller than 4 GiB; an empty slice or map counts as equal to a nil one; the order of user properties, which a map does not keep, does not count")
	for t := range both {
		r.floor("paths of "+t, 1)
	}
	r.floor("properties compared", 20)
	r.floor("properties decoded", 20)
	r.floor("bits compared", 30)
}

func propKey(p propSpec) string {
	k := p.kind
	if k == "vi" {
		k = "varint"
	}
	return p.field + ":" + k + ":" + string(rune('A'+p.id))
}

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func init() { checks["C30"] = checkC30 }
