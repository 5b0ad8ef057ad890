package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// dump prints the paths through an exported method whose text contains all of the given strings.
func dump(L *Loaded, method string, filter []string) {
	var c *Client
	if m, ok := strings.CutPrefix(method, "memory."); ok {
		method = m
		c = runObject(L, L.namedType(L.memory, "Storage").(*types.Named), "s", true)
	} else {
		c = runClient(L)
	}
	r := c.method(method)
	if r == nil {
		fmt.Println("no such method", method)
		return
	}
	n := 0
	for _, o := range r.Outcomes {
		s := outcomeString(L, o)
		ok := true
		for _, f := range filter {
			if strings.HasPrefix(f, "!") {
				ok = ok && !strings.Contains(s, f[1:])
			} else {
				ok = ok && strings.Contains(s, f)
			}
		}
		if !ok {
			continue
		}
		n++
		if n <= 3 {
			fmt.Println(s)
		}
	}
	fmt.Println(n, "paths of", len(r.Outcomes))
	os.Exit(0)
}

func eventString(L *Loaded, e *Event, ind string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s%s %s", ind, e.Kind, e.Name)
	for _, a := range e.Args {
		if a == nil {
			b.WriteString(" <nil>")
		} else {
			b.WriteString(" " + a.String())
		}
	}
	if len(e.Ret) > 0 {
		b.WriteString(" -> ")
		for _, a := range e.Ret {
			b.WriteString(" " + a.String())
		}
	}
	fmt.Fprintf(&b, "  {%s} %s\n", strings.Join(e.Locks, ","), L.pos(e.Pos))
	if e.Loop != nil {
		for i, bi := range e.Loop.infos {
			fmt.Fprintf(&b, "%s  info %d: entry %v", ind, i, bi.entry)
			for k, v := range bi.phi {
				s := "?"
				if w := bi.start[k]; w != nil {
					s = w.String()
				}
				fmt.Fprintf(&b, " [%s: starts as %s, becomes %s]", k, s, v)
			}
			for t, v := range bi.facts.iv {
				if strings.Contains(t.String(), "ReasonCodes") {
					fmt.Fprintf(&b, " {%s in [%d,%d]}", t, v.lo, v.hi)
				}
			}
			for t, v := range bi.facts.truth {
				if strings.Contains(t.String(), "ReasonCodes") {
					fmt.Fprintf(&b, " {%s: %v}", t, v)
				}
			}
			b.WriteString("\n")
		}
		for i, bd := range e.Loop.bodies {
			fmt.Fprintf(&b, "%s  body %d:\n", ind, i)
			for _, x := range bd {
				b.WriteString(eventString(L, x, ind+"    "))
			}
		}
	}
	return b.String()
}

func outcomeString(L *Loaded, o *Outcome) string {
	var b strings.Builder
	fmt.Fprintf(&b, "=== %s at %s:", o.Kind, L.pos(o.Pos))
	for _, x := range o.Ret {
		b.WriteString(" " + x.String())
	}
	b.WriteString("\n")
	for _, e := range o.State.trace {
		b.WriteString(eventString(L, e, "  "))
	}
	var fs []string
	for t, v := range o.State.facts.truth {
		fs = append(fs, fmt.Sprintf("  %v: %s", v, t))
	}
	for t, v := range o.State.facts.iv {
		fs = append(fs, fmt.Sprintf("  %s in [%d,%d]", t, v.lo, v.hi))
	}
	for _, q := range o.State.facts.le {
		fs = append(fs, "  "+q.String()+" <= 0")
	}
	sort.Strings(fs)
	b.WriteString(" facts:\n" + strings.Join(fs, "\n") + "\n")
	return b.String()
}

// dumpEncoder prints what the paths of an encoder write.
func dumpEncoder(L *Loaded, typ string) {
	start := time.Now()
	pr := runEncoder(L, typ, encOpts{exact: true, small: true, noFail: true, header: cInt(0)})
	fmt.Println(len(pr.In.outcomes), "outcomes", pr.In.steps, "steps", time.Since(start), pr.In.undec)
	for i, o := range pr.In.outcomes {
		if i%(len(pr.In.outcomes)/8+1) != 0 {
			continue
		}
		p := pr.path(o)
		fmt.Println("--", o.Kind, retErr(o), p.fail)
		for _, it := range p.items {
			fmt.Println("   ", it.String())
		}
		if len(o.Ret) > 0 {
			fmt.Println("   n =", p.rw.term(o.Ret[0]))
			fmt.Println("   s =", p.reduce(p.size(p.items)))
			if os.Getenv("VERIF_FACTS") != "" {
				fmt.Print(outcomeString(L, o))
			}
		}
	}
	fmt.Println(time.Since(start))
}
