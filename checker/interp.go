package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interpreter runs functions of the repository abstractly: over terms instead of values, following every branch that
// the facts of the path do not exclude, with every call into the repository inlined and everything else modelled as an
// event. Loops are run once with their entry values and then from a state in which all they modify is unknown, until
// nothing new shows up at their head.

type Event struct {
	Kind   string
	Name   string // type, region, method
	Args   []*Term
	Ret    []*Term
	Pos    token.Pos
	Ctx    string
	Fn     *ssa.Function
	Locks  []string
	Multi  bool
	Addr   *Term  // of a Write: what was written
	Facts  *Facts // the facts when the event happened (shared, do not modify)
	Shared map[string]*Term
	Gen    int      // of a Loop event: rec.gen at the time
	Loop   *loopRec // of a Loop event: the bodies are its possible iterations
	Dest   *Term    // of what encoders write: the buffer that takes it, if it is not the writer
	instr  ssa.Instruction
}

func (e *Event) sig() string {
	var b strings.Builder
	b.WriteString(e.Kind + "/" + e.Name + "/" + e.Ctx)
	if e.Dest != nil {
		fmt.Fprintf(&b, ">%d", e.Dest.id)
	}
	if e.instr != nil {
		fmt.Fprintf(&b, "@%d", e.instr.Pos())
	}
	for _, a := range e.Args {
		if a == nil {
			b.WriteString(",?")
			continue
		}
		fmt.Fprintf(&b, ",%d", a.id)
	}
	b.WriteString("/" + strings.Join(e.Locks, "+"))
	if e.Multi {
		b.WriteString("*")
	}
	return b.String()
}

type Lock struct {
	w, r int
	pos  token.Pos
}

type deferred struct {
	call *CallInfo
}

type loopRec struct {
	fn       *ssa.Function
	id       int
	head     *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	snap     *State          // state at the head, phis not yet assigned; frames[top].prev is the entry edge
	mod      map[*Term]*Term // modified cells -> symbol (shared by all states of this record)
	phi      map[*ssa.Phi]*Term
	cand     map[*Term]Iv      // candidate bounds for the symbols
	rel      map[*Term][]*Poly // candidate bounds p <= 0 that relate a symbol to a length
	link     map[*Term]int64   // symbols that move with the bytes consumed: +1 or -1 times as much
	nonneg   map[*Term]bool    // linked symbols that stay at least 0
	start    map[*Term]*Term   // linked symbol -> value when the loop was entered
	kill     map[*Term]bool    // map cells that are not known any more after an iteration
	visited  map[string]bool
	traceLen int
	iter     int // number of times around, for unrolling
	bodies   [][]*Event
	infos    []*bodyInfo
	gen      int // number of times that what the symbols may be has grown
	bodySig  map[string]bool
}

// bodyInfo is what is known at the end of an iteration of a loop.
type bodyInfo struct {
	gen   int             // generation of what the loop was known to do when the iteration began
	begin map[*Term]*Term // symbol -> its value at the beginning of the iteration
	cells map[*Term]*Term // symbol -> the cell it stands for
	entry bool            // the iteration began with the values from outside of the loop
	facts *Facts          // at the end of the iteration
	phi   map[*Term]*Term // symbol of what the loop modifies -> its value at the end of the iteration
	start map[*Term]*Term // symbol -> its value when the loop was entered
	body  []*Event        // what happens in the iteration
}

// now are the iterations that began with all that the loop is known to do.
func (rec *loopRec) now() (infos []*bodyInfo) {
	for _, bi := range rec.infos {
		if bi.entry || bi.gen == rec.gen {
			infos = append(infos, bi)
		}
	}
	return
}

// sticks decides whether what is in s stays there once it is not nil any more: no iteration that may begin with something
// there ends with nothing.
func (rec *loopRec) sticks(s *Term) bool {
	for _, bi := range rec.now() {
		b, p := bi.begin[s], bi.phi[s]
		if b == nil || p == nil {
			return false
		}
		if v, k := bi.facts.eval(mkIsNil(b)); k && v || p == b {
			continue
		}
		if v, k := bi.facts.eval(mkIsNil(p)); !k || v {
			return false
		}
	}
	return true
}

// until are the iterations that may have happened where f holds after the loop: none that left an error behind where
// there is none in the end, and errors stay.
func (rec *loopRec) until(f *Facts) []*bodyInfo {
	infos := rec.now()
	if f == nil || len(infos) == 0 {
		return infos
	}
	for s := range infos[0].start {
		if v, k := f.eval(mkIsNil(s)); !k || !v || !rec.sticks(s) {
			continue
		}
		var keep []*bodyInfo
		for _, bi := range infos {
			is := func(t *Term) bool { v, k := bi.facts.eval(mkIsNil(t)); return k && !v }
			if !is(bi.begin[s]) && !is(bi.phi[s]) {
				keep = append(keep, bi)
			}
		}
		infos = keep
	}
	return infos
}

type Frame struct {
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]*Term
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	defers  []*deferred
	loops   []*loopRec
	retTo   ssa.Value // register of the caller that receives the result
	after   func(st *State)
	bodyIdx int
}

type State struct {
	frames []*Frame
	heap   map[*Term]*Term
	fresh  map[*Term]bool // allocations made by this path (zero unless written)
	facts  *Facts
	locks  map[string]Lock
	trace  []*Event
	path   []token.Pos
	ghost  map[string]*Term
	ver    map[*Term]int // how often a shared cell may have been changed by others
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{facts: st.facts.clone(), heap: make(map[*Term]*Term, len(st.heap)), fresh: make(map[*Term]bool, len(st.fresh)), locks: make(map[string]Lock, len(st.locks)), ghost: make(map[string]*Term, len(st.ghost))}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.fresh {
		n.fresh[k] = v
	}
	for k, v := range st.locks {
		n.locks[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	if len(st.ver) > 0 {
		n.ver = make(map[*Term]int, len(st.ver))
		for k, v := range st.ver {
			n.ver[k] = v
		}
	}
	// both only grow, so that the clones can share what they have
	st.trace, st.path = st.trace[:len(st.trace):len(st.trace)], st.path[:len(st.path):len(st.path)]
	n.trace, n.path = st.trace, st.path
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.loops = append([]*loopRec(nil), f.loops...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) lockNames() []string {
	var out []string
	for k, l := range st.locks {
		if l.w > 0 {
			out = append(out, k)
		} else if l.r > 0 {
			out = append(out, k+"(R)")
		}
	}
	sort.Strings(out)
	return out
}

type CallInfo struct {
	instr  ssa.CallInstruction
	fn     *ssa.Function // nil if not static
	name   string        // full name of the callee, or "Interface.Method"
	recv   *Term         // receiver of an interface method call
	itype  types.Type    // interface type of recv
	method *types.Func
	args   []*Term
	binds  []*Term // closure bindings
	sig    *types.Signature
	typ    types.Type // result type
	pos    token.Pos
}

type Outcome struct {
	Kind  string // "return", "backedge", "panic", "undecided"
	Ret   []*Term
	State *State
	Pos   token.Pos
	Loop  *loopRec
	Msg   string
}

type Oblig struct {
	Kind   string
	Pos    token.Pos
	Fn     *ssa.Function
	Desc   string
	Proved bool
	Visits int
	Fail   string
}

type Access struct {
	Region string
	Write  bool
	Locks  map[string]bool // lock -> held exclusively
	Pos    token.Pos
	Fn     *ssa.Function
	Root   string
}

type Interp struct {
	L           *Loaded
	model       func(in *Interp, st *State, c *CallInfo) ([]*State, bool)
	inline      func(fn *ssa.Function) bool
	outcomes    []*Outcome
	recs        []*loopRec                    // all loops
	onMake      func(st *State, n *Term) bool // decides whether an allocation is bounded
	steps       int
	maxSteps    int
	counted     bool // unroll loops that count to a constant
	unroll      int  // >0: run loops concretely up to this many times
	obls        map[string]*Oblig
	accesses    map[string]*Access
	nilWrites   map[string]bool            // regions to which something was written that may be nil
	guards      map[string]map[string]bool // region -> locks held exclusively at every write; absent: never written
	shared      map[*Term]string           // root address of shared objects -> name
	lockErrs    map[string]string
	order       map[[2]string]string // lock a held while acquiring b -> where
	root        string
	undec       []string
	allocNo     int
	recNo       int
	pureCalls   map[*ssa.Function]bool
	pureArgs    map[*Term][]*Term // result of such a call -> arguments
	pureFn      map[*Term]*ssa.Function
	inlinePure  bool // go into these functions, unless they are recursive
	onDone      func(o *Outcome)
	keepBack    bool
	assumeInit  func(st *State, addr *Term, v *Term)
	allUnstable bool // treat all shared state as changing all the time
	noTrace     bool
	linkCell    *Term // cell that loops relate their other variables to
	globals     bool  // package variables are shared state
	readEvents  bool  // record reads of shared state as events
	exact       bool  // numbers of 32 and more bits do not overflow
	encoding    bool  // an encoder is analysed
	dropDone    bool  // do not keep the outcomes
	noFacts     bool  // events do not keep the facts
}

func newInterp(L *Loaded) *Interp {
	return &Interp{L: L, maxSteps: 3000000, obls: map[string]*Oblig{}, accesses: map[string]*Access{}, nilWrites: map[string]bool{}, guards: map[string]map[string]bool{},
		shared: map[*Term]string{}, pureCalls: map[*ssa.Function]bool{}, pureArgs: map[*Term][]*Term{}, pureFn: map[*Term]*ssa.Function{}, lockErrs: map[string]string{}, order: map[[2]string]string{},
		inline: func(fn *ssa.Function) bool { return L.inModule(fn) || L.stdBody(fn) }}
}

func (in *Interp) undecided(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, u := range in.undec {
		if u == s {
			return
		}
	}
	in.undec = append(in.undec, s)
}

func (in *Interp) posStr(p token.Pos) string { return in.L.pos(p) }

// ---- running

func (in *Interp) newState(fn *ssa.Function, args []*Term) *State {
	st := &State{heap: map[*Term]*Term{}, fresh: map[*Term]bool{}, facts: newFacts(), locks: map[string]Lock{}, ghost: map[string]*Term{}}
	f := &Frame{fn: fn, ctx: fn.Name(), env: map[ssa.Value]*Term{}, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = []*Frame{f}
	return st
}

func (in *Interp) run(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			in.steps++
			if in.steps > in.maxSteps {
				in.undecided("analysis budget exceeded in %s", in.root)
				return
			}
			next := in.step(s)
			if len(next) == 0 {
				s = nil
				break
			}
			for _, n := range next[1:] {
				work = append(work, n)
			}
			s = next[0]
		}
	}
}

func (in *Interp) done(o *Outcome) {
	if in.noTrace || in.encoding && stale(o.State) {
		return
	}
	if !in.dropDone {
		in.outcomes = append(in.outcomes, o)
	}
	if in.onDone != nil {
		in.onDone(o)
	}
}

// stale tells whether the state has assumed that a loop does less than it does; there is another state for what it does.
func stale(st *State) bool {
	for _, e := range st.trace {
		if e.Kind == "Loop" && e.Gen != e.Loop.gen {
			return true
		}
	}
	return false
}

// leavesLoop tells whether block b is outside of a loop that the frame is in.
func (in *Interp) leavesLoop(f *Frame, b *ssa.BasicBlock) bool {
	for _, r := range f.loops {
		if r.body[f.blk] && !r.body[b] {
			return true
		}
	}
	return false
}

// jump moves the top frame to block b, handling loop heads.
func (in *Interp) jump(st *State, b *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.blk
	// leave loops that do not contain b
	left := false
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].body[b] {
		f.loops = f.loops[:len(f.loops)-1]
		left = true
	}
	if left && in.encoding && stale(st) {
		return nil
	}
	li := in.L.loops(f.fn)[b]
	if li != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].head == b {
			return in.backedge(st, f.loops[len(f.loops)-1], from)
		}
		rec := &loopRec{fn: f.fn, head: b, body: li, mod: map[*Term]*Term{}, phi: map[*ssa.Phi]*Term{}, cand: map[*Term]Iv{}, visited: map[string]bool{}, traceLen: len(st.trace)}
		in.recs = append(in.recs, rec)
		in.recNo++
		rec.id = in.recNo
		snap := st.clone()
		sf := snap.top()
		sf.prev, sf.blk, sf.idx = from, b, 0
		rec.snap = snap
		f.loops = append(f.loops, rec)
		snap.top().loops = append(snap.top().loops, rec)
	}
	f.prev, f.blk, f.idx = from, b, 0
	in.phis(st)
	return []*State{st}
}

func (in *Interp) phis(st *State) {
	f := st.top()
	var pi int = -1
	for i, p := range f.blk.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	vals := map[*ssa.Phi]*Term{}
	n := 0
	for _, ins := range f.blk.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals[ph] = in.val(st, ph.Edges[pi])
	}
	for ph, v := range vals {
		f.env[ph] = v
	}
	f.idx = n
}

// decidedHead tells whether the condition at the head of a loop is decided when the loop is entered from block from.
func (in *Interp) decidedHead(st *State, from, head *ssa.BasicBlock) bool {
	x, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, i := range head.Instrs[:len(head.Instrs)-1] {
		switch i.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.DebugRef:
		default:
			return false
		}
	}
	t := st.clone()
	f := t.top()
	f.prev, f.blk, f.idx = from, head, 0
	in.phis(t)
	for f.idx < len(head.Instrs)-1 {
		if n := in.step(t); len(n) != 1 || n[0] != t {
			return false
		}
	}
	return in.val(t, x.Cond).isBool()
}

// backedge handles the arrival at a loop head from inside of the loop.
func (in *Interp) backedge(st *State, rec *loopRec, from *ssa.BasicBlock) []*State {
	f := st.top()
	if in.unroll > 0 {
		f.prev, f.blk, f.idx = from, rec.head, 0
		nr := *rec
		nr.iter++
		f.loops[len(f.loops)-1] = &nr
		if nr.iter > in.unroll {
			in.undecided("loop at %s does not end within %d iterations", in.posStr(firstPos(rec.head)), in.unroll)
			return nil
		}
		in.phis(st)
		return []*State{st}
	}
	if in.counted && rec.iter < 64 && (rec.iter > 0 || len(rec.visited) == 0) {
		if in.decidedHead(st, from, rec.head) {
			// a loop that counts to a constant
			f.prev, f.blk, f.idx = from, rec.head, 0
			nr := *rec
			nr.iter++
			f.loops[len(f.loops)-1] = &nr
			in.phis(st)
			return []*State{st}
		}
	}
	if rec.iter > 0 {
		in.undecided("the number of iterations of the loop at %s is decided at first and then not any more", in.posStr(firstPos(rec.head)))
		return nil
	}
	if in.keepBack {
		in.done(&Outcome{Kind: "backedge", State: st.clone(), Loop: rec, Pos: firstPos(rec.head)})
	}
	snap := rec.snap
	grew := false
	// phi values
	pi := -1
	for i, p := range rec.head.Preds {
		if p == from {
			pi = i
			break
		}
	}
	ei := -1
	for i, p := range rec.head.Preds {
		if p == snap.top().prev {
			ei = i
			break
		}
	}
	relate := func(s, entry *Term) {
		if !isIntegral(s.Typ) || entry == nil {
			return
		}
		if rec.rel == nil {
			rec.rel = map[*Term][]*Poly{}
		}
		if _, num := toPoly(entry).isConst(); !num && !in.encoding {
			// it only grows, or only shrinks
			for _, k := range []int64{1, -1} {
				rec.rel[s] = append(rec.rel[s], toPoly(s).minus(toPoly(entry)).scale(k))
			}
		}
		for _, l := range st.facts.lengths() {
			if mentionsLoop(l, rec) {
				continue
			}
			for _, off := range []int64{1, 0} {
				q := pAtom(l).scale(-1).plus(pConst(off))
				if snap.facts.proveLe(toPoly(entry).plus(q)) {
					rec.rel[s] = append(rec.rel[s], toPoly(s).plus(q))
				}
			}
		}
	}
	checkRel := func(s, v *Term) {
		var keep []*Poly
		for _, q := range rec.rel[s] {
			k := q.coef(s)
			if st.facts.proveLe(q.plus(toPoly(v).minus(toPoly(s)).scale(k))) {
				keep = append(keep, q)
			} else {
				grew = true
			}
		}
		if len(keep) != len(rec.rel[s]) {
			rec.rel[s] = keep
		}
	}
	var linkNow, linkStart *Term
	if in.linkCell != nil {
		linkNow, linkStart = st.heap[in.linkCell], snap.heap[in.linkCell]
		if linkNow == linkStart || linkNow == nil || linkStart == nil {
			linkNow = nil
		}
	}
	linked := func(s, v *Term, k int64) bool {
		return toPoly(v).minus(toPoly(rec.start[s])).eq(toPoly(linkNow).minus(toPoly(linkStart)).scale(k))
	}
	tryLink := func(s, v, entry *Term) {
		if linkNow == nil || entry == nil || !isIntegral(s.Typ) {
			return
		}
		if rec.link == nil {
			rec.link, rec.start = map[*Term]int64{}, map[*Term]*Term{}
		}
		rec.start[s] = entry
		for _, k := range []int64{1, -1} {
			if linked(s, v, k) {
				rec.link[s] = k
				if snap.facts.proveLe(toPoly(entry).scale(-1)) {
					if rec.nonneg == nil {
						rec.nonneg = map[*Term]bool{}
					}
					rec.nonneg[s] = true
				}
				return
			}
		}
	}
	linkVal := func(s *Term) *Term {
		k := rec.link[s]
		c := rec.mod[in.linkCell]
		if k == 0 || c == nil || c == s {
			return s
		}
		return polyTerm(toPoly(rec.start[s]).plus(toPoly(c).minus(toPoly(linkStart)).scale(k)), s.Typ)
	}
	check := func(s *Term, v *Term, entry *Term) {
		if rec.nonneg[s] && !st.facts.proveLe(toPoly(v).scale(-1)) {
			delete(rec.nonneg, s)
			grew = true
		}
		if rec.link[s] != 0 {
			if linkNow != nil && linked(s, v, rec.link[s]) {
				return
			}
			if v == rec.start[s] && st.heap[in.linkCell] == linkStart {
				return
			}
			if c := rec.mod[in.linkCell]; c != nil && v == linkVal(s) && st.heap[in.linkCell] == c {
				return // nothing consumed, nothing changed
			}
			delete(rec.link, s)
			delete(rec.nonneg, s)
			rec.cand[s] = Iv{negInf, posInf}
			grew = true
			return
		}
		checkRel(s, v)
		// keep the bounds of the candidate that this iteration preserves
		c := rec.cand[s]
		if !isIntegral(s.Typ) {
			return
		}
		iv := st.facts.ivOf(v)
		if iv.lo < c.lo && !st.facts.proveLe(pConst(c.lo).minus(toPoly(v))) {
			c.lo = lowThreshold(iv.lo)
			grew = true
		}
		if iv.hi > c.hi && !st.facts.proveLe(toPoly(v).minus(pConst(c.hi))) {
			c.hi = posInf
			grew = true
		}
		rec.cand[s] = c
	}
	for _, ins := range rec.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := in.valIn(st, f, ph.Edges[pi])
		e := in.valIn(snap, snap.top(), ph.Edges[ei])
		s, ok := rec.phi[ph]
		if !ok {
			if v == e {
				continue
			}
			s = sym(fmt.Sprintf("loop%d.%s", rec.id, phName(ph)), ph.Type())
			rec.phi[ph] = s
			rec.cand[s] = snap.facts.ivOf(e)
			if in.encoding {
				rec.cand[s] = widened(snap.facts.ivOf(e), st.facts.ivOf(v)) // it stands for the values after iterations only
			}
			relate(s, e)
			tryLink(s, v, e)
			grew = true
		}
		if v != s || rec.link[s] != 0 {
			check(s, v, e)
		}
	}
	// memory
	kill := func(a *Term) {
		if _, has := snap.heap[a]; has && !rec.kill[a] {
			if rec.kill == nil {
				rec.kill = map[*Term]bool{}
			}
			rec.kill[a] = true
			grew = true
		}
	}
	for _, a := range sortedCells(st.heap) {
		v := st.heap[a]
		if !in.liveAt(snap, a) {
			continue
		}
		if forgettable(a) {
			if cur, has := snap.heap[a]; !has || cur != v {
				kill(a)
			}
			continue
		}
		hv, ok := rec.mod[a]
		if !ok {
			if cur, has := snap.heap[a]; has && cur == v {
				continue
			} else if !has {
				if d := in.defaultCell(snap, a, v.Typ); d == v {
					continue
				}
			}
		}
		if a.Op == "sym" { // ghost
			continue
		}
		s := hv
		if !ok {
			s = sym(fmt.Sprintf("loop%d.%s", rec.id, a.String()), cellType(a, v))
			rec.mod[a] = s
			if e, has := snap.heap[a]; has {
				rec.cand[s] = snap.facts.ivOf(e)
			} else if d := in.defaultCell(snap, a, v.Typ); d != nil {
				rec.cand[s] = snap.facts.ivOf(d)
			} else {
				rec.cand[s] = Iv{negInf, posInf}
			}
			if in.encoding {
				rec.cand[s] = widened(rec.cand[s], st.facts.ivOf(v))
			}
			if a != in.linkCell {
				tryLink(s, v, snap.heap[a])
			}
			grew = true
		}
		if v != s || rec.link[s] != 0 {
			check(s, v, nil)
		}
	}
	// cells that the loop removed (became unknown)
	for _, a := range sortedCells(snap.heap) {
		if _, has := st.heap[a]; !has {
			if forgettable(a) {
				kill(a)
				continue
			}
			if _, ok := rec.mod[a]; !ok {
				rec.mod[a] = sym(fmt.Sprintf("loop%d.%s", rec.id, a.String()), cellType(a, snap.heap[a]))
				rec.cand[rec.mod[a]] = Iv{negInf, posInf}
				grew = true
			}
		}
	}
	// one iteration is summarised by an event that stands for any number of iterations
	n := snap.clone()
	nf := n.top()
	nf.prev = from
	n.locks = map[string]Lock{}
	for k, v := range st.locks {
		n.locks[k] = v
	}
	nf.defers = append([]*deferred(nil), f.defers...)
	tr := st.trace[rec.traceLen:]
	if len(tr) > 0 && tr[0].Kind == "Loop" && tr[0].Loop == rec {
		tr = tr[1:] // the iterations before this one
	}
	rec.addBody(tr)
	bi := &bodyInfo{facts: st.facts.clone(), phi: map[*Term]*Term{}, start: map[*Term]*Term{}}
	bi.entry = !(len(st.trace) > rec.traceLen && st.trace[rec.traceLen].Kind == "Loop" && st.trace[rec.traceLen].Loop == rec)
	for _, ins := range rec.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if s, ok := rec.phi[ph]; ok {
			bi.phi[s] = in.valIn(st, f, ph.Edges[pi])
			bi.start[s] = in.valIn(snap, snap.top(), ph.Edges[ei])
		}
	}
	bi.body = append([]*Event(nil), tr...)
	for a, s := range rec.mod {
		if v, ok := st.heap[a]; ok {
			bi.phi[s] = v
		}
		if v, ok := snap.heap[a]; ok {
			bi.start[s] = v
		} else {
			bi.start[s] = in.defaultCell(snap, a, s.Typ)
		}
	}
	bi.begin, bi.cells = map[*Term]*Term{}, map[*Term]*Term{}
	for a, s := range rec.mod {
		bi.cells[s] = a
	}
	for s := range bi.start {
		if bi.entry {
			bi.begin[s] = bi.start[s]
		} else {
			bi.begin[s] = linkVal(s)
		}
	}
	if !bi.entry {
		bi.gen = st.trace[rec.traceLen].Gen
	}
	rec.infos = append(rec.infos, bi)
	n.trace = append([]*Event(nil), st.trace[:rec.traceLen]...)
	if grew {
		rec.gen++
	}
	n.trace = append(n.trace, &Event{Kind: "Loop", Pos: firstPos(rec.head), Ctx: f.ctx, Fn: f.fn, Loop: rec, Gen: rec.gen, Facts: n.facts})
	if grew {
		rec.visited = map[string]bool{}
	}
	key := fmt.Sprintf("%s#%d", strings.Join(n.lockNames(), "+"), len(nf.defers))
	if rec.visited[key] {
		return nil
	}
	rec.visited[key] = true
	n.path = append(n.path, firstPos(rec.head))
	// havoc
	for a := range rec.kill {
		delete(n.heap, a)
	}
	for a, s := range rec.mod {
		n.heap[a] = linkVal(s)
		if rec.link[s] == 0 {
			in.bound(n, s, rec.cand[s])
		}
	}
	defer func() {
		var ls []*Term
		for s := range rec.nonneg {
			ls = append(ls, s)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, s := range ls {
			n.facts.assume(tLe0(toPoly(linkVal(s)).scale(-1)), true)
		}
		for _, s := range rec.relSyms() {
			for _, q := range rec.rel[s] {
				n.facts.assume(tLe0(q), true)
			}
		}
	}()
	// phis
	nf.idx = 0
	for _, ins := range rec.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nf.idx++
		if s, ok := rec.phi[ph]; ok {
			nf.env[ph] = linkVal(s)
			if rec.link[s] == 0 {
				in.bound(n, s, rec.cand[s])
			}
		} else {
			nf.env[ph] = in.valIn(snap, snap.top(), ph.Edges[ei])
		}
	}
	return []*State{n}
}

// widened bounds what a loop changes from a to b and on.
// lowThreshold is the next bound to try for something that is at least lo: loops that count down end at 0 or -1.
func lowThreshold(lo int64) int64 {
	for _, t := range []int64{0, -1} {
		if lo >= t {
			return t
		}
	}
	return negInf
}

func widened(a, b Iv) Iv {
	if b.lo < a.lo {
		b.lo = lowThreshold(b.lo)
	}
	if b.hi > a.hi {
		b.hi = posInf
	}
	return b
}

func sortedCells(h map[*Term]*Term) []*Term {
	out := make([]*Term, 0, len(h))
	for a := range h {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (rec *loopRec) relSyms() []*Term {
	var out []*Term
	for s := range rec.rel {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// mentionsLoop tells whether a term depends on what a loop modifies.
func mentionsLoop(t *Term, rec *loopRec) bool {
	for _, s := range rec.phi {
		if mentions(t, s) {
			return true
		}
	}
	for a, s := range rec.mod {
		if mentions(t, s) || mentions(t, a) {
			return true
		}
	}
	return false
}

// lengths are the lengths that the facts are about.
func (f *Facts) lengths() []*Term {
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.Op == "len" {
			seen[t] = true
		}
	}
	for t := range f.iv {
		add(t)
	}
	for _, p := range f.le {
		for _, a := range p.atoms() {
			add(a)
		}
	}
	var out []*Term
	for t := range seen {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// forgettable tells whether a cell of a map may be dropped from the memory: a later lookup then yields something unknown.
func forgettable(a *Term) bool {
	return (a.Op == "mc" || a.Op == "mh") && a.Args[0].Op != "makemap"
}

func (rec *loopRec) addBody(tr []*Event) {
	var b strings.Builder
	for _, e := range tr {
		b.WriteString(e.sig())
		if e.Loop != nil {
			fmt.Fprintf(&b, "L%d", e.Loop.id)
		}
		b.WriteByte(';')
	}
	if rec.bodySig == nil {
		rec.bodySig = map[string]bool{}
	}
	if rec.bodySig[b.String()] {
		return
	}
	rec.bodySig[b.String()] = true
	rec.bodies = append(rec.bodies, append([]*Event(nil), tr...))
}

func cellType(a, v *Term) types.Type {
	if v != nil && v.Typ != nil && v.Op != "nil" {
		return v.Typ
	}
	return a.Typ
}

func isIntegral(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *Interp) bound(st *State, s *Term, c Iv) {
	if !isIntegral(s.Typ) {
		return
	}
	if c.lo > negInf {
		st.facts.assume(tLe0(pConst(c.lo).minus(toPoly(s))), true)
	}
	if c.hi < posInf {
		st.facts.assume(tLe0(toPoly(s).minus(pConst(c.hi))), true)
	}
}

// liveAt tells whether an address exists in an earlier state.
func (in *Interp) liveAt(snap *State, a *Term) bool {
	r := addrRoot(a)
	if r.Op == "alloc" {
		return snap.fresh[r]
	}
	return true
}

func addrRoot(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "mc" || a.Op == "mh" {
		a = a.Args[0]
	}
	return a
}

func phName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// ---- values

func (in *Interp) val(st *State, v ssa.Value) *Term { return in.valIn(st, st.top(), v) }

func (in *Interp) valIn(st *State, f *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk("global", x.String(), 0, x.Type())
	case *ssa.Function:
		t := mk("fn", x.String(), 0, x.Type())
		t.Ref = x
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name(), 0, nil)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return sym(f.ctx+"."+v.Name()+"?", v.Type())
}

func constTerm(x *ssa.Const) *Term {
	if x.Value == nil {
		return zeroTerm(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(x.Value))
	case constant.String:
		return cStr(constant.StringVal(x.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(x.Value); ok {
			return cInt(n)
		}
	case constant.Float:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return cInt(n)
			}
		}
	}
	return sym("const:"+x.Value.ExactString(), x.Type())
}

func zeroTerm(t types.Type) *Term {
	if t == nil {
		return cNil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsFloat != 0:
			return sym("0.0", t)
		}
		return cNil()
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroTerm(u.Field(i).Type()))
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 16 {
			var args []*Term
			for i := int64(0); i < u.Len(); i++ {
				args = append(args, zeroTerm(u.Elem()))
			}
			return mk("array", "", u.Len(), t, args...)
		}
		return sym("zeroarray", t)
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, zeroTerm(u.At(i).Type()))
		}
		return mk("tuple", "", 0, t, args...)
	}
	return cNil()
}

func mkStruct(t types.Type, args []*Term) *Term {
	return mk("struct", types.TypeString(t, nil), 0, t, args...)
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func mkFA(base *Term, t types.Type, i int) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	fld := t.Underlying().(*types.Struct).Field(i)
	return mk("fa", fld.Name(), int64(i), fld.Type(), base)
}

func mkIA(base, idx *Term, elem types.Type) *Term {
	return mk("ia", "", 0, elem, base, idx)
}

// defaultCell is the content of a cell that nothing was stored to on this path.
func (in *Interp) defaultCell(st *State, a *Term, typ types.Type) *Term {
	r := addrRoot(a)
	if r.Op == "alloc" && st.fresh[r] {
		if typ == nil {
			typ = a.Typ
		}
		if r.Str != "" && strings.HasPrefix(r.Str, "undef") {
			return mk("init", "", 0, typ, a)
		}
		if a.Typ != nil {
			typ = a.Typ
		}
		return zeroTerm(typ)
	}
	if r.Op == "global" {
		if isErrorType(typ) || isErrorType(a.Typ) {
			return mk("gerr", r.Str, 0, typ)
		}
	}
	t := a.Typ
	if typ != nil {
		t = typ
	}
	if n := st.ver[a]; n > 0 {
		v := sym(fmt.Sprintf("%s~%d", a.String(), n), t)
		v.Ref = in.region(a)
		return v
	}
	return mk("init", "", 0, t, a)
}

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// region names the shared state that an address belongs to, or "".
func (in *Interp) region(a *Term) string {
	suffix := ""
	for {
		switch a.Op {
		case "fa":
			if n, ok := in.shared[a.Args[0]]; ok {
				return n + "." + a.Str + suffix
			}
			a = a.Args[0]
		case "ia":
			a = a.Args[0]
			suffix = "[]"
		case "mc", "mh":
			a = a.Args[0]
			suffix = "[]"
		case "init":
			// content reachable through a pointer, map or slice in shared state
			if _, isPtr := a.Typ.Underlying().(*types.Pointer); isPtr {
				suffix = "->"
			}
			a = a.Args[0]
		case "global":
			if a.Typ != nil {
				if p, ok := a.Typ.(*types.Pointer); ok && isErrorType(p.Elem()) {
					return ""
				}
			}
			if !in.globals {
				return ""
			}
			return a.Str + suffix
		case "sym":
			// a map, slice or pointer read from shared state that others may change at any time
			r, ok := a.Ref.(string)
			if !ok {
				return ""
			}
			if _, isPtr := a.Typ.Underlying().(*types.Pointer); isPtr {
				return r + "->" + suffix
			}
			return r + suffix
		default:
			return ""
		}
	}
}

// stable tells whether shared state cannot be changed by others while the locks of this state are held.
func (in *Interp) stable(st *State, region string) bool {
	if in.allUnstable {
		return false
	}
	g, written := in.guards[region]
	if !written {
		return true
	}
	for l := range g {
		if x, ok := st.locks[l]; ok && (x.w > 0 || x.r > 0) {
			return true
		}
	}
	return false
}

func (in *Interp) access(st *State, region string, write bool, pos token.Pos) {
	ls := map[string]bool{}
	for k, l := range st.locks {
		if l.w > 0 {
			ls[k] = true
		} else if l.r > 0 {
			ls[k] = false
		}
	}
	k := fmt.Sprintf("%s/%v/%d/%s/%s", region, write, pos, strings.Join(st.lockNames(), "+"), in.root)
	if _, ok := in.accesses[k]; !ok {
		in.accesses[k] = &Access{region, write, ls, pos, st.top().fn, in.root}
	}
}

// isSyncType tells whether values of a type synchronise themselves.
func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

func (in *Interp) load(st *State, a *Term, typ types.Type, pos token.Pos, instr ssa.Instruction) *Term {
	if in.L.atomicStruct(typ) {
		if v, ok := st.heap[a]; ok {
			return v
		}
	} else {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			if v, ok := st.heap[a]; ok {
				return v
			}
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				args = append(args, in.load(st, mkFA(a, typ, i), u.Field(i).Type(), pos, instr))
			}
			return mkStruct(typ, args)
		case *types.Array:
			if u.Len() <= 16 {
				var args []*Term
				for i := int64(0); i < u.Len(); i++ {
					args = append(args, in.load(st, mkIA(a, cInt(i), u.Elem()), u.Elem(), pos, instr))
				}
				return mk("array", "", u.Len(), typ, args...)
			}
		}
	}
	reg := in.region(a)
	if reg != "" && !isSyncType(typ) {
		in.access(st, reg, false, pos)
		if !in.stable(st, reg) {
			name := fmt.Sprintf("%s@%s", reg, in.evalName(st, instr))
			v := sym(name, typ)
			v.Ref = reg
			if in.assumeInit != nil {
				in.assumeInit(st, a, v)
			}
			if in.readEvents {
				in.event(st, &Event{Kind: "Read", Name: reg, Args: []*Term{v}, Pos: pos, instr: instr})
			}
			return v
		}
		if in.readEvents {
			if _, written := in.guards[reg]; written {
				v, ok := st.heap[a]
				if !ok {
					v = in.defaultCell(st, a, typ)
				}
				in.event(st, &Event{Kind: "Read", Name: reg, Args: []*Term{v}, Pos: pos, instr: instr})
			}
		}
	}
	if v, ok := st.heap[a]; ok {
		return v
	}
	v := in.defaultCell(st, a, typ)
	if addrRoot(a).Op != "alloc" {
		st.heap[a] = v
		if in.assumeInit != nil {
			in.assumeInit(st, a, v)
		}
	}
	return v
}

// evalName names the evaluation of an instruction in its calling context.
func (in *Interp) evalName(st *State, instr ssa.Instruction) string {
	f := st.top()
	n := ""
	if v, ok := instr.(ssa.Value); ok {
		n = v.Name()
	} else if instr != nil {
		n = fmt.Sprint(instr.Pos())
	}
	// loop iterations other than the first get their own names
	it := ""
	for _, fr := range st.frames {
		for _, l := range fr.loops {
			if in.unroll > 0 {
				it += fmt.Sprintf("'%d", l.iter)
			} else if fr.prevIsBack(l) {
				it += "'"
			}
		}
	}
	return f.ctx + "." + n + it
}

func (f *Frame) prevIsBack(l *loopRec) bool {
	for p, s := range l.phi {
		if f.env[p] == s {
			return true
		}
	}
	return false
}

// nonNilValue tells whether a value is known not to be nil.
func nonNilValue(st *State, v *Term) bool {
	if v.Op == "makemap" || v.Op == "makechan" {
		return true
	}
	n, known := st.facts.eval(mkIsNil(v))
	return known && !n
}

func (in *Interp) store(st *State, a *Term, v *Term, typ types.Type, pos token.Pos, instr ssa.Instruction) {
	if !in.L.atomicStruct(typ) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				in.store(st, mkFA(a, typ, i), structField(v, typ, i), u.Field(i).Type(), pos, instr)
			}
			return
		case *types.Array:
			if u.Len() <= 16 {
				for i := int64(0); i < u.Len(); i++ {
					var e *Term
					if v.Op == "array" {
						e = v.Args[i]
					} else {
						e = mk("elem", "", i, u.Elem(), v)
					}
					in.store(st, mkIA(a, cInt(i), u.Elem()), e, u.Elem(), pos, instr)
				}
				return
			}
		}
	}
	if reg := in.region(a); reg != "" && !isSyncType(typ) {
		in.access(st, reg, true, pos)
		if !nonNilValue(st, v) {
			in.nilWrites[reg] = true
		}
		var old *Term
		if in.stable(st, reg) {
			old = st.heap[a]
			if old == nil {
				old = in.defaultCell(st, a, typ)
			}
		}
		in.event(st, &Event{Kind: "Write", Name: reg, Addr: a, Args: []*Term{v, old}, Pos: pos, instr: instr})
		in.killAliases(st, a)
		if in.stable(st, reg) {
			st.heap[a] = v
		} else {
			delete(st.heap, a)
		}
		return
	}
	in.killAliases(st, a)
	st.heap[a] = v
}

func (in *Interp) killAliases(st *State, a *Term) {
	if a.Op != "ia" && a.Op != "fa" {
		return
	}
	// elements of the same array under another index
	for c := a; c.Op == "fa" || c.Op == "ia"; c = c.Args[0] {
		if c.Op != "ia" {
			continue
		}
		for k := range st.heap {
			for d := k; d.Op == "fa" || d.Op == "ia"; d = d.Args[0] {
				if d.Op == "ia" && d.Args[0] == c.Args[0] && d != c {
					if d.Args[1].isInt() && c.Args[1].isInt() {
						continue
					}
					st.heap[k] = sym(fmt.Sprintf("alias%d.%s", st.factsNo(), k.String()), k.Typ)
				}
			}
		}
	}
}
func (st *State) factsNo() int { return len(st.path) }

func structField(v *Term, typ types.Type, i int) *Term {
	if v.Op == "struct" {
		return v.Args[i]
	}
	s := typ.Underlying().(*types.Struct)
	return mk("fld", s.Field(i).Name(), int64(i), s.Field(i).Type(), v)
}

func (in *Interp) event(st *State, e *Event) {
	f := st.top()
	e.Ctx = f.ctx
	e.Fn = f.fn
	e.Locks = st.lockNames()
	if !in.noTrace && !in.noFacts {
		e.Facts = st.facts.clone()
	}
	st.trace = append(st.trace, e)
}

func (in *Interp) oblig(st *State, kind string, instr ssa.Instruction, desc string, proved bool) {
	p := instr.Pos()
	k := fmt.Sprintf("%s/%s/%d/%s", kind, st.top().fn.String(), p, desc)
	if p == token.NoPos {
		k += instr.String()
	}
	o := in.obls[k]
	if o == nil {
		o = &Oblig{Kind: kind, Pos: p, Fn: st.top().fn, Desc: desc, Proved: true}
		in.obls[k] = o
	}
	o.Visits++
	if !proved {
		if o.Proved {
			o.Fail = in.root + ": " + st.top().ctx
		}
		o.Proved = false
	}
}

// branch splits a state by a condition.
func (in *Interp) branch(st *State, c *Term) (yes, no *State) {
	if v, known := st.facts.eval(c); known {
		if v {
			return st, nil
		}
		return nil, st
	}
	n := st.clone()
	if st.facts.assume(c, true) {
		in.follows(st, c, true)
		yes = st
	}
	if n.facts.assume(c, false) {
		in.follows(n, c, false)
		no = n
	}
	return
}

func (in *Interp) step(st *State) []*State {
	f := st.top()
	if f.idx >= len(f.blk.Instrs) {
		in.undecided("fell off the end of a block in %s", f.fn)
		return nil
	}
	ins := f.blk.Instrs[f.idx]
	switch x := ins.(type) {
	case *ssa.Jump:
		return in.jump(st, f.blk.Succs[0])
	case *ssa.If:
		c := in.val(st, x.Cond)
		yes, no := in.branch(st, c)
		var out []*State
		y, n := f.blk.Succs[0], f.blk.Succs[1]
		if yes != nil && no != nil {
			yes.path = append(yes.path, firstPos(y))
			no.path = append(no.path, firstPos(n))
		}
		if in.encoding && in.leavesLoop(f, y) && !in.leavesLoop(f, n) {
			// all that a loop does is known before it is left
			yes, no, y, n = no, yes, n, y
		}
		if yes != nil {
			out = append(out, in.jump(yes, y)...)
		}
		if no != nil {
			out = append(out, in.jump(no, n)...)
		}
		return out
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, in.val(st, r))
		}
		return in.ret(st, rs, x.Pos())
	case *ssa.Panic:
		in.oblig(st, "panic", x, "explicit panic", false)
		in.done(&Outcome{Kind: "panic", State: st, Pos: x.Pos()})
		return nil
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return in.call(st, d.call, nil, true)
		}
		f.idx++
		return []*State{st}
	case *ssa.Defer:
		ci := in.callInfo(st, x, &x.Call)
		f.defers = append(f.defers, &deferred{ci})
		f.idx++
		return []*State{st}
	case *ssa.Go:
		ci := in.callInfo(st, x, &x.Call)
		in.event(st, &Event{Kind: "Go", Name: ci.name, Args: ci.args, Pos: x.Pos(), instr: x})
		f.idx++
		return []*State{st}
	case *ssa.Call:
		ci := in.callInfo(st, x, &x.Call)
		return in.call(st, ci, x, false)
	case *ssa.Select:
		return in.selectInstr(st, x)
	}
	out := in.simple(st, ins)
	return out
}

func (in *Interp) ret(st *State, rs []*Term, pos token.Pos) []*State {
	f := st.top()
	if len(st.frames) == 1 {
		in.done(&Outcome{Kind: "return", Ret: rs, State: st, Pos: pos})
		return nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if f.retTo != nil {
		if len(rs) == 1 {
			p.env[f.retTo] = rs[0]
		} else if len(rs) > 1 {
			p.env[f.retTo] = mk("tuple", "", 0, nil, rs...)
		}
	}
	if f.after != nil {
		f.after(st)
	}
	return []*State{st}
}

func (in *Interp) callInfo(st *State, instr ssa.CallInstruction, c *ssa.CallCommon) *CallInfo {
	ci := &CallInfo{instr: instr, sig: c.Signature(), pos: instr.Pos()}
	if v := instr.Value(); v != nil {
		ci.typ = v.Type()
	} else {
		ci.typ = c.Signature().Results()
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, in.val(st, a))
	}
	if c.IsInvoke() {
		r := in.val(st, c.Value)
		ci.recv, ci.itype, ci.method = r, c.Value.Type(), c.Method
		in.resolveInvoke(ci)
		return ci
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ci.name = "builtin." + v.Name()
		return ci
	}
	t := in.val(st, c.Value)
	in.resolveFn(ci, t)
	return ci
}

func (in *Interp) resolveFn(ci *CallInfo, t *Term) {
	switch t.Op {
	case "fn":
		ci.fn = t.Ref.(*ssa.Function)
		ci.name = ci.fn.String()
	case "clo":
		ci.fn = t.Ref.(*ssa.Function)
		ci.binds = t.Args
		ci.name = ci.fn.String()
	default:
		ci.name = "dynamic:" + t.String()
		ci.recv = t
	}
}

func (in *Interp) resolveInvoke(ci *CallInfo) {
	r := ci.recv
	if r.Op == "iface" {
		if fn := in.L.prog.LookupMethod(r.Typ, ci.method.Pkg(), ci.method.Name()); fn != nil {
			ci.fn = fn
			ci.name = fn.String()
			ci.args = append([]*Term{r.Args[0]}, ci.args...)
			ci.recv = nil
			return
		}
	}
	ci.name = "invoke:" + types.TypeString(ci.itype, nil) + "." + ci.method.Name()
}

// wrapperTarget looks through synthetic bound-method and promotion wrappers; they have bodies, so nothing to do for most.
func (in *Interp) call(st *State, ci *CallInfo, reg ssa.Value, isDefer bool) []*State {
	f := st.top()
	finish := func(s *State) *State {
		if !isDefer {
			s.top().idx++
		}
		return s
	}
	setRet := func(s *State, v *Term) {
		if reg != nil && v != nil {
			s.top().env[reg] = v
		}
	}
	in.panics(st, ci)
	if ci.recv != nil && ci.recv.isNil() {
		in.done(&Outcome{Kind: "panic", State: st, Pos: ci.pos})
		return nil
	}
	if strings.HasPrefix(ci.name, "builtin.") {
		v, ok := in.builtin(st, ci)
		if !ok {
			return nil
		}
		setRet(st, v)
		return []*State{finish(st)}
	}
	// locks
	if ss, ok := in.lockCall(st, ci); ok {
		var out []*State
		for _, s := range ss {
			if reg != nil && s.ghost["$ret"] != nil {
				s.top().env[reg] = s.ghost["$ret"]
			}
			delete(s.ghost, "$ret")
			out = append(out, finish(s))
		}
		return out
	}
	if ci.name == "(*sync.Once).Do" {
		done := mk("fa", "$done", 0, types.Typ[types.Bool], ci.args[0])
		v := in.load(st, done, types.Typ[types.Bool], ci.pos, ci.instr)
		yes, no := in.branch(st, v)
		var out []*State
		if yes != nil {
			out = append(out, finish(yes))
		}
		if no != nil {
			in.store(no, done, cBool(true), types.Typ[types.Bool], ci.pos, ci.instr)
			c2 := &CallInfo{instr: ci.instr, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), pos: ci.pos, typ: types.NewTuple()}
			in.resolveFn(c2, ci.args[1])
			out = append(out, in.call(no, c2, nil, isDefer)...)
		}
		return out
	}
	if in.model != nil {
		if ss, ok := in.model(in, st, ci); ok {
			var out []*State
			for _, s := range ss {
				if reg != nil {
					if r := s.ghost["$ret"]; r != nil {
						s.top().env[reg] = r
					} else {
						s.top().env[reg] = in.opaqueResult(s, ci)
					}
				}
				delete(s.ghost, "$ret")
				out = append(out, finish(s))
			}
			return out
		}
	}
	if v, ok := in.pure(st, ci); ok {
		setRet(st, v)
		return []*State{finish(st)}
	}
	if ci.fn != nil && in.inline(ci.fn) && in.L.pureLoop(ci.fn) && (!in.inlinePure || in.L.recursive(ci.fn)) {
		in.pureCalls[ci.fn] = true
		res := resultTerm(fmt.Sprintf("%s%v", ci.fn.Name(), termIDs(ci.args)), ci.typ)
		in.pureArgs[res], in.pureFn[res] = ci.args, ci.fn
		setRet(st, res)
		return []*State{finish(st)}
	}
	if ci.fn != nil && len(ci.fn.Blocks) > 0 && in.inline(ci.fn) {
		if len(st.frames) > 24 {
			in.undecided("call depth exceeded at %s", in.posStr(ci.pos))
			return nil
		}
		for _, fr := range st.frames {
			if fr.fn == ci.fn {
				in.undecided("recursive call of %s at %s", ci.fn, in.posStr(ci.pos))
				return nil
			}
		}
		if !isDefer {
			f.idx++
		}
		nf := &Frame{fn: ci.fn, ctx: f.ctx + ">" + ci.fn.Name() + ctxPos(in, ci), env: map[ssa.Value]*Term{}, blk: ci.fn.Blocks[0], retTo: reg}
		for i, p := range ci.fn.Params {
			if i < len(ci.args) {
				nf.env[p] = ci.args[i]
			}
		}
		for i, p := range ci.fn.FreeVars {
			if i < len(ci.binds) {
				nf.env[p] = ci.binds[i]
			}
		}
		st.frames = append(st.frames, nf)
		return []*State{st}
	}
	// opaque
	in.event(st, &Event{Kind: "Call", Name: ci.name, Args: ci.args, Pos: ci.pos, instr: ci.instr})
	setRet(st, in.opaqueResult(st, ci))
	if ci.fn == nil && strings.HasPrefix(ci.name, "dynamic:") {
		// a callback of the user
		in.event(st, &Event{Kind: "Callback", Name: ci.name, Args: ci.args, Pos: ci.pos, instr: ci.instr})
	}
	return []*State{finish(st)}
}

func termIDs(ts []*Term) []int {
	var out []int
	for _, t := range ts {
		out = append(out, t.id)
	}
	return out
}

func ctxPos(in *Interp, ci *CallInfo) string {
	p := in.L.fset.Position(ci.pos)
	return fmt.Sprintf("@%d:%d", p.Line, p.Column)
}

func (in *Interp) opaqueResult(st *State, ci *CallInfo) *Term {
	name := in.evalName(st, ci.instr)
	short := ci.name
	if i := strings.LastIndexAny(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	return resultTerm(short+"@"+name, ci.typ)
}

func resultTerm(name string, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return cNil()
		}
		var args []*Term
		for i := 0; i < tup.Len(); i++ {
			args = append(args, sym(fmt.Sprintf("%s#%d", name, i), tup.At(i).Type()))
		}
		return mk("tuple", "", 0, nil, args...)
	}
	return sym(name, typ)
}

func (in *Interp) selectInstr(st *State, x *ssa.Select) []*State {
	var out []*State
	name := in.evalName(st, x)
	n := len(x.States)
	idxs := make([]int, 0, n+1)
	for i := range x.States {
		idxs = append(idxs, i)
	}
	if !x.Blocking {
		idxs = append(idxs, -1)
	}
	for _, i := range idxs {
		s := st.clone()
		var chans []*Term
		for _, ss := range x.States {
			chans = append(chans, in.val(s, ss.Chan))
		}
		e := &Event{Kind: "Select", Pos: x.Pos(), instr: x, Args: nil}
		if x.Blocking {
			e.Kind = "SelectBlock"
		}
		tup := []*Term{cInt(int64(i)), sym(name+"#ok", types.Typ[types.Bool])}
		for _, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				tup = append(tup, sym(fmt.Sprintf("%s#recv%d", name, len(tup)), ss.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		e.Name = "default"
		if i >= 0 {
			ss := x.States[i]
			e.Args = []*Term{chans[i]}
			if ss.Dir == types.SendOnly {
				e.Name = "send"
				e.Args = append(e.Args, in.val(s, ss.Send))
			} else {
				e.Name = "recv"
			}
		}
		// the other channels that were offered
		for j, c := range chans {
			if j != i {
				e.Ret = append(e.Ret, c)
			}
		}
		for j, ss := range x.States {
			if ss.Dir == types.SendOnly {
				oe := &Event{Kind: "Offer", Name: "send", Args: []*Term{chans[j], in.val(s, ss.Send)}, Pos: x.Pos(), instr: x}
				if x.Blocking {
					oe.Name = "block"
				}
				if v := oe.Args[1]; v.Op == "alloc" {
					oe.Args = append(oe.Args, in.snapshot(s, v))
				}
				in.event(s, oe)
			}
		}
		in.event(s, e)
		s.top().env[x] = mk("tuple", "", 0, nil, tup...)
		s.top().idx++
		out = append(out, s)
	}
	return out
}
