package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Abstract interpretation of predicates over two strings. A string is a tape of which only a window around the places
// that are still needed is known; what lies behind it is forgotten, and positions only count relative to the window once
// they are beyond every constant that the code compares them with. What lies ahead becomes known character by character,
// each of a finite alphabet, when the code needs it. So the states are finitely many for a predicate that goes through
// its arguments side by side, and all of them, for all strings, are visited. The predicate that the rule asks for runs
// alongside on the same tapes.

type tval struct {
	kind byte // i integer, b boolean, s string on a tape, c constant string, v levels of a tape, t tuple, p element, a variable, o other
	k    int  // integer, boolean; start of a string or of levels
	tag  int8 // tape of a string; what a position counts: 0, 1 the characters, 2, 3 the levels of a tape; -1 nothing
	end  byte // integer: 1 counted from the end of the tape, 2 the length of what begins at -k
	hi   int  // end of a string, or toEnd
	org  bool // the whole tape
	str  string
	el   []tval
	av   ssa.Value
}

const toEnd = -1 << 20

type tframe struct {
	fn    *ssa.Function
	blk   *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]tval
	cells map[ssa.Value]tval
	ret   ssa.Value
}

type tthread struct {
	role   byte // m the code, s the rule, a assumption, g guess
	frames []*tframe
	done   bool
	res    bool
	crash  string
	want   bool
	need   int // tape of which another character is needed, or -1
}

type ttape struct {
	n, w  int // known up to, known from
	chars []byte
	ended bool
	cur   int         // length of the level at the end of what is known
	lvl   map[int]int // level -> where it starts
}

type treveal struct {
	prev *treveal
	tape int
	ch   string // empty is the end
}

type tstate struct {
	th   []*tthread
	tp   [2]*ttape
	hist *treveal
}

const wideChar, wideRune = "\u00e9", 0xe9

type tneed struct{ tape int }
type tundecided struct{ why string }
type tcrash struct{ why string }

// tguess asks for all answers that an operation may have, each under a condition that a monitor decides.
type tguess struct {
	alts []talt
}

type talt struct {
	res     tval // kind 0: it crashes
	monitor *ssa.Function
	args    []tval
	want    bool
}

// either is a guess of what a predicate on whole strings says.
func either(monitor *ssa.Function, negate bool, args ...tval) tguess {
	return tguess{[]talt{{tBool(!negate), monitor, args, true}, {tBool(negate), monitor, args, false}}}
}

type machine struct {
	models   *ssa.Package
	k0       int
	behind   int
	alphabet [2][]byte
	wide     bool // the code decodes runes, so there are characters of two bytes, which are all wideChar
	maxLevel int  // longest level, 0 for any
	live     map[*ssa.Function]map[*ssa.BasicBlock][]map[ssa.Value]bool
	states   int
	limit    int
	alone    bool // without the rule, for any strings: only that the code comes to an end is asked for
	inModule func(*ssa.Function) bool
}

// ---- models of the standard library, and the rule

const modelSource = `package models

func Rule(topic, filter string) bool {
	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '+' || filter[0] == '#') {
		return false
	}
	f, t := 0, 0
	for f < len(filter) {
		c := filter[f]
		if c == '#' {
			return true
		}
		if c == '+' {
			for t < len(topic) && topic[t] != '/' {
				t++
			}
			f++
			continue
		}
		if t >= len(topic) {
			return c == '/' && f+1 < len(filter) && filter[f+1] == '#'
		}
		if c != topic[t] {
			return false
		}
		f++
		t++
	}
	return t >= len(topic)
}

func ValidFilter(f string) bool {
	for i := 0; i < len(f); i++ {
		if f[i] == '#' && (i > 0 && f[i-1] != '/' || i+1 < len(f)) {
			return false
		}
		if f[i] == '+' && (i > 0 && f[i-1] != '/' || i+1 < len(f) && f[i+1] != '/') {
			return false
		}
	}
	return len(f) > 0
}

func ValidTopic(t string) bool { return len(t) > 0 }

func Equal(a, b string) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] != b[j] {
			return false
		}
		i++
		j++
	}
	return i >= len(a) && j >= len(b)
}

func Shorter(a, b string, i, j int) bool {
	for i < len(a) && j < len(b) {
		i++
		j++
	}
	return i >= len(a) && j < len(b)
}

func NotLonger(a, b string, i, j int) bool {
	for i < len(a) && j < len(b) {
		i++
		j++
	}
	return i >= len(a)
}

func SameLength(a, b string, i, j int) bool {
	for i < len(a) && j < len(b) {
		i++
		j++
	}
	return i >= len(a) && j >= len(b)
}

func LastLevel(s string, c byte) bool {
	start, last := true, false
	for i := 0; i < len(s); i++ {
		last = start && s[i] == c
		start = s[i] == '/'
	}
	return last
}

func Longer0(s string) bool { return len(s) > 0 }

func HasPrefix(s, p string) bool {
	for i := 0; i < len(p); i++ {
		if i >= len(s) || s[i] != p[i] {
			return false
		}
	}
	return true
}

func HasSuffix1(s string, a byte) bool {
	last := false
	for i := 0; i < len(s); i++ {
		last = s[i] == a
	}
	return last
}

func HasSuffix2(s string, a, b byte) bool {
	before, last := false, false
	for i := 0; i < len(s); i++ {
		last = before && s[i] == b
		before = s[i] == a
	}
	return last
}

func ContainsByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

func ContainsByte2(s string, c, d byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c || s[i] == d {
			return true
		}
	}
	return false
}

func IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Cut(s string, c byte) (before, after string, found bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

func TrimPrefix(s, p string) string {
	if HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}
`

func buildModels() (*ssa.Package, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "models.go", modelSource, 0)
	if err != nil {
		return nil, err
	}
	pkg := types.NewPackage("models", "models")
	sp, _, err := ssautil.BuildPackage(&types.Config{Importer: importer.Default()}, fset, pkg, []*ast.File{f}, ssa.SanityCheckFunctions)
	return sp, err
}

// ---- values

func tInt(k int) tval { return tval{kind: 'i', k: k, tag: -1} }
func tPos(k int, tag int8) tval {
	return tval{kind: 'i', k: k, tag: tag}
}
func tBool(b bool) tval {
	if b {
		return tval{kind: 'b', k: 1}
	}
	return tval{kind: 'b'}
}

func undec(format string, a ...any) { panic(tundecided{fmt.Sprintf(format, a...)}) }

func (m *machine) val(f *tframe, v ssa.Value) tval {
	if x, ok := f.env[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return tval{kind: 'o'}
		}
		switch c.Value.Kind() {
		case constant.Bool:
			return tBool(constant.BoolVal(c.Value))
		case constant.String:
			return tval{kind: 'c', str: constant.StringVal(c.Value)}
		case constant.Int:
			n, ok := constant.Int64Val(c.Value)
			if ok && n < 1<<30 && n > -1<<30 {
				return tInt(int(n))
			}
		}
		undec("constant %s", c)
	}
	undec("value %s of %s", v.Name(), f.fn.Name())
	return tval{}
}

// ---- tapes

// has tells whether a position exists.
func (st *tstate) has(tag int8, p int) bool {
	if p < 0 {
		return true
	}
	if tag >= 2 {
		_, ok := st.level(int(tag-2), p)
		return ok
	}
	t := st.tp[tag]
	if p < t.n {
		return true
	}
	if t.ended {
		return false
	}
	panic(tneed{int(tag)})
}

func (st *tstate) char(tape int, p int) byte {
	t := st.tp[tape]
	if p < 0 || !st.has(int8(tape), p) {
		panic(tcrash{"an index out of range"})
	}
	if p < t.w {
		undec("it goes back to what it has passed")
	}
	return t.chars[p-t.w]
}

// level is where a level starts.
func (st *tstate) level(tape int, l int) (int, bool) {
	t := st.tp[tape]
	if s, ok := t.lvl[l]; ok {
		return s, true
	}
	top := -1
	for i := range t.lvl {
		if i > top {
			top = i
		}
	}
	if l < top || top < 0 {
		undec("it goes back to a level that it has passed")
	}
	for top < l {
		q := t.lvl[top]
		for st.has(int8(tape), q) && st.char(tape, q) != '/' {
			q++
		}
		if !st.has(int8(tape), q) {
			return 0, false
		}
		top++
		t.lvl[top] = q + 1
	}
	return t.lvl[l], true
}

func (st *tstate) levelString(tape int, l int) tval {
	s, ok := st.level(tape, l)
	if !ok {
		panic(tcrash{"an index out of range"})
	}
	q := s
	for st.has(int8(tape), q) && st.char(tape, q) != '/' {
		q++
	}
	return tval{kind: 's', tag: int8(tape), k: s, hi: q}
}

func (m *machine) length(st *tstate, v tval) tval {
	switch v.kind {
	case 'c':
		return tInt(len(v.str))
	case 's', 'v':
		tag := v.tag
		if v.kind == 'v' {
			tag += 2
		}
		if v.hi == toEnd {
			if v.org {
				return tval{kind: 'i', tag: tag, end: 1}
			}
			return tval{kind: 'i', tag: tag, end: 2, k: -v.k}
		}
		if v.org {
			return tPos(v.hi, tag)
		}
		return tInt(v.hi - v.k)
	}
	undec("length of an unknown value")
	return tval{}
}

// sameTag tells whether positions are counted alike. The levels of both tapes are shifted together.
func sameTag(a, b int8) bool { return a == b || a >= 2 && b >= 2 }

// at is the position that an index into something means.
func (m *machine) at(v, i tval) int {
	tag := v.tag
	if v.kind == 'v' {
		tag += 2
	}
	if i.kind != 'i' || i.end != 0 {
		undec("an index that counts from the end")
	}
	if v.org {
		if i.tag >= 0 && !sameTag(i.tag, tag) {
			undec("a position of one string is used in the other")
		}
		return i.k
	}
	if i.tag >= 0 {
		undec("a position of a whole string is used in a part of it")
	}
	return v.k + i.k
}

func (m *machine) tagReg(f *tframe, v ssa.Value, tag int8) {
	if x, ok := f.env[v]; ok && x.kind == 'i' && x.tag < 0 && x.end == 0 {
		x.tag = tag
		f.env[v] = x
	}
}

func (m *machine) index(st *tstate, f *tframe, v, i tval, reg ssa.Value) tval {
	switch v.kind {
	case 'c':
		if i.end != 0 || i.tag >= 0 && i.k > m.k0 {
			undec("a position of a string is used in a constant")
		}
		if i.k < 0 || i.k >= len(v.str) {
			panic(tcrash{"an index out of range"})
		}
		return tInt(int(v.str[i.k]))
	case 's', 'v':
		if i.end == 1 && i.k == -1 && v.org && v.hi == toEnd && v.kind == 's' && i.tag == v.tag {
			g := tguess{alts: []talt{{tval{}, m.models.Func("Longer0"), []tval{v}, false}}}
			for _, c := range m.alphabet[v.tag] {
				g.alts = append(g.alts, talt{tInt(int(c)), m.models.Func("HasSuffix1"), []tval{v, tInt(int(c))}, true})
			}
			panic(g)
		}
		if i.end == 1 && i.k == -1 && v.org && v.hi == toEnd && v.kind == 'v' && i.tag == v.tag+2 {
			return tval{kind: 'l', tag: v.tag}
		}
		p := m.at(v, i)
		if i.k < 0 || v.hi != toEnd && p >= v.hi {
			panic(tcrash{"an index out of range"})
		}
		if v.kind == 'v' {
			if v.org {
				m.tagReg(f, reg, v.tag+2)
			}
			return st.levelString(int(v.tag), p)
		}
		if v.org {
			m.tagReg(f, reg, v.tag)
		}
		return tInt(int(st.char(int(v.tag), p)))
	}
	undec("index of an unknown value")
	return tval{}
}

func (m *machine) slice(st *tstate, f *tframe, v tval, lo, hi *tval) tval {
	if v.kind == 'c' {
		a, b := 0, len(v.str)
		if lo != nil {
			a = lo.k
		}
		if hi != nil {
			b = hi.k
		}
		if lo != nil && (lo.tag >= 0 || lo.end != 0) || hi != nil && (hi.tag >= 0 || hi.end != 0) {
			undec("a position of a string is used in a constant")
		}
		if a < 0 || b < a || b > len(v.str) {
			panic(tcrash{"a slice out of range"})
		}
		return tval{kind: 'c', str: v.str[a:b]}
	}
	if v.kind != 's' && v.kind != 'v' {
		undec("slice of an unknown value")
	}
	tag := v.tag
	if v.kind == 'v' {
		tag += 2
	}
	out := v
	if hi != nil {
		l := m.length(st, v)
		if hi.kind == 'i' && hi.end == l.end && hi.end != 0 && hi.tag == l.tag && hi.k == l.k {
			hi = nil
		}
	}
	if lo != nil {
		out.k = m.at(v, *lo)
		if lo.k < 0 {
			panic(tcrash{"a slice out of range"})
		}
		if out.k > 0 && !st.has(tag, out.k-1) {
			panic(tcrash{"a slice out of range"})
		}
	}
	if hi != nil {
		out.hi = m.at(v, *hi)
		if out.hi > 0 && !st.has(tag, out.hi-1) || v.hi != toEnd && out.hi > v.hi {
			panic(tcrash{"a slice out of range"})
		}
	}
	if out.hi != toEnd && out.k > out.hi {
		panic(tcrash{"a slice out of range"})
	}
	if v.org && lo == nil && hi != nil && (v.kind == 'v' || st.tp[v.tag].w > 0) {
		undec("a part from the start on is taken later")
	}
	out.org = v.org && out.k == v.k && lo == nil && hi == nil
	return out
}

// strLen is how many characters there are from a string's start to its end, if that is at most max.
func (st *tstate) within(v tval, i int) bool {
	p := v.k + i
	if v.hi != toEnd {
		return p < v.hi
	}
	return st.has(v.tag, p)
}

func (m *machine) strEq(st *tstate, a, b tval) bool {
	for _, x := range []*tval{&a, &b} {
		if x.kind == 's' && x.hi == toEnd && st.tp[x.tag].ended {
			x.hi = st.tp[x.tag].n
		}
	}
	if a.kind == 'c' && b.kind == 'c' {
		return a.str == b.str
	}
	if a.kind == 'c' {
		a, b = b, a
	}
	if a.kind == 'l' && b.kind == 'c' && len(b.str) == 1 {
		panic(either(m.models.Func("LastLevel"), false, tval{kind: 's', tag: a.tag, hi: toEnd, org: true}, tInt(int(b.str[0]))))
	}
	if a.kind != 's' {
		undec("comparison of unknown values")
	}
	if b.kind == 'c' {
		for i := 0; i < len(b.str); i++ {
			if !st.within(a, i) || st.char(int(a.tag), a.k+i) != b.str[i] {
				return false
			}
		}
		return !st.within(a, len(b.str))
	}
	if b.kind != 's' {
		undec("comparison of unknown values")
	}
	if a.hi == toEnd || b.hi == toEnd {
		panic(either(m.models.Func("Equal"), false, a, b))
	}
	if a.hi-a.k != b.hi-b.k {
		return false
	}
	for i := 0; i < a.hi-a.k; i++ {
		if st.char(int(a.tag), a.k+i) != st.char(int(b.tag), b.k+i) {
			return false
		}
	}
	return true
}

// compare is the sign of a - b, as far as op needs it.
func (m *machine) compare(st *tstate, f *tframe, op token.Token, x, y ssa.Value) bool {
	a, b := m.val(f, x), m.val(f, y)
	rel := func(d int) bool {
		switch op {
		case token.EQL:
			return d == 0
		case token.NEQ:
			return d != 0
		case token.LSS:
			return d < 0
		case token.LEQ:
			return d <= 0
		case token.GTR:
			return d > 0
		case token.GEQ:
			return d >= 0
		}
		undec("operator %s", op)
		return false
	}
	if a.end == 0 && b.end == 0 {
		if a.tag >= 0 && b.tag >= 0 && !sameTag(a.tag, b.tag) {
			undec("positions of both strings are compared")
		}
		if a.tag < 0 != (b.tag < 0) {
			u := a
			if a.tag >= 0 {
				u = b
			}
			if u.k > m.k0 {
				undec("a position is compared with another number")
			}
		}
		return rel(a.k - b.k)
	}
	if a.end != 0 && b.end != 0 {
		if a.tag != b.tag && a.end == 1 && b.end == 1 {
			// E_a + a.k op E_b + b.k
			whole := func(t int8) tval {
				if t >= 2 {
					return tval{kind: 'v', tag: t - 2, hi: toEnd, org: true}
				}
				return tval{kind: 's', tag: t, hi: toEnd, org: true}
			}
			x, y, i, j := whole(a.tag), whole(b.tag), tInt(0), tInt(0)
			d := b.k - a.k // E_a op E_b + d
			if d > 0 {
				j.k = -d
			} else {
				i.k = d
			}
			if a.tag >= 2 && b.tag >= 2 {
				// levels count alike, so the count may begin at levels that are known, which are there
				la, lb := st.tp[a.tag-2].lvl, st.tp[b.tag-2].lvl
				best := -1
				for l := range la {
					if _, ok := lb[l-d]; ok && l > best {
						best = l
					}
				}
				if best >= 0 {
					i, j = tPos(best, a.tag), tPos(best-d, b.tag)
				}
			}
			name, neg := "", false
			switch op {
			case token.EQL, token.NEQ:
				name, neg = "SameLength", op == token.NEQ
			case token.LSS, token.GEQ:
				name, neg = "Shorter", op == token.GEQ
			case token.LEQ, token.GTR:
				name, neg = "NotLonger", op == token.GTR
			}
			panic(either(m.models.Func(name), neg, x, y, i, j))
		}
		if a.tag != b.tag || a.end != b.end {
			undec("the lengths of both strings are compared")
		}
		return rel(a.k - b.k)
	}
	neg := false
	if b.end != 0 {
		a, b, x, y = b, a, y, x
		neg = true
	}
	// a counts from the end
	n := 0 // E >= n means a >= b
	if a.end == 1 {
		if b.tag >= 0 && !sameTag(a.tag, b.tag) {
			undec("a position of one string is compared with the length of the other")
		}
		if b.tag < 0 {
			if _, isConst := y.(*ssa.Const); isConst {
				if b.k > m.k0 {
					undec("a length is compared with a large constant")
				}
			} else {
				m.tagReg(f, y, a.tag)
			}
		}
		n = b.k - a.k
	} else {
		if b.tag >= 0 {
			undec("a position is compared with the length of a part of a string")
		}
		n = b.k - a.k
	}
	d := 1
	switch {
	case n > 0 && !st.has(a.tag, n-1):
		d = -1
	case n < 0:
	case op == token.GEQ && !neg || op == token.LSS && !neg || op == token.LEQ && neg || op == token.GTR && neg:
		// E >= n is all that is asked for
		d = 0
		if op == token.LSS || op == token.GTR {
			return false
		}
		return true
	case !st.has(a.tag, n):
		d = 0
	}
	if neg {
		d = -d
	}
	return rel(d)
}

// ---- execution

func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (m *machine) jump(f *tframe, to *ssa.BasicBlock) {
	from := f.blk
	f.blk, f.idx = to, 0
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vs []tval
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, m.phiVal(f, phi.Edges[pi]))
	}
	for i, v := range vs {
		f.env[to.Instrs[i].(*ssa.Phi)] = v
		f.idx++
	}
}

func (m *machine) phiVal(f *tframe, v ssa.Value) (out tval) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(tundecided); !ok {
				panic(e)
			}
			out = tval{kind: 'o'}
		}
	}()
	return m.val(f, v)
}

// tail tells whether nothing happens after a call but that its result is returned.
func tail(f *tframe, call ssa.Value) bool {
	b, i := f.blk, f.idx+1
	for n := 0; n < 4; n++ {
		if i >= len(b.Instrs) {
			return false
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Return:
			return len(x.Results) == 1 && x.Results[0] == call
		case *ssa.Jump:
			to := b.Succs[0]
			pi := -1
			for j, p := range to.Preds {
				if p == b {
					pi = j
				}
			}
			i = 0
			for i < len(to.Instrs) {
				phi, ok := to.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				if phi.Edges[pi] == call {
					call = phi
				}
				i++
			}
			b = to
		default:
			return false
		}
	}
	return false
}

func (m *machine) push(th *tthread, fn *ssa.Function, args []tval, ret ssa.Value) {
	if len(th.frames) > 12 {
		undec("calls are nested too deeply")
	}
	f := &tframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]tval{}, cells: map[ssa.Value]tval{}, ret: ret}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = tval{kind: 'o'}
		}
	}
	th.frames = append(th.frames, f)
}

// run runs a thread until it ends, needs a character or has to guess.
func (m *machine) run(st *tstate, th *tthread) (g *tguess) {
	th.need = -1
	defer func() {
		switch e := recover().(type) {
		case nil:
		case tneed:
			th.need = e.tape
		case tcrash:
			th.done, th.crash, th.frames = true, e.why, nil
		case tguess:
			g = &e
		default:
			panic(e)
		}
	}()
	for steps := 0; !th.done; steps++ {
		if steps > 5000 {
			undec("it does not come to an end")
		}
		m.step(st, th)
	}
	return nil
}

func (m *machine) step(st *tstate, th *tthread) {
	f := th.frames[len(th.frames)-1]
	ins := f.blk.Instrs[f.idx]
	set := func(v tval) {
		f.env[ins.(ssa.Value)] = v
		f.idx++
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Jump:
		m.jump(f, f.blk.Succs[0])
	case *ssa.If:
		c := m.val(f, x.Cond)
		if c.kind != 'b' {
			undec("an unknown condition")
		}
		m.jump(f, f.blk.Succs[1-c.k])
	case *ssa.Return:
		var vs []tval
		for _, r := range x.Results {
			vs = append(vs, m.val(f, r))
		}
		th.frames = th.frames[:len(th.frames)-1]
		if len(th.frames) == 0 {
			if len(vs) != 1 || vs[0].kind != 'b' {
				undec("the result is no boolean")
			}
			th.done, th.res = true, vs[0].k == 1
			return
		}
		c := th.frames[len(th.frames)-1]
		out := tval{kind: 't', el: vs}
		if len(vs) == 1 {
			out = vs[0]
		}
		c.env[f.ret] = out
		c.idx++
	case *ssa.BinOp:
		set(m.binop(st, f, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			v := m.val(f, x.X)
			set(tBool(v.k == 0))
		case token.SUB:
			v := m.val(f, x.X)
			if v.kind != 'i' || v.tag >= 0 || v.end != 0 {
				undec("negation of a position")
			}
			set(tInt(-v.k))
		case token.MUL:
			p := m.val(f, x.X)
			switch p.kind {
			case 'p':
				set(p.el[0])
			case 'a':
				v, ok := f.cells[p.av]
				if !ok {
					undec("a variable of another function")
				}
				set(v)
			default:
				undec("memory is read")
			}
		default:
			undec("operator %s", x.Op)
		}
	case *ssa.Alloc:
		z := tval{kind: 'o'}
		if b, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				z = tInt(0)
			case b.Info()&types.IsBoolean != 0:
				z = tBool(false)
			case b.Info()&types.IsString != 0:
				z = tval{kind: 'c'}
			}
		}
		f.cells[x] = z
		set(tval{kind: 'a', av: x})
	case *ssa.Store:
		p := m.val(f, x.Addr)
		if p.kind != 'a' {
			undec("memory is written")
		}
		if _, ok := f.cells[p.av]; !ok {
			undec("a variable of another function")
		}
		f.cells[p.av] = m.val(f, x.Val)
		f.idx++
	case *ssa.Lookup:
		if x.CommaOk || !isText(x.X.Type()) {
			undec("a map")
		}
		set(m.index(st, f, m.val(f, x.X), m.val(f, x.Index), x.Index))
	case *ssa.Index:
		set(m.index(st, f, m.val(f, x.X), m.val(f, x.Index), x.Index))
	case *ssa.IndexAddr:
		set(tval{kind: 'p', el: []tval{m.index(st, f, m.val(f, x.X), m.val(f, x.Index), x.Index)}})
	case *ssa.Slice:
		var lo, hi *tval
		if x.Low != nil {
			v := m.val(f, x.Low)
			lo = &v
		}
		if x.High != nil {
			v := m.val(f, x.High)
			hi = &v
		}
		if x.Max != nil {
			undec("a slice with a capacity")
		}
		set(m.slice(st, f, m.val(f, x.X), lo, hi))
	case *ssa.ChangeType:
		set(m.val(f, x.X))
	case *ssa.Convert:
		v := m.val(f, x.X)
		if isText(x.Type()) && v.kind == 'i' {
			if v.tag >= 0 || v.end != 0 || v.k < 0 || v.k > 127 {
				undec("a position is made a string")
			}
			v = tval{kind: 'c', str: string(rune(v.k))}
		} else if isText(x.X.Type()) != isText(x.Type()) {
			undec("a conversion to %s", x.Type())
		}
		set(v)
	case *ssa.Extract:
		v := m.val(f, x.Tuple)
		if v.kind != 't' || x.Index >= len(v.el) {
			undec("an unknown result")
		}
		set(v.el[x.Index])
	case *ssa.Range:
		v := m.val(f, x.X)
		if v.kind != 's' && v.kind != 'c' {
			undec("a range over an unknown value")
		}
		if v.org {
			f.cells[x] = tPos(0, v.tag)
		} else {
			f.cells[x] = tInt(0)
		}
		set(v)
	case *ssa.Next:
		s, i := m.val(f, x.Iter), f.cells[x.Iter]
		ok := false
		if s.kind == 'c' {
			ok = i.k < len(s.str)
		} else if s.org {
			ok = st.has(s.tag, i.k)
		} else {
			ok = st.within(s, i.k)
		}
		if !ok {
			set(tval{kind: 't', el: []tval{tBool(false), tInt(0), tInt(0)}})
			return
		}
		c := m.index(st, f, s, i, nil)
		n := i
		n.k++
		if c.k == int(wideChar[0]) {
			c = tInt(wideRune)
			n.k++
		}
		f.cells[x.Iter] = n
		set(tval{kind: 't', el: []tval{tBool(true), i, c}})
	case *ssa.Call:
		m.call(st, th, f, x)
	case *ssa.Panic:
		panic(tcrash{"a panic"})
	default:
		undec("%T", ins)
	}
}

func (m *machine) binop(st *tstate, f *tframe, x *ssa.BinOp) tval {
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := m.val(f, x.X), m.val(f, x.Y)
		if a.kind == 'i' && b.kind == 'i' {
			return tBool(m.compare(st, f, x.Op, x.X, x.Y))
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if a.kind == 'b' && b.kind == 'b' {
				return tBool((a.k == b.k) == (x.Op == token.EQL))
			}
			if text := "scl"; strings.ContainsRune(text, rune(a.kind)) && strings.ContainsRune(text, rune(b.kind)) {
				if x.Op == token.EQL {
					return tBool(m.strEq(st, a, b))
				}
				defer func() {
					if e := recover(); e != nil {
						if g, ok := e.(tguess); ok {
							for i := range g.alts {
								g.alts[i].res.k = 1 - g.alts[i].res.k
							}
						}
						panic(e)
					}
				}()
				return tBool(!m.strEq(st, a, b))
			}
		}
		undec("comparison of unknown values")
	}
	a, b := m.val(f, x.X), m.val(f, x.Y)
	if a.kind != 'i' || b.kind != 'i' {
		undec("operator %s on unknown values", x.Op)
	}
	switch x.Op {
	case token.ADD:
		if a.tag < 0 && a.end == 0 {
			a, b = b, a
		}
		if b.tag >= 0 || b.end != 0 {
			undec("positions are added")
		}
		a.k += b.k
		return a
	case token.SUB:
		switch {
		case b.tag < 0 && b.end == 0:
			a.k -= b.k
			return a
		case sameTag(a.tag, b.tag) && a.end == 0 && b.end == 0:
			return tInt(a.k - b.k)
		case a.tag == b.tag && a.end == 1 && b.end == 0:
			return tval{kind: 'i', tag: a.tag, end: 2, k: a.k - b.k}
		case a.tag == b.tag && a.end == b.end:
			return tInt(a.k - b.k)
		}
		undec("positions of both strings are subtracted")
	}
	if a.tag >= 0 || b.tag >= 0 || a.end != 0 || b.end != 0 {
		undec("operator %s on positions", x.Op)
	}
	switch x.Op {
	case token.MUL:
		return tInt(a.k * b.k)
	case token.AND:
		return tInt(a.k & b.k)
	case token.OR:
		return tInt(a.k | b.k)
	case token.XOR:
		return tInt(a.k ^ b.k)
	}
	undec("operator %s", x.Op)
	return tval{}
}

func (m *machine) call(st *tstate, th *tthread, f *tframe, x *ssa.Call) {
	set := func(v tval) {
		f.env[x] = v
		f.idx++
	}
	var args []tval
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			set(m.length(st, m.val(f, x.Call.Args[0])))
			return
		}
		undec("builtin %s", b.Name())
	}
	fn := x.Call.StaticCallee()
	if fn == nil {
		undec("a call of an unknown function")
	}
	for _, a := range x.Call.Args {
		args = append(args, m.phiVal(f, a))
	}
	enter := func(fn *ssa.Function, args []tval) {
		if tail(f, x) {
			th.frames = th.frames[:len(th.frames)-1]
			ret := f.ret
			m.push(th, fn, args, ret)
			return
		}
		m.push(th, fn, args, x)
	}
	if m.inModule(fn) && len(fn.Blocks) > 0 || fn.Pkg == m.models {
		enter(fn, args)
		return
	}
	name := fn.String()
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	name = strings.Replace(name, "bytes.", "strings.", 1)
	one := func(v tval) (byte, bool) {
		if v.kind == 'c' && len(v.str) == 1 {
			return v.str[0], true
		}
		if v.kind == 'i' && v.tag < 0 && v.end == 0 {
			return byte(v.k), true
		}
		return 0, false
	}
	whole := func(v tval) bool { return v.kind == 's' && v.hi == toEnd }
	model := func(n string, a ...tval) { enter(m.models.Func(n), a) }
	switch name {
	case "strings.HasPrefix":
		if args[1].kind == 'c' {
			model("HasPrefix", args[0], args[1])
			return
		}
	case "strings.TrimPrefix":
		if args[1].kind == 'c' {
			model("TrimPrefix", args[0], args[1])
			return
		}
	case "strings.HasSuffix":
		if args[1].kind == 'c' && len(args[1].str) >= 1 && len(args[1].str) <= 2 {
			mon, a := m.models.Func("HasSuffix1"), []tval{args[0], tInt(int(args[1].str[0]))}
			if len(args[1].str) == 2 {
				mon = m.models.Func("HasSuffix2")
				a = append(a, tInt(int(args[1].str[1])))
			}
			if whole(args[0]) {
				panic(either(mon, false, a...))
			}
			enter(mon, a)
			return
		}
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		if name == "strings.ContainsAny" && args[1].kind == 'c' && len(args[1].str) == 2 {
			a := []tval{args[0], tInt(int(args[1].str[0])), tInt(int(args[1].str[1]))}
			if whole(args[0]) {
				panic(either(m.models.Func("ContainsByte2"), false, a...))
			}
			model("ContainsByte2", a...)
			return
		}
		if c, ok := one(args[1]); ok {
			if whole(args[0]) {
				panic(either(m.models.Func("ContainsByte"), false, args[0], tInt(int(c))))
			}
			model("ContainsByte", args[0], tInt(int(c)))
			return
		}
	case "strings.IndexByte", "strings.Index", "strings.IndexRune":
		if c, ok := one(args[1]); ok {
			model("IndexByte", args[0], tInt(int(c)))
			return
		}
	case "strings.Cut":
		if c, ok := one(args[1]); ok {
			s := args[0]
			s.org = false // a part from its start on is returned
			model("Cut", s, tInt(int(c)))
			return
		}
	case "strings.Equal":
		set(tBool(m.strEq(st, args[0], args[1])))
		return
	case "strings.Clone", "strings.String":
		set(args[0])
		return
	case "strings.Split":
		if c, ok := one(args[1]); ok && c == '/' && args[0].kind == 's' && args[0].org {
			t := st.tp[args[0].tag]
			if t.lvl == nil {
				if t.w > 0 {
					undec("a string is split that is passed in part")
				}
				t.lvl = map[int]int{0: 0}
			}
			set(tval{kind: 'v', tag: args[0].tag, hi: toEnd, org: true})
			return
		}
	}
	undec("a call of %s", fn)
}

// ---- states

func (m *machine) liveAt(fn *ssa.Function, blk *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	if m.live[fn] == nil {
		in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		at := map[*ssa.BasicBlock][]map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			in[b] = map[ssa.Value]bool{}
		}
		for grew := true; grew; {
			grew = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				live := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					for v := range in[s] {
						live[v] = true
					}
					for pi, p := range s.Preds {
						if p != b {
							continue
						}
						for _, ins := range s.Instrs {
							phi, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							live[phi.Edges[pi]] = true
						}
					}
				}
				list := make([]map[ssa.Value]bool, len(b.Instrs)+1)
				list[len(b.Instrs)] = live
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					ins := b.Instrs[j]
					next := map[ssa.Value]bool{}
					for v := range live {
						next[v] = true
					}
					if v, ok := ins.(ssa.Value); ok {
						delete(next, v)
					}
					if _, ok := ins.(*ssa.Phi); !ok {
						for _, op := range ins.Operands(nil) {
							if *op != nil {
								next[*op] = true
							}
						}
					}
					list[j] = next
					live = next
				}
				if len(live) != len(in[b]) {
					in[b] = live
					grew = true
				}
				at[b] = list
			}
		}
		m.live[fn] = at
	}
	return m.live[fn][blk][idx]
}

// settle forgets what is not needed any more and shifts positions.
func (m *machine) settle(st *tstate) {
	for _, th := range st.th {
		for i, f := range th.frames {
			idx := f.idx
			var res ssa.Value
			if i+1 < len(th.frames) {
				res = th.frames[i+1].ret
				idx++
			}
			live := m.liveAt(f.fn, f.blk, idx)
			for v := range f.env {
				if !live[v] || v == res {
					delete(f.env, v)
				}
			}
		}
	}
	for tag := int8(2); tag >= 0; tag-- {
		// the levels of both tapes count alike
		var tapes []*ttape
		if tag == 2 {
			for _, t := range st.tp {
				if t.lvl != nil {
					tapes = append(tapes, t)
				}
			}
		} else {
			tapes = []*ttape{st.tp[tag]}
		}
		if len(tapes) == 0 {
			continue
		}
		mine := func(v *tval) bool {
			return tag == 2 && v.kind == 'v' || tag < 2 && v.kind == 's' && v.tag == tag
		}
		low := 1 << 30
		note := func(p int) {
			if p < low {
				low = p
			}
		}
		for _, th := range st.th {
			hasOrg, hasTag := false, false
			for _, f := range th.frames {
				f.each(func(v *tval) {
					if v.kind == 'i' && v.tag >= 0 && sameTag(v.tag, tag) && v.end != 1 {
						hasTag = true
						if v.end == 0 {
							note(v.k)
						} else {
							note(-v.k)
						}
					}
					if mine(v) {
						if v.org {
							hasOrg = true
						} else {
							note(v.k)
						}
					}
				})
			}
			if hasOrg && !hasTag {
				note(0)
			}
		}
		n := 1 << 30
		for _, t := range tapes {
			top := t.n
			if tag == 2 {
				top = -1
				for l := range t.lvl {
					if l > top {
						top = l
					}
				}
				for l := range t.lvl {
					if l < low-m.behind && l < top {
						delete(t.lvl, l)
					}
				}
			} else {
				for _, s := range t.lvl {
					note(s)
				}
				if w := low - m.behind; w > t.w {
					if w > t.n {
						w = t.n
					}
					t.chars = t.chars[w-t.w:]
					t.w = w
				}
			}
			if top < n {
				n = top
			}
		}
		if low > n {
			low = n
		}
		d := low - (m.k0 + 1)
		if d <= 0 {
			continue
		}
		for _, th := range st.th {
			for _, f := range th.frames {
				f.each(func(v *tval) {
					switch {
					case v.kind == 'i' && v.tag >= 0 && sameTag(v.tag, tag) && v.end == 0:
						v.k -= d
					case v.kind == 'i' && v.tag >= 0 && sameTag(v.tag, tag) && v.end == 2:
						v.k += d
					case mine(v):
						if !v.org {
							v.k -= d
						}
						if v.hi != toEnd {
							v.hi -= d
						}
					}
				})
			}
		}
		for _, t := range tapes {
			if tag < 2 {
				t.n -= d
				if t.w -= d; t.w < 0 {
					t.chars = t.chars[-t.w:]
					t.w = 0
				}
				for l := range t.lvl {
					t.lvl[l] -= d
				}
				continue
			}
			nl := map[int]int{}
			for l, s := range t.lvl {
				nl[l-d] = s
			}
			t.lvl = nl
		}
	}
}

func (f *tframe) each(g func(*tval)) {
	var rec func(v *tval)
	rec = func(v *tval) {
		g(v)
		for i := range v.el {
			rec(&v.el[i])
		}
	}
	for _, mp := range []map[ssa.Value]tval{f.env, f.cells} {
		for k, v := range mp {
			if len(v.el) > 0 {
				v.el = append([]tval(nil), v.el...)
			}
			rec(&v)
			mp[k] = v
		}
	}
}

func (v tval) String() string {
	s := fmt.Sprintf("%c%d,%d,%d,%d,%v%s", v.kind, v.k, v.tag, v.end, v.hi, v.org, v.str)
	for _, e := range v.el {
		s += "(" + e.String() + ")"
	}
	return s
}

func (st *tstate) key(m *machine) [32]byte {
	var b strings.Builder
	for _, t := range st.tp {
		cur := 0
		if m.maxLevel > 0 {
			cur = t.cur
		}
		fmt.Fprintf(&b, "%d %d %s %v %d|", t.n, t.w, t.chars, t.ended, cur)
		var ls []string
		for l, s := range t.lvl {
			ls = append(ls, fmt.Sprintf("%d:%d", l, s))
		}
		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ","))
	}
	for _, th := range st.th {
		fmt.Fprintf(&b, "\n%c%v%v%s%v", th.role, th.done, th.res, th.crash, th.want)
		for _, f := range th.frames {
			fmt.Fprintf(&b, "[%p %d %d ", f.fn, f.blk.Index, f.idx)
			var vs []string
			for v, x := range f.env {
				vs = append(vs, v.Name()+"="+x.String())
			}
			for v, x := range f.cells {
				vs = append(vs, "*"+v.Name()+"="+x.String())
			}
			sort.Strings(vs)
			b.WriteString(strings.Join(vs, " "))
		}
	}
	return sha256.Sum256([]byte(b.String()))
}

func (st *tstate) clone() *tstate {
	out := &tstate{hist: st.hist}
	for i, t := range st.tp {
		c := *t
		c.chars = append([]byte(nil), t.chars...)
		if t.lvl != nil {
			c.lvl = map[int]int{}
			for l, s := range t.lvl {
				c.lvl[l] = s
			}
		}
		out.tp[i] = &c
	}
	for _, th := range st.th {
		c := *th
		c.frames = nil
		for _, f := range th.frames {
			g := *f
			g.env, g.cells = map[ssa.Value]tval{}, map[ssa.Value]tval{}
			for k, v := range f.env {
				g.env[k] = v
			}
			for k, v := range f.cells {
				g.cells[k] = v
			}
			c.frames = append(c.frames, &g)
		}
		out.th = append(out.th, &c)
	}
	return out
}

func (st *tstate) words() [2]string {
	var out [2]string
	for h := st.hist; h != nil; h = h.prev {
		out[h.tape] = h.ch + out[h.tape]
	}
	return out
}

// disagreement is a pair of strings for which the code and the rule give different answers.
type disagreement struct {
	filter, topic string
	got, want     string
}

// explore visits all states. Tape 0 is the filter, tape 1 the topic.
func (m *machine) explore(code *ssa.Function, args []tval) (bad *disagreement, why string) {
	defer func() {
		if e := recover(); e != nil {
			bad = nil
			if u, ok := e.(tundecided); ok {
				why = u.why
			} else {
				why = fmt.Sprintf("it is not understood: %v", e)
			}
		}
	}()
	filter := tval{kind: 's', tag: 0, hi: toEnd, org: true}
	topic := tval{kind: 's', tag: 1, hi: toEnd, org: true}
	start := &tstate{tp: [2]*ttape{{}, {}}}
	thread := func(role byte, fn *ssa.Function, args []tval, want bool) *tthread {
		th := &tthread{role: role, want: want, need: -1}
		m.push(th, fn, args, nil)
		return th
	}
	start.th = []*tthread{thread('m', code, args, false)}
	if !m.alone {
		start.th = append(start.th,
			thread('s', m.models.Func("Rule"), []tval{topic, filter}, false),
			thread('a', m.models.Func("ValidFilter"), []tval{filter}, true),
			thread('a', m.models.Func("ValidTopic"), []tval{topic}, true))
	}
	seen := map[[32]byte]bool{}
	todo := []*tstate{start}
	for len(todo) > 0 {
		st := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		alive, forked := true, false
		for _, th := range st.th {
			if th.done {
				continue
			}
			g := m.run(st, th)
			if g != nil {
				for _, alt := range g.alts {
					c := st.clone()
					for i, o := range st.th {
						if o != th {
							continue
						}
						if alt.res.kind == 0 {
							c.th[i].done, c.th[i].crash, c.th[i].frames = true, "an index out of range", nil
							continue
						}
						f := c.th[i].frames[len(c.th[i].frames)-1]
						f.env[f.blk.Instrs[f.idx].(ssa.Value)] = alt.res
						f.idx++
					}
					n := 0
					for _, o := range c.th {
						if o.role == 'g' {
							n++
						}
					}
					if n > 3 {
						undec("it asks for too many properties of the whole strings")
					}
					c.th = append(c.th, thread('g', alt.monitor, alt.args, alt.want))
					todo = append(todo, c)
				}
				forked = true
				break
			}
			if th.done && th.role != 'm' && th.role != 's' && (th.crash != "" || th.res != th.want) {
				alive = false
				break
			}
		}
		if forked || !alive {
			continue
		}
		main := st.th[0]
		rule := main
		if !m.alone {
			rule = st.th[1]
		}
		if main.done && rule.done && main.crash == "" && main.res == rule.res {
			continue
		}
		need := -1
		for _, th := range st.th {
			if !th.done && need < 0 {
				need = th.need
			}
		}
		if need < 0 {
			w := st.words()
			d := &disagreement{filter: w[0], topic: w[1], got: fmt.Sprint(main.res), want: fmt.Sprint(rule.res)}
			if main.crash != "" {
				d.got = main.crash
			}
			if bad == nil || len(d.filter)+len(d.topic) < len(bad.filter)+len(bad.topic) {
				bad = d
			}
			if len(todo) > 200000 {
				return bad, ""
			}
			continue
		}
		m.settle(st)
		for _, t := range st.tp {
			if t.n-t.w > 64 {
				undec("it needs more and more of what it has passed")
			}
		}
		k := st.key(m)
		if seen[k] {
			continue
		}
		seen[k] = true
		if os.Getenv("VERIF_DEBUG") != "" && m.states%5000 == 0 {
			fmt.Fprintln(os.Stderr, m.states, len(todo), len(st.th), st.words())
		}
		if m.states++; m.states > m.limit {
			if bad != nil {
				return bad, ""
			}
			undec("there are too many states")
		}
		t := st.tp[need]
		next := []string{""}
		for _, ch := range m.alphabet[need] {
			next = append(next, string(rune(ch)))
		}
		if m.wide {
			next = append(next, wideChar)
		}
		for _, ch := range next {
			if m.maxLevel > 0 && t.cur >= m.maxLevel && ch != "" && ch != "/" {
				continue
			}
			c := st.clone()
			ct := c.tp[need]
			c.hist = &treveal{st.hist, need, ch}
			if ch == "" {
				ct.ended = true
			} else {
				ct.chars = append(ct.chars, ch...)
				ct.n += len(ch)
				ct.cur++
				if ch == "/" {
					ct.cur = 0
				}
			}
			todo = append(todo, c)
		}
	}
	return bad, ""
}
