package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term: width 0 is Bool, otherwise a bit-vector.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract
	OIte
	OConcat
)

type Term struct {
	op   Op
	w    uint8
	lo   uint8 // extract low bit
	args []*Term
	k    uint64
	name string
	h    [2]uint64
	id   int
	vars []*Term // sorted by id; free variables
	// for terms over at most one 8-bit variable: cached truth table (bools)
	tt    *[4]uint64
	ttvar *Term
}

type TermStore struct {
	tab  map[[2]uint64]*Term
	next int
	T, F *Term
	// see cert.go
	lemmas  map[[2]uint64]bool
	pending []claim
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: map[[2]uint64]*Term{}, lemmas: map[[2]uint64]bool{}}
	s.T = s.Const(0, 1)
	s.F = s.Const(0, 0)
	return s
}

func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (s *TermStore) mk(op Op, w uint8, lo uint8, k uint64, name string, args ...*Term) *Term {
	h1 := mix(uint64(op)*1315423911, uint64(w)<<8|uint64(lo))
	h2 := mix(uint64(op)*2654435761+77, uint64(w)<<16|uint64(lo))
	h1 = mix(h1, k)
	h2 = mix(h2, k^0x5555555555555555)
	for i := 0; i < len(name); i++ {
		h1 = mix(h1, uint64(name[i]))
		h2 = mix(h2, uint64(name[i])*31+7)
	}
	for _, a := range args {
		h1 = mix(h1, a.h[0])
		h2 = mix(h2, a.h[1])
	}
	key := [2]uint64{h1, h2}
	if t, ok := s.tab[key]; ok {
		return t
	}
	s.next++
	t := &Term{op: op, w: w, lo: lo, k: k, name: name, h: key, id: s.next, args: append([]*Term(nil), args...)}
	if op == OVar {
		t.vars = []*Term{t}
	} else {
		t.vars = mergeVars(args)
	}
	s.tab[key] = t
	return t
}

func mergeVars(args []*Term) []*Term {
	var r []*Term
	for _, a := range args {
		if len(a.vars) == 0 {
			continue
		}
		if r == nil {
			r = a.vars
			continue
		}
		if len(r) == len(a.vars) && r[0] == a.vars[0] && (len(r) == 1 || sameVars(r, a.vars)) {
			continue
		}
		out := make([]*Term, 0, len(r)+len(a.vars))
		i, j := 0, 0
		for i < len(r) || j < len(a.vars) {
			switch {
			case i == len(r):
				out = append(out, a.vars[j])
				j++
			case j == len(a.vars):
				out = append(out, r[i])
				i++
			case r[i] == a.vars[j]:
				out = append(out, r[i])
				i++
				j++
			case r[i].id < a.vars[j].id:
				out = append(out, r[i])
				i++
			default:
				out = append(out, a.vars[j])
				j++
			}
		}
		r = out
	}
	return r
}

func sameVars(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func (s *TermStore) Const(w uint8, v uint64) *Term { return s.mk(OConst, w, 0, v&wmask(w), "") }
func (s *TermStore) Var(w uint8, name string) *Term {
	return s.mk(OVar, w, 0, 0, name)
}
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}

func (t *Term) isC() bool { return t.op == OConst }

func (s *TermStore) Not(a *Term) *Term {
	if a.isC() {
		return s.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return s.mk(ONot, 0, 0, 0, "", a)
}

func (s *TermStore) And(xs ...*Term) *Term { return s.nary(OAnd, xs) }
func (s *TermStore) Or(xs ...*Term) *Term  { return s.nary(OOr, xs) }

func (s *TermStore) nary(op Op, xs []*Term) *Term {
	r := s.nary0(op, xs)
	if len(xs) == 1 && r == xs[0] || len(xs) == 0 {
		return r
	}
	if r.op == op && len(r.args) == len(xs) {
		nested := false
		for _, x := range xs {
			nested = nested || x.op == op
		}
		if !nested {
			return r // the same terms in another order
		}
	}
	s.rewrote(op, 0, 0, r, xs...)
	return r
}

func (s *TermStore) nary0(op Op, xs []*Term) *Term {
	neutral, absorbing := s.T, s.F
	if op == OOr {
		neutral, absorbing = s.F, s.T
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		var sub []*Term
		if x.op == op {
			sub = x.args
		} else {
			sub = []*Term{x}
		}
		for _, y := range sub {
			if y == neutral || seen[y] {
				continue
			}
			if y == absorbing {
				return absorbing
			}
			if seen[s.Not(y)] {
				return absorbing
			}
			seen[y] = true
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return neutral
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].h, out[j].h
		return a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
	})
	return s.mk(op, 0, 0, 0, "", out...)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	r := s.ite0(c, a, b)
	if !c.isC() && r.op != OIte {
		s.rewrote(OIte, a.w, 0, r, c, a, b)
	}
	return r
}

func (s *TermStore) ite0(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == s.T {
			return s.Or(c, b)
		}
		if a == s.F {
			return s.And(s.Not(c), b)
		}
		if b == s.T {
			return s.Or(s.Not(c), a)
		}
		if b == s.F {
			return s.And(c, a)
		}
	}
	return s.mk(OIte, a.w, 0, 0, "", c, a, b)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	r := s.eq0(a, b)
	if r.op != OEq || r.args[0] != a && r.args[1] != a || r.args[0] != b && r.args[1] != b {
		s.rewrote(OEq, 0, 0, r, a, b)
	}
	return r
}

func (s *TermStore) eq0(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.isC() && b.isC() {
		return s.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return s.Not(a)
		}
	} else if b.isC() {
		switch a.op {
		case OZext:
			in := a.args[0]
			if b.k > wmask(in.w) {
				return s.F
			}
			return s.Eq(in, s.Const(in.w, b.k))
		case OSext:
			in := a.args[0]
			v := b.k & wmask(in.w)
			if sext(v, in.w)&wmask(a.w) != b.k {
				return s.F
			}
			return s.Eq(in, s.Const(in.w, v))
		case OIte:
			if a.args[1].isC() || a.args[2].isC() {
				return s.Ite(a.args[0], s.Eq(a.args[1], b), s.Eq(a.args[2], b))
			}
		case OAdd:
			if a.args[1].isC() {
				return s.Eq(a.args[0], s.Const(a.w, b.k-a.args[1].k))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return s.Eq(a.args[0], b.args[0])
	}
	if !b.isC() && (a.h[0] > b.h[0]) {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, 0, "", a, b)
}

func sext(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	if v>>(w-1)&1 == 1 {
		return v | ^wmask(w)
	}
	return v
}

func (s *TermStore) Cmp(op Op, a, b *Term) *Term {
	r := s.cmp0(op, a, b)
	if r.op != op || r.args[0] != a || r.args[1] != b {
		s.rewrote(op, 0, 0, r, a, b)
	}
	return r
}

func (s *TermStore) cmp0(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Bool(evalCmp(op, a.k, b.k, a.w))
	}
	if a == b {
		return s.Bool(op == OUle || op == OSle)
	}
	// comparisons of zero-extended narrow values with constants / each other
	if a.op == OZext && b.isC() {
		in := a.args[0]
		m := wmask(in.w)
		if op == OSlt || op == OSle {
			if int64(sext(b.k, b.w)) < 0 {
				return s.F
			}
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
		if b.k > m {
			return s.T
		}
		return s.Cmp(op, in, s.Const(in.w, b.k))
	}
	if b.op == OZext && a.isC() {
		in := b.args[0]
		m := wmask(in.w)
		if op == OSlt || op == OSle {
			if int64(sext(a.k, a.w)) < 0 {
				return s.T
			}
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
		if a.k > m {
			return s.F
		}
		return s.Cmp(op, s.Const(in.w, a.k), in)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		if op == OSlt {
			op = OUlt
		}
		if op == OSle {
			op = OUle
		}
		return s.Cmp(op, a.args[0], b.args[0])
	}
	if op == OUlt && b.isC() && b.k == 0 {
		return s.F
	}
	if op == OUle && a.isC() && a.k == 0 {
		return s.T
	}
	if op == OUle && b.isC() && b.k == wmask(b.w) {
		return s.T
	}
	return s.mk(op, 0, 0, 0, "", a, b)
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return int64(sext(a, w)) < int64(sext(b, w))
	case OSle:
		return int64(sext(a, w)) <= int64(sext(b, w))
	}
	panic("evalCmp")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := wmask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := int64(sext(a, w)), int64(sext(b, w))
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := int64(sext(a, w)), int64(sext(b, w))
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := int64(sext(a, w))
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("evalBin")
}

func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	r := s.bin0(op, a, b)
	if r.op != op || r.args[0] != a || r.args[1] != b {
		s.rewrote(op, a.w, 0, r, a, b)
	}
	return r
}

func (s *TermStore) bin0(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isC() && b.isC() {
		return s.Const(a.w, evalBin(op, a.k, b.k, a.w))
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.k == 0 {
			return a
		}
		if b.isC() && a.op == OAdd && a.args[1].isC() {
			return s.Bin(OAdd, a.args[0], s.Const(a.w, a.args[1].k+b.k))
		}
	case OSub:
		if b.isC() {
			return s.Bin(OAdd, a, s.Const(a.w, -b.k))
		}
		if a == b {
			return s.Const(a.w, 0)
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == wmask(b.w) {
				return a
			}
			if a.op == OZext && b.k&wmask(a.args[0].w) == wmask(a.args[0].w) {
				return a
			}
		}
	case OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() && b.k == 0 {
			return a
		}
	}
	return s.mk(op, a.w, 0, 0, "", a, b)
}

func (s *TermStore) BNot(a *Term) *Term {
	if a.isC() {
		return s.Const(a.w, ^a.k)
	}
	return s.mk(OBNot, a.w, 0, 0, "", a)
}

// Resize converts to width w, sign- or zero-extending.
func (s *TermStore) Resize(a *Term, w uint8, signed bool) *Term {
	r := s.resize0(a, w, signed)
	if a.w == w || a.isC() {
		return r
	}
	op := OZext
	switch {
	case w < a.w:
		op = OExtract
	case signed:
		op = OSext
	}
	if r.op != op || r.args[0] != a {
		s.rewrote(op, w, 0, r, a)
	}
	return r
}

func (s *TermStore) resize0(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		v := a.k
		if signed {
			v = sext(v, a.w)
		}
		return s.Const(w, v)
	}
	if w < a.w {
		if a.op == OZext || a.op == OSext {
			in := a.args[0]
			if in.w == w {
				return in
			}
			if in.w < w {
				return s.Resize(in, w, a.op == OSext)
			}
			return s.Resize(in, w, false)
		}
		if a.op == OIte {
			return s.Ite(a.args[0], s.Resize(a.args[1], w, false), s.Resize(a.args[2], w, false))
		}
		if a.op == OAdd || a.op == OBAnd || a.op == OBOr || a.op == OBXor || a.op == OSub {
			return s.Bin(a.op, s.Resize(a.args[0], w, false), s.Resize(a.args[1], w, false))
		}
		return s.mk(OExtract, w, 0, 0, "", a)
	}
	if a.op == OZext {
		return s.Resize(a.args[0], w, false)
	}
	if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
		return s.Ite(a.args[0], s.Resize(a.args[1], w, signed), s.Resize(a.args[2], w, signed))
	}
	if signed {
		return s.mk(OSext, w, 0, 0, "", a)
	}
	return s.mk(OZext, w, 0, 0, "", a)
}

// Model maps variables (by name) to values.
type Model map[string]uint64

func (s *TermStore) Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t.name] & wmask(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - s.Eval(t.args[0], m, memo)
	case OAnd:
		r = 1
		for _, a := range t.args {
			if s.Eval(a, m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if s.Eval(a, m, memo) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(s.Eval(t.args[0], m, memo) == s.Eval(t.args[1], m, memo))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, s.Eval(t.args[0], m, memo), s.Eval(t.args[1], m, memo), t.args[0].w))
	case OBNot:
		r = ^s.Eval(t.args[0], m, memo) & wmask(t.w)
	case OZext:
		r = s.Eval(t.args[0], m, memo)
	case OSext:
		r = sext(s.Eval(t.args[0], m, memo), t.args[0].w) & wmask(t.w)
	case OExtract:
		r = s.Eval(t.args[0], m, memo) >> t.lo & wmask(t.w)
	case OIte:
		if s.Eval(t.args[0], m, memo) == 1 {
			r = s.Eval(t.args[1], m, memo)
		} else {
			r = s.Eval(t.args[2], m, memo)
		}
	default:
		r = evalBin(t.op, s.Eval(t.args[0], m, memo), s.Eval(t.args[1], m, memo), t.w)
	}
	memo[t] = r
	return r
}

// truth8 returns the truth table of a boolean term over a single 8-bit variable.
func (s *TermStore) truth8(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	if t.w != 0 || len(t.vars) != 1 || t.vars[0].w != 8 {
		return nil
	}
	v := t.vars[0]
	var tab [4]uint64
	for i := 0; i < 256; i++ {
		if s.Eval(t, Model{v.name: uint64(i)}, map[*Term]uint64{}) == 1 {
			tab[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	t.tt = &tab
	return t.tt
}

func popcount4(a [4]uint64) int {
	return bits.OnesCount64(a[0]) + bits.OnesCount64(a[1]) + bits.OnesCount64(a[2]) + bits.OnesCount64(a[3])
}

// ---- SMT-LIB printing ----

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite"}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func smtConst(w uint8, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

// writeQuery prints declarations, shared definitions and assertions for a set of terms.
func writeQuery(sb *strings.Builder, asserts []*Term, vars []*Term) {
	for _, v := range vars {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", v.name, sortOf(v))
	}
	refs := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, a := range asserts {
		count(a)
	}
	defined := map[*Term]bool{}
	var pr func(t *Term, top bool) string
	var define func(t *Term)
	pr = func(t *Term, top bool) string {
		switch t.op {
		case OConst:
			return smtConst(t.w, t.k)
		case OVar:
			return "|" + t.name + "|"
		}
		if !top && defined[t] {
			return fmt.Sprintf("t!%d", t.id)
		}
		var b strings.Builder
		b.WriteByte('(')
		switch t.op {
		case OZext:
			fmt.Fprintf(&b, "(_ zero_extend %d)", t.w-t.args[0].w)
		case OSext:
			fmt.Fprintf(&b, "(_ sign_extend %d)", t.w-t.args[0].w)
		case OExtract:
			fmt.Fprintf(&b, "(_ extract %d %d)", t.lo+t.w-1, t.lo)
		default:
			b.WriteString(opNames[t.op])
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(pr(a, false))
		}
		b.WriteByte(')')
		return b.String()
	}
	define = func(t *Term) {
		if defined[t] || t.op == OConst || t.op == OVar {
			return
		}
		for _, a := range t.args {
			define(a)
		}
		if refs[t] > 1 {
			fmt.Fprintf(sb, "(define-fun t!%d () %s %s)\n", t.id, sortOf(t), pr(t, true))
			defined[t] = true
		}
	}
	for _, a := range asserts {
		for _, x := range a.args {
			define(x)
		}
		fmt.Fprintf(sb, "(assert %s)\n", pr(a, false))
	}
}

// Size is the number of terms held.
func (s *TermStore) Size() int { return len(s.tab) }
