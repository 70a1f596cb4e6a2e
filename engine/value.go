package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program: a native Go value of the same kind,
// a *Term when symbolic, or one of the representations below.
type Value = any

type Ptr = *Value
type Struct []Value
type Array []Value
type Tuple []Value

// SStr is a string with symbolic bytes (each element is byte or *Term of width 8).
type SStr struct{ b []Value }

// Blob is the single pseudo byte that stands for a serialised document.
type Blob struct {
	kind string // json, yaml, xlsx
	v    any
}

type Iface struct {
	t types.Type // nil for the nil interface; canonical pointer
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// NFunc is a function implemented by the engine.
type NFunc struct {
	name string
	f    func(in *Interp, args []Value) Value
}

// Native wraps an engine object held by the interpreted program.
type Native struct{ v any }

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt // concrete simple keys
	n    int
	sym  int // number of live entries that are not in idx
}

func newMap() *Map { return &Map{idx: map[any]*mapEnt{}} }

func simpleKey(k Value) (any, bool) {
	switch x := k.(type) {
	case string, bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, float32, float64, Ptr, *ssa.Function:
		return x, true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		if k, ok := simpleKey(x.v); ok {
			type ik struct {
				t types.Type
				k any
			}
			return ik{x.t, k}, true
		}
	case Struct:
		// composite keys: textual form of concrete fields
		var sb strings.Builder
		for _, f := range x {
			k, ok := simpleKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "struct:" + sb.String(), true
	case Array:
		return simpleKey(Struct(x))
	}
	return nil, false
}

func (in *Interp) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if ck, ok := simpleKey(k); ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := simpleKey(e.k); c {
				continue
			}
			if in.truth(in.eq(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.truth(in.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(targetPanic{Iface{t: in.P.errType(), v: "assignment to entry in nil map"}, in.stack()})
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := simpleKey(k); ok {
		m.idx[ck] = e
	} else {
		m.sym++
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := simpleKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	var out []*mapEnt
	for _, x := range m.ents {
		if !x.dead {
			out = append(out, x)
		}
	}
	m.ents = out
}

type iter interface {
	next(in *Interp) Tuple
}

type mapIter struct {
	rest    []*mapEnt
	permute bool
	m       *Map
}

func (it *mapIter) next(in *Interp) Tuple {
	for len(it.rest) > 0 {
		i := 0
		if it.permute && len(it.rest) > 1 {
			i = in.choice("maporder", len(it.rest))
		}
		e := it.rest[i]
		rest := make([]*mapEnt, 0, len(it.rest)-1)
		rest = append(rest, it.rest[:i]...)
		it.rest = append(rest, it.rest[i+1:]...)
		if e.dead {
			continue
		}
		return Tuple{true, e.k, e.v}
	}
	return Tuple{false, nil, nil}
}

type strIter struct {
	b []Value
	i int
}

func (it *strIter) next(in *Interp) Tuple {
	if it.i >= len(it.b) {
		return Tuple{false, 0, int32(0)}
	}
	r, n := in.decodeRune(it.b[it.i:])
	pos := it.i
	it.i += n
	return Tuple{true, pos, r}
}

// mkStr builds a string value from bytes (byte or *Term).
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(byte); !ok {
			for _, y := range b {
				if bl, ok := y.(*Blob); ok && len(b) > 1 {
					_ = bl
					unsup("document text mixed with other text")
				}
			}
			return &SStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = x.(byte)
	}
	return string(r)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = s[i]
		}
		return r
	case *SStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func concat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	xb, yb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(xb)+len(yb))
	r = append(r, xb...)
	r = append(r, yb...)
	return mkStr(r)
}

func substr(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("substr")
}

// byteTerm converts a string byte to an 8-bit term.
func (in *Interp) byteTerm(v Value) *Term {
	switch x := v.(type) {
	case byte:
		return in.ts.Const(8, uint64(x))
	case *Term:
		return x
	}
	unsup("byte access to a serialised document (%T)", v)
	return nil
}

func (in *Interp) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var cs []*Term
	for i := range a {
		if x, ok := a[i].(byte); ok {
			if y, ok := b[i].(byte); ok {
				if x != y {
					return false
				}
				continue
			}
		}
		if x, ok := a[i].(*Blob); ok {
			if y, ok := b[i].(*Blob); ok {
				cs = append(cs, in.asTerm(in.blobEq(x, y)))
				continue
			}
		}
		c := in.ts.Eq(in.byteTerm(a[i]), in.byteTerm(b[i]))
		if c.isC() {
			if c.k == 0 {
				return false
			}
			continue
		}
		if tab := in.p.table(c); tab != nil {
			if popcount4(and4(in.p.domOf(c.vars[0]), tab)) == 0 {
				return false
			}
		}
		cs = append(cs, c)
	}
	return boolVal(in.ts.And(cs...))
}

func boolVal(t *Term) Value {
	if t.isC() {
		return t.k == 1
	}
	return t
}

func (in *Interp) asTerm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return in.ts.Bool(x)
	}
	panic(fmt.Sprintf("asTerm %T", v))
}

func (in *Interp) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	return in.eqBytes(strBytes(a), strBytes(b))
}

// strLess returns a < b lexicographically.
func (in *Interp) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	xb, yb := strBytes(a), strBytes(b)
	n := len(xb)
	if len(yb) < n {
		n = len(yb)
	}
	res := in.ts.Bool(len(xb) < len(yb))
	for i := n - 1; i >= 0; i-- {
		p, q := in.byteTerm(xb[i]), in.byteTerm(yb[i])
		res = in.ts.Or(in.ts.Cmp(OUlt, p, q), in.ts.And(in.ts.Eq(p, q), res))
	}
	return boolVal(res)
}

// truth forces a boolean value, forking if symbolic.
func (in *Interp) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.p.branch(x)
	}
	panic(fmt.Sprintf("truth %T", v))
}

func (in *Interp) and(a, b Value) Value {
	return boolVal(in.ts.And(in.asTerm(a), in.asTerm(b)))
}
func (in *Interp) or(a, b Value) Value {
	return boolVal(in.ts.Or(in.asTerm(a), in.asTerm(b)))
}
func (in *Interp) not(a Value) Value {
	return boolVal(in.ts.Not(in.asTerm(a)))
}

// eq is Go's == on two values of the same type.
func (in *Interp) eq(a, b Value) Value {
	switch x := a.(type) {
	case string, *SStr:
		return in.strEq(a, b)
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return boolVal(in.ts.Eq(in.asTerm(a), in.asTerm(b)))
	case *Term:
		return boolVal(in.ts.Eq(x, in.toTerm(b, x.w)))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("eq iface with %T", b))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.eq(x.v, y.v)
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = in.and(r, in.eq(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		return in.eq(Struct(x), Struct(b.(Array)))
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case *Map:
		y, _ := b.(*Map)
		return x == y
	case []Value:
		y, _ := b.([]Value)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		in.rtPanic("comparing uncomparable slice")
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return x == y
		}
		return false
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case NFunc:
		return false
	case Native:
		y, ok := b.(Native)
		return ok && x.v == y.v
	case nil:
		return b == nil
	}
	if t, ok := b.(*Term); ok {
		return boolVal(in.ts.Eq(t, in.toTerm(a, t.w)))
	}
	return a == b
}

// toTerm converts a scalar to a term of width w.
func (in *Interp) toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("toTerm width %d != %d", x.w, w))
		}
		return x
	case bool:
		return in.ts.Bool(x)
	}
	return in.ts.Const(w, bitsOf(v))
}

func bitsOf(v Value) uint64 {
	switch x := v.(type) {
	case int:
		return uint64(x)
	case int8:
		return uint64(x)
	case int16:
		return uint64(x)
	case int32:
		return uint64(x)
	case int64:
		return uint64(x)
	case uint:
		return uint64(x)
	case uint8:
		return uint64(x)
	case uint16:
		return uint64(x)
	case uint32:
		return uint64(x)
	case uint64:
		return x
	case uintptr:
		return uint64(x)
	}
	panic(fmt.Sprintf("bitsOf %T", v))
}

func fromBits(k types.BasicKind, b uint64) Value {
	switch k {
	case types.Int, types.UntypedInt:
		return int(b)
	case types.Int8:
		return int8(b)
	case types.Int16:
		return int16(b)
	case types.Int32, types.UntypedRune:
		return int32(b)
	case types.Int64:
		return int64(b)
	case types.Uint:
		return uint(b)
	case types.Uint8:
		return uint8(b)
	case types.Uint16:
		return uint16(b)
	case types.Uint32:
		return uint32(b)
	case types.Uint64:
		return b
	case types.Uintptr:
		return uintptr(b)
	case types.Bool, types.UntypedBool:
		return b == 1
	}
	panic(fmt.Sprintf("fromBits kind %d", k))
}

func kindWidth(k types.BasicKind) (w uint8, signed bool, ok bool) {
	switch k {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

// norm turns constant terms back into native values.
func norm(t *Term, k types.BasicKind) Value {
	if t.isC() {
		return fromBits(k, t.k)
	}
	return t
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func store(addr Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*addr).(Struct); ok && len(old) == len(x) {
			for i := range x {
				store(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	case Array:
		if old, ok := (*addr).(Array); ok && len(old) == len(x) {
			for i := range x {
				store(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	default:
		*addr = v
	}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Float32:
			return float32(0)
		case types.Complex128, types.Complex64:
			return complex128(0)
		case types.UnsafePointer:
			return Ptr(nil)
		case types.UntypedNil:
			return nil
		}
		return fromBits(u.Kind(), 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Native{nil}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero: %s", t))
}

// decodeRune decodes one rune; symbolic bytes are ASCII by construction.
func (in *Interp) decodeRune(b []Value) (Value, int) {
	switch x := b[0].(type) {
	case *Term:
		return in.ts.Resize(x, 32, false), 1
	case *Blob:
		unsup("rune access to a serialised document")
	case byte:
		if x < 0x80 {
			return int32(x), 1
		}
	}
	// multi-byte: take the concrete run
	var raw []byte
	for _, y := range b {
		c, ok := y.(byte)
		if !ok || len(raw) == 4 {
			break
		}
		raw = append(raw, c)
	}
	for i, r := range string(raw) {
		if i == 0 {
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if len(raw) >= 3 && raw[0] == 0xEF && raw[1] == 0xBF && raw[2] == 0xBD {
					n = 3
				}
			}
			return int32(r), n
		}
	}
	return int32(0xFFFD), 1
}

func isNilFunc(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c == nil
}
