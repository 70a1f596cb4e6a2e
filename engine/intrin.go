package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ENGINE ERROR: "+f+"\n", a...)
	os.Exit(3)
}

type intrFn = func(in *Interp, args []Value) Value

var intrinsics map[string]intrFn

var pkgInits map[string]func(in *Interp, pkg *ssa.Package)

func intrinsicByPrefix(name string) intrFn {
	// package initialisers of other packages are triggered lazily by first use of a global
	if strings.HasSuffix(name, ".init") && !strings.Contains(name, "(") {
		return nil
	}
	return nil
}

// ---- helpers ----

func (in *Interp) str(v Value) Value { return v }

// conc returns the concrete string or forks all symbolic bytes to concrete values.
func (in *Interp) conc(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		r := make([]byte, len(s.b))
		for i, x := range s.b {
			switch y := x.(type) {
			case byte:
				r[i] = y
			case *Term:
				r[i] = byte(in.p.concretise(y))
			default:
				unsup("concretising document text")
			}
		}
		return string(r)
	}
	panic(fmt.Sprintf("conc %T", v))
}

func isConc(vs ...Value) bool {
	for _, v := range vs {
		if _, ok := v.(*SStr); ok {
			return false
		}
		if _, ok := v.(*Term); ok {
			return false
		}
	}
	return true
}

func (in *Interp) mkErr(msg Value) Iface {
	pkg := in.P.pkgs["errors"]
	return in.callFn(pkg.Func("New"), []Value{msg}, nil).(Iface)
}

func (in *Interp) errf(f string, a ...any) Iface { return in.mkErr(fmt.Sprintf(f, a...)) }

var nilErr = Iface{}

func (in *Interp) choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := in.newVar(name, 8, 0)
	in.p.assume(in.ts.Cmp(OUlt, v, in.ts.Const(8, uint64(n))))
	for i := 0; i < n-1; i++ {
		if in.p.branch(in.ts.Eq(v, in.ts.Const(8, uint64(i)))) {
			return i
		}
	}
	return n - 1
}

func (in *Interp) newVar(name string, w uint8, def uint64) *Term {
	n := in.p.freshName(name)
	v := in.ts.Var(w, n)
	if _, ok := in.p.model[n]; !ok {
		in.p.model[n] = def
	}
	return v
}

func goStrings(v Value) []Value { s, _ := v.([]Value); return s }

// ---- symbolic string algorithms ----

// matchAt returns the condition that sub occurs in s at offset i.
func (in *Interp) matchAt(s, sub []Value, i int) Value {
	if i < 0 || i+len(sub) > len(s) {
		return false
	}
	return in.eqBytes(s[i:i+len(sub)], sub)
}

func hasBlob(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(*Blob); ok {
			return true
		}
	}
	return false
}

func (in *Interp) index_(s, sub Value) int {
	if isConc(s, sub) {
		return strings.Index(s.(string), sub.(string))
	}
	sb, ub := strBytes(s), strBytes(sub)
	for i := 0; i+len(ub) <= len(sb); i++ {
		if in.truth(in.matchAt(sb, ub, i)) {
			return i
		}
	}
	return -1
}

func (in *Interp) lastIndex(s, sub Value) int {
	if isConc(s, sub) {
		return strings.LastIndex(s.(string), sub.(string))
	}
	sb, ub := strBytes(s), strBytes(sub)
	for i := len(sb) - len(ub); i >= 0; i-- {
		if in.truth(in.matchAt(sb, ub, i)) {
			return i
		}
	}
	return -1
}

func (in *Interp) contains(s, sub Value) Value {
	if isConc(s, sub) {
		return strings.Contains(s.(string), sub.(string))
	}
	sb, ub := strBytes(s), strBytes(sub)
	var cs []*Term
	for i := 0; i+len(ub) <= len(sb); i++ {
		cs = append(cs, in.asTerm(in.matchAt(sb, ub, i)))
	}
	return boolVal(in.ts.Or(cs...))
}

func (in *Interp) mapBytes(s Value, f func(t *Term) *Term, native func(string) string) Value {
	if c, ok := s.(string); ok {
		return native(c)
	}
	b := strBytes(s)
	out := make([]Value, 0, len(b))
	for i := 0; i < len(b); i++ {
		switch x := b[i].(type) {
		case *Term:
			r := f(x)
			if r.isC() {
				out = append(out, byte(r.k))
			} else {
				out = append(out, r)
			}
		case byte:
			j := i
			for j < len(b) {
				if _, ok := b[j].(byte); !ok {
					break
				}
				j++
			}
			raw := make([]byte, 0, j-i)
			for _, y := range b[i:j] {
				raw = append(raw, y.(byte))
			}
			out = append(out, strBytes(native(string(raw)))...)
			i = j - 1
		default:
			unsup("mapping document text")
		}
	}
	return mkStr(out)
}

func (in *Interp) inRange(t *Term, lo, hi uint64) *Term {
	return in.ts.And(in.ts.Cmp(OUle, in.ts.Const(t.w, lo), t), in.ts.Cmp(OUle, t, in.ts.Const(t.w, hi)))
}

func (in *Interp) lowerT(t *Term) *Term {
	return in.ts.Ite(in.inRange(t, 'A', 'Z'), in.ts.Bin(OAdd, t, in.ts.Const(t.w, 32)), t)
}
func (in *Interp) upperT(t *Term) *Term {
	return in.ts.Ite(in.inRange(t, 'a', 'z'), in.ts.Bin(OSub, t, in.ts.Const(t.w, 32)), t)
}

func (in *Interp) spaceT(t *Term) *Term {
	return in.ts.Or(in.inRange(t, 9, 13), in.ts.Eq(t, in.ts.Const(t.w, ' ')))
}

func (in *Interp) toLower(s Value) Value { return in.mapBytes(s, in.lowerT, strings.ToLower) }
func (in *Interp) toUpper(s Value) Value { return in.mapBytes(s, in.upperT, strings.ToUpper) }

// trim removes leading/trailing bytes for which pred holds.
func (in *Interp) trim(s Value, pred func(b Value) Value, left, right bool) Value {
	b := strBytes(s)
	lo, hi := 0, len(b)
	if left {
		for lo < hi && in.truth(pred(b[lo])) {
			lo++
		}
	}
	if right {
		for hi > lo && in.truth(pred(b[hi-1])) {
			hi--
		}
	}
	return mkStr(b[lo:hi:hi])
}

func (in *Interp) spacePred(b Value) Value {
	switch x := b.(type) {
	case byte:
		return unicode.IsSpace(rune(x)) && x < 0x80
	case *Term:
		return boolVal(in.spaceT(x))
	}
	return false
}

func (in *Interp) cutsetPred(cut Value) func(Value) Value {
	cb := strBytes(cut)
	return func(b Value) Value {
		var cs []*Term
		bt := in.byteTerm(b)
		for _, c := range cb {
			cs = append(cs, in.ts.Eq(bt, in.byteTerm(c)))
		}
		return boolVal(in.ts.Or(cs...))
	}
}

func (in *Interp) split(s, sep Value, n int) []Value {
	if isConc(s, sep) {
		var out []Value
		r := strings.SplitN(s.(string), sep.(string), n)
		if r == nil {
			return nil
		}
		for _, x := range r {
			out = append(out, x)
		}
		if out == nil {
			out = []Value{}
		}
		return out
	}
	if n == 0 {
		return nil
	}
	if strLen(sep) == 0 {
		var out []Value
		for _, b := range strBytes(s) {
			out = append(out, mkStr([]Value{b}))
		}
		return out
	}
	var out []Value
	sb, ub := strBytes(s), strBytes(sep)
	start := 0
	for i := 0; i+len(ub) <= len(sb); {
		if n > 0 && len(out) == n-1 {
			break
		}
		if in.truth(in.matchAt(sb, ub, i)) {
			out = append(out, mkStr(sb[start:i:i]))
			i += len(ub)
			start = i
		} else {
			i++
		}
	}
	return append(out, mkStr(sb[start:len(sb):len(sb)]))
}

func (in *Interp) replace(s, old, new Value, n int) Value {
	if isConc(s, old, new) {
		return strings.Replace(s.(string), old.(string), new.(string), n)
	}
	if strLen(old) == 0 {
		unsup("strings.Replace with empty pattern on symbolic text")
	}
	sb, ob, nb := strBytes(s), strBytes(old), strBytes(new)
	var out []Value
	for i := 0; i < len(sb); {
		if n != 0 && i+len(ob) <= len(sb) && in.truth(in.matchAt(sb, ob, i)) {
			out = append(out, nb...)
			i += len(ob)
			n--
		} else {
			out = append(out, sb[i])
			i++
		}
	}
	return mkStr(out)
}

func (in *Interp) eqFold(a, b Value) Value {
	if isConc(a, b) {
		return strings.EqualFold(a.(string), b.(string))
	}
	return in.strEq(in.toLower(a), in.toLower(b))
}

// ---- decimal rendering ----

func (in *Interp) decimal(v Value, signed bool) Value {
	t, ok := v.(*Term)
	if !ok {
		switch x := v.(type) {
		case int, int8, int16, int32, int64:
			return fmt.Sprint(x)
		default:
			return fmt.Sprint(bitsOf(v))
		}
	}
	if signed && t.w < 64 {
		t = in.ts.Resize(t, 64, true)
	}
	if signed && in.p.branch(in.ts.Cmp(OSlt, t, in.ts.Const(t.w, 0))) {
		return concat("-", in.decimalU(in.ts.Bin(OSub, in.ts.Const(t.w, 0), t), v.(*Term), true))
	}
	return in.decimalU(t, v.(*Term), false)
}

func (in *Interp) decimalU(t, orig *Term, neg bool) Value {
	w := uint8(32)
	if t.op == OZext {
		t = t.args[0]
	}
	if t.w > 24 {
		w = 64
	}
	x := in.ts.Resize(t, w, false)
	n := 1
	for pow := uint64(10); ; pow *= 10 {
		if t.w < 64 && pow > wmask(t.w) || n == 19 {
			break
		}
		if in.p.branch(in.ts.Cmp(OUlt, x, in.ts.Const(w, pow))) {
			break
		}
		n++
	}
	if n >= 19 {
		unsup("decimal rendering of a huge symbolic integer")
	}
	val := in.ts.Eval(x, in.p.model, map[*Term]uint64{})
	digs := fmt.Sprintf("%0*d", n, val)
	sum := in.ts.Const(w, 0)
	out := make([]Value, n)
	cs := []*Term{}
	for i := 0; i < n; i++ {
		nm := in.p.freshName("digit")
		d := in.ts.Var(8, nm)
		in.p.model[nm] = uint64(digs[i])
		out[i] = d
		cs = append(cs, in.inRange(d, '0', '9'))
		dv := in.ts.Resize(in.ts.Bin(OSub, d, in.ts.Const(8, '0')), w, false)
		sum = in.ts.Bin(OAdd, in.ts.Bin(OMul, sum, in.ts.Const(w, 10)), dv)
	}
	if n > 1 {
		cs = append(cs, in.ts.Not(in.ts.Eq(out[0].(*Term), in.ts.Const(8, '0'))))
	}
	for _, c := range cs {
		in.p.add(c)
	}
	in.p.add(in.ts.Eq(sum, x))
	if !neg {
		in.memo["dec:"+idsOf(out)] = orig
	}
	return mkStr(out)
}

func idsOf(b []Value) string {
	var sb strings.Builder
	for _, x := range b {
		switch y := x.(type) {
		case *Term:
			fmt.Fprintf(&sb, "t%d,", y.id)
		case byte:
			fmt.Fprintf(&sb, "b%d,", y)
		}
	}
	return sb.String()
}

// parseDec parses a decimal string into a 64-bit value; ok=false on syntax error.
func (in *Interp) parseDec(s Value) (Value, bool) {
	if c, ok := s.(string); ok {
		v, err := strconv.ParseInt(c, 10, 64)
		return v, err == nil
	}
	b := strBytes(s)
	if len(b) == 0 {
		return nil, false
	}
	if o, ok := in.memo["dec:"+idsOf(b)]; ok {
		t := o.(*Term)
		return norm64(in.ts.Resize(t, 64, false)), true
	}
	neg := false
	if len(b) > 1 {
		first := in.byteTerm(b[0])
		if in.p.branch(in.ts.Eq(first, in.ts.Const(8, '-'))) {
			neg = true
			b = b[1:]
		} else if in.p.branch(in.ts.Eq(first, in.ts.Const(8, '+'))) {
			b = b[1:]
		}
	}
	if len(b) > 18 {
		unsup("parsing a long symbolic number")
	}
	sum := in.ts.Const(64, 0)
	var ok []*Term
	for _, x := range b {
		t := in.byteTerm(x)
		ok = append(ok, in.inRange(t, '0', '9'))
		dv := in.ts.Resize(in.ts.Bin(OSub, t, in.ts.Const(8, '0')), 64, false)
		sum = in.ts.Bin(OAdd, in.ts.Bin(OMul, sum, in.ts.Const(64, 10)), dv)
	}
	if !in.p.branch(in.ts.And(ok...)) {
		return nil, false
	}
	if neg {
		sum = in.ts.Bin(OSub, in.ts.Const(64, 0), sum)
	}
	return norm64(sum), true
}

func norm64(t *Term) Value {
	if t.isC() {
		return int64(t.k)
	}
	return t
}

// ---- registration ----

func sv(args []Value, i int) string { return args[i].(string) }

// pureS registers a function that is native on concrete strings and otherwise uses f.
func runeClass(native func(rune) bool, f func(in *Interp, t *Term) *Term) intrFn {
	return func(in *Interp, args []Value) Value {
		if t, ok := args[0].(*Term); ok {
			return boolVal(f(in, t))
		}
		return native(args[0].(int32))
	}
}

func init() {
	I := map[string]intrFn{}
	intrinsics = I
	// strings
	I["strings.Index"] = func(in *Interp, a []Value) Value { return in.index_(a[0], a[1]) }
	I["strings.LastIndex"] = func(in *Interp, a []Value) Value { return in.lastIndex(a[0], a[1]) }
	I["strings.IndexByte"] = func(in *Interp, a []Value) Value { return in.index_(a[0], mkStr([]Value{a[1]})) }
	I["strings.LastIndexByte"] = func(in *Interp, a []Value) Value { return in.lastIndex(a[0], mkStr([]Value{a[1]})) }
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/stringslite.IndexByte"] = I["strings.IndexByte"]
	I["internal/bytealg.IndexByteString"] = I["strings.IndexByte"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["internal/bytealg.LastIndexByteString"] = I["strings.LastIndexByte"]
	I["internal/bytealg.IndexByte"] = func(in *Interp, a []Value) Value {
		return in.index_(mkStr(a[0].([]Value)), mkStr([]Value{a[1]}))
	}
	I["internal/bytealg.Count"] = func(in *Interp, a []Value) Value {
		return len(in.split(mkStr(a[0].([]Value)), mkStr([]Value{a[1]}), -1)) - 1
	}
	I["internal/bytealg.CountString"] = func(in *Interp, a []Value) Value {
		return len(in.split(a[0], mkStr([]Value{a[1]}), -1)) - 1
	}
	I["internal/bytealg.Compare"] = func(in *Interp, a []Value) Value { return in.cmpStr(mkStr(a[0].([]Value)), mkStr(a[1].([]Value))) }
	I["internal/bytealg.CompareString"] = func(in *Interp, a []Value) Value { return in.cmpStr(a[0], a[1]) }
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, a []Value) Value {
		n := in.index(a[0])
		s := make([]Value, n)
		for i := range s {
			s[i] = byte(0)
		}
		return s
	}
	I["strings.IndexRune"] = func(in *Interp, a []Value) Value { return in.index_(a[0], in.runeStr(a[1])) }
	I["strings.IndexAny"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.IndexAny(sv(a, 0), sv(a, 1))
		}
		p := in.cutsetPred(a[1])
		for i, b := range strBytes(a[0]) {
			if in.truth(p(b)) {
				return i
			}
		}
		return -1
	}
	I["strings.Contains"] = func(in *Interp, a []Value) Value { return in.contains(a[0], a[1]) }
	I["strings.ContainsRune"] = func(in *Interp, a []Value) Value { return in.contains(a[0], in.runeStr(a[1])) }
	I["strings.ContainsAny"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.ContainsAny(sv(a, 0), sv(a, 1))
		}
		var r Value = false
		p := in.cutsetPred(a[1])
		for _, b := range strBytes(a[0]) {
			r = in.or(r, p(b))
		}
		return r
	}
	I["strings.HasPrefix"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.HasPrefix(sv(a, 0), sv(a, 1))
		}
		return in.matchAt(strBytes(a[0]), strBytes(a[1]), 0)
	}
	I["strings.HasSuffix"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.HasSuffix(sv(a, 0), sv(a, 1))
		}
		return in.matchAt(strBytes(a[0]), strBytes(a[1]), strLen(a[0])-strLen(a[1]))
	}
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["strings.ToLower"] = func(in *Interp, a []Value) Value { return in.toLower(a[0]) }
	I["strings.ToUpper"] = func(in *Interp, a []Value) Value { return in.toUpper(a[0]) }
	I["strings.TrimSpace"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.TrimSpace(sv(a, 0))
		}
		return in.trim(a[0], in.spacePred, true, true)
	}
	trimset := func(l, r bool, nat func(string, string) string) intrFn {
		return func(in *Interp, a []Value) Value {
			if isConc(a...) {
				return nat(sv(a, 0), sv(a, 1))
			}
			return in.trim(a[0], in.cutsetPred(a[1]), l, r)
		}
	}
	I["strings.Trim"] = trimset(true, true, strings.Trim)
	I["strings.TrimLeft"] = trimset(true, false, strings.TrimLeft)
	I["strings.TrimRight"] = trimset(false, true, strings.TrimRight)
	I["strings.Split"] = func(in *Interp, a []Value) Value { return in.split(a[0], a[1], -1) }
	I["strings.SplitN"] = func(in *Interp, a []Value) Value { return in.split(a[0], a[1], in.index(a[2])) }
	I["strings.Replace"] = func(in *Interp, a []Value) Value { return in.replace(a[0], a[1], a[2], in.index(a[3])) }
	I["strings.ReplaceAll"] = func(in *Interp, a []Value) Value { return in.replace(a[0], a[1], a[2], -1) }
	I["strings.Count"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strings.Count(sv(a, 0), sv(a, 1))
		}
		return len(in.split(a[0], a[1], -1)) - 1
	}
	I["strings.EqualFold"] = func(in *Interp, a []Value) Value { return in.eqFold(a[0], a[1]) }
	I["strings.Compare"] = func(in *Interp, a []Value) Value { return in.cmpStr(a[0], a[1]) }
	// sort.Slice swaps through reflection; up to 12 elements it is insertion sort, and without equal elements every sort gives the same
	ss := func(stable bool) func(in *Interp, a []Value) Value {
		return func(in *Interp, a []Value) Value {
			i, ok := a[0].(Iface)
			if !ok || i.t == nil {
				return nil
			}
			xs, _ := i.v.([]Value)
			for i := 1; i < len(xs); i++ {
				for j := i; j > 0 && in.truth(in.invoke(a[1], []Value{j, j - 1})); j-- {
					xs[j], xs[j-1] = xs[j-1], xs[j]
				}
			}
			if !stable && len(xs) > 12 {
				// beyond 12 elements the order of equal ones depends on the algorithm
				for j := 1; j < len(xs); j++ {
					if !in.truth(in.invoke(a[1], []Value{j - 1, j})) {
						unsup("sort.Slice of %d elements, some of them equal", len(xs))
					}
				}
			}
			return nil
		}
	}
	I["sort.Slice"] = ss(false)
	I["sort.SliceStable"] = ss(true)
	I["strings.Repeat"] = func(in *Interp, a []Value) Value {
		n := in.index(a[1])
		if n < 0 {
			in.rtPanic("strings: negative Repeat count")
		}
		var r Value = ""
		for i := 0; i < n; i++ {
			r = concat(r, a[0])
		}
		return r
	}
	I["strings.Join"] = func(in *Interp, a []Value) Value {
		var out []Value
		for i, x := range goStrings(a[0]) {
			if i > 0 {
				out = append(out, strBytes(a[1])...)
			}
			out = append(out, strBytes(x)...)
		}
		return mkStr(out)
	}
	I["strings.Fields"] = func(in *Interp, a []Value) Value {
		out := []Value{}
		b := strBytes(a[0])
		start := -1
		for i := range b {
			if in.truth(in.spacePred(b[i])) {
				if start >= 0 {
					out = append(out, mkStr(b[start:i:i]))
					start = -1
				}
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			out = append(out, mkStr(b[start:len(b):len(b)]))
		}
		return out
	}
	I["strings.Title"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[0])
		out := make([]Value, len(b))
		prevLetter := false
		for i, x := range b {
			out[i] = x
			t := in.byteTerm(x)
			if !prevLetter {
				u := in.upperT(t)
				if u.isC() {
					out[i] = byte(u.k)
				} else {
					out[i] = u
				}
			}
			// isSeparator: letters, digits, underscore are not separators
			ns := in.ts.Or(in.inRange(t, 'a', 'z'), in.inRange(t, 'A', 'Z'), in.inRange(t, '0', '9'), in.ts.Eq(t, in.ts.Const(8, '_')))
			prevLetter = in.p.branch(ns)
		}
		return mkStr(out)
	}
	I["(*strings.Builder).copyCheck"] = func(in *Interp, a []Value) Value { return nil }
	I["internal/abi.NoEscape"] = func(in *Interp, a []Value) Value { return a[0] }
	I["strings.noescape"] = func(in *Interp, a []Value) Value { return a[0] }
	I["strings.NewReplacer"] = func(in *Interp, a []Value) Value {
		v := Value(Native{a[0]})
		return Ptr(&v)
	}
	I["(*strings.Replacer).Replace"] = func(in *Interp, a []Value) Value {
		olds := (*(a[0].(Ptr))).(Native).v.([]Value)
		sb := strBytes(a[1])
		var out []Value
	outer:
		for i := 0; i < len(sb); {
			for k := 0; k+1 < len(olds); k += 2 {
				ob := strBytes(olds[k])
				if len(ob) == 0 {
					unsup("Replacer with empty pattern")
				}
				if i+len(ob) <= len(sb) && in.truth(in.matchAt(sb, ob, i)) {
					out = append(out, strBytes(olds[k+1])...)
					i += len(ob)
					continue outer
				}
			}
			out = append(out, sb[i])
			i++
		}
		return mkStr(out)
	}
	// bytes
	I["bytes.Equal"] = func(in *Interp, a []Value) Value {
		return in.eqBytes(a[0].([]Value), a[1].([]Value))
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	// unicode
	I["unicode.IsUpper"] = runeClass(unicode.IsUpper, func(in *Interp, t *Term) *Term { return in.inRange(t, 'A', 'Z') })
	I["unicode.IsLower"] = runeClass(unicode.IsLower, func(in *Interp, t *Term) *Term { return in.inRange(t, 'a', 'z') })
	I["unicode.IsDigit"] = runeClass(unicode.IsDigit, func(in *Interp, t *Term) *Term { return in.inRange(t, '0', '9') })
	I["unicode.IsNumber"] = I["unicode.IsDigit"]
	I["unicode.IsLetter"] = runeClass(unicode.IsLetter, func(in *Interp, t *Term) *Term {
		return in.ts.Or(in.inRange(t, 'a', 'z'), in.inRange(t, 'A', 'Z'))
	})
	I["unicode.IsSpace"] = runeClass(unicode.IsSpace, func(in *Interp, t *Term) *Term { return in.spaceT(t) })
	I["unicode.ToUpper"] = func(in *Interp, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return norm(in.upperT(t), types.Int32)
		}
		return unicode.ToUpper(a[0].(int32))
	}
	I["unicode.ToLower"] = func(in *Interp, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return norm(in.lowerT(t), types.Int32)
		}
		return unicode.ToLower(a[0].(int32))
	}
	I["unicode.ToTitle"] = I["unicode.ToUpper"]
	I["unicode/utf8.RuneCountInString"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[0])
		n := 0
		for i := 0; i < len(b); n++ {
			_, k := in.decodeRune(b[i:])
			i += k
		}
		return n
	}
	I["unicode/utf8.RuneCount"] = func(in *Interp, a []Value) Value {
		return intrinsics["unicode/utf8.RuneCountInString"](in, []Value{mkStr(a[0].([]Value))})
	}
	I["unicode/utf8.DecodeRuneInString"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[0])
		if len(b) == 0 {
			return Tuple{int32(0xFFFD), 0}
		}
		r, n := in.decodeRune(b)
		return Tuple{r, n}
	}
	I["unicode/utf8.ValidString"] = func(in *Interp, a []Value) Value { return true }
	I["unicode/utf8.AppendRune"] = func(in *Interp, a []Value) Value {
		return append(a[0].([]Value), strBytes(in.runeStr(a[1]))...)
	}
	I["unicode/utf8.EncodeRune"] = func(in *Interp, a []Value) Value {
		return copy(a[0].([]Value), strBytes(in.runeStr(a[1])))
	}
	I["unicode/utf8.RuneLen"] = func(in *Interp, a []Value) Value {
		return strLen(in.runeStr(a[0]))
	}
	// strconv
	I["strconv.Itoa"] = func(in *Interp, a []Value) Value { return in.decimal(a[0], true) }
	I["strconv.FormatInt"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strconv.FormatInt(a[0].(int64), a[1].(int))
		}
		return in.decimal(a[0], true)
	}
	I["strconv.FormatUint"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			return strconv.FormatUint(a[0].(uint64), a[1].(int))
		}
		return in.decimal(a[0], false)
	}
	I["strconv.FormatBool"] = func(in *Interp, a []Value) Value {
		return strconv.FormatBool(in.truth(a[0]))
	}
	I["strconv.FormatFloat"] = func(in *Interp, a []Value) Value {
		return strconv.FormatFloat(a[0].(float64), a[1].(byte), a[2].(int), a[3].(int))
	}
	I["strconv.Atoi"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			v, err := strconv.Atoi(sv(a, 0))
			if err != nil {
				return Tuple{v, in.mkErr(err.Error())}
			}
			return Tuple{v, nilErr}
		}
		v, ok := in.parseDec(a[0])
		if !ok {
			return Tuple{0, in.mkErr(concat(concat("strconv.Atoi: parsing ", in.quote(a[0])), ": invalid syntax"))}
		}
		if i, ok := v.(int64); ok {
			return Tuple{int(i), nilErr}
		}
		return Tuple{v, nilErr}
	}
	I["strconv.ParseInt"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			v, err := strconv.ParseInt(sv(a, 0), a[1].(int), a[2].(int))
			if err != nil {
				return Tuple{v, in.mkErr(err.Error())}
			}
			return Tuple{v, nilErr}
		}
		if b := a[1].(int); b != 10 && b != 0 {
			unsup("ParseInt base %d on symbolic text", b)
		}
		v, ok := in.parseDec(a[0])
		if !ok {
			return Tuple{int64(0), in.mkErr("strconv.ParseInt: parsing: invalid syntax")}
		}
		if bits := a[2].(int); bits > 0 && bits < 64 {
			t := in.toTerm(v, 64)
			lim := in.ts.Const(64, uint64(1)<<(bits-1))
			if !in.p.branch(in.ts.Cmp(OSlt, t, lim)) {
				return Tuple{int64(1)<<(bits-1) - 1, in.mkErr("strconv.ParseInt: value out of range")}
			}
		}
		return Tuple{v, nilErr}
	}
	I["strconv.ParseUint"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			v, err := strconv.ParseUint(sv(a, 0), a[1].(int), a[2].(int))
			if err != nil {
				return Tuple{v, in.mkErr(err.Error())}
			}
			return Tuple{v, nilErr}
		}
		v, ok := in.parseDec(a[0])
		if !ok {
			return Tuple{uint64(0), in.mkErr("strconv.ParseUint: parsing: invalid syntax")}
		}
		t := in.toTerm(v, 64)
		if bits := a[2].(int); bits > 0 && bits < 64 {
			lim := in.ts.Const(64, uint64(1)<<bits)
			if !in.p.branch(in.ts.Cmp(OUlt, t, lim)) {
				return Tuple{uint64(1)<<bits - 1, in.mkErr("strconv.ParseUint: value out of range")}
			}
		}
		return Tuple{norm(t, types.Uint64), nilErr}
	}
	I["strconv.ParseBool"] = func(in *Interp, a []Value) Value {
		for _, s := range []string{"1", "t", "T", "TRUE", "true", "True"} {
			if in.truth(in.strEq(a[0], s)) {
				return Tuple{true, nilErr}
			}
		}
		for _, s := range []string{"0", "f", "F", "FALSE", "false", "False"} {
			if in.truth(in.strEq(a[0], s)) {
				return Tuple{false, nilErr}
			}
		}
		return Tuple{false, in.mkErr("strconv.ParseBool: parsing: invalid syntax")}
	}
	I["strconv.ParseFloat"] = func(in *Interp, a []Value) Value {
		if isConc(a...) {
			v, err := strconv.ParseFloat(sv(a, 0), a[1].(int))
			if err != nil {
				return Tuple{v, in.mkErr(err.Error())}
			}
			return Tuple{v, nilErr}
		}
		return in.parseFloatSym(a[0])
	}
	I["strconv.Quote"] = func(in *Interp, a []Value) Value { return in.quote(a[0]) }
	// path
	I["path/filepath.Ext"] = func(in *Interp, a []Value) Value { return in.pathPart(a[0], filepath.Ext) }
	I["path/filepath.Dir"] = func(in *Interp, a []Value) Value { return in.pathPart(a[0], filepath.Dir) }
	I["path/filepath.Base"] = func(in *Interp, a []Value) Value { return in.pathPart(a[0], filepath.Base) }
	I["path/filepath.Clean"] = func(in *Interp, a []Value) Value { return in.symClean(a[0]) }
	I["path.Clean"] = func(in *Interp, a []Value) Value { return in.symClean(a[0]) }
	join := func(in *Interp, a []Value) Value {
		var out []Value
		conc := true
		var ss []string
		for _, x := range goStrings(a[0]) {
			if s, ok := x.(string); ok {
				ss = append(ss, s)
			} else {
				conc = false
			}
			if strLen(x) == 0 {
				continue
			}
			if len(out) > 0 {
				out = append(out, byte('/'))
			}
			out = append(out, strBytes(x)...)
		}
		if conc {
			return path.Join(ss...)
		}
		return in.symClean(mkStr(out))
	}
	I["path/filepath.Join"] = join
	I["path.Join"] = join
	// logging has no observable effect except Fatal/Panic
	for _, n := range []string{"Printf", "Println", "Print", "SetFlags", "SetOutput", "SetPrefix"} {
		I["log."+n] = func(in *Interp, a []Value) Value { return nil }
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		I["log."+n] = func(in *Interp, a []Value) Value {
			var msg Value
			if n == "Fatalf" {
				msg = in.sprintf(a[0], goStrings(a[1]))
			} else {
				msg = in.sprint(goStrings(a[0]), n == "Fatalln")
			}
			in.vfs.stderr = concat(in.vfs.stderr, msg)
			panic(runExit{1})
		}
	}
	I["log.Panicf"] = func(in *Interp, a []Value) Value {
		panic(targetPanic{Iface{t: in.P.errType(), v: in.sprintf(a[0], goStrings(a[1]))}, in.stack()})
	}
	I["log.Panic"] = func(in *Interp, a []Value) Value {
		panic(targetPanic{Iface{t: in.P.errType(), v: in.sprint(goStrings(a[0]), false)}, in.stack()})
	}
	// time
	// a clock that differs at every reading, and by seconds after vk.Later
	I["time.Now"] = func(in *Interp, a []Value) Value {
		t := in.P.pkgs["time"].Type("Time").Type()
		v := zero(t).(Struct)
		st := in.structOf(t)
		in.clock++
		v[fieldIndex(st, "wall")] = uint64(in.clock%100) * 1000003
		v[fieldIndex(st, "ext")] = int64(63900000000 + in.clock/100)
		return v
	}
	// what differs from one run of a program to the next
	I["os.Getpid"] = func(in *Interp, a []Value) Value { in.clock++; return in.clock }
	I["os.Getppid"] = I["os.Getpid"]
	for _, n := range []string{"Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Float64", "Float32", "Uint32", "Uint64"} {
		n := n
		I["math/rand."+n] = func(in *Interp, a []Value) Value {
			in.clock++
			x := uint64(in.clock) * 0x9E3779B97F4A7C15 >> 1
			switch n {
			case "Intn":
				return int(x % uint64(in.index(a[0])))
			case "Int31n":
				return int32(x % uint64(in.index(a[0])))
			case "Int63n":
				return int64(x % uint64(in.index(a[0])))
			case "Int31":
				return int32(x >> 32)
			case "Int63":
				return int64(x)
			case "Uint32":
				return uint32(x >> 31)
			case "Uint64":
				return x
			case "Float64":
				return float64(x>>10) / (1 << 53)
			case "Float32":
				return float32(x>>39) / (1 << 24)
			}
			return int(x)
		}
	}
	I["math/rand.Seed"] = func(in *Interp, a []Value) Value { return nil }
	I["math/rand.Perm"] = func(in *Interp, a []Value) Value {
		n := in.index(a[0])
		out := make([]Value, n)
		in.clock++
		for i := range out {
			out[i] = (i + in.clock) % n
		}
		return out
	}
	I["math/rand.Shuffle"] = func(in *Interp, a []Value) Value {
		n := in.index(a[0])
		for i := n - 1; i > 0; i-- {
			in.clock++
			in.invoke(a[1], []Value{i, in.clock % (i + 1)})
		}
		return nil
	}
	// errors
	I["errors.Is"] = func(in *Interp, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		for {
			if e.t == nil || target.t == nil {
				return e.t == nil && target.t == nil
			}
			if in.truth(in.eq(e, target)) {
				return true
			}
			if r, ok := in.callMethod(e, "Is", target); ok && in.truth(r) {
				return true
			}
			r, ok := in.callMethod(e, "Unwrap")
			if !ok {
				return false
			}
			if e, ok = r.(Iface); !ok {
				unsup("errors.Is of joined errors")
			}
		}
	}
	I["(syscall.Errno).Error"] = func(in *Interp, a []Value) Value { return syscall.Errno(in.index(a[0])).Error() }
	I["(syscall.Errno).Is"] = func(in *Interp, a []Value) Value {
		for no, v := range map[int]string{2: "ErrNotExist", 17: "ErrExist", 39: "ErrExist", 13: "ErrPermission", 1: "ErrPermission"} {
			if in.index(a[0]) == no && in.truth(in.eq(a[1], *(in.global(in.P.pkgs["os"].Var(v))))) {
				return true
			}
		}
		return false
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp} {
		f := f
		I["math."+n] = func(in *Interp, a []Value) Value { return f(a[0].(float64)) }
	}
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod} {
		f := f
		I["math."+n] = func(in *Interp, a []Value) Value { return f(a[0].(float64), a[1].(float64)) }
	}
	I["errors.As"] = func(in *Interp, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			unsup("errors.As without a pointer")
		}
		for e.t != nil {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if in.implements(e.t, it) {
					*(target.v.(Ptr)) = e
					return true
				}
			} else if in.P.canonType(pt.Elem()) == in.P.canonType(e.t) {
				*(target.v.(Ptr)) = e.v
				return true
			}
			r, ok := in.callMethod(e, "Unwrap")
			if !ok {
				break
			}
			if e, ok = r.(Iface); !ok {
				unsup("errors.As of joined errors")
			}
		}
		return false
	}
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		I[n] = func(in *Interp, a []Value) Value { return nil }
	}
	I["(*sync.Once).Do"] = func(in *Interp, a []Value) Value {
		k := fmt.Sprintf("once:%p", a[0].(Ptr))
		if in.memo[k] == nil {
			in.memo[k] = true
			in.invoke(a[1], nil)
		}
		return nil
	}
	registerFmt(I)
	registerIO(I)
	registerCodec(I)
	registerTemplate(I)
	registerRegexp(I)
	registerVK(I)
	registerMisc(I)
	registerMySQL(I)
	pkgInits = map[string]func(in *Interp, pkg *ssa.Package){
		"os": func(in *Interp, pkg *ssa.Package) {
			mk := func(n string) Value {
				v := Value(Native{"file:" + n})
				return Ptr(&v)
			}
			in.setGlobal(pkg, "Stdout", mk("stdout"))
			in.setGlobal(pkg, "Stderr", mk("stderr"))
			in.setGlobal(pkg, "Stdin", mk("stdin"))
			in.setGlobal(pkg, "Args", append([]Value(nil), in.args...))
			for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed"} {
				in.setGlobal(pkg, n, *(in.global(in.P.pkgs["io/fs"].Var(n))))
			}
		},
		"time": func(in *Interp, pkg *ssa.Package) {
			in.setGlobal(pkg, "UTC", Ptr(in.global(pkg.Var("utcLoc"))))
			in.setGlobal(pkg, "Local", Ptr(in.global(pkg.Var("localLoc"))))
		},
		"errors": func(in *Interp, pkg *ssa.Package) {
			in.setGlobal(pkg, "ErrUnsupported", in.mkErr("unsupported operation"))
		},
		"log":           func(in *Interp, pkg *ssa.Package) {},
		"reflect":       func(in *Interp, pkg *ssa.Package) {},
		"encoding/json": func(in *Interp, pkg *ssa.Package) {},
		"encoding/xml":  func(in *Interp, pkg *ssa.Package) {},
		"fmt":           func(in *Interp, pkg *ssa.Package) {},
		"syscall":       func(in *Interp, pkg *ssa.Package) {},
		"runtime":       func(in *Interp, pkg *ssa.Package) {},
	}
	_ = sort.Strings
}

func (in *Interp) symClean(v Value) Value {
	if s, ok := v.(string); ok {
		return path.Clean(s)
	}
	b := strBytes(v)
	// symbolic path bytes never form separators or dots: decide, do not assume
	for i, x := range b {
		if t, ok := x.(*Term); ok {
			c := in.ts.Or(in.ts.Eq(t, in.ts.Const(8, '/')), in.ts.Eq(t, in.ts.Const(8, '.')))
			if in.p.branch(c) {
				return path.Clean(in.conc(v))
			}
		}
		_ = i
	}
	// clean with placeholder letters, keeping positions
	raw := make([]byte, len(b))
	sym := false
	for i, x := range b {
		if c, ok := x.(byte); ok {
			raw[i] = c
		} else {
			raw[i] = 'x'
			sym = true
		}
	}
	if !sym || path.Clean(string(raw)) == string(raw) {
		return v
	}
	// remove a leading "./" and duplicated or trailing slashes
	for len(b) > 2 && b[0] == Value(byte('.')) && b[1] == Value(byte('/')) {
		b = b[2:]
		raw = raw[2:]
	}
	for len(b) > 1 && b[len(b)-1] == Value(byte('/')) {
		b = b[:len(b)-1]
		raw = raw[:len(raw)-1]
	}
	var out []Value
	for i := range b {
		if i > 0 && b[i] == Value(byte('/')) && b[i-1] == Value(byte('/')) {
			continue
		}
		out = append(out, b[i])
	}
	r := make([]byte, len(out))
	for i, x := range out {
		if c, ok := x.(byte); ok {
			r[i] = c
		} else {
			r[i] = 'x'
		}
	}
	if path.Clean(string(r)) != string(r) {
		return path.Clean(in.conc(v))
	}
	return mkStr(out)
}

func (in *Interp) cmpStr(a, b Value) Value {
	if isConc(a, b) {
		return strings.Compare(a.(string), b.(string))
	}
	if in.truth(in.strEq(a, b)) {
		return 0
	}
	if in.truth(in.strLess(a, b)) {
		return -1
	}
	return 1
}

// quote is strconv.Quote; symbolic bytes fork into plain / escaped classes.
func (in *Interp) quote(v Value) Value {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	out := []Value{byte('"')}
	for _, x := range strBytes(v) {
		switch y := x.(type) {
		case byte:
			q := strconv.Quote(string(rune(y)))
			if y >= 0x80 {
				unsup("quoting mixed non-ASCII text")
			}
			out = append(out, strBytes(q[1:len(q)-1])...)
		case *Term:
			plain := in.ts.And(in.inRange(y, 0x20, 0x7e), in.ts.Not(in.ts.Eq(y, in.ts.Const(8, '"'))), in.ts.Not(in.ts.Eq(y, in.ts.Const(8, '\\'))))
			if in.p.branch(plain) {
				out = append(out, y)
			} else {
				c := byte(in.p.concretise(y))
				q := strconv.Quote(string(rune(c)))
				out = append(out, strBytes(q[1:len(q)-1])...)
			}
		}
	}
	out = append(out, byte('"'))
	return mkStr(out)
}

// parseFloatSym decides whether symbolic text is a number (digits with optional sign and point);
// the value of a symbolic number is an opaque number node rendered back as its text.
func (in *Interp) parseFloatSym(s Value) Value {
	b := strBytes(s)
	i := 0
	is := func(k int, set string) bool {
		var cs []*Term
		t := in.byteTerm(b[k])
		for _, c := range set {
			cs = append(cs, in.ts.Eq(t, in.ts.Const(8, uint64(c))))
		}
		return in.p.branch(in.ts.Or(cs...))
	}
	bad := Tuple{float64(0), in.mkErr("strconv.ParseFloat: parsing: invalid syntax")}
	if len(b) == 0 {
		return bad
	}
	if is(0, "+-") {
		i++
	}
	digits, dot := 0, false
	for ; i < len(b); i++ {
		t := in.byteTerm(b[i])
		if in.p.branch(in.inRange(t, '0', '9')) {
			digits++
			continue
		}
		if !dot && is(i, ".") {
			dot = true
			continue
		}
		// exponents, hex, inf and nan are decided concretely
		c := in.conc(s)
		v, err := strconv.ParseFloat(c, 64)
		if err != nil {
			return bad
		}
		return Tuple{v, nilErr}
	}
	if digits == 0 {
		return bad
	}
	c := in.conc(s)
	v, err := strconv.ParseFloat(c, 64)
	if err != nil {
		return bad
	}
	return Tuple{v, nilErr}
}

// pathPart applies a function that gives a prefix or suffix of a path, which depends on its marks only.
func (in *Interp) pathPart(v Value, f func(string) string) Value {
	if s, ok := v.(string); ok {
		return f(s)
	}
	b := strBytes(v)
	raw := make([]byte, len(b))
	for i, x := range b {
		switch t := x.(type) {
		case byte:
			raw[i] = t
		case *Term:
			raw[i] = 'x'
			if in.p.branch(in.ts.Or(in.ts.Eq(t, in.ts.Const(8, '/')), in.ts.Eq(t, in.ts.Const(8, '.')))) {
				return f(in.conc(v))
			}
		default:
			unsup("document text as a path")
		}
	}
	r := f(string(raw))
	switch {
	case strings.HasSuffix(string(raw), r):
		return mkStr(b[len(b)-len(r):])
	case strings.HasPrefix(string(raw), r):
		return mkStr(b[:len(r)])
	}
	return f(in.conc(v))
}
