package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func registerFmt(I map[string]intrFn) {
	I["fmt.Sprintf"] = func(in *Interp, a []Value) Value { return in.sprintf(a[0], goStrings(a[1])) }
	I["fmt.Errorf"] = func(in *Interp, a []Value) Value {
		msg := in.sprintf(a[0], goStrings(a[1]))
		if f, ok := a[0].(string); ok && strings.Count(f, "%w") == 1 {
			for _, x := range goStrings(a[1]) {
				if e := x.(Iface); e.t != nil && in.hasMethod(e.t, "Error") {
					t := in.namedType("fmt", "wrapError")
					return Iface{t: in.P.canonType(types.NewPointer(t)), v: in.newObj(t, map[string]Value{"msg": msg, "err": e})}
				}
			}
		}
		return in.mkErr(msg)
	}
	I["fmt.Sprint"] = func(in *Interp, a []Value) Value { return in.sprint(goStrings(a[0]), false) }
	I["fmt.Sprintln"] = func(in *Interp, a []Value) Value { return in.sprint(goStrings(a[0]), true) }
	out := func(in *Interp, w Value, s Value) Value {
		return Tuple{strLen(s), in.writeTo(w.(Iface), s)}
	}
	I["fmt.Fprintf"] = func(in *Interp, a []Value) Value { return out(in, a[0], in.sprintf(a[1], goStrings(a[2]))) }
	I["fmt.Fprint"] = func(in *Interp, a []Value) Value { return out(in, a[0], in.sprint(goStrings(a[1]), false)) }
	I["fmt.Fprintln"] = func(in *Interp, a []Value) Value { return out(in, a[0], in.sprint(goStrings(a[1]), true)) }
	I["fmt.Printf"] = func(in *Interp, a []Value) Value {
		s := in.sprintf(a[0], goStrings(a[1]))
		in.vfs.stdout = concat(in.vfs.stdout, s)
		return Tuple{strLen(s), nilErr}
	}
	I["fmt.Println"] = func(in *Interp, a []Value) Value {
		s := in.sprint(goStrings(a[0]), true)
		in.vfs.stdout = concat(in.vfs.stdout, s)
		return Tuple{strLen(s), nilErr}
	}
	I["fmt.Print"] = func(in *Interp, a []Value) Value {
		s := in.sprint(goStrings(a[0]), false)
		in.vfs.stdout = concat(in.vfs.stdout, s)
		return Tuple{strLen(s), nilErr}
	}
	I["io.WriteString"] = func(in *Interp, a []Value) Value { return out(in, a[0], a[1]) }
}

// writeTo sends text to an io.Writer of the interpreted program.
func (in *Interp) writeTo(w Iface, s Value) Iface {
	if w.t == nil {
		in.nilDeref()
	}
	b := strBytes(s)
	r, ok := in.callMethod(w, "Write", append([]Value(nil), b...))
	if !ok {
		unsup("no Write method on %s", w.t)
	}
	return r.(Tuple)[1].(Iface)
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	var r Value = ""
	for i, a := range args {
		x := a.(Iface)
		if i > 0 {
			isS := func(v Value) bool { y := v.(Iface); return y.t != nil && isStr(y.v) }
			if ln || !isS(a) && !isS(args[i-1]) {
				r = concat(r, " ")
			}
		}
		r = concat(r, in.fmtValue(x, 'v', fmtFlags{}, 0))
	}
	if ln {
		r = concat(r, "\n")
	}
	return r
}

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	width, prec                     int
	hasW, hasP                      bool
}

func (in *Interp) sprintf(fv Value, args []Value) Value {
	format, ok := fv.(string)
	if !ok {
		format = in.conc(fv)
	}
	var out []Value
	add := func(v Value) { out = append(out, strBytes(v)...) }
	ai := 0
	reordered := false
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			add(format[i : i+j])
			i += j
			continue
		}
		i++
		argIndex := func() {
			if i < len(format) && format[i] == '[' {
				j := strings.IndexByte(format[i:], ']')
				n, err := 0, error(nil)
				if j > 0 {
					n, err = strconv.Atoi(format[i+1 : i+j])
				}
				if j < 0 || err != nil || n < 1 || n > len(args) {
					unsup("bad argument index in format")
				}
				ai, reordered = n-1, true
				i += j + 1
			}
		}
		var f fmtFlags
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			f.width = f.width*10 + int(format[i]-'0')
			f.hasW = true
			i++
		}
		argIndex()
		if i < len(format) && format[i] == '*' {
			if ai >= len(args) {
				unsup("bad width")
			}
			if _, ok := args[ai].(Iface).v.(int); !ok {
				unsup("bad width")
			}
			f.width = in.index(args[ai].(Iface).v)
			f.hasW = true
			ai++
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.hasP = true
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				f.prec = f.prec*10 + int(format[i]-'0')
				i++
			}
		}
		argIndex()
		if i >= len(format) {
			add("%!(NOVERB)")
			break
		}
		verb := rune(format[i])
		i++
		if verb == '%' {
			add("%")
			continue
		}
		if ai >= len(args) {
			add("%!" + string(verb) + "(MISSING)")
			continue
		}
		s := in.fmtValue(args[ai].(Iface), verb, f, 0)
		ai++
		n := strLen(s)
		if c, ok := s.(string); ok {
			n = utf8.RuneCountInString(c)
		}
		if f.hasW && n < f.width {
			pad := strings.Repeat(" ", f.width-n)
			if f.minus {
				s = concat(s, pad)
			} else if f.zero {
				s = concat(strings.Repeat("0", len(pad)), s)
			} else {
				s = concat(pad, s)
			}
		}
		add(s)
	}
	if ai < len(args) && !reordered {
		add("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				add(", ")
			}
			x := args[k].(Iface)
			if x.t == nil {
				add("<nil>")
			} else {
				add(typeStr(x.t) + "=")
				add(in.fmtValue(x, 'v', fmtFlags{}, 0))
			}
		}
		add(")")
	}
	return mkStr(out)
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) fmtValue(x Iface, verb rune, f fmtFlags, depth int) Value {
	if x.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return typeStr(x.t)
	}
	if _, ok := x.v.(Native); !ok && (verb == 'v' && !f.sharp || verb == 's' || verb == 'q' || verb == 'w') {
		if in.P.errType() == x.t {
			return x.v
		}
		if in.hasMethod(x.t, "Error") {
			if p, ok := x.v.(Ptr); ok && p == nil {
				return "<nil>"
			}
			r, _ := in.callMethod(x, "Error")
			return r
		}
		if in.hasMethod(x.t, "String") {
			if p, ok := x.v.(Ptr); ok && p == nil {
				return "<nil>"
			}
			r, _ := in.callMethod(x, "String")
			if verb == 'q' {
				return in.quote(r)
			}
			return r
		}
	}
	if verb == 'w' {
		verb = 'v'
	}
	bad := func() Value {
		return concat("%!"+string(verb)+"("+typeStr(x.t)+"=", concat(in.fmtValue(x, 'v', fmtFlags{}, depth), ")"))
	}
	switch v := x.v.(type) {
	case string, *SStr:
		switch verb {
		case 'v', 's':
			if f.sharp && verb == 'v' {
				return in.quote(v)
			}
			if f.hasP && strLen(v) > f.prec {
				return substr(v, 0, f.prec)
			}
			return v
		case 'q':
			return in.quote(v)
		case 'x':
			return fmt.Sprintf("%x", in.conc(v))
		}
		return bad()
	case bool:
		if verb == 'v' || verb == 't' {
			return strconv.FormatBool(v)
		}
		return bad()
	case float64:
		return fmt.Sprintf(rebuild(f, verb), v)
	case float32:
		return fmt.Sprintf(rebuild(f, verb), v)
	case *Term:
		if v.w == 0 {
			if verb == 'v' || verb == 't' {
				return strconv.FormatBool(in.p.branch(v))
			}
			if in.p.branch(v) {
				return in.fmtValue(Iface{x.t, true}, verb, f, depth)
			}
			return in.fmtValue(Iface{x.t, false}, verb, f, depth)
		}
		_, signed, _ := kindWidth(basicKind(x.t))
		switch verb {
		case 'd', 'v':
			s := in.decimal(v, signed)
			if f.plus && verb == 'd' {
				return concat("+", s)
			}
			return s
		case 'c':
			return in.runeStr(v)
		case 's':
			return bad()
		}
		k := basicKind(x.t)
		c := in.p.concretise(v)
		if signed {
			c = sext(c, v.w)
		}
		return fmt.Sprintf(rebuild(f, verb), fromBits(k, c))
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr:
		nf := f
		nf.hasW = false
		if f.zero && f.hasW {
			nf.hasW = true
		}
		return fmt.Sprintf(rebuild(nf, verb), v)
	case []Value:
		if st, ok := x.t.Underlying().(*types.Slice); ok {
			if basicKind(st.Elem()) == types.Uint8 && (verb == 's' || verb == 'q') {
				return in.fmtValue(Iface{types.Typ[types.String], mkStr(v)}, verb, f, depth)
			}
			var r Value = "["
			for i, e := range v {
				if i > 0 {
					r = concat(r, " ")
				}
				r = concat(r, in.fmtElem(st.Elem(), e, verb, f, depth))
			}
			return concat(r, "]")
		}
	case Array:
		at := x.t.Underlying().(*types.Array)
		var r Value = "["
		for i, e := range v {
			if i > 0 {
				r = concat(r, " ")
			}
			r = concat(r, in.fmtElem(at.Elem(), e, verb, f, depth))
		}
		return concat(r, "]")
	case *Map:
		mt := x.t.Underlying().(*types.Map)
		var r Value = "map["
		if v != nil {
			ents := append([]*mapEnt(nil), v.ents...)
			in.sortEnts(ents)
			for i, e := range ents {
				if i > 0 {
					r = concat(r, " ")
				}
				r = concat(r, in.fmtElem(mt.Key(), e.k, verb, f, depth))
				r = concat(r, ":")
				r = concat(r, in.fmtElem(mt.Elem(), e.v, verb, f, depth))
			}
		}
		return concat(r, "]")
	case Struct:
		st := x.t.Underlying().(*types.Struct)
		var r Value = "{"
		for i, e := range v {
			if i > 0 {
				r = concat(r, " ")
			}
			if f.plus || f.sharp {
				r = concat(r, st.Field(i).Name()+":")
			}
			r = concat(r, in.fmtElem(st.Field(i).Type(), e, verb, f, depth))
		}
		return concat(r, "}")
	case Ptr:
		if v == nil {
			return "<nil>"
		}
		if pt, ok := x.t.Underlying().(*types.Pointer); ok && depth == 0 && (verb == 'v' || verb == 's') {
			switch pt.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return concat("&", in.fmtElem(pt.Elem(), *v, verb, f, depth+1))
			}
		}
		return in.addrText(v)
	case Native:
		return fmt.Sprint(v.v)
	case *Closure, *ssa.Function, NFunc:
		return "0xfunc"
	}
	unsup("formatting %%%c of %T (%s)", verb, x.v, x.t)
	return nil
}

// addrText renders a pointer: an arbitrary address.
func (in *Interp) addrText(p Ptr) Value {
	return "0xc000000000"
}

func rebuild(f fmtFlags, verb rune) string {
	s := "%"
	if f.plus {
		s += "+"
	}
	if f.sharp {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.hasW {
		s += strconv.Itoa(f.width)
	}
	if f.hasP {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

func (in *Interp) fmtElem(t types.Type, v Value, verb rune, f fmtFlags, depth int) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		return in.fmtValue(i, verb, f, depth+1)
	}
	return in.fmtValue(Iface{in.P.canonType(t), v}, verb, f, depth+1)
}

func (in *Interp) sortEnts(ents []*mapEnt) {
	sort.SliceStable(ents, func(i, j int) bool {
		a, b := ents[i].k, ents[j].k
		if x, ok := a.(Iface); ok {
			a = x.v
		}
		if x, ok := b.(Iface); ok {
			b = x.v
		}
		if isStr(a) && isStr(b) {
			return in.truth(in.strLess(a, b))
		}
		if _, ok := a.(int); ok {
			return int64(bitsOf(a)) < int64(bitsOf(b))
		}
		return false
	})
}

func (in *Interp) hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	type key struct {
		t types.Type
		n string
	}
	k := key{t, name}
	if r, ok := in.P.impl.Load(k); ok {
		return r.(bool)
	}
	in.P.mu.Lock()
	sel := in.P.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	in.P.mu.Unlock()
	r := false
	if sel != nil {
		sig := sel.Type().(*types.Signature)
		r = sig.Params().Len() == 0 && sig.Results().Len() == 1 && basicKind(sig.Results().At(0).Type()) == types.String
	}
	in.P.impl.Store(k, r)
	return r
}
