package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// JNode is the structure of a serialised document (JSON or YAML). Text details of the
// serialisation (quoting, indentation) belong to the trusted encoding libraries.
type JNode struct {
	k    byte // o(bject) a(rray) s(tring) n(umber) b(ool) z(null)
	v    Value
	sgn  bool // signed integer
	keys []Value
	kids []*JNode
	omit bool // omitempty scalar: the field is absent when the value is zero
}

func registerCodec(I map[string]intrFn) {
	mar := func(kind string) intrFn {
		return func(in *Interp, a []Value) Value {
			n := in.encode(a[0].(Iface), kind)
			return Tuple{[]Value{&Blob{kind, n}}, nilErr}
		}
	}
	I["encoding/json.Marshal"] = mar("json")
	I["encoding/json.MarshalIndent"] = mar("json")
	I["gopkg.in/yaml.v2.Marshal"] = mar("yaml")
	I["encoding/json.Unmarshal"] = func(in *Interp, a []Value) Value {
		return in.unmarshal(a[0].([]Value), a[1].(Iface), "json")
	}
	I["gopkg.in/yaml.v2.Unmarshal"] = func(in *Interp, a []Value) Value {
		return in.unmarshal(a[0].([]Value), a[1].(Iface), "yaml")
	}
	I["encoding/json.NewEncoder"] = func(in *Interp, a []Value) Value {
		v := Value(Native{a[0]})
		return Ptr(&v)
	}
	I["(*encoding/json.Encoder).SetIndent"] = func(in *Interp, a []Value) Value { return nil }
	I["(*encoding/json.Encoder).SetEscapeHTML"] = func(in *Interp, a []Value) Value { return nil }
	I["(*encoding/json.Encoder).Encode"] = func(in *Interp, a []Value) Value {
		w := (*(a[0].(Ptr))).(Native).v.(Iface)
		return in.writeTo(w, mkStr([]Value{&Blob{"json", in.encode(a[1].(Iface), "json")}}))
	}
	I["encoding/json.NewDecoder"] = I["encoding/json.NewEncoder"]
	I["(*encoding/json.Decoder).Decode"] = func(in *Interp, a []Value) Value {
		r := (*(a[0].(Ptr))).(Native).v.(Iface)
		t := intrinsics["io.ReadAll"](in, []Value{r}).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		return in.unmarshal(t[0].([]Value), a[1].(Iface), "json")
	}
	y := "gopkg.in/yaml.v2."
	I[y+"NewEncoder"], I[y+"NewDecoder"] = I["encoding/json.NewEncoder"], I["encoding/json.NewEncoder"]
	I["(*"+y+"Encoder).Encode"] = func(in *Interp, a []Value) Value {
		w := (*(a[0].(Ptr))).(Native).v.(Iface)
		return in.writeTo(w, mkStr([]Value{&Blob{"yaml", in.encode(a[1].(Iface), "yaml")}}))
	}
	I["(*"+y+"Encoder).Close"] = func(in *Interp, a []Value) Value { return nilErr }
	I["(*"+y+"Decoder).Decode"] = func(in *Interp, a []Value) Value {
		r := (*(a[0].(Ptr))).(Native).v.(Iface)
		t := intrinsics["io.ReadAll"](in, []Value{r}).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		return in.unmarshal(t[0].([]Value), a[1].(Iface), "yaml")
	}
}

func (in *Interp) encode(x Iface, kind string) *JNode {
	if x.t == nil {
		return &JNode{k: 'z'}
	}
	return in.enc(x.t, x.v, kind)
}

type fieldTag struct {
	name      string
	omitempty bool
	skip      bool
	inline    bool
	asString  bool
}

func tagOf(f *types.Var, tag string, kind string) fieldTag {
	if !f.Exported() && !f.Anonymous() {
		return fieldTag{skip: true}
	}
	t := reflect.StructTag(tag).Get(kind)
	if t == "-" {
		return fieldTag{skip: true}
	}
	parts := strings.Split(t, ",")
	r := fieldTag{name: parts[0]}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			r.omitempty = true
		case "inline":
			r.inline = true
		case "string":
			r.asString = true
		}
	}
	if r.name == "" {
		if kind == "yaml" {
			r.name = strings.ToLower(f.Name())
		} else {
			r.name = f.Name()
			if f.Anonymous() {
				r.inline = true
			}
		}
	}
	return r
}

// isEmpty follows the omitempty rule.
func (in *Interp) isEmpty(v Value) bool {
	switch x := v.(type) {
	case string, *SStr:
		return strLen(x) == 0
	case bool:
		return !x
	case []Value:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case Ptr:
		return x == nil
	case Iface:
		return x.t == nil
	case *Term:
		if x.w == 0 {
			return !in.p.branch(x)
		}
		return in.p.branch(in.ts.Eq(x, in.ts.Const(x.w, 0)))
	case float64:
		return x == 0
	case Struct, Array:
		return false
	}
	return bitsOf(v) == 0
}

func (in *Interp) enc(t types.Type, v Value, kind string) *JNode {
	if kind == "json" && in.hasMarshaler(t, "MarshalJSON") || kind == "yaml" && in.hasMarshaler(t, "MarshalYAML") {
		unsup("custom marshaler on %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return in.encode(v.(Iface), kind)
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return &JNode{k: 'z'}
		}
		return in.enc(u.Elem(), *p, kind)
	case *types.Struct:
		if types.TypeString(t, nil) == "gopkg.in/yaml.v2.MapSlice" {
			unsup("MapSlice")
		}
		n := &JNode{k: 'o'}
		s := v.(Struct)
		in.encStruct(n, u, s, kind)
		return n
	case *types.Slice:
		s := v.([]Value)
		if s == nil && kind == "json" {
			return &JNode{k: 'z'}
		}
		if kind == "yaml" && types.TypeString(t, nil) == "gopkg.in/yaml.v2.MapSlice" {
			n := &JNode{k: 'o'}
			for _, e := range s {
				it := e.(Struct)
				k := in.encode(it[0].(Iface), kind)
				n.keys = append(n.keys, k.v)
				n.kids = append(n.kids, in.encode(it[1].(Iface), kind))
			}
			return n
		}
		n := &JNode{k: 'a'}
		for _, e := range s {
			n.kids = append(n.kids, in.enc(u.Elem(), e, kind))
		}
		return n
	case *types.Array:
		n := &JNode{k: 'a'}
		for _, e := range v.(Array) {
			n.kids = append(n.kids, in.enc(u.Elem(), e, kind))
		}
		return n
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			if kind == "yaml" {
				return &JNode{k: 'o'}
			}
			return &JNode{k: 'z'}
		}
		ents := append([]*mapEnt(nil), m.ents...)
		in.sortEnts(ents) // both encoders emit map keys in sorted order
		n := &JNode{k: 'o'}
		for _, e := range ents {
			k := e.k
			if i, ok := k.(Iface); ok {
				k = i.v
			}
			if !isStr(k) {
				unsup("non-string map key in document")
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, in.enc(u.Elem(), e.v, kind))
		}
		return n
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &JNode{k: 's', v: v}
		case u.Info()&types.IsBoolean != 0:
			return &JNode{k: 'b', v: v}
		case u.Info()&types.IsInteger != 0:
			_, sg, _ := kindWidth(u.Kind())
			return &JNode{k: 'n', v: v, sgn: sg}
		case u.Info()&types.IsFloat != 0:
			return &JNode{k: 'n', v: v}
		}
	}
	unsup("encoding %s", t)
	return nil
}

func (in *Interp) encStruct(n *JNode, u *types.Struct, s Struct, kind string) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tg := tagOf(f, u.Tag(i), kind)
		if tg.skip {
			continue
		}
		if tg.inline {
			switch e := f.Type().Underlying().(type) {
			case *types.Struct:
				in.encStruct(n, e, s[i].(Struct), kind)
				continue
			}
			unsup("inline of %s", f.Type())
		}
		if tg.omitempty {
			if _, ok := s[i].(*Term); ok {
				k := in.enc(f.Type(), s[i], kind)
				k.omit = true
				n.keys = append(n.keys, tg.name)
				n.kids = append(n.kids, k)
				continue
			}
			if in.isEmptyT(f.Type(), s[i], kind) {
				continue
			}
		}
		n.keys = append(n.keys, tg.name)
		n.kids = append(n.kids, in.enc(f.Type(), s[i], kind))
	}
}

func (in *Interp) isEmptyT(t types.Type, v Value, kind string) bool {
	if st, ok := v.(Struct); ok && kind == "yaml" {
		for _, f := range st {
			if !in.isEmpty(f) {
				return false
			}
		}
		return true
	}
	return in.isEmpty(v)
}

func (in *Interp) hasMarshaler(t types.Type, name string) bool {
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	in.P.mu.Lock()
	defer in.P.mu.Unlock()
	return in.P.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, name) != nil
}

// jparse parses concrete JSON text.
func jparse(x any) *JNode {
	switch v := x.(type) {
	case nil:
		return &JNode{k: 'z'}
	case string:
		return &JNode{k: 's', v: v}
	case bool:
		return &JNode{k: 'b', v: v}
	case json.Number:
		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return &JNode{k: 'n', v: i, sgn: true}
		}
		f, _ := v.Float64()
		return &JNode{k: 'n', v: f}
	case []any:
		n := &JNode{k: 'a'}
		for _, e := range v {
			n.kids = append(n.kids, jparse(e))
		}
		return n
	case map[string]any:
		n := &JNode{k: 'o'}
		for k, e := range v {
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, jparse(e))
		}
		return n
	}
	panic("jparse")
}

func (in *Interp) unmarshal(data []Value, target Iface, kind string) Value {
	var node *JNode
	blank := func(v Value) bool { c, ok := v.(byte); return ok && (c == ' ' || c == '\n' || c == '\r' || c == '\t') }
	for len(data) > 1 && blank(data[len(data)-1]) {
		data = data[:len(data)-1]
	}
	for len(data) > 1 && blank(data[0]) {
		data = data[1:]
	}
	if len(data) == 1 {
		if b, ok := data[0].(*Blob); ok {
			if b.kind != kind {
				if b.kind == "xlsx" || kind == "json" {
					return in.mkErr("invalid character 'x' looking for beginning of value")
				}
			}
			node, _ = b.v.(*JNode)
		}
	}
	if node == nil {
		s := mkStr(data)
		c, ok := s.(string)
		if !ok {
			unsup("parsing symbolic %s text", kind)
		}
		if kind != "json" {
			unsup("parsing %s text", kind)
		}
		d := json.NewDecoder(strings.NewReader(c))
		d.UseNumber()
		var x any
		if err := d.Decode(&x); err != nil {
			return in.mkErr(err.Error())
		}
		if d.More() {
			return in.mkErr("invalid character after top-level value")
		}
		node = jparse(x)
	}
	p, ok := target.v.(Ptr)
	if !ok || p == nil {
		return in.mkErr("json: Unmarshal(non-pointer)")
	}
	dec := &decoder{in: in, kind: kind}
	pt := target.t.Underlying().(*types.Pointer)
	dec.decode(node, pt.Elem(), p)
	if dec.err != "" {
		return in.mkErr(dec.err)
	}
	return nilErr
}

type decoder struct {
	in   *Interp
	kind string
	err  string
}

func (d *decoder) fail(n *JNode, t types.Type) {
	if d.err == "" {
		d.err = d.kind + ": cannot unmarshal value into Go value of type " + t.String()
	}
}

// resolveOmit decides whether an omitempty field is present.
func (in *Interp) resolveOmit(n *JNode) (absent bool) {
	if !n.omit {
		return false
	}
	return in.isEmpty(n.v)
}

func (d *decoder) decode(n *JNode, t types.Type, p Ptr) {
	in := d.in
	if n.omit {
		// absent-when-zero: writing a zero over a zero is the same as leaving it alone
		isz := false
		switch old := (*p).(type) {
		case bool:
			isz = !old
		case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
			isz = bitsOf(old) == 0
		}
		if !isz && in.resolveOmit(n) {
			return
		}
	}
	if n.k == 'z' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			*p = zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(Ptr)
		if q == nil {
			v := zero(u.Elem())
			q = Ptr(&v)
			*p = q
		}
		d.decode(n, u.Elem(), q)
	case *types.Interface:
		if u.NumMethods() == 0 {
			*p = in.jany(n, d.kind)
			return
		}
		d.fail(n, t)
	case *types.Struct:
		if n.k != 'o' {
			d.fail(n, t)
			return
		}
		s := (*p).(Struct)
		d.decodeStruct(n, u, s)
	case *types.Slice:
		if n.k != 'a' {
			d.fail(n, t)
			return
		}
		out := make([]Value, len(n.kids))
		for i, k := range n.kids {
			out[i] = zero(u.Elem())
			d.decode(k, u.Elem(), Ptr(&out[i]))
		}
		*p = out
	case *types.Map:
		if n.k != 'o' {
			d.fail(n, t)
			return
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = newMap()
			*p = m
		}
		for i, k := range n.keys {
			if in.resolveOmit(n.kids[i]) {
				continue
			}
			v := zero(u.Elem())
			d.decode(n.kids[i], u.Elem(), Ptr(&v))
			var key Value = k
			if _, ok := u.Key().Underlying().(*types.Interface); ok {
				key = Iface{in.P.canonType(types.Typ[types.String]), k}
			}
			in.mapSet(m, key, v)
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.k != 's' {
				if d.kind == "yaml" && n.k == 'n' {
					*p = in.fmtValue(Iface{types.Typ[types.Int], n.v}, 'v', fmtFlags{}, 0)
					return
				}
				d.fail(n, t)
				return
			}
			*p = n.v
		case u.Info()&types.IsBoolean != 0:
			if n.k != 'b' {
				d.fail(n, t)
				return
			}
			*p = n.v
		case u.Info()&types.IsInteger != 0:
			if n.k != 'n' {
				d.fail(n, t)
				return
			}
			w, sg, _ := kindWidth(u.Kind())
			if f, ok := n.v.(float64); ok {
				if f != float64(int64(f)) {
					d.fail(n, t)
					return
				}
				n = &JNode{k: 'n', v: int64(f), sgn: true}
			}
			src := d.in.numTerm(n)
			// range check
			var ok Value
			switch {
			case n.sgn && !sg:
				ok = boolVal(in.ts.And(in.ts.Cmp(OSle, in.ts.Const(64, 0), src), in.ts.Cmp(OUle, src, in.ts.Const(64, wmask(w)))))
			case n.sgn && sg:
				if w == 64 {
					ok = true
				} else {
					lim := in.ts.Const(64, uint64(1)<<(w-1))
					ok = boolVal(in.ts.And(in.ts.Cmp(OSlt, src, lim), in.ts.Cmp(OSle, in.ts.Bin(OSub, in.ts.Const(64, 0), lim), src)))
				}
			default:
				m := wmask(w)
				if sg {
					m >>= 1
				}
				ok = boolVal(in.ts.Cmp(OUle, src, in.ts.Const(64, m)))
			}
			if !in.truth(ok) {
				d.fail(n, t)
				return
			}
			*p = norm(in.ts.Resize(src, w, false), u.Kind())
		case u.Info()&types.IsFloat != 0:
			if n.k != 'n' {
				d.fail(n, t)
				return
			}
			switch v := n.v.(type) {
			case float64:
				*p = v
			case *Term:
				*p = float64(int64(in.p.concretise(v)))
			default:
				*p = float64(int64(bitsOf(v)))
			}
		}
	default:
		unsup("decoding into %s", t)
	}
}

// numTerm is a number node as a 64-bit term.
func (in *Interp) numTerm(n *JNode) *Term {
	switch v := n.v.(type) {
	case *Term:
		return in.ts.Resize(v, 64, n.sgn)
	default:
		return in.ts.Const(64, bitsOf(v))
	}
}

func (d *decoder) decodeStruct(n *JNode, u *types.Struct, s Struct) {
	for i, key := range n.keys {
		k, ok := key.(string)
		if !ok {
			k = d.in.conc(key)
		}
		if d.kind == "json" {
			if d.field(n.kids[i], u, s, k, false) {
				continue
			}
			d.field(n.kids[i], u, s, k, true)
		} else {
			d.field(n.kids[i], u, s, k, false)
		}
	}
}

func (d *decoder) field(n *JNode, u *types.Struct, s Struct, k string, fold bool) bool {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tg := tagOf(f, u.Tag(i), d.kind)
		if tg.skip {
			continue
		}
		if tg.inline {
			if e, ok := f.Type().Underlying().(*types.Struct); ok {
				if d.field(n, e, s[i].(Struct), k, fold) {
					return true
				}
				continue
			}
		}
		if tg.name == k || fold && strings.EqualFold(tg.name, k) {
			d.decode(n, f.Type(), Ptr(&s[i]))
			return true
		}
	}
	return false
}

// jany is the generic decoding into interface{}.
func (in *Interp) jany(n *JNode, kind string) Iface {
	ct := in.P.canonType
	anyT := types.NewInterfaceType(nil, nil)
	switch n.k {
	case 'z':
		return Iface{}
	case 's':
		return Iface{ct(types.Typ[types.String]), n.v}
	case 'b':
		return Iface{ct(types.Typ[types.Bool]), n.v}
	case 'n':
		if kind == "yaml" {
			if _, ok := n.v.(float64); ok {
				return Iface{ct(types.Typ[types.Float64]), n.v}
			}
			return Iface{ct(types.Typ[types.Int]), norm(in.numTerm(n), types.Int)}
		}
		switch v := n.v.(type) {
		case float64:
			return Iface{ct(types.Typ[types.Float64]), v}
		case *Term:
			// floats are concrete: enumerate the value
			c := in.p.concretise(in.ts.Resize(v, 64, n.sgn))
			return Iface{ct(types.Typ[types.Float64]), float64(int64(c))}
		default:
			return Iface{ct(types.Typ[types.Float64]), float64(int64(bitsOf(v)))}
		}
	case 'a':
		out := make([]Value, len(n.kids))
		for i, k := range n.kids {
			out[i] = in.jany(k, kind)
		}
		return Iface{ct(types.NewSlice(anyT)), out}
	case 'o':
		m := newMap()
		for i, k := range n.keys {
			if in.resolveOmit(n.kids[i]) {
				continue
			}
			var key Value = k
			if kind == "yaml" {
				key = Iface{ct(types.Typ[types.String]), k}
			}
			in.mapSet(m, key, in.jany(n.kids[i], kind))
		}
		if kind == "yaml" {
			return Iface{ct(types.NewMap(anyT, anyT)), m}
		}
		return Iface{ct(types.NewMap(types.Typ[types.String], anyT)), m}
	}
	panic("jany")
}

// blobEq compares two documents structurally (key order matters).
func (in *Interp) blobEq(a, b *Blob) Value {
	if a == b {
		return true
	}
	if a.kind != b.kind {
		return false
	}
	x, ok1 := a.v.(*JNode)
	y, ok2 := b.v.(*JNode)
	if ok1 && ok2 {
		return in.nodeEq(x, y)
	}
	xa, ok1 := a.v.(*xlsxDoc)
	ya, ok2 := b.v.(*xlsxDoc)
	if ok1 && ok2 {
		return in.xlsxEq(xa, ya)
	}
	return false
}

func (in *Interp) dropOmitted(n *JNode) *JNode {
	r := &JNode{k: 'o'}
	for i, k := range n.keys {
		if in.resolveOmit(n.kids[i]) {
			continue
		}
		r.keys = append(r.keys, k)
		r.kids = append(r.kids, n.kids[i])
	}
	return r
}

func sameKeys(a, b *JNode) bool {
	if len(a.keys) != len(b.keys) {
		return false
	}
	for i := range a.keys {
		if a.keys[i] != b.keys[i] {
			return false
		}
	}
	return true
}

func (in *Interp) nodeEq(a, b *JNode) Value {
	if a.k == 'o' && b.k == 'o' && !sameKeys(a, b) {
		a, b = in.dropOmitted(a), in.dropOmitted(b)
	}
	if a.k != b.k || len(a.kids) != len(b.kids) {
		return false
	}
	var r Value = true
	switch a.k {
	case 's':
		return in.strEq(a.v, b.v)
	case 'b':
		return in.eq(a.v, b.v)
	case 'n':
		if _, ok := a.v.(float64); ok {
			return a.v == b.v
		}
		if _, ok := b.v.(float64); ok {
			return false
		}
		return boolVal(in.ts.Eq(in.numTerm(a), in.numTerm(b)))
	}
	for i := range a.kids {
		if a.k == 'o' {
			r = in.and(r, in.strEq(a.keys[i], b.keys[i]))
		}
		if r == false {
			return false
		}
		r = in.and(r, in.nodeEq(a.kids[i], b.kids[i]))
		if r == false {
			return false
		}
	}
	return r
}

var _ = unicode.IsLower
var _ *ssa.Function
