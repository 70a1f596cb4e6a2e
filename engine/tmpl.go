package main

import (
	"fmt"
	"go/token"
	"go/types"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Templates: the real text/template parser builds the tree, the evaluator below runs it on
// symbolic values (documented semantics of text/template).

type tmpl struct {
	name  string
	funcs map[string]Iface
	trees map[string]*parse.Tree
}

func builtinsFor() map[string]any {
	m := map[string]any{}
	for _, n := range []string{"and", "or", "not", "len", "index", "print", "printf", "println", "eq", "ne", "lt", "le", "gt", "ge", "html", "js", "urlquery", "call", "slice"} {
		m[n] = fmt.Sprint
	}
	return m
}

func registerTemplate(I map[string]intrFn) {
	get := func(v Value) *tmpl { return (*(v.(Ptr))).(Native).v.(*tmpl) }
	I["text/template.New"] = func(in *Interp, a []Value) Value {
		v := Value(Native{&tmpl{name: in.conc(a[0]), funcs: map[string]Iface{}, trees: map[string]*parse.Tree{}}})
		return Ptr(&v)
	}
	I["(*text/template.Template).Funcs"] = func(in *Interp, a []Value) Value {
		t := get(a[0])
		if m, _ := a[1].(*Map); m != nil {
			for _, e := range m.ents {
				if !e.dead {
					t.funcs[e.k.(string)] = e.v.(Iface)
				}
			}
		}
		return a[0]
	}
	I["(*text/template.Template).Parse"] = func(in *Interp, a []Value) Value {
		t := get(a[0])
		fm := map[string]any{}
		for k := range t.funcs {
			fm[k] = fmt.Sprint
		}
		trees, err := parse.Parse(t.name, in.conc(a[1]), "", "", builtinsFor(), fm)
		if err != nil {
			return Tuple{Ptr(nil), in.mkErr(err.Error())}
		}
		for k, v := range trees {
			t.trees[k] = v
		}
		return Tuple{a[0], nilErr}
	}
	I["text/template.Must"] = func(in *Interp, a []Value) Value {
		if e := a[1].(Iface); e.t != nil {
			panic(targetPanic{e, in.stack()})
		}
		return a[0]
	}
	I["(*text/template.Template).Execute"] = func(in *Interp, a []Value) Value {
		t := get(a[0])
		ex := &tmplExec{in: in, t: t}
		return ex.execute(t.name, a[1].(Iface), a[2].(Iface))
	}
	I["(*text/template.Template).ExecuteTemplate"] = func(in *Interp, a []Value) Value {
		t := get(a[0])
		ex := &tmplExec{in: in, t: t}
		return ex.execute(in.conc(a[2-0]), a[1].(Iface), a[3].(Iface))
	}
}

type tmplVar struct {
	name string
	v    Iface
}

type tmplExec struct {
	in   *Interp
	t    *tmpl
	vars []tmplVar
	out  []Value
}

type tmplErr struct{ msg string }
type tmplBreak struct{}
type tmplContinue struct{}

func (ex *tmplExec) execute(name string, w Iface, data Iface) (res Value) {
	tree := ex.t.trees[name]
	if tree == nil {
		return ex.in.mkErr("template: " + name + ": incomplete or empty template")
	}
	flush := func() {
		if len(ex.out) > 0 {
			if e := ex.in.writeTo(w, mkStr(ex.out)); res == nil || res.(Iface).t == nil {
				res = e
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(tmplErr)
			if !ok {
				panic(r)
			}
			flush()
			res = ex.in.mkErr("template: " + te.msg)
		}
	}()
	ex.vars = []tmplVar{{"$", data}}
	ex.walk(data, tree.Root)
	flush()
	if res == nil {
		res = nilErr
	}
	return res
}

func (ex *tmplExec) errorf(f string, a ...any) { panic(tmplErr{fmt.Sprintf(f, a...)}) }

func (ex *tmplExec) walk(dot Iface, n parse.Node) {
	switch x := n.(type) {
	case *parse.ListNode:
		for _, c := range x.Nodes {
			ex.walk(dot, c)
		}
	case *parse.TextNode:
		ex.out = append(ex.out, strBytes(string(x.Text))...)
	case *parse.ActionNode:
		v := ex.pipe(dot, x.Pipe)
		if len(x.Pipe.Decl) == 0 {
			ex.print(v)
		}
	case *parse.CommentNode:
	case *parse.IfNode:
		ex.ifWith(dot, x.Pipe, x.List, x.ElseList, false)
	case *parse.WithNode:
		ex.ifWith(dot, x.Pipe, x.List, x.ElseList, true)
	case *parse.RangeNode:
		ex.rangeNode(dot, x)
	case *parse.BreakNode:
		panic(tmplBreak{})
	case *parse.ContinueNode:
		panic(tmplContinue{})
	case *parse.TemplateNode:
		tree := ex.t.trees[x.Name]
		if tree == nil {
			ex.errorf("template %q not defined", x.Name)
		}
		var d Iface
		if x.Pipe != nil {
			d = ex.pipe(dot, x.Pipe)
		}
		saved := ex.vars
		ex.vars = []tmplVar{{"$", d}}
		ex.walk(d, tree.Root)
		ex.vars = saved
	default:
		unsup("template node %T", n)
	}
}

func (ex *tmplExec) ifWith(dot Iface, p *parse.PipeNode, list, els *parse.ListNode, with bool) {
	mark := len(ex.vars)
	v := ex.pipe(dot, p)
	if ex.truth(v) {
		if with {
			ex.walk(v, list)
		} else {
			ex.walk(dot, list)
		}
	} else if els != nil {
		ex.walk(dot, els)
	}
	ex.vars = ex.vars[:mark]
}

func (ex *tmplExec) truth(v Iface) bool {
	if v.t == nil {
		return false
	}
	if _, ok := v.t.Underlying().(*types.Struct); ok {
		return true
	}
	if f, ok := v.v.(*Closure); ok {
		return f != nil
	}
	return !ex.in.isEmpty(v.v)
}

func (ex *tmplExec) rangeNode(dot Iface, x *parse.RangeNode) {
	mark := len(ex.vars)
	defer func() { ex.vars = ex.vars[:mark] }()
	// range declarations are bound per iteration
	val := ex.pipeNoDecl(dot, x.Pipe)
	val = ex.indirect(val)
	one := func(k, e Iface) (stop bool) {
		m := len(ex.vars)
		d := x.Pipe.Decl
		if len(d) == 1 {
			ex.setOrPush(x.Pipe, d[0].Ident[0], e)
		} else if len(d) == 2 {
			ex.setOrPush(x.Pipe, d[0].Ident[0], k)
			ex.setOrPush(x.Pipe, d[1].Ident[0], e)
		}
		defer func() {
			if !x.Pipe.IsAssign {
				ex.vars = ex.vars[:m]
			}
			if r := recover(); r != nil {
				switch r.(type) {
				case tmplBreak:
					stop = true
				case tmplContinue:
				default:
					panic(r)
				}
			}
		}()
		ex.walk(e, x.List)
		return false
	}
	n := 0
	if val.t != nil {
		switch u := val.t.Underlying().(type) {
		case *types.Slice:
			for i, e := range val.v.([]Value) {
				n++
				if one(ex.intv(i), ex.wrap(u.Elem(), e)) {
					break
				}
			}
		case *types.Array:
			for i, e := range val.v.(Array) {
				n++
				if one(ex.intv(i), ex.wrap(u.Elem(), e)) {
					break
				}
			}
		case *types.Map:
			if m := val.v.(*Map); m != nil {
				ents := append([]*mapEnt(nil), m.ents...)
				ex.in.sortEnts(ents)
				for _, e := range ents {
					n++
					if one(ex.wrap(u.Key(), e.k), ex.wrap(u.Elem(), e.v)) {
						break
					}
				}
			}
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				ex.errorf("range can't iterate over %s", val.t)
			}
			for i := 0; i < ex.in.index(val.v); i++ {
				n++
				if one(ex.intv(i), ex.intv(i)) {
					break
				}
			}
		default:
			ex.errorf("range can't iterate over %s", val.t)
		}
	}
	if n == 0 && x.ElseList != nil {
		ex.walk(dot, x.ElseList)
	}
}

func (ex *tmplExec) intv(i int) Iface { return Iface{ex.in.P.canonType(types.Typ[types.Int]), i} }

func (ex *tmplExec) wrap(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{ex.in.P.canonType(t), v}
}

func (ex *tmplExec) setOrPush(p *parse.PipeNode, name string, v Iface) {
	if p.IsAssign {
		for i := len(ex.vars) - 1; i >= 0; i-- {
			if ex.vars[i].name == name {
				ex.vars[i].v = v
				return
			}
		}
	}
	ex.vars = append(ex.vars, tmplVar{name, v})
}

func (ex *tmplExec) pipe(dot Iface, p *parse.PipeNode) Iface {
	v := ex.pipeNoDecl(dot, p)
	for _, d := range p.Decl {
		ex.setOrPush(p, d.Ident[0], v)
	}
	return v
}

func (ex *tmplExec) pipeNoDecl(dot Iface, p *parse.PipeNode) Iface {
	var v Iface
	has := false
	for _, c := range p.Cmds {
		v = ex.cmd(dot, c, v, has)
		has = true
	}
	return v
}

func (ex *tmplExec) cmd(dot Iface, c *parse.CommandNode, final Iface, has bool) Iface {
	switch x := c.Args[0].(type) {
	case *parse.FieldNode:
		return ex.fieldChain(dot, dot, x.Ident, c.Args, final, has)
	case *parse.ChainNode:
		r := ex.arg(dot, x.Node)
		return ex.fieldChain(dot, r, x.Field, c.Args, final, has)
	case *parse.IdentifierNode:
		return ex.callFunc(dot, x.Ident, c.Args[1:], final, has)
	case *parse.PipeNode:
		return ex.pipe(dot, x)
	case *parse.VariableNode:
		v := ex.variable(x.Ident[0])
		if len(x.Ident) == 1 {
			return v
		}
		return ex.fieldChain(dot, v, x.Ident[1:], c.Args, final, has)
	}
	return ex.arg(dot, c.Args[0])
}

func (ex *tmplExec) variable(name string) Iface {
	for i := len(ex.vars) - 1; i >= 0; i-- {
		if ex.vars[i].name == name {
			return ex.vars[i].v
		}
	}
	ex.errorf("undefined variable: %s", name)
	return Iface{}
}

func (ex *tmplExec) arg(dot Iface, n parse.Node) Iface {
	ct := ex.in.P.canonType
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Iface{}
	case *parse.StringNode:
		return Iface{ct(types.Typ[types.String]), x.Text}
	case *parse.BoolNode:
		return Iface{ct(types.Typ[types.Bool]), x.True}
	case *parse.NumberNode:
		if x.IsInt {
			return Iface{ct(types.Typ[types.Int]), int(x.Int64)}
		}
		return Iface{ct(types.Typ[types.Float64]), x.Float64}
	case *parse.FieldNode:
		return ex.fieldChain(dot, dot, x.Ident, nil, Iface{}, false)
	case *parse.VariableNode:
		v := ex.variable(x.Ident[0])
		if len(x.Ident) > 1 {
			return ex.fieldChain(dot, v, x.Ident[1:], nil, Iface{}, false)
		}
		return v
	case *parse.PipeNode:
		return ex.pipe(dot, x)
	case *parse.IdentifierNode:
		return ex.callFunc(dot, x.Ident, nil, Iface{}, false)
	case *parse.ChainNode:
		return ex.fieldChain(dot, ex.arg(dot, x.Node), x.Field, nil, Iface{}, false)
	}
	unsup("template argument %T", n)
	return Iface{}
}

func (ex *tmplExec) indirect(v Iface) Iface {
	for v.t != nil {
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, _ := v.v.(Ptr)
		if q == nil {
			return v
		}
		v = ex.wrap(p.Elem(), copyVal(*q))
	}
	return v
}

func (ex *tmplExec) fieldChain(dot, recv Iface, ids []string, args []parse.Node, final Iface, has bool) Iface {
	for i, id := range ids {
		last := i == len(ids)-1
		var a []parse.Node
		h := false
		if last {
			if len(args) > 1 {
				a = args[1:]
			}
			h = has
		}
		recv = ex.field(dot, recv, id, a, final, h)
	}
	return recv
}

func (ex *tmplExec) field(dot, recv Iface, name string, args []parse.Node, final Iface, has bool) Iface {
	if recv.t == nil {
		ex.errorf("nil data; no entry for key %q", name)
	}
	in := ex.in
	// method?
	in.P.mu.Lock()
	sel := in.P.prog.MethodSets.MethodSet(recv.t).Lookup(nil, name)
	in.P.mu.Unlock()
	if sel != nil && token.IsExported(name) {
		m := sel.Obj().(*types.Func)
		f := in.lookupMethod(recv.t, m)
		sig := m.Type().(*types.Signature)
		cargs := []Value{recv.v}
		cargs = append(cargs, ex.convArgs(dot, sig, args, final, has)...)
		return ex.results(sig, in.callFn(f, cargs, nil))
	}
	hasArgs := len(args) > 0 || has
	v := ex.indirect(recv)
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		if hasArgs {
			ex.errorf("%s has arguments but cannot be invoked as function", name)
		}
		if r, ok := ex.structField(u, v.v.(Struct), name); ok {
			return r
		}
		ex.errorf("can't evaluate field %s in type %s", name, recv.t)
	case *types.Map:
		m := v.v.(*Map)
		if e := in.mapFind(m, name); e != nil {
			return ex.wrap(u.Elem(), e.v)
		}
		return ex.wrap(u.Elem(), zero(u.Elem()))
	case *types.Pointer:
		ex.errorf("nil pointer evaluating %s.%s", recv.t, name)
	}
	ex.errorf("can't evaluate field %s in type %s", name, recv.t)
	return Iface{}
}

func (ex *tmplExec) structField(u *types.Struct, s Struct, name string) (Iface, bool) {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return ex.wrap(u.Field(i).Type(), s[i]), true
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Anonymous() {
			continue
		}
		e := ex.indirect(ex.wrap(u.Field(i).Type(), s[i]))
		if st, ok := e.t.Underlying().(*types.Struct); ok {
			if es, ok := e.v.(Struct); ok {
				if r, ok := ex.structField(st, es, name); ok {
					return r, true
				}
			}
		}
	}
	return Iface{}, false
}

func (ex *tmplExec) results(sig *types.Signature, r Value) Iface {
	if sig.Results().Len() == 2 {
		t := r.(Tuple)
		if e := t[1].(Iface); e.t != nil {
			ex.errorf("error calling function")
		}
		r = t[0]
	}
	return ex.wrap(sig.Results().At(0).Type(), r)
}

func (ex *tmplExec) convArgs(dot Iface, sig *types.Signature, args []parse.Node, final Iface, has bool) []Value {
	var vals []Iface
	for _, a := range args {
		vals = append(vals, ex.arg(dot, a))
	}
	if has {
		vals = append(vals, final)
	}
	np := sig.Params().Len()
	if !sig.Variadic() && len(vals) != np || sig.Variadic() && len(vals) < np-1 {
		ex.errorf("wrong number of args: want %d got %d", np, len(vals))
	}
	conv := func(v Iface, t types.Type) Value {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v
		}
		if v.t == nil {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				return zero(t)
			}
			ex.errorf("cannot assign nil to %s", t)
		}
		if !types.AssignableTo(v.t, t) {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if i, ok := v.v.(int); ok {
					return fromBits(b.Kind(), uint64(i))
				}
			}
			// indirection as text/template does
			if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
				q, _ := v.v.(Ptr)
				if q == nil {
					ex.errorf("dereference of nil pointer")
				}
				return copyVal(*q)
			}
			ex.errorf("wrong type for value; expected %s; got %s", t, v.t)
		}
		return v.v
	}
	var out []Value
	for i, v := range vals {
		if sig.Variadic() && i >= np-1 {
			break
		}
		out = append(out, conv(v, sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		var rest []Value
		for i := np - 1; i < len(vals); i++ {
			rest = append(rest, conv(vals[i], et))
		}
		out = append(out, rest)
	}
	return out
}

func (ex *tmplExec) callFunc(dot Iface, name string, args []parse.Node, final Iface, has bool) Iface {
	in := ex.in
	ct := in.P.canonType
	if f, ok := ex.t.funcs[name]; ok {
		sig := f.t.Underlying().(*types.Signature)
		a := ex.convArgs(dot, sig, args, final, has)
		return ex.results(sig, in.invoke(f.v, a))
	}
	boolV := func(v Value) Iface { return Iface{ct(types.Typ[types.Bool]), v} }
	strV := func(v Value) Iface { return Iface{ct(types.Typ[types.String]), v} }
	if name == "and" || name == "or" {
		var v Iface
		n := len(args)
		for i := 0; i < n; i++ {
			v = ex.arg(dot, args[i])
			if ex.truth(v) == (name == "or") {
				return v
			}
		}
		if has {
			v = final
		}
		return v
	}
	var vals []Iface
	for _, a := range args {
		vals = append(vals, ex.arg(dot, a))
	}
	if has {
		vals = append(vals, final)
	}
	ifs := func(vs []Iface) []Value {
		var r []Value
		for _, v := range vs {
			r = append(r, v)
		}
		return r
	}
	switch name {
	case "not":
		return boolV(!ex.truth(vals[0]))
	case "len":
		v := ex.indirect(vals[0])
		switch x := v.v.(type) {
		case string, *SStr:
			return ex.intv(strLen(x))
		case []Value:
			return ex.intv(len(x))
		case *Map:
			if x == nil {
				return ex.intv(0)
			}
			return ex.intv(x.n)
		}
		ex.errorf("len of type %s", v.t)
	case "index":
		v := ex.indirect(vals[0])
		for _, k := range vals[1:] {
			switch u := v.t.Underlying().(type) {
			case *types.Slice:
				i := in.index(k.v)
				s := v.v.([]Value)
				if i < 0 || i >= len(s) {
					ex.errorf("index out of range: %d", i)
				}
				v = ex.wrap(u.Elem(), s[i])
			case *types.Array:
				i, s := in.index(k.v), v.v.(Array)
				if i < 0 || i >= len(s) {
					ex.errorf("index out of range: %d", i)
				}
				v = ex.wrap(u.Elem(), s[i])
			case *types.Basic:
				i := in.index(k.v)
				if !isStrT(v.t) {
					ex.errorf("can't index %s", v.t)
				}
				if i < 0 || i >= strLen(v.v) {
					ex.errorf("index out of range: %d", i)
				}
				v = Iface{ct(types.Typ[types.Uint8]), strBytes(v.v)[i]}
			case *types.Map:
				if e := in.mapFind(v.v.(*Map), k.v); e != nil {
					v = ex.wrap(u.Elem(), e.v)
				} else {
					v = ex.wrap(u.Elem(), zero(u.Elem()))
				}
			default:
				ex.errorf("can't index %s", v.t)
			}
		}
		return v
	case "slice":
		v := ex.indirect(vals[0])
		n := 0
		s, isSlice := v.v.([]Value)
		if isSlice {
			n = cap(s)
		} else if v.t != nil && isStrT(v.t) {
			n = strLen(v.v)
		} else {
			ex.errorf("can't slice %s", v.t)
		}
		b := [3]int{0, n, n}
		if isSlice {
			b[1] = len(s)
		}
		for i, k := range vals[1:] {
			if b[i] = in.index(k.v); b[i] < 0 || b[i] > n {
				ex.errorf("index out of range: %d", b[i])
			}
		}
		if b[0] > b[1] || b[1] > b[2] {
			ex.errorf("invalid slice index: %d > %d", b[0], b[1])
		}
		if isSlice {
			return Iface{v.t, s[b[0]:b[1]:b[2]]}
		}
		return Iface{v.t, substr(v.v, b[0], b[1])}
	case "print":
		return strV(in.sprint(ifs(vals), false))
	case "println":
		return strV(in.sprint(ifs(vals), true))
	case "printf":
		return strV(in.sprintf(vals[0].v, ifs(vals[1:])))
	case "eq":
		for _, o := range vals[1:] {
			if in.truth(ex.basicEq(vals[0], o)) {
				return boolV(true)
			}
		}
		return boolV(false)
	case "ne":
		return boolV(in.not(ex.basicEq(vals[0], vals[1])))
	case "lt", "le", "gt", "ge":
		a, b := vals[0], vals[1]
		ops := map[string]token.Token{"lt": token.LSS, "le": token.LEQ, "gt": token.GTR, "ge": token.GEQ}
		if isStr(a.v) {
			return boolV(in.binop(ops[name], types.String, a.v, b.v, a.t))
		}
		x, y := in.int64T(a), in.int64T(b)
		switch name {
		case "lt":
			return boolV(boolVal(in.ts.Cmp(OSlt, x, y)))
		case "le":
			return boolV(boolVal(in.ts.Cmp(OSle, x, y)))
		case "gt":
			return boolV(boolVal(in.ts.Cmp(OSlt, y, x)))
		}
		return boolV(boolVal(in.ts.Cmp(OSle, y, x)))
	case "call":
		sig := vals[0].t.Underlying().(*types.Signature)
		var a []Value
		for i, v := range vals[1:] {
			if _, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
				a = append(a, v)
			} else {
				a = append(a, v.v)
			}
		}
		return ex.results(sig, in.invoke(vals[0].v, a))
	}
	unsup("template function %s", name)
	return Iface{}
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) int64T(v Iface) *Term {
	_, sg, _ := kindWidth(basicKind(v.t))
	if t, ok := v.v.(*Term); ok {
		return in.ts.Resize(t, 64, sg)
	}
	return in.ts.Const(64, bitsOf(v.v))
}

func (ex *tmplExec) basicEq(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	ak, bk := basicKind(a.t), basicKind(b.t)
	wa, _, oka := kindWidth(ak)
	wb, _, okb := kindWidth(bk)
	if oka && okb && wa > 0 && wb > 0 {
		return boolVal(ex.in.ts.Eq(ex.in.int64T(a), ex.in.int64T(b)))
	}
	if isStr(a.v) != isStr(b.v) {
		ex.errorf("incompatible types for comparison")
	}
	return ex.in.eq(a.v, b.v)
}

func (ex *tmplExec) print(v Iface) {
	if v.t == nil {
		ex.out = append(ex.out, strBytes("<no value>")...)
		return
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok {
		q, _ := v.v.(Ptr)
		if q != nil && !ex.in.hasMethod(v.t, "String") && !ex.in.hasMethod(v.t, "Error") {
			v = ex.wrap(p.Elem(), *q)
		} else if q == nil {
			ex.out = append(ex.out, strBytes("<nil>")...)
			return
		}
	}
	s := ex.in.sprint([]Value{v}, false)
	ex.out = append(ex.out, strBytes(s)...)
}

var _ *ssa.Function
