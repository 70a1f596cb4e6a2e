package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Finding is one recorded defect: label and the input class (tag) it is limited to.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Label    string `json:"label"`
	Tag      string `json:"tag"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

// Violation is a candidate counterexample found by the solver.
type Violation struct {
	Harness string
	Label   string
	Known   string // id of the known finding, or ""
	Model   Model
	Order   bool // needs a map order
}

// HarnessState is the state of one harness over all its paths (shared) and of one path.
type HarnessState struct {
	run     *HarnessRun
	tags    map[string]Value
	log     []func(m Model) string
	deadEnd bool
	asserts int
	strs    int
}

const vkPath = "/zz_verif/vk"

// inClass must agree with vk.InClass.
func inClass(class string, i int) func(c byte) bool {
	f := func(c byte) bool {
		lower := c >= 'a' && c <= 'z'
		upper := c >= 'A' && c <= 'Z'
		digit := c >= '0' && c <= '9'
		switch class {
		case "lower":
			return lower
		case "upper":
			return upper
		case "digit":
			return digit
		case "ident":
			return lower || i > 0 && (digit || c == '_')
		case "Ident":
			return lower || upper || i > 0 && (digit || c == '_')
		case "alnum":
			return lower || upper || digit
		case "letter":
			return lower || upper
		case "word":
			return lower || upper || digit || c == '_'
		case "lower_":
			return lower || c == '_'
		case "print":
			return c >= 0x20 && c < 0x7f
		case "text":
			return c > 0x20 && c < 0x7f
		case "plain":
			return c > 0x20 && c < 0x7f && c != '"' && c != '\'' && c != '\\' && c != '`'
		case "any":
			return c != 0 && c < 0x7f
		}
		unsup("unknown class %s", class)
		return false
	}
	return f
}

func defByte(class string, i, k int) byte {
	f := inClass(class, i)
	c := byte('a' + k%26)
	if f(c) {
		return c
	}
	for c := '0'; c < 127; c++ {
		if f(byte(c)) {
			return byte(c)
		}
	}
	for c := 1; c < 127; c++ {
		if f(byte(c)) {
			return byte(c)
		}
	}
	panic("empty class")
}

func (in *Interp) evalStr(v Value, m Model) string {
	memo := map[*Term]uint64{}
	var sb strings.Builder
	for _, x := range strBytes(v) {
		switch y := x.(type) {
		case byte:
			sb.WriteByte(y)
		case *Term:
			sb.WriteByte(byte(in.ts.Eval(y, m, memo)))
		default:
			sb.WriteString("<document>")
		}
	}
	return sb.String()
}

func (in *Interp) logf(f func(m Model) string) {
	in.h.log = append(in.h.log, f)
}

// resetProgram gives the tool a fresh process image.
func (in *Interp) resetProgram() {
	keepG := map[string]bool{}
	_ = keepG
	for g := range in.glob {
		if !strings.HasPrefix(g.Pkg.Pkg.Path(), in.P.modPath+"/zz_verif") {
			delete(in.glob, g)
		}
	}
	for p := range in.inited {
		if !strings.HasPrefix(p.Pkg.Path(), in.P.modPath+"/zz_verif") {
			delete(in.inited, p)
		}
	}
	for k := range in.memo {
		if strings.HasPrefix(k, "once:") {
			delete(in.memo, k)
		}
	}
}

func (in *Interp) runTool(args []Value) int {
	in.resetProgram()
	in.penv = map[string]Value{}
	in.args = append([]Value{"oct"}, args...)
	in.inRun = true
	cur, depth := in.cur, in.depth
	code := 0
	func() {
		defer func() {
			in.inRun = false
			if r := recover(); r != nil {
				switch x := r.(type) {
				case runExit:
					code = x.code
					if code != 0 {
						code = 1
					}
				case targetPanic:
					code = 2
					in.h.run.lastPanic(in, x)
				default:
					panic(r)
				}
			}
			in.cur, in.depth = cur, depth
		}()
		main := in.P.mainPkg
		in.initPkg(main)
		in.callFn(main.Func("main"), nil, nil)
	}()
	in.logf(func(Model) string { return fmt.Sprintf("RUN %d", code) })
	return code
}

func registerVK(I map[string]intrFn) {
	reg := func(n string, f intrFn) { I[modPath+vkPath+"."+n] = f }
	reg("Bool", func(in *Interp, a []Value) Value { return in.newVar(in.conc(a[0]), 0, 0) })
	reg("Str", func(in *Interp, a []Value) Value {
		name, n, class := in.conc(a[0]), in.index(a[1]), in.conc(a[2])
		b := make([]Value, n)
		for i := range b {
			v := in.newVar(fmt.Sprintf("%s.%d", name, i), 8, uint64(defByte(class, i, in.h.strs)))
			in.h.strs++
			c := in.byteIn(v, inClass(class, i))
			in.p.add(in.asTerm(c))
			b[i] = v
		}
		return mkStr(b)
	})
	reg("Int", func(in *Interp, a []Value) Value {
		name, lo, hi := in.conc(a[0]), in.index(a[1]), in.index(a[2])
		w := uint8(8)
		if hi-lo > 255 {
			w = 16
		}
		if hi-lo > 65535 {
			w = 32
		}
		v := in.newVar(name, w, 0)
		if uint64(hi-lo) < wmask(w) {
			in.p.add(in.ts.Cmp(OUle, v, in.ts.Const(w, uint64(hi-lo))))
		}
		r := in.ts.Resize(v, 64, false)
		if lo != 0 {
			r = in.ts.Bin(OAdd, r, in.ts.Const(64, uint64(lo)))
		}
		return norm(r, types.Int)
	})
	reg("Choice", func(in *Interp, a []Value) Value { return in.choice(in.conc(a[0]), in.index(a[1])) })
	reg("Pick", func(in *Interp, a []Value) Value {
		o := goStrings(a[1])
		return o[in.choice(in.conc(a[0]), len(o))]
	})
	reg("Assume", func(in *Interp, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{"assume"})
			}
		case *Term:
			in.p.assume(c)
		}
		return nil
	})
	reg("Stop", func(in *Interp, a []Value) Value { panic(pathEnd{"stop"}) })
	reg("Assert", func(in *Interp, a []Value) Value {
		in.assert(a[0], in.conc(a[1]))
		return nil
	})
	reg("Tag", func(in *Interp, a []Value) Value {
		n := in.conc(a[0])
		in.h.tags[n] = a[1]
		return nil
	})
	reg("Cover", func(in *Interp, a []Value) Value {
		in.h.run.cover(in.conc(a[0]))
		return nil
	})
	reg("And", func(in *Interp, a []Value) Value {
		var r Value = true
		for _, x := range goStrings(a[0]) {
			r = in.and(r, x)
		}
		return r
	})
	reg("Or", func(in *Interp, a []Value) Value {
		var r Value = false
		for _, x := range goStrings(a[0]) {
			r = in.or(r, x)
		}
		return r
	})
	reg("Not", func(in *Interp, a []Value) Value { return in.not(a[0]) })
	reg("Imp", func(in *Interp, a []Value) Value { return in.or(in.not(a[0]), a[1]) })
	reg("Iff", func(in *Interp, a []Value) Value { return in.eq(in.asTermV(a[0]), in.asTermV(a[1])) })
	reg("IteStr", func(in *Interp, a []Value) Value {
		c, ok := a[0].(*Term)
		if !ok {
			if a[0].(bool) {
				return a[1]
			}
			return a[2]
		}
		x, y := strBytes(a[1]), strBytes(a[2])
		if len(x) != len(y) {
			if in.p.branch(c) {
				return a[1]
			}
			return a[2]
		}
		out := make([]Value, len(x))
		for i := range x {
			t := in.ts.Ite(c, in.byteTerm(x[i]), in.byteTerm(y[i]))
			if t.isC() {
				out[i] = byte(t.k)
			} else {
				out[i] = t
			}
		}
		return mkStr(out)
	})
	reg("IteInt", func(in *Interp, a []Value) Value {
		c, ok := a[0].(*Term)
		if !ok {
			if a[0].(bool) {
				return a[1]
			}
			return a[2]
		}
		return norm(in.ts.Ite(c, in.toTerm(a[1], 64), in.toTerm(a[2], 64)), types.Int)
	})
	reg("Split", func(in *Interp, a []Value) Value { return in.truth(a[0]) })
	reg("MapOrder", func(in *Interp, a []Value) Value {
		in.mapMode = in.index(a[0])
		in.mapDev = 1
		if in.h.run.deep {
			in.mapDev = 2
		}
		if in.mapMode != 0 {
			in.h.run.ordered()
		}
		return nil
	})
	reg("Thorough", func(in *Interp, a []Value) Value { return in.h.run.deep })
	reg("Setenv", func(in *Interp, a []Value) Value { in.env[in.conc(a[0])] = a[1]; return nil })
	reg("Unsetenv", func(in *Interp, a []Value) Value { delete(in.env, in.conc(a[0])); return nil })
	reg("Run", func(in *Interp, a []Value) Value { return in.runTool(goStrings(a[0])) })
	reg("WriteFile", func(in *Interp, a []Value) Value { in.mustWrite(a[0], a[1]); return nil })
	reg("WriteJSON", func(in *Interp, a []Value) Value {
		in.mustWrite(a[0], mkStr([]Value{&Blob{"json", in.encode(a[1].(Iface), "json")}}))
		return nil
	})
	reg("Full", func(in *Interp, a []Value) Value {
		in.mustWrite(a[0], "")
		in.vfsFind(a[0]).full = true
		return nil
	})
	reg("Later", func(in *Interp, a []Value) Value { in.clock += 500; return nil })
	reg("Mkdir", func(in *Interp, a []Value) Value { in.mkdirAll(a[0]); return nil })
	reg("ReadFile", func(in *Interp, a []Value) Value {
		name := a[0]
		c, err := in.readFile(name)
		if err.t != nil {
			in.logf(func(m Model) string { return "READ " + in.evalStr(name, m) + " none" })
			return Tuple{"", false}
		}
		in.logf(func(m Model) string {
			s := in.evalStr(c, m)
			if in.h.run.opt.trace {
				fmt.Printf("---- %s\n%s\n----\n", in.evalStr(name, m), s)
			}
			if strings.Contains(s, "<document>") {
				return "READ " + in.evalStr(name, m) + " *"
			}
			return fmt.Sprintf("READ %s %x", in.evalStr(name, m), sha256.Sum256([]byte(s)))
		})
		return Tuple{c, true}
	})
	rd := func(kind string) intrFn {
		return func(in *Interp, a []Value) Value {
			c, err := in.readFile(a[0])
			if err.t != nil {
				return false
			}
			b := strBytes(c)
			bl, ok := Value(nil), false
			if len(b) == 1 {
				bl, ok = b[0], true
			}
			if x, isB := bl.(*Blob); !ok || !isB || x.kind != kind {
				if kind == "yaml" || !isConc(c) {
					return false
				}
			}
			e := in.unmarshal(b, a[1].(Iface), kind).(Iface)
			return e.t == nil
		}
	}
	reg("ReadJSON", rd("json"))
	reg("ReadYAML", rd("yaml"))
	reg("ReadXLSX", func(in *Interp, a []Value) Value {
		c, err := in.readFile(a[0])
		if err.t != nil {
			return Tuple{[]Value(nil), false}
		}
		if b := strBytes(c); len(b) == 1 {
			if bl, ok := b[0].(*Blob); ok {
				if d, ok := bl.v.(*xlsxDoc); ok {
					var out []Value
					for _, s := range d.sheets {
						var rows []Value
						for _, r := range s.rows {
							rows = append(rows, append([]Value(nil), r...))
						}
						out = append(out, Struct{s.name, rows})
					}
					return Tuple{out, true}
				}
			}
		}
		return Tuple{[]Value(nil), false}
	})
	reg("WriteXLSX", func(in *Interp, a []Value) Value {
		d := &xlsxDoc{}
		for _, s := range a[1].([]Value) {
			st := s.(Struct)
			sh := xlsxSheet{name: st[0]}
			for _, r := range st[1].([]Value) {
				sh.rows = append(sh.rows, append([]Value(nil), r.([]Value)...))
			}
			d.sheets = append(d.sheets, sh)
		}
		in.mustWrite(a[0], mkStr([]Value{&Blob{"xlsx", d}}))
		return nil
	})
	reg("SameFile", func(in *Interp, a []Value) Value {
		x, e1 := in.readFile(a[0])
		y, e2 := in.readFile(a[1])
		if e1.t != nil || e2.t != nil {
			return (e1.t != nil) == (e2.t != nil)
		}
		bx, by := strBytes(x), strBytes(y)
		if len(bx) == 1 && len(by) == 1 {
			p, ok1 := bx[0].(*Blob)
			q, ok2 := by[0].(*Blob)
			if ok1 != ok2 {
				return false
			}
			if ok1 {
				return in.blobEq(p, q)
			}
		}
		return in.eqBytes(bx, by)
	})
	reg("Files", func(in *Interp, a []Value) Value {
		var names []Value
		for _, f := range in.vfs.files {
			if !f.dir {
				names = append(names, f.name)
			}
		}
		for _, n := range names {
			if !isConc(n) {
				// sort with symbolic comparisons
				for i := range names {
					for j := i + 1; j < len(names); j++ {
						if in.truth(in.strLess(names[j], names[i])) {
							names[i], names[j] = names[j], names[i]
						}
					}
				}
				return names
			}
		}
		sort.Slice(names, func(i, j int) bool { return names[i].(string) < names[j].(string) })
		return names
	})
	reg("Note", func(in *Interp, a []Value) Value { return nil })
	reg("Main", func(in *Interp, a []Value) Value { unsup("vk.Main"); return nil })
}

func (in *Interp) asTermV(v Value) Value {
	if t, ok := v.(*Term); ok {
		return t
	}
	return in.asTerm(v)
}

func (in *Interp) mustWrite(name, c Value) {
	if e := in.writeFile(name, c); e.t != nil {
		unsup("harness cannot write its input file")
	}
}

// assert decides one obligation on the current path for every value of its variables.
func (in *Interp) assert(c Value, label string) {
	p := in.p
	h := in.h
	h.asserts++
	h.run.countAssert(label)
	in.logf(func(m Model) string {
		v := false
		switch x := c.(type) {
		case bool:
			v = x
		case *Term:
			v = in.ts.Eval(x, m, map[*Term]uint64{}) == 1
		}
		return fmt.Sprintf("ASSERT %s=%v", label, v)
	})
	if len(p.trace) < len(p.prefix) {
		return // already decided on the path this one split from
	}
	ct := in.asTerm(c)
	neg := in.ts.Not(ct)
	if neg.isC() && neg.k == 0 {
		h.run.discharged(label, true)
		return
	}
	var tags []*Term
	type kt struct {
		id string
		t  *Term
	}
	var ks []kt
	for _, f := range h.run.known {
		if f.Fixed != "" || f.Label != label {
			continue
		}
		tv, ok := h.tags[f.Tag]
		if f.Tag == "" {
			tv, ok = true, true
		}
		if !ok {
			continue
		}
		t := in.asTerm(tv)
		tags = append(tags, t)
		ks = append(ks, kt{f.ID, t})
	}
	q := in.ts.And(neg, in.ts.Not(in.ts.Or(tags...)))
	if len(tags) == 0 {
		q = neg
	}
	if h.run.wants(label, "") || !(q.isC() && q.k == 0) {
		res, m := p.decide(q)
		switch res {
		case Sat:
			h.run.violation(Violation{Harness: h.run.name, Label: label, Model: m})
			h.run.discharged(label, false)
		case Unknown:
			reduced("solver unknown at an assertion: " + label)
		default:
			h.run.discharged(label, true)
		}
	}
	for _, k := range ks {
		if !h.run.wants(label, k.id) {
			continue
		}
		if res, m := p.decide(in.ts.And(neg, k.t)); res == Sat {
			h.run.violation(Violation{Harness: h.run.name, Label: label, Known: k.id, Model: m})
		}
	}
}

// decide asks the solver for PC ∧ t. Only a concrete witness on the current model skips it.
func (p *Path) decide(t *Term) (SatRes, Model) {
	if t.isC() && t.k == 0 {
		return Unsat, nil
	}
	if t.isC() || p.ts.Eval(t, p.model, map[*Term]uint64{}) == 1 {
		m := p.copyModel()
		return Sat, m
	}
	res, sub := p.sol.Check(append(p.relevant(t), t))
	if res != Sat {
		return res, nil
	}
	m := p.copyModel()
	for k, v := range sub {
		m[k] = v
	}
	return Sat, m
}
