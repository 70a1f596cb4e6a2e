package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// statType is the dynamic type of os.Stat results.
var statType types.Type = types.NewNamed(types.NewTypeName(0, nil, "verif.fileInfo", nil), types.Typ[types.Int], nil)

// rtypeType is the dynamic type of reflect.TypeOf results.
var rtypeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "verif.rtype", nil), types.Typ[types.Int], nil)

func nativeMethod(in *Interp, t types.Type, name string) (NFunc, bool) {
	switch t {
	case statType:
		return NFunc{"fileInfo." + name, func(in *Interp, a []Value) Value {
			f := a[0].(Native).v.(*vfile)
			switch name {
			case "IsDir":
				return f.dir
			case "Size":
				return int64(strLen(f.content))
			case "Name":
				return in.pathPart(f.name, filepath.Base)
			case "Mode", "Type":
				m := uint32(0644)
				if f.dir {
					m = 1<<31 | 0755
				}
				if name == "Type" {
					m &= 1 << 31
				}
				return m
			case "ModTime":
				return intrinsics["time.Now"](in, nil)
			case "Info":
				return Tuple{Iface{t: statType, v: a[0]}, nilErr}
			}
			unsup("FileInfo.%s", name)
			return nil
		}}, true
	case rtypeType:
		return NFunc{"rtype." + name, func(in *Interp, a []Value) Value {
			if name == "String" {
				return a[0].(Native).v.(string)
			}
			unsup("reflect.Type.%s", name)
			return nil
		}}, true
	}
	if t == errT && t != nil {
		return NFunc{"runtime.Error." + name, func(in *Interp, a []Value) Value {
			if name == "Error" {
				return a[0]
			}
			return nil
		}}, true
	}
	return NFunc{}, false
}

// ---- coverage of forks (debugging aid) and reductions ----

type forkProfile struct {
	sync.Mutex
	m map[string]int
}

func (f *forkProfile) add(fn, pos string) {
	f.Lock()
	f.m[fn+" "+pos]++
	f.Unlock()
}

var coverage bool

// dumpCoverage appends what of the repository's blocks and branches was executed to a file.
func (P *Program) dumpCoverage(path string) {
	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	for fn := range ssautil.AllFunctions(P.prog) {
		if fn.Synthetic != "" || fn.Blocks == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), P.modPath) || strings.Contains(fn.Pkg.Pkg.Path(), "zz_verif") {
			continue
		}
		fi := P.info(fn)
		for i := range fi.blocks {
			b := &fi.blocks[i]
			pos := ""
			br := ""
			for _, x := range b.block.Instrs {
				if c, ok := x.(*ssa.If); ok {
					br = P.prog.Fset.Position(c.Cond.Pos()).String()
				} else if x.Pos().IsValid() && pos == "" {
					pos = P.prog.Fset.Position(x.Pos()).String()
				}
			}
			fmt.Fprintf(f, "%s\t%d\t%s\t%d\t%s\t%d\t%d\n", fi.name, i, pos, b.seen[2], br, b.seen[0], b.seen[1])
		}
	}
}

func (f *forkProfile) dump() {
	var ks []string
	for k := range f.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return f.m[ks[i]] > f.m[ks[j]] })
	for i, k := range ks {
		if i > 40 {
			break
		}
		fmt.Printf("  fork %6d %s\n", f.m[k], k)
	}
}

var profile *forkProfile

var reductions = struct {
	sync.Mutex
	m map[string]int
}{m: map[string]int{}}

// reduced records that part of the space was left out.
func reduced(msg string) {
	reductions.Lock()
	reductions.m[msg]++
	reductions.Unlock()
}

// ---- third party libraries replaced by their contract ----

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s", name)
	return -1
}

type xlsxSheet struct {
	name Value
	rows [][]Value
}

type xlsxDoc struct{ sheets []xlsxSheet }

func (in *Interp) xlsxEq(a, b *xlsxDoc) Value {
	if len(a.sheets) != len(b.sheets) {
		return false
	}
	var r Value = true
	for i := range a.sheets {
		x, y := a.sheets[i], b.sheets[i]
		if len(x.rows) != len(y.rows) {
			return false
		}
		r = in.and(r, in.strEq(x.name, y.name))
		for j := range x.rows {
			if len(x.rows[j]) != len(y.rows[j]) {
				return false
			}
			for k := range x.rows[j] {
				r = in.and(r, in.strEq(x.rows[j][k], y.rows[j][k]))
			}
		}
	}
	return r
}

func (in *Interp) namedType(pkg, name string) types.Type {
	p := in.P.pkgs[pkg]
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

const xlsxPath = "github.com/tealeg/xlsx"

func (in *Interp) structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func (in *Interp) newObj(t types.Type, set map[string]Value) Ptr {
	st := in.structOf(t)
	v := zero(t).(Struct)
	for k, x := range set {
		v[fieldIndex(st, k)] = x
	}
	var val Value = v
	return Ptr(&val)
}

func getField(t *types.Struct, p Value, name string) Value {
	q := p.(Ptr)
	return (*q).(Struct)[fieldIndex(t, name)]
}

func registerMisc(I map[string]intrFn) {
	I["(*"+xlsxPath+".File).Save"] = func(in *Interp, a []Value) Value {
		fT, sT := in.structOf(in.namedType(xlsxPath, "File")), in.structOf(in.namedType(xlsxPath, "Sheet"))
		rT, cT := in.structOf(in.namedType(xlsxPath, "Row")), in.structOf(in.namedType(xlsxPath, "Cell"))
		doc := &xlsxDoc{}
		for _, s := range getField(fT, a[0], "Sheets").([]Value) {
			sh := xlsxSheet{name: getField(sT, s, "Name")}
			for _, r := range getField(sT, s, "Rows").([]Value) {
				var row []Value
				for _, c := range getField(rT, r, "Cells").([]Value) {
					row = append(row, getField(cT, c, "Value"))
				}
				sh.rows = append(sh.rows, row)
			}
			doc.sheets = append(doc.sheets, sh)
		}
		if len(doc.sheets) == 0 {
			return in.errf("Workbook must contains atleast one worksheet")
		}
		return in.writeFile(a[1], mkStr([]Value{&Blob{"xlsx", doc}}))
	}
	I[xlsxPath+".OpenFile"] = func(in *Interp, a []Value) Value {
		fN, sN, rN, cN := in.namedType(xlsxPath, "File"), in.namedType(xlsxPath, "Sheet"), in.namedType(xlsxPath, "Row"), in.namedType(xlsxPath, "Cell")
		c, err := in.readFile(a[0])
		if err.t != nil {
			return Tuple{Ptr(nil), err}
		}
		b := strBytes(c)
		var doc *xlsxDoc
		if len(b) == 1 {
			if bl, ok := b[0].(*Blob); ok {
				doc, _ = bl.v.(*xlsxDoc)
			}
		}
		if doc == nil {
			return Tuple{Ptr(nil), in.errf("zip: not a valid zip file")}
		}
		sheets := []Value{}
		byName := newMap()
		for _, s := range doc.sheets {
			sp := in.newObj(sN, map[string]Value{"Name": s.name})
			rows := []Value{}
			maxc := 0
			for _, r := range s.rows {
				cells := []Value{}
				rp := in.newObj(rN, map[string]Value{"Sheet": sp})
				for _, x := range r {
					cells = append(cells, in.newObj(cN, map[string]Value{"Value": x, "Row": rp}))
				}
				if len(cells) > maxc {
					maxc = len(cells)
				}
				(*rp).(Struct)[fieldIndex(in.structOf(rN), "Cells")] = cells
				rows = append(rows, rp)
			}
			st := (*sp).(Struct)
			st[fieldIndex(in.structOf(sN), "Rows")] = rows
			st[fieldIndex(in.structOf(sN), "MaxRow")] = len(rows)
			st[fieldIndex(in.structOf(sN), "MaxCol")] = maxc
			sheets = append(sheets, sp)
			in.mapSet(byName, s.name, sp)
		}
		fp := in.newObj(fN, map[string]Value{"Sheets": sheets, "Sheet": byName})
		for _, s := range sheets {
			(*(s.(Ptr))).(Struct)[fieldIndex(in.structOf(sN), "File")] = fp
		}
		return Tuple{fp, nilErr}
	}
	I["reflect.TypeOf"] = func(in *Interp, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{rtypeType, Native{types.TypeString(i.t, func(p *types.Package) string { return p.Name() })}}
	}
	deep := func(in *Interp, a []Value) Value {
		if len(goStrings(a[2])) > 0 {
			unsup("cmp options")
		}
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return in.deepEq(x.t, x.v, y.v, 0)
	}
	I["reflect.DeepEqual"] = func(in *Interp, a []Value) Value { return deep(in, []Value{a[0], a[1], []Value(nil)}) }
	I["github.com/google/go-cmp/cmp.Equal"] = deep
	I["github.com/google/go-cmp/cmp.Diff"] = func(in *Interp, a []Value) Value {
		if in.truth(deep(in, a)) {
			return ""
		}
		return "(difference)"
	}
	I["github.com/gertd/go-pluralize.NewClient"] = func(in *Interp, a []Value) Value {
		v := Value(Native{"pluralize"})
		return Ptr(&v)
	}
	for _, m := range []string{"Plural", "Singular", "IsPlural", "IsSingular"} {
		m := m
		I["(*github.com/gertd/go-pluralize.Client)."+m] = func(in *Interp, a []Value) Value {
			r := helperCall(map[string]any{"op": "pluralize", "method": m, "word": in.conc(a[1])})
			if s, ok := r["str"].(string); ok {
				return s
			}
			return r["bool"].(bool)
		}
	}
}

// deepEq is go-cmp equality for plain data.
func (in *Interp) deepEq(t types.Type, a, b Value, depth int) Value {
	if depth > 100 {
		unsup("deep comparison of cyclic data")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return in.eq(a, b)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == nil || q == nil {
			return p == nil && q == nil
		}
		if p == q {
			return true
		}
		return in.deepEq(u.Elem(), *p, *q, depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				in.rtPanic("consider using cmpopts.EquateComparable: unexported field")
			}
			r = in.and(r, in.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEq(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			o := in.mapFind(y, e.k)
			if o == nil {
				return false
			}
			r = in.and(r, in.deepEq(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return in.deepEq(x.t, x.v, y.v, depth+1)
	}
	unsup("deep comparison of %s", t)
	return nil
}

var _ *ssa.Function
