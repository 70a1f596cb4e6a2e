package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- shared, immutable program data ----

type Program struct {
	prog    *ssa.Program
	mainPkg *ssa.Package // package under test (root main)
	harness *ssa.Package
	modPath string
	mu      sync.Mutex
	fns     sync.Map // *ssa.Function -> *fnInfo
	canon   typeutil.Map
	canonMu sync.Mutex
	hasher  typeutil.Hasher
	impl    sync.Map // [2]types.Type -> bool
	meth    sync.Map // methKey -> *ssa.Function
	pkgs    map[string]*ssa.Package
	tcache  sync.Map // types.Type -> canonical
}

func (P *Program) canonType(t types.Type) types.Type {
	if c, ok := P.tcache.Load(t); ok {
		return c.(types.Type)
	}
	P.canonMu.Lock()
	defer P.canonMu.Unlock()
	c := P.canon.At(t)
	if c == nil {
		P.canon.Set(t, t)
		c = t
	}
	P.tcache.Store(t, c)
	return c.(types.Type)
}

type operand struct {
	slot int // >=0: register
	val  Value
	glob *ssa.Global
	cnst *ssa.Const // aggregate constant, rebuilt on use
}

type cinstr struct {
	instr ssa.Instruction
	dst   int
	ops   []operand
	kind  types.BasicKind // result/operand basic kind for BinOp/UnOp/Convert
	typ   types.Type      // canonical type where needed
	aux   any
}

type cblock struct {
	ins   []cinstr
	nphi  int
	block *ssa.BasicBlock
	// debugging aid: outcomes of the branch that ends the block, and entries
	seen [3]uint32
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	blocks []cblock
	nregs  int
	params []int
	fvs    []int
	defers bool
	intr   func(in *Interp, args []Value) Value
	std    bool // not repository code
	repo   bool
	isInit bool
}

type methKey struct {
	t    types.Type
	pkg  *types.Package
	name string
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := P.fns.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := P.compile(fn)
	x, _ := P.fns.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

func (P *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String()}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg != nil {
		P.mu.Lock()
		pkg.Build()
		P.mu.Unlock()
		path := pkg.Pkg.Path()
		fi.repo = path == P.modPath || strings.HasPrefix(path, P.modPath+"/format") || strings.HasPrefix(path, P.modPath+"/util")
		fi.std = !strings.HasPrefix(path, P.modPath)
	}
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		fi.intr = f
		return fi
	}
	if f := intrinsicByPrefix(name); f != nil {
		fi.intr = f
		return fi
	}
	fi.isInit = fn.Synthetic == "package initializer"
	if fn.Blocks == nil {
		fi.intr = func(in *Interp, args []Value) Value {
			unsup("function without body: %s", name)
			return nil
		}
		return fi
	}
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		s := fi.nregs
		fi.nregs++
		slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.fvs = append(fi.fvs, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.block = b
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{instr: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var rands [8]*ssa.Value
			for _, op := range ins.Operands(rands[:0]) {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, operand{slot: -1})
					continue
				}
				ci.ops = append(ci.ops, P.operand(*op, slots))
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				cb.nphi++
			case *ssa.BinOp:
				ci.kind = basicKind(x.X.Type())
			case *ssa.UnOp:
				ci.kind = basicKind(x.Type())
			case *ssa.Convert:
				ci.kind = basicKind(x.Type())
			case *ssa.MakeInterface:
				ci.typ = P.canonType(x.X.Type())
			case *ssa.TypeAssert:
				ci.typ = P.canonType(x.AssertedType)
			case *ssa.Defer:
				fi.defers = true
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	return fi
}

func (P *Program) operand(v ssa.Value, slots map[ssa.Value]int) operand {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Tuple:
				return operand{slot: -2, cnst: x}
			}
			if _, ok := x.Type().(*types.TypeParam); ok {
				return operand{slot: -2, cnst: x}
			}
			return operand{slot: -1, val: zero(x.Type())}
		}
		return operand{slot: -1, val: constValue(x)}
	case *ssa.Global:
		return operand{slot: -3, glob: x}
	case *ssa.Function:
		return operand{slot: -1, val: x}
	case *ssa.Builtin:
		return operand{slot: -1, val: x}
	}
	s, ok := slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s %T", v, v))
	}
	return operand{slot: s}
}

func constValue(c *ssa.Const) Value {
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if _, ok := t.(*types.Interface); ok {
			panic("interface const")
		}
		panic(fmt.Sprintf("constValue: %s", c))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		_, signed, _ := kindWidth(b.Kind())
		if signed {
			return fromBits(b.Kind(), uint64(c.Int64()))
		}
		return fromBits(b.Kind(), c.Uint64())
	case b.Kind() == types.Float32:
		return float32(c.Float64())
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

// ---- interpreter ----

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v     Value
	where string
}

func (in *Interp) stack() string {
	s := ""
	n := 0
	for f := in.cur; f != nil && n < 6; f = f.caller {
		s += " < " + f.fi.name
		n++
	}
	return s
}

type runExit struct{ code int } // os.Exit of the interpreted program

type frame struct {
	in     *Interp
	fi     *fnInfo
	regs   []Value
	defers []func()
	result Value
	caller *frame
	panic_ *targetPanic // active panic while running deferred calls
	inDef  bool
	recov  bool
}

type Interp struct {
	P       *Program
	ts      *TermStore
	p       *Path
	glob    map[*ssa.Global]Ptr // per run
	shared  map[*ssa.Global]Ptr // standard library globals, kept across paths
	inited  map[*ssa.Package]bool
	sinited map[*ssa.Package]bool
	steps   int64
	maxStep int64
	depth   int
	cur     *frame
	vfs     *VFS
	env     map[string]Value
	penv    map[string]Value // what the running process changed
	clock   int              // readings of the clock
	args    []Value
	reached map[string]bool // functions of the repository that were executed
	h       *HarnessState
	mapMode int
	mapDev  int
	memo    map[string]any
	inRun   bool
}

func (in *Interp) rtPanic(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(targetPanic{Iface{t: in.P.errType(), v: "runtime error: " + msg}, in.stack()})
}

// errType is a named string type used for run-time errors.
var errT types.Type

func (P *Program) errType() types.Type {
	P.canonMu.Lock()
	defer P.canonMu.Unlock()
	if errT == nil {
		errT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtime.Error", nil), types.Typ[types.String], nil)
	}
	return errT
}

func (in *Interp) global(g *ssa.Global) Ptr {
	pkg := g.Pkg
	sh := in.isShared(pkg)
	tab := in.glob
	if sh {
		tab = in.shared
	}
	if p, ok := tab[g]; ok {
		return p
	}
	in.initPkg(pkg)
	if p, ok := tab[g]; ok {
		return p
	}
	v := zero(g.Type().(*types.Pointer).Elem())
	p := Ptr(&v)
	tab[g] = p
	return p
}

// isShared tells whether a package's globals are kept for the life of the worker.
func (in *Interp) isShared(pkg *ssa.Package) bool {
	switch pkg.Pkg.Path() {
	case "unicode", "strconv", "unicode/utf8", "math", "math/bits", "internal/bytealg", "sort", "slices", "strings", "bytes", "errors", "io", "path", "path/filepath", "internal/stringslite", "encoding/binary":
		return true
	}
	return false
}

func (in *Interp) initPkg(pkg *ssa.Package) {
	sh := in.isShared(pkg)
	done := in.inited
	if sh {
		done = in.sinited
	}
	if done[pkg] {
		return
	}
	done[pkg] = true
	if f, ok := pkgInits[pkg.Pkg.Path()]; ok {
		f(in, pkg)
		return
	}
	in.P.mu.Lock()
	pkg.Build()
	in.P.mu.Unlock()
	if init := pkg.Func("init"); init != nil {
		in.runBody(in.P.info(init), nil, nil)
	}
}

// setGlobal assigns a package-level variable by name (used by pkgInits).
func (in *Interp) setGlobal(pkg *ssa.Package, name string, v Value) {
	g := pkg.Var(name)
	if g == nil {
		return
	}
	tab := in.glob
	if in.isShared(pkg) {
		tab = in.shared
	}
	nv := v
	tab[g] = &nv
}

func (fr *frame) get(o *operand) Value {
	switch o.slot {
	case -1:
		return o.val
	case -2:
		return zero(o.cnst.Type())
	case -3:
		return fr.in.global(o.glob)
	}
	return fr.regs[o.slot]
}

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	fi := in.P.info(fn)
	if fi.intr != nil {
		return fi.intr(in, args)
	}
	if fi.isInit {
		// other packages are initialised on first use of one of their variables
		if fi.repo {
			in.initPkg(fn.Pkg)
		}
		return nil
	}
	return in.runBody(fi, args, env)
}

func (in *Interp) runBody(fi *fnInfo, args []Value, env []Value) Value {
	if fi.repo {
		in.reached[fi.name] = true
	}
	in.depth++
	if in.depth > 3000 {
		unsup("call depth bound exceeded in %s", fi.name)
	}
	fr := &frame{in: in, fi: fi, regs: make([]Value, fi.nregs), caller: in.cur}
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fi.fvs {
		fr.regs[s] = env[i]
	}
	in.cur = fr
	d := in.depth
	if fi.defers {
		fr.runDeferring(d)
	} else {
		fr.run(0)
	}
	in.depth = d - 1
	in.cur = fr.caller
	return fr.result
}

func (fr *frame) runDeferring(depth int) {
	in := fr.in
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.cur = fr
				in.depth = depth
				fr.panic_ = &tp
				fr.rundefers()
				if fr.panic_ != nil {
					panic(*fr.panic_)
				}
				fr.recov = true
			}
		}()
		fr.run(0)
	}()
	if fr.recov {
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.run(rb.Index)
		} else {
			fr.result = zero(fr.fi.fn.Signature.Results())
			if fr.fi.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			} else if fr.fi.fn.Signature.Results().Len() == 1 {
				fr.result = fr.result.(Tuple)[0]
			}
		}
	}
}

func (fr *frame) rundefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.in.cur = fr
					fr.panic_ = &tp
				}
			}()
			d()
		}()
	}
}

func (fr *frame) run(start int) {
	in := fr.in
	blocks := fr.fi.blocks
	cur := start
	prev := -1
	for {
		b := &blocks[cur]
		i := 0
		if b.nphi > 0 {
			var idx int
			for k, pr := range b.block.Preds {
				if pr.Index == prev {
					idx = k
					break
				}
			}
			if b.nphi == 1 {
				fr.regs[b.ins[0].dst] = fr.get(&b.ins[0].ops[idx])
			} else {
				var tmp [16]Value
				vals := tmp[:0]
				for k := 0; k < b.nphi; k++ {
					vals = append(vals, fr.get(&b.ins[k].ops[idx]))
				}
				for k := 0; k < b.nphi; k++ {
					fr.regs[b.ins[k].dst] = vals[k]
				}
			}
			i = b.nphi
		}
		n := len(b.ins)
		in.steps += int64(n)
		if coverage {
			atomic.StoreUint32(&b.seen[2], 1)
		}
		if in.steps > in.maxStep {
			unsup("step bound exceeded (unwinding) in %s", fr.fi.name)
		}
		jumped := false
		for ; i < n; i++ {
			ci := &b.ins[i]
			switch x := ci.instr.(type) {
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				t, ok := c.(bool)
				if !ok {
					in.p.onFork = nil
					t = in.forkAt(c.(*Term), fr, x)
				}
				prev = cur
				if coverage {
					if t {
						atomic.StoreUint32(&b.seen[1], 1)
					} else {
						atomic.StoreUint32(&b.seen[0], 1)
					}
				}
				if t {
					cur = b.block.Succs[0].Index
				} else {
					cur = b.block.Succs[1].Index
				}
				jumped = true
			case *ssa.Jump:
				prev = cur
				cur = b.block.Succs[0].Index
				jumped = true
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					r := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						r[k] = fr.get(&ci.ops[k])
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				panic(targetPanic{fr.get(&ci.ops[0]), in.stack()})
			case *ssa.RunDefers:
				fr.rundefers()
				if fr.panic_ != nil {
					panic(*fr.panic_)
				}
			default:
				in.exec(fr, ci)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("block without terminator")
		}
	}
}

func (in *Interp) forkAt(c *Term, fr *frame, x *ssa.If) bool {
	f0 := in.p.forks
	r := in.p.branch(c)
	if in.p.forks != f0 && profile != nil {
		profile.add(fr.fi.name, in.P.prog.Fset.Position(x.Cond.Pos()).String())
	}
	return r
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	set := func(v Value) { fr.regs[ci.dst] = v }
	op := func(i int) Value { return fr.get(&ci.ops[i]) }
	switch x := ci.instr.(type) {
	case *ssa.Alloc:
		v := zero(x.Type().(*types.Pointer).Elem())
		p := new(Value)
		*p = v
		set(Ptr(p))
	case *ssa.UnOp:
		set(in.unop(x, ci.kind, op(0)))
	case *ssa.BinOp:
		set(in.binop(x.Op, ci.kind, op(0), op(1), x.X.Type()))
	case *ssa.Store:
		addr, _ := op(0).(Ptr)
		if addr == nil {
			in.nilDeref()
		}
		store(addr, op(1))
	case *ssa.FieldAddr:
		p, _ := op(0).(Ptr)
		if p == nil {
			in.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			unsup("field access on %T in %s (%s)", *p, fr.fi.name, x)
		}
		set(Ptr(&s[x.Field]))
	case *ssa.Field:
		s, ok := op(0).(Struct)
		if !ok {
			unsup("field of %T in %s", op(0), fr.fi.name)
		}
		set(s[x.Field])
	case *ssa.IndexAddr:
		idx := in.index(op(1))
		switch s := op(0).(type) {
		case []Value:
			if idx < 0 || idx >= len(s) {
				in.rtPanic("index out of range [%d] with length %d", idx, len(s))
			}
			set(Ptr(&s[idx]))
		case Ptr:
			if s == nil {
				in.nilDeref()
			}
			a := (*s).(Array)
			if idx < 0 || idx >= len(a) {
				in.rtPanic("index out of range [%d] with length %d", idx, len(a))
			}
			set(Ptr(&a[idx]))
		default:
			unsup("IndexAddr on %T", s)
		}
	case *ssa.Index:
		switch s := op(0).(type) {
		case Array:
			if t, ok := op(1).(*Term); ok {
				if r := in.symIndex([]Value(s), t); r != nil {
					set(r)
					return
				}
			}
			idx := in.index(op(1))
			if idx < 0 || idx >= len(s) {
				in.rtPanic("index out of range [%d] with length %d", idx, len(s))
			}
			set(s[idx])
		case string, *SStr:
			idx := in.index(op(1))
			if idx < 0 || idx >= strLen(s) {
				in.rtPanic("index out of range [%d] with length %d", idx, strLen(s))
			}
			set(strAt(s, idx))
		default:
			unsup("Index on %T", s)
		}
	case *ssa.Lookup:
		switch m := op(0).(type) {
		case string, *SStr:
			idx := in.index(op(1))
			if idx < 0 || idx >= strLen(m) {
				in.rtPanic("index out of range [%d] with length %d", idx, strLen(m))
			}
			set(strAt(m, idx))
		case *Map:
			e := in.mapFind(m, op(1))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				set(Tuple{v, e != nil})
			} else {
				set(v)
			}
		default:
			unsup("Lookup on %T", m)
		}
	case *ssa.MapUpdate:
		in.mapSet(op(0).(*Map), op(1), copyVal(op(2)))
	case *ssa.MakeMap:
		set(newMap())
	case *ssa.MakeSlice:
		n := in.index(op(0))
		c := in.index(op(1))
		if n < 0 || c < n {
			in.rtPanic("makeslice: len out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		for i := range s {
			s[i] = zero(et)
		}
		set(s[:n])
	case *ssa.Slice:
		set(in.slice(x, op(0), ci, fr))
	case *ssa.Range:
		switch m := op(0).(type) {
		case *Map:
			it := &mapIter{m: m}
			if m != nil {
				for _, e := range m.ents {
					if !e.dead {
						it.rest = append(it.rest, e)
					}
				}
				if len(it.rest) > 1 && fr.fi.repo {
					switch in.mapMode {
					case 1:
						for i, j := 0, len(it.rest)-1; i < j; i, j = i+1, j-1 {
							it.rest[i], it.rest[j] = it.rest[j], it.rest[i]
						}
					case 2:
						it.permute = true
					case 3:
						if in.mapDev > 0 {
							if k := in.choice("maporder", len(it.rest)); k > 0 {
								in.mapDev--
								it.rest = append(append([]*mapEnt{}, it.rest[k:]...), it.rest[:k]...)
							}
						}
					}
				}
			}
			set(iter(it))
		case string, *SStr:
			set(iter(&strIter{b: strBytes(m)}))
		default:
			unsup("range over %T", m)
		}
	case *ssa.Next:
		set(op(0).(iter).next(in))
	case *ssa.Extract:
		set(op(0).(Tuple)[x.Index])
	case *ssa.MakeInterface:
		set(Iface{t: ci.typ, v: op(0)})
	case *ssa.ChangeInterface:
		set(op(0))
	case *ssa.ChangeType:
		set(op(0))
	case *ssa.Convert:
		set(in.convert(op(0), x.X.Type(), x.Type(), ci.kind))
	case *ssa.MultiConvert:
		unsup("MultiConvert in %s", fr.fi.name)
	case *ssa.TypeAssert:
		set(in.typeAssert(x, ci.typ, op(0)))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i := range env {
			env[i] = op(i + 1)
		}
		set(&Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.Call:
		set(in.doCall(fr, &x.Call, ci))
	case *ssa.Defer:
		fn, args := in.prepCall(fr, &x.Call, ci)
		fr.defers = append(fr.defers, func() { in.invoke(fn, args) })
	case *ssa.SliceToArrayPointer:
		s := op(0).([]Value)
		var a Value = Array(s)
		set(Ptr(&a))
	case *ssa.Go:
		unsup("goroutine started in %s", fr.fi.name)
	default:
		unsup("instruction %T in %s", x, fr.fi.name)
	}
}

// symIndex reads a constant table at a symbolic index as an ite chain when all entries are scalars.
func (in *Interp) symIndex(s []Value, t *Term) Value {
	if len(s) > 256 || len(s) == 0 {
		return nil
	}
	w := uint8(255)
	for _, v := range s {
		switch x := v.(type) {
		case bool:
			w = 0
		case uint8, int8:
			w = 8
		case uint16, int16:
			w = 16
		case *Term:
			w = x.w
		default:
			return nil
		}
	}
	inb := in.ts.Cmp(OUlt, t, in.ts.Const(t.w, uint64(len(s))))
	if len(s) < 256 || t.w > 8 {
		if !in.p.branch(inb) {
			in.rtPanic("index out of range")
		}
	}
	res := in.toTerm(s[len(s)-1], w)
	for i := len(s) - 2; i >= 0; i-- {
		e := in.toTerm(s[i], w)
		if e == res {
			continue
		}
		res = in.ts.Ite(in.ts.Eq(t, in.ts.Const(t.w, uint64(i))), e, res)
	}
	if res.isC() {
		switch s[0].(type) {
		case bool:
			return res.k == 1
		case uint8:
			return uint8(res.k)
		}
		return nil
	}
	return res
}

func strAt(s Value, i int) Value {
	switch x := s.(type) {
	case string:
		return x[i]
	case *SStr:
		return x.b[i]
	}
	panic("strAt")
}

func (in *Interp) nilDeref() {
	in.rtPanic("invalid memory address or nil pointer dereference")
}

func (in *Interp) index(v Value) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	case *Term:
		return int(sext(in.p.concretise(x), x.w))
	}
	return int(bitsOf(v))
}

func (in *Interp) slice(x *ssa.Slice, v Value, ci *cinstr, fr *frame) Value {
	// operand order: X, Low, High, Max
	get := func(i int, val ssa.Value) (int, bool) {
		if val == nil {
			return 0, false
		}
		return in.index(fr.get(&ci.ops[i])), true
	}
	lo, _ := get(1, x.Low)
	hi, hasHi := get(2, x.High)
	max, hasMax := get(3, x.Max)
	switch s := v.(type) {
	case string, *SStr:
		n := strLen(s)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			in.rtPanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
		return substr(s, lo, hi)
	case []Value:
		c := cap(s)
		if !hasHi {
			hi = len(s)
		}
		if !hasMax {
			max = c
		}
		if lo < 0 || hi > c || lo > hi || max > c || hi > max {
			in.rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c)
		}
		if s == nil {
			return s
		}
		return s[lo:hi:max]
	case Ptr:
		if s == nil {
			in.nilDeref()
		}
		a := []Value((*s).(Array))
		if !hasHi {
			hi = len(a)
		}
		if !hasMax {
			max = len(a)
		}
		if lo < 0 || hi > len(a) || lo > hi || max > len(a) || hi > max {
			in.rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, len(a))
		}
		return a[lo:hi:max]
	}
	unsup("slice of %T", v)
	return nil
}

func (in *Interp) unop(x *ssa.UnOp, k types.BasicKind, v Value) Value {
	switch x.Op {
	case token.MUL:
		p, _ := v.(Ptr)
		if p == nil {
			if _, ok := v.(Native); ok {
				unsup("load through native object")
			}
			in.nilDeref()
		}
		return copyVal(*p)
	case token.NOT:
		return in.not(v)
	case token.SUB:
		switch f := v.(type) {
		case float64:
			return -f
		case float32:
			return -f
		case *Term:
			return norm(in.ts.Bin(OSub, in.ts.Const(f.w, 0), f), k)
		}
		return fromBits(k, -bitsOf(v))
	case token.XOR:
		if t, ok := v.(*Term); ok {
			return norm(in.ts.BNot(t), k)
		}
		return fromBits(k, ^bitsOf(v))
	}
	unsup("unop %s", x.Op)
	return nil
}

func (in *Interp) binop(op token.Token, k types.BasicKind, a, b Value, t types.Type) Value {
	switch op {
	case token.EQL:
		return in.eqMixed(a, b)
	case token.NEQ:
		return in.not(in.eqMixed(a, b))
	}
	switch a.(type) {
	case string, *SStr:
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return in.not(in.strLess(b, a))
		case token.GEQ:
			return in.not(in.strLess(a, b))
		}
	case float64:
		return floatOp(op, a.(float64), b.(float64))
	case float32:
		r := floatOp(op, float64(a.(float32)), float64(b.(float32)))
		if f, ok := r.(float64); ok {
			return float32(f)
		}
		return r
	}
	w, signed, ok := kindWidth(k)
	if !ok {
		unsup("binop %s on %T", op, a)
	}
	_, sa := a.(*Term)
	_, sb := b.(*Term)
	if !sa && !sb {
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return a.(bool) && b.(bool)
			case token.OR, token.LOR:
				return a.(bool) || b.(bool)
			}
		}
		return in.intOp(op, k, w, signed, a, b)
	}
	var y *Term
	x := in.toTerm(a, w)
	if op == token.SHL || op == token.SHR {
		switch q := b.(type) {
		case *Term:
			y = in.ts.Resize(q, w, false)
			if q.w > w {
				unsup("wide symbolic shift count")
			}
		default:
			y = in.ts.Const(w, bitsOf(b))
		}
	} else {
		y = in.toTerm(b, w)
	}
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return boolVal(in.ts.And(x, y))
		case token.OR, token.LOR:
			return boolVal(in.ts.Or(x, y))
		}
	}
	sel := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return norm(in.ts.Bin(OAdd, x, y), k)
	case token.SUB:
		return norm(in.ts.Bin(OSub, x, y), k)
	case token.MUL:
		return norm(in.ts.Bin(OMul, x, y), k)
	case token.QUO, token.REM:
		if in.p.branch(in.ts.Eq(y, in.ts.Const(w, 0))) {
			in.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return norm(in.ts.Bin(sel(OSdiv, OUdiv), x, y), k)
		}
		return norm(in.ts.Bin(sel(OSrem, OUrem), x, y), k)
	case token.AND:
		return norm(in.ts.Bin(OBAnd, x, y), k)
	case token.OR:
		return norm(in.ts.Bin(OBOr, x, y), k)
	case token.XOR:
		return norm(in.ts.Bin(OBXor, x, y), k)
	case token.AND_NOT:
		return norm(in.ts.Bin(OBAnd, x, in.ts.BNot(y)), k)
	case token.SHL:
		return norm(in.ts.Bin(OShl, x, y), k)
	case token.SHR:
		return norm(in.ts.Bin(sel(OAshr, OLshr), x, y), k)
	case token.LSS:
		return boolVal(in.ts.Cmp(sel(OSlt, OUlt), x, y))
	case token.LEQ:
		return boolVal(in.ts.Cmp(sel(OSle, OUle), x, y))
	case token.GTR:
		return boolVal(in.ts.Cmp(sel(OSlt, OUlt), y, x))
	case token.GEQ:
		return boolVal(in.ts.Cmp(sel(OSle, OUle), y, x))
	}
	unsup("binop %s", op)
	return nil
}

func (in *Interp) eqMixed(a, b Value) Value {
	// comparison with nil constants of reference types
	switch x := a.(type) {
	case *Closure:
		if x == nil {
			return isNilFunc(b)
		}
		return false
	case *ssa.Function, NFunc:
		return false
	case []Value:
		y, _ := b.([]Value)
		return x == nil && y == nil
	}
	return in.eq(a, b)
}

func floatOp(op token.Token, a, b float64) Value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	unsup("float op %s", op)
	return nil
}

func (in *Interp) intOp(op token.Token, k types.BasicKind, w uint8, signed bool, a, b Value) Value {
	x, y := bitsOf(a)&wmask(w), bitsOf(b)
	if op == token.SHL || op == token.SHR {
		if op == token.SHL {
			return fromBits(k, evalBin(OShl, x, y, w))
		}
		if signed {
			return fromBits(k, sext(evalBin(OAshr, x, y, w), w))
		}
		return fromBits(k, evalBin(OLshr, x, y, w))
	}
	y &= wmask(w)
	res := func(o Op) Value {
		r := evalBin(o, x, y, w)
		if signed {
			r = sext(r, w)
		}
		return fromBits(k, r)
	}
	lt := func(p, q uint64) bool {
		if signed {
			return int64(sext(p, w)) < int64(sext(q, w))
		}
		return p < q
	}
	switch op {
	case token.ADD:
		return res(OAdd)
	case token.SUB:
		return res(OSub)
	case token.MUL:
		return res(OMul)
	case token.QUO, token.REM:
		if y == 0 {
			in.rtPanic("integer divide by zero")
		}
		o := OUdiv
		if op == token.REM {
			o = OUrem
		}
		if signed {
			o += 2
		}
		return res(o)
	case token.AND:
		return res(OBAnd)
	case token.OR:
		return res(OBOr)
	case token.XOR:
		return res(OBXor)
	case token.AND_NOT:
		y = ^y & wmask(w)
		return res(OBAnd)
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return !lt(y, x)
	case token.GEQ:
		return !lt(x, y)
	}
	unsup("int op %s", op)
	return nil
}

func (in *Interp) convert(v Value, from, to types.Type, k types.BasicKind) Value {
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Slice:
		// string -> []byte / []rune
		if isStr(v) {
			if basicKind(t.Elem()) == types.Uint8 {
				b := strBytes(v)
				return append(make([]Value, 0, len(b)), b...)
			}
			var out []Value
			b := strBytes(v)
			for i := 0; i < len(b); {
				r, n := in.decodeRune(b[i:])
				out = append(out, r)
				i += n
			}
			if out == nil {
				out = []Value{}
			}
			return out
		}
		return v
	case *types.Pointer:
		return v
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case string, *SStr:
				return s
			case []Value:
				if sl, ok := uf.(*types.Slice); ok && basicKind(sl.Elem()) == types.Int32 {
					var r Value = ""
					for _, x := range s {
						r = concat(r, in.runeStr(x))
					}
					return r
				}
				return mkStr(append([]Value(nil), s...))
			default:
				return in.runeStr(v)
			}
		}
		if t.Info()&types.IsFloat != 0 {
			var f float64
			switch s := v.(type) {
			case float64:
				f = s
			case float32:
				f = float64(s)
			case *Term:
				f = float64(int64(in.p.concretise(s)))
			default:
				_, signed, _ := kindWidth(basicKind(from))
				if signed {
					f = float64(int64(bitsOf(v)))
				} else {
					f = float64(bitsOf(v))
				}
			}
			if t.Kind() == types.Float32 {
				return float32(f)
			}
			return f
		}
		w, _, ok := kindWidth(t.Kind())
		if !ok {
			unsup("convert to %s", to)
		}
		switch s := v.(type) {
		case float64:
			return fromBits(k, uint64(int64(s)))
		case float32:
			return fromBits(k, uint64(int64(s)))
		case *Term:
			_, signed, _ := kindWidth(basicKind(from))
			return norm(in.ts.Resize(s, w, signed), k)
		case Ptr:
			unsup("pointer to integer conversion")
		}
		return fromBits(k, bitsOf(v))
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *SStr:
		return true
	}
	return false
}

func (in *Interp) runeStr(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.w < 8 {
			unsup("narrow rune")
		}
		t := in.ts.Resize(x, 8, false)
		if x.w > 8 {
			// ASCII by construction; anything else is outside the encoding
			lim := in.ts.Cmp(OUlt, x, in.ts.Const(x.w, 0x80))
			if !in.p.branch(lim) {
				unsup("non-ASCII symbolic rune")
			}
		}
		return mkStr([]Value{t})
	}
	return string(rune(int64(bitsOf(v))))
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		a types.Type
		b *types.Interface
	}
	k := key{t, it}
	if r, ok := in.P.impl.Load(k); ok {
		return r.(bool)
	}
	in.P.canonMu.Lock()
	r := types.Implements(t, it)
	in.P.canonMu.Unlock()
	in.P.impl.Store(k, r)
	return r
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, typ types.Type, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		unsup("type assert on %T", v)
	}
	okr := false
	var res Value
	if it, isI := typ.Underlying().(*types.Interface); isI {
		if i.t != nil && (in.implements(i.t, it)) {
			okr = true
			res = i
		} else {
			res = Iface{}
		}
	} else {
		if i.t != nil && i.t == typ {
			okr = true
			res = i.v
		} else {
			res = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, okr}
	}
	if !okr {
		in.rtPanic("interface conversion: interface is %v, not %s", i.t, typ)
	}
	return res
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Pkg(), m.Name()}
	if f, ok := in.P.meth.Load(k); ok {
		return f.(*ssa.Function)
	}
	in.P.mu.Lock()
	f := in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.P.mu.Unlock()
	if f == nil {
		return nil
	}
	in.P.meth.Store(k, f)
	return f
}

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	// operand order for calls: Value, Args...  (invoke: receiver value first)
	n := len(c.Args)
	args := make([]Value, 0, n+1)
	v := fr.get(&ci.ops[0])
	if c.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			unsup("invoke on %T", v)
		}
		if i.t == nil {
			in.nilDeref()
		}
		f := in.methodFor(i.t, c.Method)
		args = append(args, i.v)
		for k := 0; k < n; k++ {
			args = append(args, fr.get(&ci.ops[k+1]))
		}
		return f, args
	}
	for k := 0; k < n; k++ {
		args = append(args, fr.get(&ci.ops[k+1]))
	}
	return v, args
}

func (in *Interp) methodFor(t types.Type, m *types.Func) Value {
	if nf, ok := nativeMethod(in, t, m.Name()); ok {
		return nf
	}
	f := in.lookupMethod(t, m)
	if f == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	return f
}

// callMethod calls a method by name on an interface value; ok is false if it has no such method.
func (in *Interp) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	if nf, ok := nativeMethod(in, i.t, name); ok {
		return in.invoke(nf, append([]Value{i.v}, args...)), true
	}
	in.P.mu.Lock()
	ms := in.P.prog.MethodSets.MethodSet(i.t)
	sel := ms.Lookup(nil, name)
	in.P.mu.Unlock()
	if sel == nil {
		return nil, false
	}
	f := in.lookupMethod(i.t, sel.Obj().(*types.Func))
	if f == nil {
		return nil, false
	}
	return in.invoke(f, append([]Value{i.v}, args...)), true
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) Value {
	fn, args := in.prepCall(fr, c, ci)
	if b, ok := fn.(*ssa.Builtin); ok {
		return in.builtin(b, args, c)
	}
	return in.invoke(fn, args)
}

func (in *Interp) invoke(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return in.callFn(f, args, nil)
	case *Closure:
		if f == nil {
			in.nilDeref()
		}
		return in.callFn(f.fn, args, f.env)
	case NFunc:
		return f.f(in, args)
	case *ssa.Builtin:
		return in.builtin(f, args, nil)
	}
	unsup("call of %T", fn)
	return nil
}

func (in *Interp) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		switch t := args[1].(type) {
		case string, *SStr:
			return append(s, strBytes(t)...)
		case []Value:
			for _, x := range t {
				s = append(s, copyVal(x))
			}
			if s == nil && t != nil {
				return s
			}
			return s
		}
	case "copy":
		dst := args[0].([]Value)
		switch t := args[1].(type) {
		case string, *SStr:
			return copy(dst, strBytes(t))
		case []Value:
			return copy(dst, t)
		}
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return strLen(x)
		case []Value:
			return len(x)
		case *Map:
			if x == nil {
				return 0
			}
			return x.n
		case Array:
			return len(x)
		case Ptr:
			return len((*x).(Array))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return cap(x)
		case Array:
			return len(x)
		case Ptr:
			return len((*x).(Array))
		}
	case "delete":
		if m := args[0].(*Map); m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "panic":
		panic(targetPanic{args[0], in.stack()})
	case "recover":
		// called from a deferred function: the panicking frame is the caller's caller
		fr := in.cur
		if fr != nil && fr.caller != nil && fr.caller.panic_ != nil {
			v := fr.caller.panic_.v
			fr.caller.panic_ = nil
			if v == nil {
				return Iface{}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.nilDeref()
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			if isStr(r) {
				less = in.strLess(a, r)
			} else {
				k := basicKind(c.Args[0].Type())
				less = in.binop(token.LSS, k, a, r, c.Args[0].Type())
			}
			l := in.truth(less)
			if l == (b.Name() == "min") && in.truth(in.not(in.eq(a, r))) {
				r = a
			}
		}
		return r
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			*m = *newMap()
			return nil
		}
	case "String": // unsafe.String
		p, _ := args[0].(Ptr)
		n := in.index(args[1])
		if n == 0 {
			return ""
		}
		return mkStr(append([]Value(nil), unsafeSlice(p, n)...))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Ptr(nil)
		}
		return Ptr(&b[0])
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return Ptr(nil)
		}
		return Ptr(&s[:1][0])
	case "Slice":
		p, _ := args[0].(Ptr)
		n := in.index(args[1])
		if p == nil {
			return []Value(nil)
		}
		return unsafeSlice(p, n)
	}
	unsup("builtin %s on %T", b.Name(), args[0])
	return nil
}
