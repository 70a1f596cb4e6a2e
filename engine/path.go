package main

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// Decision is one recorded fork of a path; replaying a prefix of decisions re-creates the path.
type Decision struct {
	conc  bool   // concretisation: val is the candidate value
	val   uint64 // candidate value
	taken bool
}

type WorkItem struct {
	prefix []Decision
	model  Model
}

type pathEnd struct{ why string } // infeasible / finished early

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// Path is the symbolic state of one execution.
type Path struct {
	ts      *TermStore
	sol     *Solver
	prefix  []Decision
	trace   []Decision
	model   Model
	dom     map[*Term]*[4]uint64
	single  map[*Term][]*Term // constraints over one variable
	multi   []*Term           // constraints over several variables
	inMulti map[*Term]bool
	all     []*Term
	known   map[*Term]bool
	fork    func(WorkItem)
	nvars   int
	names   map[string]int
	forks   int
	conds   int
	limit   int
	onFork  func(where string)
}

func NewPath(ts *TermStore, sol *Solver, it WorkItem, fork func(WorkItem)) *Path {
	m := Model{}
	for k, v := range it.model {
		m[k] = v
	}
	return &Path{ts: ts, sol: sol, prefix: it.prefix, model: m, dom: map[*Term]*[4]uint64{}, single: map[*Term][]*Term{},
		inMulti: map[*Term]bool{}, known: map[*Term]bool{}, fork: fork, names: map[string]int{}}
}

func (p *Path) freshName(base string) string {
	n := p.names[base]
	p.names[base] = n + 1
	return fmt.Sprintf("%s#%d", base, n)
}

func fullDom(v *Term) *[4]uint64 {
	if v.w == 0 {
		return &[4]uint64{3, 0, 0, 0}
	}
	return &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}

// table returns the truth table of a boolean term over exactly one Bool or 8-bit variable.
func (p *Path) table(t *Term) *[4]uint64 {
	if len(t.vars) != 1 {
		return nil
	}
	v := t.vars[0]
	if v.w == 8 {
		return p.ts.truth8(t)
	}
	if v.w == 0 {
		if t.tt != nil {
			return t.tt
		}
		var tab [4]uint64
		for i := uint64(0); i < 2; i++ {
			if p.ts.Eval(t, Model{v.name: i}, map[*Term]uint64{}) == 1 {
				tab[0] |= 1 << i
			}
		}
		t.tt = &tab
		return &tab
	}
	return nil
}

func (p *Path) domOf(v *Term) *[4]uint64 {
	if d, ok := p.dom[v]; ok {
		return d
	}
	return fullDom(v)
}

func and4(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}

func (p *Path) add(t *Term) {
	if t.isC() {
		if t.k == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			p.add(a)
		}
		return
	}
	if p.known[t] {
		return
	}
	p.known[t] = true
	p.all = append(p.all, t)
	if len(t.vars) == 1 {
		v := t.vars[0]
		if tab := p.table(t); tab != nil {
			d := and4(p.domOf(v), tab)
			p.dom[v] = &d
		}
		p.single[v] = append(p.single[v], t)
		return
	}
	p.multi = append(p.multi, t)
	for _, v := range t.vars {
		p.inMulti[v] = true
	}
}

// relevant returns the constraints connected to t through shared variables.
func (p *Path) relevant(t *Term) []*Term {
	vs := map[*Term]bool{}
	var order []*Term
	push := func(x *Term) {
		for _, v := range x.vars {
			if !vs[v] {
				vs[v] = true
				order = append(order, v)
			}
		}
	}
	push(t)
	var out []*Term
	used := make([]bool, len(p.multi))
	for ch := true; ch; {
		ch = false
		for i, m := range p.multi {
			if used[i] {
				continue
			}
			for _, v := range m.vars {
				if vs[v] {
					used[i] = true
					out = append(out, m)
					push(m)
					ch = true
					break
				}
			}
		}
	}
	for _, v := range order {
		out = append(out, p.single[v]...)
	}
	return out
}

// feasible decides PC ∧ t. A returned model satisfies both.
func (p *Path) feasible(t *Term) (SatRes, Model) {
	if t.isC() {
		if t.k == 1 {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if p.ts.Eval(t, p.model, map[*Term]uint64{}) == 1 {
		atomic.AddInt64(&stats.ModelDecided, 1)
		return Sat, p.model
	}
	if tab := p.table(t); tab != nil {
		v := t.vars[0]
		d := and4(p.domOf(v), tab)
		if popcount4(d) == 0 {
			atomic.AddInt64(&stats.DomainDecided, 1)
			p.decided(v, t)
			return Unsat, nil
		}
		if !p.inMulti[v] {
			atomic.AddInt64(&stats.DomainDecided, 1)
			m := p.copyModel()
			m[v.name] = pickBit(d)
			return Sat, m
		}
	}
	res, sub := p.sol.Check(append(p.relevant(t), t))
	if res != Sat {
		return res, nil
	}
	m := p.copyModel()
	for k, v := range sub {
		m[k] = v
	}
	return Sat, m
}

func pickBit(d [4]uint64) uint64 {
	// prefer printable letters for readable counterexamples
	for _, r := range [][2]int{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {0, 255}} {
		for i := r[0]; i <= r[1]; i++ {
			if d[i>>6]>>(uint(i)&63)&1 == 1 {
				return uint64(i)
			}
		}
	}
	return 0
}

func (p *Path) copyModel() Model {
	m := make(Model, len(p.model)+2)
	for k, v := range p.model {
		m[k] = v
	}
	return m
}

func (p *Path) record(d Decision) {
	p.trace = append(p.trace, d)
	if p.limit > 0 && len(p.trace) > p.limit {
		unsup("decision limit exceeded (%d)", p.limit)
	}
}

// branch decides a boolean term, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	if p.known[c] {
		return true
	}
	nc := p.ts.Not(c)
	if p.known[nc] {
		return false
	}
	// implied by the domain: no decision is recorded (deterministic on replay)
	if tab := p.table(c); tab != nil {
		d := p.domOf(c.vars[0])
		if popcount4(and4(d, tab)) == 0 {
			atomic.AddInt64(&stats.DomainDecided, 1)
			p.decided(c.vars[0], c)
			return false
		}
		if popcount4(and4(d, p.table(nc))) == 0 {
			atomic.AddInt64(&stats.DomainDecided, 1)
			p.decided(c.vars[0], nc)
			return true
		}
	}
	if len(p.trace) < len(p.prefix) {
		d := p.prefix[len(p.trace)]
		if d.conc {
			fatal("replay divergence: concretisation expected at decision %d", len(p.trace))
		}
		p.record(d)
		if d.taken {
			p.add(c)
		} else {
			p.add(nc)
		}
		return d.taken
	}
	taken := p.ts.Eval(c, p.model, map[*Term]uint64{}) == 1
	cur, other := c, nc
	if !taken {
		cur, other = nc, c
	}
	res, m := p.feasible(other)
	switch res {
	case Sat:
		pre := make([]Decision, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = Decision{taken: !taken}
		p.forks++
		if p.onFork != nil {
			p.onFork("")
		}
		p.fork(WorkItem{pre, m})
	case Unknown:
		reduced("solver unknown at a branch: alternative side not explored")
	}
	p.record(Decision{taken: taken})
	p.add(cur)
	return taken
}

// concretise enumerates the feasible values of t, forking for each.
func (p *Path) concretise(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isC() {
			return t.k
		}
		if i > 4096 {
			unsup("concretisation of more than 4096 values")
		}
		var val uint64
		var rec bool
		if len(p.trace) < len(p.prefix) {
			d := p.prefix[len(p.trace)]
			if !d.conc {
				fatal("replay divergence: branch expected at decision %d", len(p.trace))
			}
			val, rec = d.val, true
		} else {
			val = p.ts.Eval(t, p.model, map[*Term]uint64{})
		}
		eq := p.ts.Eq(t, p.ts.Const(t.w, val))
		ne := p.ts.Not(eq)
		if rec {
			d := p.prefix[len(p.trace)]
			p.record(d)
			if d.taken {
				p.add(eq)
				return val
			}
			p.add(ne)
			continue
		}
		res, m := p.feasible(ne)
		if res == Sat {
			pre := make([]Decision, len(p.trace)+1)
			copy(pre, p.trace)
			pre[len(p.trace)] = Decision{conc: true, val: val, taken: false}
			p.forks++
			p.fork(WorkItem{pre, m})
		} else if res == Unknown {
			reduced("solver unknown at a concretisation")
		}
		p.record(Decision{conc: true, val: val, taken: true})
		p.add(eq)
		return val
	}
}

// assume restricts the path.
func (p *Path) assume(t *Term) {
	if t.isC() {
		if t.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if len(p.trace) < len(p.prefix) {
		// the prefix was feasible with this assumption, the carried model satisfies it or
		// will be re-established at the first fresh decision
		if p.ts.Eval(t, p.model, map[*Term]uint64{}) == 1 {
			p.add(t)
			return
		}
	}
	res, m := p.feasible(t)
	if res == Unsat {
		panic(pathEnd{"assume"})
	}
	if res == Unknown {
		reduced("solver unknown at an assumption")
		panic(pathEnd{"assume-unknown"})
	}
	p.model = m
	p.add(t)
}

// define adds a constraint that is satisfiable by construction for a fresh variable whose value is given.
func (p *Path) define(v *Term, val uint64) {
	p.model[v.name] = val
}

func (p *Path) sortedModel() []string {
	var ks []string
	for k := range p.model {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
