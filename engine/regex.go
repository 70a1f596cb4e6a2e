package main

import (
	"regexp"
	"regexp/syntax"
)

// Regular expressions: the real regexp/syntax compiler builds the program; matching is a
// leftmost-first backtracking run whose character tests are symbolic.

type rx struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

func registerRegexp(I map[string]intrFn) {
	comp := func(src string) (*rx, error) {
		re, err := regexp.Compile(src)
		if err != nil {
			return nil, err
		}
		p, err := syntax.Parse(src, syntax.Perl)
		if err != nil {
			return nil, err
		}
		n := p.MaxCap()
		pr, err := syntax.Compile(p.Simplify())
		if err != nil {
			return nil, err
		}
		return &rx{src, re, pr, n}, nil
	}
	mk := func(r *rx) Value {
		v := Value(Native{r})
		return Ptr(&v)
	}
	get := func(v Value) *rx { return (*(v.(Ptr))).(Native).v.(*rx) }
	I["regexp.MustCompile"] = func(in *Interp, a []Value) Value {
		r, err := comp(in.conc(a[0]))
		if err != nil {
			panic(targetPanic{Iface{in.P.errType(), err.Error()}, in.stack()})
		}
		return mk(r)
	}
	I["regexp.Compile"] = func(in *Interp, a []Value) Value {
		r, err := comp(in.conc(a[0]))
		if err != nil {
			return Tuple{Ptr(nil), in.mkErr(err.Error())}
		}
		return Tuple{mk(r), nilErr}
	}
	I["regexp.MatchString"] = func(in *Interp, a []Value) Value {
		r, err := comp(in.conc(a[0]))
		if err != nil {
			return Tuple{false, in.mkErr(err.Error())}
		}
		return Tuple{in.rxFind(r, strBytes(a[1]), 0) != nil, nilErr}
	}
	I["flag.isZeroValue"] = func(in *Interp, a []Value) Value { return Tuple{true, nilErr} } // only tells what a usage text shows
	// help goes to the terminal only
	I["github.com/urfave/cli/v2.printHelpCustom"] = func(in *Interp, a []Value) Value { return nil }
	I["regexp.QuoteMeta"] = func(in *Interp, a []Value) Value { return regexp.QuoteMeta(in.conc(a[0])) }
	I["(*regexp.Regexp).MatchString"] = func(in *Interp, a []Value) Value {
		return in.rxFind(get(a[0]), strBytes(a[1]), 0) != nil
	}
	sub := func(b []Value, m []int, i int) Value {
		if m[2*i] < 0 {
			return ""
		}
		return mkStr(b[m[2*i]:m[2*i+1]:m[2*i+1]])
	}
	I["(*regexp.Regexp).FindString"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		m := in.rxFind(get(a[0]), b, 0)
		if m == nil {
			return ""
		}
		return sub(b, m, 0)
	}
	I["(*regexp.Regexp).FindStringSubmatch"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		r := get(a[0])
		m := in.rxFind(r, b, 0)
		if m == nil {
			return []Value(nil)
		}
		var out []Value
		for i := 0; i <= r.ncap; i++ {
			out = append(out, sub(b, m, i))
		}
		return out
	}
	I["(*regexp.Regexp).FindStringIndex"] = func(in *Interp, a []Value) Value {
		m := in.rxFind(get(a[0]), strBytes(a[1]), 0)
		if m == nil {
			return []Value(nil)
		}
		return []Value{m[0], m[1]}
	}
	all := rxAll
	I["(*regexp.Regexp).FindAllString"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		var out []Value
		for _, m := range all(in, get(a[0]), b, in.index(a[2])) {
			out = append(out, sub(b, m, 0))
		}
		return out
	}
	I["(*regexp.Regexp).FindAllStringSubmatch"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		r := get(a[0])
		var out []Value
		for _, m := range all(in, r, b, in.index(a[2])) {
			var g []Value
			for i := 0; i <= r.ncap; i++ {
				g = append(g, sub(b, m, i))
			}
			out = append(out, g)
		}
		return out
	}
	I["(*regexp.Regexp).SubexpNames"] = func(in *Interp, a []Value) Value {
		var out []Value
		for _, n := range get(a[0]).re.SubexpNames() {
			out = append(out, n)
		}
		return out
	}
	I["(*regexp.Regexp).NumSubexp"] = func(in *Interp, a []Value) Value { return get(a[0]).ncap }
	I["(*regexp.Regexp).String"] = func(in *Interp, a []Value) Value { return get(a[0]).src }
	repl := func(in *Interp, r *rx, b []Value, f func(m []int) Value) Value {
		var out []Value
		last := 0
		for _, m := range all(in, r, b, -1) {
			out = append(out, b[last:m[0]]...)
			out = append(out, strBytes(f(m))...)
			last = m[1]
		}
		out = append(out, b[last:]...)
		return mkStr(out)
	}
	I["(*regexp.Regexp).ReplaceAllString"] = func(in *Interp, a []Value) Value {
		r, b := get(a[0]), strBytes(a[1])
		t := in.conc(a[2])
		for i := 0; i < len(t); i++ {
			if t[i] == '$' {
				// expand through the native engine on concrete text
				return r.re.ReplaceAllString(in.conc(a[1]), t)
			}
		}
		return repl(in, r, b, func(m []int) Value { return t })
	}
	I["(*regexp.Regexp).ReplaceAllLiteralString"] = func(in *Interp, a []Value) Value {
		return repl(in, get(a[0]), strBytes(a[1]), func(m []int) Value { return a[2] })
	}
	I["(*regexp.Regexp).ReplaceAllStringFunc"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		return repl(in, get(a[0]), b, func(m []int) Value {
			return in.invoke(a[2], []Value{sub(b, m, 0)})
		})
	}
	I["(*regexp.Regexp).Split"] = func(in *Interp, a []Value) Value {
		b := strBytes(a[1])
		n := in.index(a[2])
		if n == 0 {
			return []Value(nil)
		}
		var out []Value
		beg, end := 0, 0
		for _, m := range all(in, get(a[0]), b, n) {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, mkStr(b[beg:end:end]))
			}
			beg = m[1]
		}
		if end != len(b) {
			out = append(out, mkStr(b[beg:len(b):len(b)]))
		}
		return out
	}
	registerRegexpBytes(I)
}

// registerRegexpBytes adds the []byte and index forms on top of the text forms.
func registerRegexpBytes(I map[string]intrFn) {
	str := func(v Value) Value { return mkStr(append([]Value(nil), v.([]Value)...)) }
	bs := func(v Value) Value { return append([]Value(nil), strBytes(v)...) }
	const R = "(*regexp.Regexp)."
	I[R+"Match"] = func(in *Interp, a []Value) Value { return I[R+"MatchString"](in, []Value{a[0], str(a[1])}) }
	I["regexp.Match"] = func(in *Interp, a []Value) Value {
		return I["regexp.MatchString"](in, []Value{a[0], str(a[1])})
	}
	for _, n := range []string{"ReplaceAll", "ReplaceAllLiteral"} {
		f := I[R+n+"String"]
		I[R+n] = func(in *Interp, a []Value) Value { return bs(f(in, []Value{a[0], str(a[1]), str(a[2])})) }
	}
	get := func(v Value) *rx { return (*(v.(Ptr))).(Native).v.(*rx) }
	ints := func(m []int) Value {
		if m == nil {
			return []Value(nil)
		}
		var out []Value
		for _, i := range m {
			out = append(out, i)
		}
		return out
	}
	I[R+"FindStringSubmatchIndex"] = func(in *Interp, a []Value) Value { return ints(in.rxFind(get(a[0]), strBytes(a[1]), 0)) }
	I[R+"FindIndex"] = func(in *Interp, a []Value) Value {
		if m := in.rxFind(get(a[0]), a[1].([]Value), 0); m != nil {
			return ints(m[:2])
		}
		return []Value(nil)
	}
	I[R+"Find"] = func(in *Interp, a []Value) Value {
		b := a[1].([]Value)
		if m := in.rxFind(get(a[0]), b, 0); m != nil {
			return b[m[0]:m[1]:m[1]]
		}
		return []Value(nil)
	}
	I[R+"FindAllStringIndex"] = func(in *Interp, a []Value) Value {
		var out []Value
		for _, m := range rxAll(in, get(a[0]), strBytes(a[1]), in.index(a[2])) {
			out = append(out, ints(m[:2]))
		}
		return out
	}
	I[R+"FindAllStringSubmatchIndex"] = func(in *Interp, a []Value) Value {
		var out []Value
		for _, m := range rxAll(in, get(a[0]), strBytes(a[1]), in.index(a[2])) {
			out = append(out, ints(m))
		}
		return out
	}
	I[R+"FindSubmatch"] = func(in *Interp, a []Value) Value {
		b := a[1].([]Value)
		m := in.rxFind(get(a[0]), b, 0)
		if m == nil {
			return []Value(nil)
		}
		var out []Value
		for i := 0; i < len(m); i += 2 {
			if m[i] < 0 {
				out = append(out, []Value(nil))
			} else {
				out = append(out, b[m[i]:m[i+1]:m[i+1]])
			}
		}
		return out
	}
}

func rxAll(in *Interp, r *rx, b []Value, n int) [][]int {
	var out [][]int
	pos, prev := 0, -1
	for pos <= len(b) && (n < 0 || len(out) < n) {
		m := in.rxFind(r, b, pos)
		if m == nil {
			break
		}
		acc := true
		if m[1] == m[0] {
			if m[0] == prev {
				acc = false
			}
			pos = m[1] + 1
		} else {
			pos = m[1]
		}
		prev = m[1]
		if acc {
			out = append(out, m)
		}
	}
	return out
}

func (in *Interp) rxFind(r *rx, b []Value, start int) []int {
	conc := true
	for _, x := range b {
		if _, ok := x.(byte); !ok {
			conc = false
			break
		}
	}
	if conc && start == 0 {
		return r.re.FindStringSubmatchIndex(mkStr(b).(string))
	}
	for s := start; s <= len(b); s++ {
		caps := make([]int, 2*(r.ncap+1))
		for i := range caps {
			caps[i] = -1
		}
		m := &matcher{in: in, r: r, b: b}
		if m.run(r.prog.Start, s, caps) {
			m.caps[0] = s
			return m.caps
		}
	}
	return nil
}

type matcher struct {
	in   *Interp
	r    *rx
	b    []Value
	caps []int
	n    int
}

func (m *matcher) run(pc, pos int, caps []int) bool {
	m.n++
	if m.n > 100000 {
		unsup("regular expression backtracking bound")
	}
	i := &m.r.prog.Inst[pc]
	switch i.Op {
	case syntax.InstMatch:
		m.caps = append([]int(nil), caps...)
		m.caps[1] = pos
		return true
	case syntax.InstFail:
		return false
	case syntax.InstNop:
		return m.run(int(i.Out), pos, caps)
	case syntax.InstCapture:
		if int(i.Arg) < len(caps) {
			c := append([]int(nil), caps...)
			c[i.Arg] = pos
			return m.run(int(i.Out), pos, c)
		}
		return m.run(int(i.Out), pos, caps)
	case syntax.InstAlt, syntax.InstAltMatch:
		return m.run(int(i.Out), pos, caps) || m.run(int(i.Arg), pos, caps)
	case syntax.InstEmptyWidth:
		if m.empty(syntax.EmptyOp(i.Arg), pos) {
			return m.run(int(i.Out), pos, caps)
		}
		return false
	case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		if pos >= len(m.b) {
			return false
		}
		switch x := m.b[pos].(type) {
		case byte:
			if x >= 0x80 {
				r, n := m.in.decodeRune(m.b[pos:])
				return i.MatchRune(r.(int32)) && m.run(int(i.Out), pos+n, caps)
			}
			return i.MatchRune(rune(x)) && m.run(int(i.Out), pos+1, caps)
		case *Term:
			var tab []*Term
			for c := 0; c < 128; {
				if !i.MatchRune(rune(c)) {
					c++
					continue
				}
				d := c
				for d+1 < 128 && i.MatchRune(rune(d+1)) {
					d++
				}
				tab = append(tab, m.in.inRange(x, uint64(c), uint64(d)))
				c = d + 1
			}
			return m.in.p.branch(m.in.ts.Or(tab...)) && m.run(int(i.Out), pos+1, caps)
		}
		unsup("regexp on document text")
	}
	unsup("regexp instruction %v", i.Op)
	return false
}

func (m *matcher) empty(op syntax.EmptyOp, pos int) bool {
	isNL := func(p int) bool { return m.in.truth(m.in.eqBytes(m.b[p:p+1], []Value{byte('\n')})) }
	word := func(p int) bool {
		if p < 0 || p >= len(m.b) {
			return false
		}
		t := m.in.byteTerm(m.b[p])
		return m.in.p.branch(m.in.ts.Or(m.in.inRange(t, 'a', 'z'), m.in.inRange(t, 'A', 'Z'), m.in.inRange(t, '0', '9'), m.in.ts.Eq(t, m.in.ts.Const(8, '_'))))
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(m.b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !isNL(pos-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(m.b) && !isNL(pos) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := word(pos-1) != word(pos)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}
