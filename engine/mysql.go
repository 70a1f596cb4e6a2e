package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

// ---- helper process (third party code on concrete text) ----

var helper struct {
	sync.Mutex
	bin   string
	in    io.Writer
	out   *bufio.Reader
	cache map[string]map[string]any
	calls int
}

func helperCall(q map[string]any) map[string]any {
	b, _ := json.Marshal(q)
	key := string(b)
	helper.Lock()
	defer helper.Unlock()
	if helper.cache == nil {
		helper.cache = map[string]map[string]any{}
	}
	if r, ok := helper.cache[key]; ok {
		return r
	}
	if helper.in == nil {
		cmd := exec.Command(helper.bin)
		w, err := cmd.StdinPipe()
		if err != nil {
			fatal("helper: %v", err)
		}
		r, err := cmd.StdoutPipe()
		if err != nil {
			fatal("helper: %v", err)
		}
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			fatal("helper: %v", err)
		}
		helper.in, helper.out = w, bufio.NewReaderSize(r, 1<<20)
	}
	helper.calls++
	if _, err := helper.in.Write(append(b, '\n')); err != nil {
		fatal("helper: %v", err)
	}
	line, err := helper.out.ReadBytes('\n')
	if err != nil {
		fatal("helper: %v", err)
	}
	var rep map[string]any
	if err := json.Unmarshal(line, &rep); err != nil {
		fatal("helper reply: %v", err)
	}
	helper.cache[key] = rep
	return rep
}

// sqlKeywords are the words of the parser's token table, by length.
var sqlKeywords = map[int][]string{}

func loadKeywords(pkg *packages.Package) {
	if pkg == nil {
		return
	}
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != "tokenMap" && n.Name != "btFuncTokenMap" && n.Name != "windowFuncTokenMap" && n.Name != "aliases" || i >= len(vs.Values) {
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						continue
					}
					for _, e := range cl.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							if bl, ok := kv.Key.(*ast.BasicLit); ok {
								k, _ := strconv.Unquote(bl.Value)
								sqlKeywords[len(k)] = append(sqlKeywords[len(k)], strings.ToLower(k))
							}
						}
					}
				}
			}
		}
	}
}

// ---- MySQL parser on symbolic text ----
//
// Runs of symbolic bytes inside one token are replaced by unique placeholders of the same
// lexical class (after splitting off the values that would change the token), the concrete
// text is parsed by the real parser and the bytes are put back into its syntax tree.

type phRun struct {
	b   []Value
	num Value // for digit runs
}

type sqlSubst struct {
	runs map[string]*phRun // placeholder -> run (mixed-case spelling)
	n    int
}

var phRE = regexp.MustCompile(`ZqH[0-9]{4}kW`)
var phLowRE = regexp.MustCompile(`(?i)ZqH[0-9]{4}kW`)

func isIdentByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c >= 0x80
}

func (in *Interp) byteIn(b Value, pred func(c byte) bool) Value {
	switch x := b.(type) {
	case byte:
		return pred(x)
	case *Term:
		var cs []*Term
		for lo := 0; lo < 256; {
			if !pred(byte(lo)) {
				lo++
				continue
			}
			hi := lo
			for hi+1 < 256 && pred(byte(hi+1)) {
				hi++
			}
			cs = append(cs, in.inRange(x, uint64(lo), uint64(hi)))
			lo = hi + 1
		}
		return boolVal(in.ts.Or(cs...))
	}
	unsup("document bytes parsed as SQL")
	return nil
}

var numSafe = map[string]bool{"varchar": true, "char": true, "binary": true, "varbinary": true, "int": true, "bigint": true, "smallint": true, "mediumint": true, "tinyint": true, "integer": true, "decimal": true, "numeric": true}

func (in *Interp) sqlPlaceholders(sql Value) (string, *sqlSubst) {
	sub := &sqlSubst{runs: map[string]*phRun{}}
	if s, ok := sql.(string); ok {
		return s, sub
	}
	src := strBytes(sql)
	var out []byte
	ph := func(b []Value) string {
		k := fmt.Sprintf("ZqH%04dkW", sub.n)
		sub.n++
		sub.runs[k] = &phRun{b: append([]Value(nil), b...)}
		return k
	}
	concByte := func(v Value) byte {
		if t, ok := v.(*Term); ok {
			return byte(in.p.concretise(t))
		}
		return v.(byte)
	}
	var quote byte
	for i := 0; i < len(src); {
		b := src[i]
		if quote != 0 {
			// inside a quoted text
			if c, ok := b.(byte); ok {
				out = append(out, c)
				i++
				if c == '\\' && quote != '`' && i < len(src) {
					out = append(out, concByte(src[i]))
					i++
				} else if c == quote {
					quote = 0
				}
				continue
			}
			q := quote
			special := func(c byte) bool { return c == q || c == '\\' && q != '`' || c == 0 }
			if in.truth(in.byteIn(b, special)) {
				c := concByte(b)
				src = append(append(append([]Value(nil), src[:i]...), c), src[i+1:]...)
				continue
			}
			j := i
			var run []Value
			for j < len(src) {
				if _, ok := src[j].(*Term); !ok || in.truth(in.byteIn(src[j], special)) {
					break
				}
				run = append(run, src[j])
				j++
			}
			out = append(out, ph(run)...)
			i = j
			continue
		}
		// outside: collect a maximal identifier run
		if in.truth(in.byteIn(b, isIdentByte)) {
			j := i
			sym := false
			var run []Value
			for j < len(src) && in.truth(in.byteIn(src[j], isIdentByte)) {
				if _, ok := src[j].(*Term); ok {
					sym = true
				}
				run = append(run, src[j])
				j++
			}
			if !sym {
				for _, x := range run {
					out = append(out, x.(byte))
				}
				i = j
				continue
			}
			concAll := func() {
				for _, x := range run {
					out = append(out, concByte(x))
				}
				i = j
			}
			isDigit := func(c byte) bool { return c >= '0' && c <= '9' }
			if in.truth(in.byteIn(run[0], isDigit)) {
				allDigit := true
				for _, x := range run {
					if !in.truth(in.byteIn(x, isDigit)) {
						allDigit = false
						break
					}
				}
				if allDigit && numSafe[prevWord(out)] {
					if v, ok := in.parseDec(mkStr(run)); ok {
						k := strconv.Itoa(71001 + 13*sub.n)
						sub.n++
						sub.runs[k] = &phRun{b: append([]Value(nil), run...), num: v}
						out = append(out, k...)
						i = j
						continue
					}
				}
				concAll()
				continue
			}
			if j < len(src) {
				if in.truth(in.byteIn(src[j], func(c byte) bool { return c == '\'' || c == '"' || c == '@' || c == '.' })) {
					concAll()
					continue
				}
			}
			var kws []*Term
			for _, k := range sqlKeywords[len(run)] {
				e := in.asTerm(in.eqBytes(strBytes(in.toLower(mkStr(run))), strBytes(k)))
				if e.isC() && e.k == 0 {
					continue
				}
				kws = append(kws, e)
			}
			if len(kws) > 0 && in.p.branch(in.ts.Or(kws...)) {
				concAll()
				continue
			}
			out = append(out, ph(run)...)
			i = j
			continue
		}
		c := concByte(b)
		out = append(out, c)
		i++
		switch c {
		case '\'', '"', '`':
			quote = c
		}
	}
	return string(out), sub
}

func prevWord(out []byte) string {
	i := len(out)
	for i > 0 && (out[i-1] == ' ' || out[i-1] == ',' || out[i-1] >= '0' && out[i-1] <= '9') {
		i--
	}
	if i == 0 || out[i-1] != '(' {
		return ""
	}
	i--
	j := i
	for j > 0 && isIdentByte(out[j-1]) {
		j--
	}
	return strings.ToLower(string(out[j:i]))
}

// restore puts the symbolic bytes back.
func (in *Interp) restore(s string, sub *sqlSubst) Value {
	if sub.n == 0 {
		return s
	}
	var r Value = ""
	for len(s) > 0 {
		m := phLowRE.FindStringIndex(s)
		if m == nil {
			break
		}
		tok := s[m[0]:m[1]]
		key := "ZqH" + tok[3:7] + "kW"
		run := sub.runs[key]
		if run == nil {
			break
		}
		v := mkStr(append([]Value(nil), run.b...))
		switch {
		case tok == key:
		case tok == strings.ToLower(key):
			v = in.toLower(v)
		case tok == strings.ToUpper(key):
			v = in.toUpper(v)
		default:
			unsup("placeholder changed by the parser")
		}
		r = concat(concat(r, s[:m[0]]), v)
		s = s[m[1]:]
	}
	return concat(r, s)
}

type astDec struct {
	in  *Interp
	sub *sqlSubst
	ids map[int]Ptr
}

func (d *astDec) lookup(name string) types.Type {
	if strings.HasPrefix(name, "*") {
		return d.in.P.canonType(types.NewPointer(d.lookup(name[1:])))
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		for _, b := range types.Typ {
			if b.Name() == name {
				return d.in.P.canonType(b)
			}
		}
		if name == "[]uint8" {
			return d.in.P.canonType(types.NewSlice(types.Typ[types.Uint8]))
		}
		unsup("type %s in syntax tree", name)
	}
	return d.in.P.canonType(d.in.namedType(name[:i], name[i+1:]))
}

func (d *astDec) val(t types.Type, x any) Value {
	in := d.in
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if x == nil {
			return Ptr(nil)
		}
		a := x.([]any)
		id := int(a[0].(float64))
		if len(a) == 1 {
			return d.ids[id]
		}
		p := new(Value)
		d.ids[id] = p
		*p = d.val(u.Elem(), a[1])
		return Ptr(p)
	case *types.Interface:
		if x == nil {
			return Iface{}
		}
		a := x.([]any)
		dt := d.lookup(a[0].(string))
		return Iface{t: dt, v: d.val(dt, a[1])}
	case *types.Struct:
		s := zero(t).(Struct)
		a := x.([]any)
		for i := range s {
			s[i] = d.val(u.Field(i).Type(), a[i])
		}
		return s
	case *types.Slice:
		if x == nil {
			return []Value(nil)
		}
		if b, ok := x.(string); ok {
			raw, _ := base64.StdEncoding.DecodeString(b)
			return append([]Value{}, strBytes(in.restore(string(raw), d.sub))...)
		}
		out := []Value{}
		for _, e := range x.([]any) {
			out = append(out, d.val(u.Elem(), e))
		}
		return out
	case *types.Array:
		out := Array{}
		for _, e := range x.([]any) {
			out = append(out, d.val(u.Elem(), e))
		}
		return out
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			raw, _ := base64.StdEncoding.DecodeString(x.(string))
			return in.restore(string(raw), d.sub)
		case u.Info()&types.IsBoolean != 0:
			return x.(bool)
		case u.Info()&types.IsInteger != 0:
			s := x.(string)
			if r := d.sub.runs[s]; r != nil {
				w, _, _ := kindWidth(u.Kind())
				if t, ok := r.num.(*Term); ok {
					return norm(in.ts.Resize(t, w, true), u.Kind())
				}
				return fromBits(u.Kind(), bitsOf(r.num))
			}
			if strings.HasPrefix(s, "-") {
				i, _ := strconv.ParseInt(s, 10, 64)
				return fromBits(u.Kind(), uint64(i))
			}
			i, _ := strconv.ParseUint(s, 10, 64)
			return fromBits(u.Kind(), i)
		case u.Info()&types.IsFloat != 0:
			f, _ := strconv.ParseFloat(x.(string), 64)
			return f
		}
	}
	return zero(t)
}

const parserPath = "github.com/pingcap/parser"

func registerMySQL(I map[string]intrFn) {
	I[parserPath+".New"] = func(in *Interp, a []Value) Value {
		v := Value(Native{"sqlparser"})
		return Ptr(&v)
	}
	parse := func(in *Interp, sql, cs, co Value) ([]Value, Iface) {
		text, sub := in.sqlPlaceholders(sql)
		rep := helperCall(map[string]any{"op": "parse", "sql": base64.StdEncoding.EncodeToString([]byte(text)), "charset": in.conc(cs), "collation": in.conc(co)})
		if m, ok := rep["panic"].(string); ok {
			in.rtPanic("%s", m)
		}
		if m, ok := rep["err"].(string); ok {
			return nil, in.mkErr(m)
		}
		d := &astDec{in: in, sub: sub, ids: map[int]Ptr{}}
		st := types.NewSlice(in.namedType(parserPath+"/ast", "StmtNode"))
		return d.val(st, rep["nodes"]).([]Value), nilErr
	}
	I["(*"+parserPath+".Parser).Parse"] = func(in *Interp, a []Value) Value {
		n, err := parse(in, a[1], a[2], a[3])
		return Tuple{n, []Value(nil), err}
	}
	I["(*"+parserPath+".Parser).ParseOneStmt"] = func(in *Interp, a []Value) Value {
		n, err := parse(in, a[1], a[2], a[3])
		if err.t == nil && len(n) != 1 {
			err = in.errf("not a single statement")
		}
		if err.t != nil {
			return Tuple{Iface{}, err}
		}
		return Tuple{n[0], err}
	}
}
