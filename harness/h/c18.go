package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

type pbField struct {
	typ, name, tag string
	repeated       bool
}

type pbMsg struct {
	name   string
	fields []*pbField
}

type pbFile struct {
	pkg, goPkg string
	imports    []string
	msgs       []*pbMsg
}

// pbRead reads a Protobuf definition.
func pbRead(path string) *pbFile {
	s, ok := vk.ReadFile(path)
	need(ok, "the output is written")
	f := &pbFile{}
	var cur *pbMsg
	syntax := false
	for _, l := range strings.Split(s, "\n") {
		l = strings.Trim(l, " ")
		switch {
		case l == "":
		case l == `syntax = "proto3";`:
			syntax = true
		case cur == nil && strings.HasPrefix(l, "package "):
			x, ok := between(l, "package ", ";")
			need(ok && syntax && f.pkg == "", "the package is declared once")
			f.pkg = x
		case cur == nil && strings.HasPrefix(l, "option "):
			x, ok := between(l, `option go_package = "`, `";`)
			need(ok && syntax, "the Go package is declared")
			f.goPkg = x
		case cur == nil && strings.HasPrefix(l, "import "):
			x, ok := between(l, `import "`, `";`)
			need(ok && syntax, "an import names a file")
			f.imports = append(f.imports, x)
		case cur == nil:
			x, ok := between(l, "message ", " {")
			need(ok && syntax, "a message is declared")
			cur = &pbMsg{name: x}
			f.msgs = append(f.msgs, cur)
		case l == "}":
			cur = nil
		default:
			g := &pbField{}
			if strings.HasPrefix(l, "repeated ") {
				g.repeated, l = true, l[9:]
			}
			p := strings.Split(l, " ")
			need(len(p) == 4 && p[2] == "=", "a field is declared")
			g.typ, g.name = p[0], p[1]
			need(len(p[3]) > 1 && p[3][len(p[3])-1] == ';', "a field has a number")
			g.tag = p[3][:len(p[3])-1]
			cur.fields = append(cur.fields, g)
		}
	}
	need(syntax && cur == nil, "the file is complete")
	return f
}

var pbScalars = []string{"double", "float", "int32", "int64", "uint32", "uint64", "bool", "string", "bytes", "google.protobuf.Timestamp"}

func pbType(t string) []string {
	switch t {
	case "char", "varchar", "text8", "text16", "text24", "text32", "enum", "json", "set":
		return []string{"string"}
	case "boolean":
		return []string{"bool"}
	case "int8", "int16", "int24", "int32":
		return []string{"int32"}
	case "int64":
		return []string{"int64"}
	case "decimal", "double":
		return []string{"double"}
	case "float":
		return []string{"float"}
	case "datetime":
		return []string{"google.protobuf.Timestamp"}
	case "blob8", "blob16", "blob24", "blob32", "binary", "varbinary":
		return []string{"bytes"}
	}
	return pbScalars
}

type pbOpt struct {
	pkg, goPkg string
	start      int
	decr       bool
}

// num reads a number of at most four digits.
func num(s string) int {
	ok := len(s) > 0 && len(s) <= 4
	n := 0
	for i := 0; ok && i < len(s); i++ {
		vk.Assert(isDigit(s[i]), "a field number is a number")
		n = n*10 + int(s[i]-'0')
	}
	need(ok, "a field number is a number")
	return n
}

func pbCheck(path string, tabs []*Table, o pbOpt) {
	f := pbRead(path)
	vk.Assert(f.pkg == o.pkg && f.goPkg == o.goPkg, "packages")
	need(len(f.msgs) == len(tabs), "one message per selected table")
	stamp := false
	for i, t := range tabs {
		m := f.msgs[i]
		vk.Assert(isIdent(m.name), "a message name is an identifier")
		for j := 0; j < i; j++ {
			vk.Assert(f.msgs[j].name != m.name, "message names differ")
		}
		n := len(t.Columns)
		need(len(m.fields) >= n, "one field per column")
		var tags []int
		for j, g := range m.fields {
			if j < n {
				w := t.Columns[j].Name
				vk.Tag("leading digit", firstIsDigit(w))
			}
			vk.Assert(isIdent(g.name), "a field name is an identifier")
			tag := num(g.tag)
			vk.Assert(tag > 0, "field numbers are positive")
			for k := 0; k < j; k++ {
				vk.Assert(m.fields[k].name != g.name, "field names differ")
				vk.Assert(tags[k] != tag, "field numbers differ")
			}
			tags = append(tags, tag)
			if g.typ == "google.protobuf.Timestamp" {
				stamp = true
			}
		}
		for j, c := range t.Columns {
			g := m.fields[j]
			vk.Assert(tags[j] == j+1, "columns are numbered in order")
			vk.Assert(!g.repeated && in(g.typ, pbType(c.Type)), "a field has the type of its column")
			w := letters(c.Name)
			vk.Assert(strings.HasPrefix(letters(g.name), w), "a field is named after its column")
		}
		// relations
		k, refs := n, 0
		for _, c := range t.Columns {
			if c.Ref != nil && tabIndex(tabs, c.Ref.Table) >= 0 {
				refs++
			}
		}
		need(len(m.fields) == n+refs, "one field per reference")
		for _, c := range t.Columns {
			if c.Ref == nil {
				continue
			}
			r := tabIndex(tabs, c.Ref.Table)
			if r < 0 {
				continue
			}
			g := m.fields[k]
			vk.Assert(g.typ == f.msgs[r].name, "a relation has the type of the referenced message")
			vk.Assert(g.repeated == (c.Ref.Relationship == "1:n"), "a relation to many is repeated")
			p := k - n
			if !o.decr {
				vk.Assert(vk.Imp(o.start > n, tags[k] == o.start+p), "relations are numbered from the start")
				vk.Assert(vk.Imp(o.start == -1, tags[k] == n+1+p), "relations are numbered after the columns")
			} else {
				vk.Assert(vk.Imp(o.start-refs+1 > n, tags[k] == o.start-p), "relations are numbered down from the start")
				vk.Assert(p == 0 || tags[k] == tags[k-1]-1, "relations are numbered down from the start")
			}
			k++
		}
	}
	vk.Assert(in("google/protobuf/timestamp.proto", f.imports) == stamp, "exactly the used types are imported")
	vk.Assert(len(f.imports) <= 1, "exactly the used types are imported")
}

func tabIndex(tabs []*Table, name string) int {
	for i, t := range tabs {
		if t.Name == name {
			return i
		}
	}
	return -1
}

func pbRun(args ...string) {
	run("generate succeeds", append([]string{"generate", "pb", "-i", "in.json", "-o", "out.proto"}, args...)...)
}

// one column of every type, with a second column of any name
func C18_column() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	c := &Col{Name: "ab", Type: vk.Pick("type", allTypes...), NotNull: vk.Bool("nn")}
	if c.Type == "enum" || c.Type == "set" {
		c.Values = []string{"x"}
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "word")), Columns: []*Col{c, {Name: vk.Str("name", n, "word"), Type: "int32"}}}
	c2 := t.Columns[1]
	vk.Assume(vk.Or(c2.Name[0] != '_', c2.Name[1] != '_'))
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := pbOpt{start: -1, pkg: vk.Pick("pkg", "", "a.b"), goPkg: vk.Pick("goPkg", "", "x/y")}
	args := []string{}
	if o.pkg != "" {
		args = append(args, "-p", o.pkg)
	}
	if o.goPkg != "" {
		args = append(args, "--goPackage", o.goPkg)
	}
	pbRun(args...)
	pbCheck("out.proto", []*Table{t}, o)
}

// any flags, keys and attributes in any combination
func C18_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64", "int32", "double")
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	pbRun()
	pbCheck("out.proto", []*Table{t}, pbOpt{start: -1})
}

// relations with every numbering
func C18_relations() {
	var tabs []*Table
	for i := 0; i < 2; i++ {
		t := &Table{Name: []string{"za", "zb_x"}[i], Columns: []*Col{{Name: "id", Type: "int64"}}}
		tabs = append(tabs, t)
	}
	k := vk.Choice("refs", 4)
	for j := 0; j < k; j++ {
		c := &Col{Name: "r" + itoa(j), Type: "int64"}
		if j == 1 {
			c.Name = vk.Pick("name", "za", "zbX", "r_1")
		}
		if to := vk.Pick("target", "", "za", "zb_x", "gone"); to != "" {
			c.Ref = &Ref{to, "id", vk.Pick("rel", "", "1:n")}
		}
		tabs[0].Columns = append(tabs[0].Columns, c)
	}
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	o := pbOpt{start: -1, decr: vk.Choice("decr", 2) == 1}
	args := []string{}
	if o.decr {
		args = append(args, "--relationTagDecr")
	}
	switch vk.Choice("start", 4) {
	case 1:
		s := vk.Str("tag", 1, "digit")
		o.start = int(s[0] - '0')
		args = append(args, "-s", s)
	case 2:
		s := cat(vk.Pick("tens", "1", "9"), vk.Str("tag", 1, "digit"))
		o.start = int(s[0]-'0')*10 + int(s[1]-'0')
		args = append(args, "--relationTagStart", s)
	case 3:
		args = append(args, "--relationTagStart", "-1")
	}
	pbRun(args...)
	pbCheck("out.proto", tabs, o)
}

// tables with any number of columns, in groups
func C18_tables() {
	var tabs, sel []*Table
	groups := vk.Pick("groups", "", "g", "g,h")
	for i, n := range []string{"za", "zb"} {
		t := &Table{Name: n, Group: vk.Pick("group", "", "g", "h")}
		k := vk.Choice("columns", 3)
		for j := 0; j < k; j++ {
			c := &Col{Name: vk.Str("col", 2, "lower") + itoa(j), Type: "int32"}
			if j == 0 {
				c.Type = vk.Pick("type", "int32", "datetime")
				if i == 0 && vk.Choice("ref", 2) == 1 {
					c.Ref = &Ref{"zb", "x", "n:1"}
				}
			}
			t.Columns = append(t.Columns, c)
		}
		tabs = append(tabs, t)
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{tabs[1], tabs[0]}})
	if tabs[0].Group > tabs[1].Group {
		tabs[0], tabs[1] = tabs[1], tabs[0]
	}
	for _, t := range tabs {
		if groups == "" || t.Group == "g" || t.Group == "h" && groups == "g,h" {
			sel = append(sel, t)
		}
	}
	args := []string{}
	if groups != "" {
		args = append(args, "-g", groups)
	}
	pbRun(args...)
	pbCheck("out.proto", sel, pbOpt{start: -1})
}

// firstIsDigit tells whether the first letter or digit of a name is a digit.
func firstIsDigit(s string) bool {
	r, before := false, true
	for i := 0; i < len(s); i++ {
		r = vk.Or(r, vk.And(before, isDigit(s[i])))
		before = vk.And(before, s[i] == '_')
	}
	return r
}

// references of columns with any flags
func C18_referring() {
	tabs := referring("int64", "varchar", "datetime")
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	pbRun()
	pbCheck("out.proto", tabs, pbOpt{start: -1})
}
