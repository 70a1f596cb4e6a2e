package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

type gqlField struct{ name, typ string }

type gqlType struct {
	name   string
	fields []*gqlField
}

type gqlFile struct {
	query string
	types []*gqlType
}

// gqlRead reads a GraphQL schema.
func gqlRead(path string) *gqlFile {
	s, ok := vk.ReadFile(path)
	need(ok, "the output is written")
	f := &gqlFile{}
	var cur *gqlType
	schema, done := false, false
	for _, l := range strings.Split(s, "\n") {
		l = strings.Trim(l, " ")
		switch {
		case l == "":
		case l == "schema {":
			need(cur == nil && !schema && !done, "the schema is declared once")
			schema, done = true, true
		case l == "}":
			need(cur != nil || schema, "braces match")
			cur, schema = nil, false
		case schema:
			x, ok := between(l, "query: ", "")
			need(ok && f.query == "", "the schema names one query type")
			f.query = x
		case cur == nil:
			x, ok := between(l, "type ", " {")
			need(ok, "a type is declared")
			cur = &gqlType{name: x}
			f.types = append(f.types, cur)
		default:
			i := strings.Index(l, ": ")
			need(i > 0, "a field is declared")
			cur.fields = append(cur.fields, &gqlField{l[:i], l[i+2:]})
		}
	}
	need(cur == nil && !schema && done, "the file is complete")
	return f
}

var gqlScalars = []string{"Int", "Float", "String", "Boolean", "ID"}

func gqlScalar(t string) []string {
	switch t {
	case "boolean":
		return []string{"Boolean"}
	case "int8", "int16", "int24", "int32", "int64":
		return []string{"Int"}
	case "decimal", "float", "double":
		return []string{"Float"}
	case "char", "varchar", "text8", "text16", "text24", "text32", "date", "time", "datetime", "enum", "json", "set":
		return []string{"String"}
	}
	return gqlScalars
}

func gqlCheck(path string, tabs []*Table) {
	f := gqlRead(path)
	need(len(f.types) == len(tabs)+1, "one type per table")
	q := f.types[0]
	vk.Assert(q.name == f.query, "the query type is declared")
	need(len(q.fields) == len(tabs), "one query per table")
	for i, t := range tabs {
		g := f.types[i+1]
		vk.Assert(isIdent(g.name), "a type name is an identifier")
		if t.ClassName != "" {
			vk.Assert(g.name == t.ClassName, "a type has the given class name")
		} else {
			vk.Assert(letters(g.name) == letters(t.Name), "a type is named after its table")
		}
		vk.Assert(q.fields[i].typ == cat("[", g.name, "]"), "a query returns the rows of its table")
		vk.Assert(isIdent(q.fields[i].name), "a query name is an identifier")
		for j := 0; j < i; j++ {
			vk.Assert(f.types[j+1].name != g.name, "type names differ")
			vk.Assert(q.fields[j].name != q.fields[i].name, "query names differ")
		}
		need(len(g.fields) == len(t.Columns), "one field per column")
		keys := 0
		for _, c := range t.Columns {
			if c.PK {
				keys++
			}
		}
		for j, c := range t.Columns {
			x := g.fields[j]
			vk.Assert(isIdent(x.name), "a field name is an identifier")
			vk.Assert(strings.HasPrefix(letters(x.name), letters(c.Name)), "a field is named after its column")
			for k := 0; k < j; k++ {
				vk.Assert(g.fields[k].name != x.name, "field names differ")
			}
			typ := x.typ
			mark := strings.HasSuffix(typ, "!")
			if mark {
				typ = typ[:len(typ)-1]
			}
			if c.PK && keys == 1 {
				vk.Assert(typ == "ID" && mark, "a primary key is an ID")
				continue
			}
			vk.Assert(in(typ, gqlScalar(c.Type)), "a field has the scalar of its column")
			vk.Assert(vk.Iff(mark, c.NotNull), "exactly the not-null columns are marked")
		}
	}
}

func gqlRun(args ...string) {
	run("generate succeeds", append([]string{"generate", "graphql", "-i", "in.json", "-o", "out"}, args...)...)
}

// one column of every type beside a column of any name
func C17_column() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	c := &Col{Name: "ab", Type: vk.Pick("type", allTypes...), NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("uniq")}
	if c.Type == "enum" || c.Type == "set" {
		c.Values = []string{"x"}
	}
	c2 := &Col{Name: vk.Str("name", n, "word"), Type: "int32", NotNull: vk.Bool("nn2"), PK: vk.Bool("pk2")}
	vk.Assume(vk.Or(c2.Name[0] != '_', c2.Name[1] != '_'))
	vk.Assume(c2.Name != "ab")
	t := &Table{Name: "user_group", Columns: []*Col{c, c2}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gqlRun()
	gqlCheck("out/-.graphqls", []*Table{t})
}

// tables of any shape and class name, with any schema name
func C17_tables() {
	var tabs []*Table
	cols := vk.Choice("columns", 4)
	name := vk.Str("schema", 3-cols, "Ident")
	version := ""
	if len(name) == 2 {
		version = "1.0.0"
	}
	for i := 0; i < 2; i++ {
		t := &Table{Name: []string{"user_group", "zorder"}[i], Desc: "d"}
		if vk.Choice("class", 2) == 1 {
			t.ClassName = "OrderX"
			if i == 0 {
				t.ClassName = cat("User", vk.Str("class", 1, "upper"), "x")
			}
		}
		k := i + 1
		if i == 0 {
			k = cols
		}
		for j := 0; j < k; j++ {
			c := &Col{Name: "col_" + itoa(j), Type: "varchar", Size: 10, PK: i == 1, NotNull: i == 1}
			if i == 0 {
				c.PK, c.NotNull = vk.Bool("pk"), vk.Bool("nn")
			}
			if j == 1 {
				c.Ref = &Ref{"user_group", "col_0", "n:1"}
			}
			t.Columns = append(t.Columns, c)
		}
		tabs = append(tabs, t)
	}
	vk.WriteJSON("in.json", &Schema{Name: name, Version: version, Tables: tabs})
	gqlRun()
	gqlCheck(cat("out/", name, "-", version, ".graphqls"), tabs)
}

// two columns whose names differ
func C17_names() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	a, b := vk.Str("a", n, "word"), vk.Str("b", 3, "word")
	vk.Assume(vk.Or(a[0] != '_', a[1] != '_'))
	vk.Assume(vk.Or(b[0] != '_', b[1] != '_'))
	vk.Assume(a != b)
	t := &Table{Name: "item", Columns: []*Col{{Name: a, Type: "int32"}, {Name: b, Type: "int32"}}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gqlRun()
	gqlCheck("out/-.graphqls", []*Table{t})
}

// flags, keys and attributes in any combination
func C17_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	t.Columns[1].Ref = &Ref{"zt", "ca", vk.Pick("rel", "n:1", "1:n")}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gqlRun()
	gqlCheck("out/-.graphqls", []*Table{t})
}

// references of columns with any flags
func C17_referring() {
	tabs := referring("int64", "varchar", "datetime")
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	gqlRun()
	gqlCheck("out/-.graphqls", tabs)
}
