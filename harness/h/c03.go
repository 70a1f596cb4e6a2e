package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

func c03Round(s *Schema) *Schema {
	vk.WriteJSON("in.json", s)
	args := []string{"export", "xlsx", "-i", "in.json", "-o", "out.xlsx"}
	if vk.Choice("useNullColumn", 2) == 1 {
		args = append(args, "--useNullColumn")
	}
	run("export succeeds", args...)
	run("import succeeds", "import", "xlsx", "-i", "out.xlsx", "-o", "back.json")
	return readSchema("back.json")
}

// keys, nullability, auto-increment, default and on-update texts of one column
func C03_flags() {
	c := &Col{Name: vk.Str("col", 3, "Ident"), Type: "int64", NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("unique"), AutoInc: vk.Bool("autoinc")}
	s := &Schema{Tables: []*Table{{Name: vk.Str("tab", 3, "Ident"), Group: "g", Columns: []*Col{c}}}}
	vk.Tag("primary key and unique key", vk.And(c.PK, c.Unique))
	sameTables(s.Tables, c03Round(s))
}

func C03_values() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	c := &Col{Name: "c", Type: vk.Pick("type", "varchar", "datetime"), NotNull: vk.Bool("nn")}
	if vk.Choice("default?", 2) == 1 {
		c.Default = inner("default", n+1, "print")
	}
	switch vk.Choice("onupdate?", 3) {
	case 1:
		c.OnUpdate = inner("onupdate", n+1, "print")
	case 2:
		c.Default = "fn::" + vk.Str("defaultfn", 1, "Ident")
		c.OnUpdate = "fn::" + vk.Str("updatefn", 2, "Ident")
	}
	vk.Tag("comma in default or on-update", strings.Contains(c.Default+c.OnUpdate, ","))
	s := &Schema{Tables: []*Table{{Name: "t", Group: "g", Columns: []*Col{c}}}}
	sameTables(s.Tables, c03Round(s))
}

// every column type with every size and scale
func C03_types() {
	t := vk.Pick("type", allTypes...)
	c := &Col{Name: "c", Type: t, NotNull: vk.Bool("nn")}
	vk.Tag("enum or set", t == "enum" || t == "set")
	switch {
	case t == "enum" || t == "set":
		c.Values = []string{vk.Str("v0", 1, "alnum"), vk.Str("v1", 1, "alnum")}
	case isScaled(t):
		c.Size = vk.Int("size", 0, 65)
		c.Scale = vk.Int("scale", 0, 30)
		vk.Assume(vk.Imp(c.Size == 0, c.Scale == 0))
	case t == "boolean" || t == "json" || t == "geometry" || t == "point":
	default:
		c.Size = vk.Int("size", 0, 65535)
	}
	s := &Schema{Tables: []*Table{{Name: "t", Group: "g", Columns: []*Col{c}}}}
	sameTables(s.Tables, c03Round(s))
}

func C03_meta() {
	s := &Schema{Author: vk.Str("author", vk.Choice("la", 3), "print"), Name: vk.Str("name", 2, "print"), Version: inner("version", 3, "print"), Tables: []*Table{{
		Name: "t", Group: vk.Str("group", 2, "alnum"), ClassName: vk.Str("class", 2*vk.Choice("class?", 2), "Ident"), Desc: inner("tdesc", 4*vk.Choice("tdesc?", 2), "print"),
		Columns: []*Col{{Name: "c", Type: "int32", Desc: inner("cdesc", 4, "print")}},
	}}}
	b := c03Round(s)
	vk.Assert(b.Author == s.Author, "author")
	vk.Assert(b.Name == s.Name, "name")
	vk.Assert(b.Version == s.Version, "version")
	sameTables(s.Tables, b)
}

// several tables over several groups; the unnamed group reads back as Common
func C03_groups() {
	groups := []string{"", "a", "b"}
	n := 3
	if vk.Thorough() {
		n = 4
	}
	s := &Schema{}
	for i := 0; i < n; i++ {
		g := groups[vk.Choice("group", len(groups))]
		t := &Table{Name: "t" + itoa(i), Group: g, Columns: []*Col{{Name: "c" + itoa(i), Type: "int32", PK: vk.Bool("pk")}, {Name: "d", Type: "varchar", Size: 5, NotNull: vk.Bool("nn")}}}
		if i == 1 {
			t.Columns = nil
		}
		s.Tables = append(s.Tables, t)
	}
	b := c03Round(s)
	need(len(b.Tables) == n, "number of tables")
	for _, w := range s.Tables {
		if w.Group == "" {
			w.Group = "Common"
		}
		g := b.table(w.Name)
		need(g != nil, "table present")
		sameTable(w, g)
	}
}

func C03_refs() {
	c := &Col{Name: "c", Type: "int64", Ref: &Ref{Table: vk.Str("rt", 2, "Ident"), Column: vk.Str("rc", 2, "Ident"), Relationship: vk.Pick("rel", "n:1", "1:n", "1:1")}}
	s := &Schema{Tables: []*Table{{Name: "t", Group: "g", Columns: []*Col{c, {Name: "d", Type: "int64"}}}}}
	sameTables(s.Tables, c03Round(s))
}

func C03_indices() {
	t := &Table{Name: "t", Group: "g", Columns: []*Col{{Name: "a", Type: "int64"}, {Name: "b", Type: "int64"}}}
	k := 1 + vk.Choice("indices", 3)
	for i := 0; i < k; i++ {
		x := &Index{Name: vk.Str("idx", 2, "Ident"), Columns: []string{vk.Str("ic", 2, "Ident")}}
		for _, o := range t.Indices { // names may differ in the case of a letter only
			vk.Assume(o.Name != x.Name)
		}
		switch vk.Choice("more", 3) {
		case 1:
			x.Columns = append(x.Columns, vk.Str("ic", 1, "Ident"))
		case 2:
			x.Columns = append(x.Columns, vk.Str("ic", 1, "Ident"), "third", "four")
		}
		t.Indices = append(t.Indices, x)
	}
	s := &Schema{Tables: []*Table{t, {Name: "u", Group: "g", Columns: []*Col{{Name: "a", Type: "int8"}}}}}
	sameTables(s.Tables, c03Round(s))
}

// a workbook written by hand in the documented layout
func C03_manual() {
	hdr := []string{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}
	nul := vk.Choice("nullable", 2) == 1
	if nul {
		hdr[4] = "nullable"
	}
	mark := vk.Pick("mark", "O", "", "Y")
	auto := vk.Pick("auto", "", "autoInc", "autoinc")
	key := vk.Pick("key", "", "P", "U")
	rel := vk.Pick("rel", ">", "<", "-", "")
	def := vk.Pick("attr", "", "default=", "default=fn::")
	dv := ""
	if def != "" {
		dv = vk.Str("dv", 1+vk.Choice("dv.length", 2), "alnum")
	}
	var at []string
	if auto != "" {
		at = append(at, auto)
	}
	if def != "" {
		at = append(at, def+dv)
	}
	tab, col, cls := vk.Str("tab", 2, "Ident"), vk.Str("col", 2, "Ident"), vk.Str("cls", 2, "Ident")
	rt, rc := vk.Str("rt", 2, "Ident"), vk.Str("rc", 1, "Ident")
	ref := ""
	if rel != "" {
		ref = rel + rt + "." + rc
	}
	sep := vk.Pick("sep", ",", ", ")
	pad := func(row ...string) []string { return row }
	if vk.Choice("padded", 2) == 1 { // blanks around the texts of cells
		pad = func(row ...string) []string {
			for i, x := range row {
				if x != "" {
					row[i] = cat(" ", x, "  ")
				}
			}
			return row
		}
	}
	vk.WriteXLSX("in.xlsx", []vk.Sheet{
		{Name: "Meta", Rows: [][]string{{"author", "me"}, {"name", "n"}, {"version", "1"}}},
		{Name: "g", Rows: [][]string{hdr,
			pad(tab, "", "table", "", "", "class="+cls, "some text"),
			pad(ref, col, "int64", key, mark, strings.Join(at, sep), "d"),
			{},
			pad("other", "", "table"),
			{"", "x", "decimal(5,2)"},
			{"i", "x", "", "I"},
		}},
	})
	run("import succeeds", "import", "xlsx", "-i", "in.xlsx", "-o", "out.json")
	b := readSchema("out.json")
	vk.Assert(b.Author == "me" && b.Name == "n" && b.Version == "1", "meta sheet")
	need(len(b.Tables) == 2, "number of tables")
	for i := range b.Tables {
		if vk.Split(b.Tables[i].Name == "other") && len(b.Tables[i].Indices) == 1 {
			sameTable(&Table{Name: "other", Group: "g", Columns: []*Col{{Name: "x", Type: "decimal", Size: 5, Scale: 2, NotNull: nul}}, Indices: []*Index{{"i", []string{"x"}}}}, b.Tables[i])
			continue
		}
		w := &Col{Name: col, Type: "int64", Desc: "d", PK: key == "P", Unique: key == "U", NotNull: (mark != "") != nul, AutoInc: auto != ""}
		if def != "" {
			w.Default = strings.TrimPrefix(def, "default=") + dv
		}
		if rel != "" {
			w.Ref = &Ref{rt, rc, map[string]string{">": "n:1", "<": "1:n", "-": "1:1"}[rel]}
		}
		sameTable(&Table{Name: tab, Group: "g", ClassName: cls, Desc: "some text", Columns: []*Col{w}}, b.Tables[i])
	}
}

// flags, keys and attributes in any combination
func C03_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	t.Group = "g"
	both := false
	for _, c := range t.Columns {
		both = vk.Or(both, vk.And(c.PK, c.Unique))
	}
	vk.Tag("primary key and unique key", both)
	sameTables([]*Table{t}, c03Round(&Schema{Tables: []*Table{t}}))
}

// references of columns with any flags
func C03_referring() {
	tabs := referring("int64", "varchar", "datetime")
	tabs[0].Group, tabs[1].Group = "g", "h"
	for _, t := range tabs { // see C03-pk-unique
		for _, c := range t.Columns {
			c.Unique = vk.And(c.Unique, vk.Not(c.PK))
			vk.Assume(c.Ref == nil || c.Ref.Relationship != "")
		}
	}
	sameTables(tabs, c03Round(&Schema{Tables: tabs}))
}
