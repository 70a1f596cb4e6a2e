package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

// v1 file format
type v1Ref struct {
	Table  string `json:"table,omitempty"`
	Column string `json:"column,omitempty"`
}

type v1Col struct {
	Name    string `json:"name"`
	Type    string `json:"type"`
	Desc    string `json:"description,omitempty"`
	Size    int    `json:"size,omitempty"`
	Scale   int    `json:"scale,omitempty"`
	NotNull bool   `json:"notnull,omitempty"`
	PK      bool   `json:"pk,omitempty"`
	Unique  bool   `json:"unique,omitempty"`
	AutoInc bool   `json:"autoinc,omitempty"`
	Default string `json:"default,omitempty"`
	Ref     *v1Ref `json:"ref,omitempty"`
}

type v1Table struct {
	Name      string   `json:"name,omitempty"`
	Columns   []*v1Col `json:"columns,omitempty"`
	Desc      string   `json:"desc,omitempty"`
	Group     string   `json:"group,omitempty"`
	ClassName string   `json:"className,omitempty"`
}

type v1Schema struct {
	Author  string     `json:"author,omitempty"`
	Name    string     `json:"name,omitempty"`
	Version string     `json:"version,omitempty"`
	Tables  []*v1Table `json:"tables,omitempty"`
}

// v1Types are the v1 column types, their spellings and what they are in v2.
var v1Types = [][2]string{
	{"string", "varchar"}, {"varchar", "varchar"}, {"int", "int32"}, {"integer", "int32"}, {"bigint", "int64"}, {"long", "int64"},
	{"datetime", "datetime"}, {"bool", "boolean"}, {"boolean", "boolean"}, {"number", "decimal"}, {"decimal", "decimal"}, {"float", "float"},
	{"text", "text16"}, {"date", "date"}, {"time", "time"}, {"blob", "blob16"},
	{"char", "varchar"}, {"smallint", "int32"}, {"double", "decimal"}, {"String", "varchar"}, {"LONG", "int64"}, {"DateTime", "datetime"}, {"Boolean", "boolean"},
}

func c04Import(s *v1Schema) *Schema {
	vk.WriteJSON("in.ojson", s)
	run("import succeeds", "import", "ojson", "-i", "in.ojson", "-o", "out.json")
	return readSchema("out.json")
}

func txt(name string, n int, class string) string {
	if vk.Choice(name+"?", 2) == 0 {
		return ""
	}
	return vk.Str(name, n, class)
}

func C04_columns() {
	ty := v1Types[vk.Choice("type", len(v1Types))]
	c := &v1Col{Name: vk.Str("col", 3, "print"), Type: ty[0], NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("unique"),
		Size: vk.Int("size", 0, 65535), Scale: vk.Int("scale", 0, 65535), Desc: txt("desc", 3, "any"), Default: txt("default", 2, "any")}
	if ty[1] == "int32" || ty[1] == "int64" {
		c.AutoInc = vk.Bool("autoinc")
	}
	w := &Col{Name: c.Name, Type: ty[1], NotNull: c.NotNull, PK: c.PK, Unique: c.Unique, AutoInc: c.AutoInc, Size: c.Size, Scale: c.Scale, Desc: c.Desc, Default: c.Default}
	tab := vk.Str("tab", 2, "any")
	if k := vk.Choice("ref", 3); k > 0 {
		c.Ref = &v1Ref{vk.Str("rt", 2, "any"), vk.Str("rc", 2, "any")}
		if k == 2 {
			c.Ref.Column = c.Name
			c.Ref.Table = vk.Pick("rt", tab, "zz")
		}
		w.Ref = &Ref{Table: c.Ref.Table, Column: c.Ref.Column}
	}
	b := c04Import(&v1Schema{Tables: []*v1Table{{Name: tab, Columns: []*v1Col{c, {Name: "z", Type: "int"}}}}})
	need(len(b.Tables) == 1, "number of tables")
	need(len(b.Tables[0].Columns) == 2, "number of columns")
	sameCol(w, b.Tables[0].Columns[0])
	sameCol(&Col{Name: "z", Type: "int32"}, b.Tables[0].Columns[1])
}

func C04_tables() {
	s := &v1Schema{Author: txt("author", 2, "any"), Name: txt("name", 2, "any"), Version: txt("version", 2, "any")}
	var want []*Table
	n := 2
	if vk.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		t := &v1Table{Name: "t" + itoa(i), Group: vk.Pick("group", "", "g", "a"), Desc: txt("desc", 2, "any"), ClassName: txt("class", 2, "any")}
		w := &Table{Name: t.Name, Group: t.Group, Desc: t.Desc, ClassName: t.ClassName}
		for j := 0; j < 2-i; j++ {
			t.Columns = append(t.Columns, &v1Col{Name: "c" + itoa(j), Type: "int", NotNull: vk.Bool("nn"), Desc: vk.Str("d", 1, "any")})
			c := t.Columns[j]
			w.Columns = append(w.Columns, &Col{Name: c.Name, Type: "int32", NotNull: c.NotNull, Desc: c.Desc})
		}
		s.Tables = append(s.Tables, t)
		want = append(want, w)
	}
	b := c04Import(s)
	vk.Assert(b.Author == s.Author, "author")
	vk.Assert(b.Name == s.Name, "name")
	vk.Assert(b.Version == s.Version, "version")
	need(len(b.Tables) == n, "number of tables")
	for _, w := range want {
		g := b.table(w.Name)
		need(g != nil, "table present")
		sameTable(w, g)
	}
}
