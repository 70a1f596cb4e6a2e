package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

func c01Round(s *Schema, args ...string) *Schema {
	vk.WriteJSON("in.json", s)
	run("export succeeds", append([]string{"export", "mysql", "-i", "in.json", "-o", "out.sql"}, args...)...)
	run("exported DDL is accepted by the importer", "import", "mysql", "-i", "out.sql", "-o", "back.json")
	return readSchema("back.json")
}

// carried is what the DDL can carry of a schema.
func carried(s *Schema) []*Table {
	var out []*Table
	for _, t := range s.Tables {
		n := &Table{Name: t.Name, Indices: t.Indices}
		for _, c := range t.Columns {
			d := *c
			d.Ref = nil
			d.NotNull = vk.Or(c.NotNull, c.AutoInc)
			n.Columns = append(n.Columns, &d)
		}
		out = append(out, n)
	}
	return out
}

func one(c *Col) *Schema { return &Schema{Tables: []*Table{{Name: "z_t", Columns: []*Col{c}}}} }

func C01_flags() {
	c := &Col{Name: "z_" + vk.Str("col", 2, "word"), Type: "int64", NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("unique"), AutoInc: vk.Bool("autoinc"), Size: vk.Int("size", 0, 255)}
	d := &Col{Name: "y_" + vk.Str("col2", 1, "word"), Type: "varchar", Size: 3, NotNull: vk.Bool("nn2"), PK: vk.Bool("pk2"), Unique: vk.Bool("unique2")}
	s := &Schema{Tables: []*Table{{Name: "z_" + vk.Str("tab", 2, "word"), Columns: []*Col{c, d}}}}
	if vk.Choice("suffix?", 2) == 1 {
		sfx := vk.Str("suffix", 2, "word")
		sameTables(carried(s), c01Round(s, "-u", sfx))
		sql, _ := vk.ReadFile("out.sql")
		if vk.Split(vk.Or(c.Unique, d.Unique)) {
			vk.Assert(strings.Contains(sql, cat("UNIQUE KEY `", s.Tables[0].Name, sfx, "` (")), "unique key name has the suffix")
		}
		return
	}
	sameTables(carried(s), c01Round(s))
}

// every type that MySQL has, with every size and scale it can have there
func C01_types() {
	t := vk.Pick("type", allTypes...)
	c := &Col{Name: "z_c", Type: t, NotNull: vk.Bool("nn")}
	vk.Tag("geometry or point", t == "geometry" || t == "point")
	switch {
	case t == "enum" || t == "set":
		c.Values = []string{"a", "b"}
	case isScaled(t):
		if vk.Choice("sized", 2) == 1 {
			c.Size = vk.Int("size", 1, 53)
			c.Scale = vk.Int("scale", 0, 30)
			vk.Assume(c.Scale <= c.Size)
		}
	case t == "varchar" || t == "varbinary":
		c.Size = vk.Int("size", 1, 65535)
	case t == "char" || t == "binary":
		c.Size = vk.Int("size", 0, 255)
	case t == "bit":
		c.Size = vk.Int("size", 2, 64) // bit(1) is boolean
	case isInt(t):
		c.Size = vk.Int("size", 0, 255)
		vk.Assume(vk.Not(vk.And(t == "int8", c.Size == 1))) // tinyint(1) is boolean
	}
	s := one(c)
	sameTables(carried(s), c01Round(s))
}

// comments, defaults and members hold any text
func C01_texts() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	c := &Col{Name: "z_c", Type: "varchar", Size: 9}
	switch vk.Choice("where", 4) {
	case 0:
		c.Desc = vk.Str("desc", n, "any")
	case 1:
		c.Default = vk.Str("default", n, "any")
		c.NotNull = vk.Bool("nn")
	case 2:
		c.Type, c.Size = vk.Pick("type", "enum", "set"), 0
		c.Values = []string{vk.Str("v0", n, "any"), vk.Str("v1", 1, "any")}
	case 3:
		c.Type, c.Size = vk.Pick("type", "enum", "set"), 0
		c.Values = []string{"p", "q"}
		c.Default = "q"
		c.Desc = vk.Str("desc", 1, "any")
	}
	vk.Tag("trailing blank in a member", c.Type != "varchar" && len(c.Values) > 1 && vk.Or(strings.HasSuffix(c.Values[0], " "), strings.HasSuffix(c.Values[1], " ")))
	s := one(c)
	sameTables(carried(s), c01Round(s))
}

// a default of the right form for every type that can have one
func C01_defaults() {
	type td struct{ t, d string }
	dg := vk.Str("digit", 1, "digit")
	opts := []td{
		{"int8", cat("1", dg)}, {"int16", cat("-1", dg)}, {"int24", cat("2", dg)}, {"int32", cat("-3", dg)}, {"int64", cat("4", dg)},
		{"decimal", cat("1.", dg)}, {"decimal", cat("-2.", dg)}, {"float", cat("1", dg)}, {"double", cat("7.", dg)}, {"boolean", "1"}, {"boolean", "0"}, {"bit", "5"},
		{"char", cat("a", dg)}, {"varchar", cat("b'", dg)}, {"binary", cat("c", dg)}, {"varbinary", cat("d", dg)}, {"text8", cat("e", dg)}, {"text16", cat("f", dg)}, {"text24", cat("g", dg)}, {"text32", cat("h", dg)},
		{"date", cat("2020-01-1", dg)}, {"datetime", cat("2020-01-01 00:00:0", dg)}, {"time", cat("10:00:0", dg)}, {"year", cat("201", dg)},
		{"enum", "x"}, {"set", "x"}, {"datetime", "fn::CURRENT_TIMESTAMP"}, {"datetime", "fn::NOW"},
	}
	o := opts[vk.Choice("case", len(opts))]
	c := &Col{Name: "z_c", Type: o.t, Default: o.d, NotNull: vk.Bool("nn"), Desc: "d"}
	switch {
	case o.t == "enum" || o.t == "set":
		c.Values = []string{"x", "y"}
	case isSized(o.t):
		c.Size = 7
	case o.t == "decimal":
		c.Size, c.Scale = 5, 2
	}
	if strings.HasPrefix(o.d, "fn::") && vk.Choice("onupdate", 2) == 1 {
		c.OnUpdate = "fn::CURRENT_TIMESTAMP"
	}
	s := one(c)
	b := c01Round(s)
	w := carried(s)
	if o.d == "fn::NOW" {
		w[0].Columns[0].Default = "fn::CURRENT_TIMESTAMP" // synonyms in MySQL
	}
	sameTables(w, b)
}

func C01_tables() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	s := &Schema{}
	for i := 0; i < n; i++ {
		t := &Table{Name: "z_" + itoa(i), Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "a", Type: "int32", Unique: vk.Bool("u")}, {Name: "b", Type: "varchar", Size: 5, Unique: vk.Bool("u2")}}}
		for j := vk.Choice("indices", 3); j > 0; j-- {
			x := &Index{Name: cat("i", itoa(j), vk.Str("idx", 1, "word")), Columns: []string{"a"}}
			if vk.Choice("two", 2) == 1 {
				x.Columns = []string{"b", "a"}
			}
			t.Indices = append(t.Indices, x)
		}
		s.Tables = append(s.Tables, t)
	}
	sameTables(carried(s), c01Round(s))
}

// shortReserved are the reserved words of MySQL with two letters.
var shortReserved = []string{"as", "by", "if", "in", "is", "of", "on", "or", "to"}

func reserved(n string) bool {
	r := false
	for _, k := range shortReserved {
		r = vk.Or(r, strings.ToLower(n) == k)
	}
	return r
}

func C01_names() {
	tab, col := "z_t", "z_c"
	if vk.Choice("which", 2) == 0 {
		tab = vk.Str("tab", 2, "Ident")
	} else {
		col = vk.Str("col", 2, "Ident")
	}
	vk.Tag("reserved word as a name", vk.Or(reserved(tab), reserved(col)))
	s := &Schema{Tables: []*Table{{Name: tab, Columns: []*Col{{Name: col, Type: "int32", PK: vk.Bool("pk"), Unique: vk.Bool("unique")}}, Indices: []*Index{{"i", []string{col}}}}}}
	sameTables(carried(s), c01Round(s))
}

// names with characters that are no part of a plain identifier
func C01_oddnames() {
	ch := vk.Str("ch", 1, "plain")
	vk.Assume(vk.And(ch != ".", ch != "/")) // not possible in a MySQL name
	vk.Tag("name that needs quotes", !isIdentText(ch))
	tab, col := "z_t", "z_c"
	if vk.Choice("which", 2) == 0 {
		tab = cat("z", ch, "t")
	} else {
		col = cat("z", ch, "t")
	}
	s := &Schema{Tables: []*Table{{Name: tab, Columns: []*Col{{Name: col, Type: "int32"}}}}}
	sameTables(carried(s), c01Round(s))
}

func isIdentText(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$') {
			return false
		}
	}
	return true
}

// every type with every flag, size, default and text on one column, beside a column with keys of its own
func C01_mixed() {
	t := vk.Pick("type", allTypes...)
	if t == "geometry" || t == "point" {
		vk.Stop() // C01_types
	}
	c := dress("c", &Col{Name: "z_c", Type: t})
	d := &Col{Name: "z_d", Type: "int32", Unique: vk.Bool("unique2")}
	if vk.Thorough() {
		d.PK, d.NotNull = vk.Bool("pk2"), vk.Bool("nn2")
	}
	tb := &Table{Name: "z_t", Columns: []*Col{c, d}}
	if vk.Choice("order", 2) == 1 {
		tb.Columns = []*Col{d, c}
	}
	if vk.Thorough() && vk.Choice("index", 2) == 1 {
		tb.Indices = []*Index{{"i1", []string{"z_d", "z_c"}}}
	}
	s := &Schema{Tables: []*Table{tb}}
	sameTables(carried(s), c01Round(s))
}

// flags, keys and attributes of several columns in any combination
func C01_keys() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	sameTables(carried(&Schema{Tables: []*Table{t}}), c01Round(&Schema{Tables: []*Table{t}}))
}
