package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// anyDefault gives a default value that suits the type, or none.
func anyDefault(p, t string) string {
	n := 1
	lit := ""
	switch t {
	case "int8", "int16", "int24", "int32", "int64", "bit":
		lit = cat("1", vk.Str(p+".digit", 1, "digit"))
	case "decimal", "float", "double":
		lit = cat("1.5", vk.Str(p+".digit", 1, "digit"))
	case "boolean":
		lit = "1"
	case "char", "varchar":
		lit = cat("v", vk.Str(p+".text", 2, "alnum"))
	case "date":
		lit = cat("2020-01-1", vk.Str(p+".digit", 1, "digit"))
	case "datetime":
		lit = cat("2020-01-01 00:00:0", vk.Str(p+".digit", 1, "digit"))
		n = 2
	case "time":
		lit = cat("10:00:0", vk.Str(p+".digit", 1, "digit"))
	case "year":
		lit = cat("201", vk.Str(p+".digit", 1, "digit"))
	case "enum", "set":
		lit = "x"
	default:
		return ""
	}
	switch vk.Choice(p+".default", n+1) {
	case 1:
		return lit
	case 2:
		return "fn::CURRENT_TIMESTAMP"
	}
	return ""
}

// dress gives a column of some type sizes, members, a default, flags and a description.
func dress(p string, c *Col) *Col {
	switch {
	case c.Type == "enum" || c.Type == "set":
		c.Values = []string{"x", "y"}
	case isScaled(c.Type):
		if vk.Choice(p+".sized", 2) == 1 {
			c.Size, c.Scale = 10, 2
			if vk.Thorough() {
				c.Size = vk.Int(p+".size", 2, 53)
			}
		}
	case c.Type == "varchar" || c.Type == "varbinary":
		c.Size = 20
	case c.Type == "char" || c.Type == "binary":
		c.Size = 3
	case c.Type == "bit":
		c.Size = 8
	case isInt(c.Type):
		c.AutoInc = vk.Bool(p + ".autoinc")
		c.Size = vk.Int(p+".size", 0, 20)
		vk.Assume(c.Size != 1) // tinyint(1) is boolean
	}
	c.NotNull, c.PK, c.Unique = vk.Bool(p+".nn"), vk.Bool(p+".pk"), vk.Bool(p+".unique")
	c.Default = anyDefault(p, c.Type)
	if c.Default == "fn::CURRENT_TIMESTAMP" && vk.Choice(p+".onupdate", 2) == 1 {
		c.OnUpdate = "fn::CURRENT_TIMESTAMP"
	}
	if vk.Choice(p+".desc?", 2) == 1 {
		c.Desc = cat("d", vk.Str(p+".desc", 1, "alnum"))
	}
	return c
}

// scaled gives a number any size that databases have, and any scale up to it.
func scaled(p string, c *Col, lo int) {
	c.Size, c.Scale = vk.Int(p+"size", lo, 53), vk.Int(p+"scale", 0, 30)
	vk.Assume(c.Scale <= c.Size)
}

// mixed is a table whose columns have flags, keys and attributes in any combination.
func mixed(types ...string) *Table {
	a := &Col{Name: "ca", Type: "int64", PK: vk.Bool("a.pk"), NotNull: vk.Bool("a.nn"), Unique: vk.Bool("a.unique"), AutoInc: vk.Bool("a.autoinc")}
	b := &Col{Name: "cb", Type: vk.Pick("b.type", types...), PK: vk.Bool("b.pk"), NotNull: vk.Bool("b.nn"), Unique: vk.Bool("b.unique")}
	switch {
	case isScaled(b.Type):
		scaled("b.", b, 1)
	case b.Type == "varchar" || b.Type == "char":
		b.Size = vk.Int("b.size", 1, 99)
	case b.Type == "enum" || b.Type == "set":
		b.Values = []string{"x", cat("m", vk.Str("b.member", 1, "lower"))}
	case isInt(b.Type):
		b.AutoInc = vk.And(vk.Bool("b.autoinc"), vk.Not(a.AutoInc))
		b.Size = vk.Int("b.size", 0, 20)
	}
	if vk.Choice("b.more", 2) == 1 {
		b.Desc = cat("d", vk.Str("b.desc", 1, "alnum"))
		switch b.Type {
		case "varchar", "char":
			b.Default = cat("v", vk.Str("b.text", 1, "alnum"))
		case "int64", "int32":
			b.Default = "15"
		case "decimal", "float", "double":
			b.Default = "1.52"
		case "enum", "set":
			b.Default = "x"
		case "datetime":
			b.Default = "fn::CURRENT_TIMESTAMP"
		case "boolean":
			b.Default = vk.Pick("b.bool", "1", "0")
		}
	}
	c := &Col{Name: "cc", Type: "int32", PK: vk.Bool("c.pk"), Desc: "dc"}
	if vk.Thorough() {
		c.Unique = vk.Bool("c.unique")
	}
	cols := []*Col{a, b, c}
	if vk.Choice("turned", 2) == 1 {
		cols = []*Col{c, b, a}
	}
	return &Table{Name: "zt", Columns: cols}
}

// inner is a text of n characters that has blanks inside only.
func inner(name string, n int, class string) string {
	if n < 3 {
		return vk.Str(name, n, "text")
	}
	return cat(vk.Str(name+".first", 1, "text"), vk.Str(name, n-2, class), vk.Str(name+".last", 1, "text"))
}

// referring is a pair of tables, one of them with a column of any flags that refers to a table.
func referring(types ...string) []*Table {
	id := &Col{Name: "id", Type: "int64", PK: vk.Bool("id.pk"), NotNull: true}
	r := &Col{Name: "r_id", Type: vk.Pick("r.type", types...), PK: vk.Bool("r.pk"), NotNull: vk.Bool("r.nn"), Unique: vk.Bool("r.unique")}
	r.Ref = &Ref{vk.Pick("target", "za", "zb_x", "ZB_x", "gone"), vk.Pick("column", "id", "code", "nosuch"), vk.Pick("rel", "n:1", "1:n", "1:1", "")}
	switch {
	case isInt(r.Type):
		r.AutoInc = vk.And(r.PK, vk.Bool("r.autoinc"))
	case r.Type == "varchar":
		r.Size = 9
	}
	if vk.Choice("r.more", 2) == 1 {
		r.Desc = "dr"
		switch r.Type {
		case "varchar":
			r.Default = "x"
		case "int64", "int32":
			r.Default = "15"
		}
	}
	x := &Col{Name: "x", Type: "varchar", Size: 20, Unique: vk.Bool("x.unique")}
	return []*Table{
		{Name: "za", Columns: [][]*Col{{id, r, x}, {r, x, id}}[vk.Choice("turned", 2)]},
		{Name: "zb_x", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "code", Type: "varchar", Size: 9, NotNull: true}}},
	}
}

// colliding gives a table with three columns whose names may differ in case and separators only, and one which refers to it.
func colliding(words ...string) []*Table {
	a, b := vk.Str("a", 1, "lower"), vk.Str("b", 1, "lower")
	forms := [][]string{append([]string{"_", "", "aA"}, words...), append([]string{"_", "-", "", "Aa", "aA", "a_A", "A_a"}, words...), {"-", "Aa", "A_a"}}
	t := &Table{Name: "za"}
	for i := 0; i < 3; i++ {
		c := &Col{Type: "datetime", Unique: i == 1, PK: i == 0}
		if i == 2 {
			c.Type, c.Unique = vk.Pick("type", "int32", "datetime"), vk.Bool("unique")
		}
		switch f := vk.Pick("form", forms[i]...); f {
		case "_", "-", "":
			c.Name = cat(a, f, b)
		case "Aa":
			c.Name = cat(strings.ToUpper(a), b)
		case "aA":
			c.Name = cat(a, strings.ToUpper(b))
		case "a_A":
			c.Name = cat(a, "_", strings.ToUpper(b))
		case "A_a":
			c.Name = cat(strings.ToUpper(a), "_", b)
		default:
			c.Name = f
		}
		for _, x := range t.Columns {
			vk.Assume(x.Name != c.Name)
		}
		t.Columns = append(t.Columns, c)
	}
	u := &Table{Name: "zb", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "za", Type: "int32"}}}
	if r := vk.Choice("ref", 4); r < 3 {
		u.Columns[1].Ref = &Ref{t.Name, t.Columns[r].Name, ""}
	}
	return []*Table{t, u}
}
