package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// documented names of column types that are not canonical
var aliases = [][2]string{
	{"string", "varchar"}, {"tinyint", "int8"}, {"smallint", "int16"}, {"mediumint", "int24"}, {"int", "int32"}, {"integer", "int32"},
	{"bigint", "int64"}, {"long", "int64"}, {"numeric", "decimal"}, {"real", "double"}, {"timestamp", "datetime"},
	{"tinyblob", "blob8"}, {"blob", "blob16"}, {"mediumblob", "blob24"}, {"longblob", "blob32"},
	{"tinytext", "text8"}, {"text", "text16"}, {"mediumtext", "text24"}, {"longtext", "text32"},
}

// anyCase is a text in any mix of small and capital letters.
func anyCase(s string) string {
	x := vk.Str("case", len(s), "alnum")
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			vk.Assume(vk.Or(x[i] == s[i], x[i] == s[i]-32))
		} else {
			vk.Assume(x[i] == s[i])
		}
	}
	return x
}

// spelled is any type name in any case, with its canonical name.
func spelled() (string, string) {
	k := vk.Choice("type", len(aliases)+len(allTypes))
	if k < len(aliases) {
		return anyCase(aliases[k][0]), aliases[k][1]
	}
	t := allTypes[k-len(aliases)]
	return anyCase(t), t
}

func c21Schema(typ string) *Schema {
	pos := vk.Choice("position", 3)
	t := &Table{Name: "zt"}
	u := &Table{Name: "zu", Columns: []*Col{{Name: "id", Type: "int64"}}}
	for i := 0; i < 2; i++ {
		t.Columns = append(t.Columns, &Col{Name: "c" + itoa(i), Type: "int32", PK: i == 0})
	}
	c := &Col{Name: "x", Type: typ}
	switch pos {
	case 0:
		t.Columns = append([]*Col{c}, t.Columns...)
	case 1:
		t.Columns = append(t.Columns, c)
	case 2:
		u.Columns = append(u.Columns, c)
	}
	return &Schema{Name: "n", Version: "1", Tables: []*Table{t, u}}
}

func (s *Schema) x() *Col {
	for _, t := range s.Tables {
		if c := t.col("x"); c != nil {
			return c
		}
	}
	return nil
}

func setValues(c *Col, typ string, lean bool) {
	if typ == "enum" || typ == "set" {
		c.Values = []string{"a", "b"}
		if !lean && vk.Choice("many values", 2) == 1 { // as many as MySQL lets a set have
			for k := 2; k < 64; k++ {
				c.Values = append(c.Values, "v"+itoa(k))
			}
		}
	}
	switch {
	case typ == "varchar":
		c.Size = 9
	case isInt(typ) || typ == "datetime":
		c.Size = vk.Int("size", 0, 20)
	case isScaled(typ):
		scaled("", c, 0)
	}
	if lean {
		return
	}
	if vk.Choice("more", 2) == 1 {
		c.PK, c.NotNull, c.Unique, c.Desc = vk.Bool("pk"), vk.Bool("notnull"), vk.Bool("unique"), "d"
		switch {
		case isInt(typ):
			c.Default = "1"
		case typ == "varchar":
			c.Default = "a"
		}
	}
}

// every command treats a spelling of a type as the type
func C21_spelling() {
	typ, canon := spelled()
	a := c21Schema(typ)
	setValues(a.x(), canon, false)
	b := &Schema{Name: a.Name, Version: a.Version}
	for _, t := range a.Tables {
		b.Tables = append(b.Tables, cloneTab(t))
	}
	b.x().Type = canon
	o := &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "x", Type: "point"}}}}}
	cmd := anyCommand()
	vk.WriteJSON("old.json", o)
	vk.WriteJSON("in.json", a)
	vk.WriteJSON("canon.json", b)
	cmd.run("old.json", "in.json", "a")
	cmd.run("old.json", "canon.json", "b")
	sameOutput("a", "b", "a spelling of a type is the type")
}

// a spelling is no change of the type
func C21_nodiff() {
	typ, canon := spelled()
	a, b := c21Schema(typ), &Schema{Name: "n", Version: "1"}
	setValues(a.x(), canon, false)
	for _, t := range a.Tables {
		b.Tables = append(b.Tables, cloneTab(t))
	}
	b.x().Type = canon
	if vk.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	f := vk.Pick("format", diffFormats...)
	diffRun(f, a, b)
	noChange(f)
}

// auto-increment counts on integer columns only
func C21_autoinc() {
	typ, canon := spelled()
	a := c21Schema(typ)
	setValues(a.x(), canon, false)
	b := &Schema{Name: a.Name, Version: a.Version}
	for _, t := range a.Tables {
		b.Tables = append(b.Tables, cloneTab(t))
	}
	a.x().AutoInc = true
	b.x().Type = canon
	b.x().AutoInc = isInt(canon)
	o := &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "y", Type: "point"}}}}}
	cmd := anyCommand()
	vk.WriteJSON("old.json", o)
	vk.WriteJSON("in.json", a)
	vk.WriteJSON("canon.json", b)
	cmd.run("old.json", "in.json", "a")
	cmd.run("old.json", "canon.json", "b")
	sameOutput("a", "b", "auto-increment counts on integer columns only")
}

// a column stays normal after a column that is not valid
func C21_after() {
	typ, canon := spelled()
	a := c21Schema(typ)
	setValues(a.x(), canon, !vk.Thorough())
	bad := a.Tables[0].Columns[0]
	if bad.Name == "x" {
		bad = a.Tables[0].Columns[1]
	}
	switch vk.Choice("bad", 2) {
	case 0:
		bad.Type = "enum"
	case 1:
		bad.Type = "unheard"
	}
	a.x().AutoInc = vk.Bool("autoinc")
	b := &Schema{Name: a.Name, Version: a.Version}
	for _, t := range a.Tables {
		b.Tables = append(b.Tables, cloneTab(t))
	}
	b.x().Type = canon
	b.x().AutoInc = vk.And(a.x().AutoInc, isInt(canon))
	o := &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "y", Type: "point"}}}}}
	cmd := anyCommand()
	vk.WriteJSON("old.json", o)
	vk.WriteJSON("in.json", a)
	vk.WriteJSON("canon.json", b)
	x, y := vk.Run(cmd.args("old.json", "in.json", "a")...), vk.Run(cmd.args("old.json", "canon.json", "b")...)
	vk.Assert(x == y, "a spelling of a type is the type")
	sameOutput("a", "b", "a spelling of a type is the type")
}

// refused runs an import that must fail and write nothing.
func refused(label string, args ...string) {
	vk.Assert(vk.Run(args...) == 1, label)
	for _, f := range vk.Files() {
		vk.Assert(f != "out.json", label)
	}
}

// imported files hold normal types; auto-increment stays on integers only
func C21_import() {
	typ, canon := spelled()
	if canon == "enum" || canon == "set" {
		c21Members(typ, canon)
		return
	}
	auto := vk.Choice("autoinc", 2) == 1
	attr := ""
	if auto {
		attr = "autoinc"
	}
	var s *Schema
	switch vk.Choice("format", 2) {
	case 0:
		rows := [][]string{{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}, {"zt", "", "table"}}
		pre := []string{"", "a", vk.Pick("before", "int", "date"), "", "", "autoinc", ""}
		rows = append(rows, pre, []string{"", "x", typ, "", "", attr, ""})
		vk.WriteXLSX("in.xlsx", []vk.Sheet{{Name: "g", Rows: rows}})
		run("import succeeds", "import", "xlsx", "-i", "in.xlsx", "-o", "out.json")
		s = readSchema("out.json")
	case 1:
		if auto { // a model has no auto-increment
			vk.Stop()
		}
		vk.WriteJSON("in.mdj", suProject([]*suElem{entity("E", "zt", &suCol{Name: "a", Type: "DATE"}, &suCol{Name: "x", Type: typ})}))
		run("import succeeds", "import", "staruml", "-i", "in.mdj", "-o", "out.json")
		s = readSchema("out.json")
	}
	need(len(s.Tables) == 1 && s.Tables[0].col("x") != nil, "the column is imported")
	c := s.Tables[0].col("x")
	vk.Assert(c.Type == canon, "a normal type is written")
	vk.Assert(c.AutoInc == (auto && isInt(canon)), "auto-increment stays on integers")
	d := s.Tables[0].col("a")
	vk.Assert(vk.Imp(d.Type == "date", vk.Not(d.AutoInc)), "auto-increment stays on integers")
}

// c21Members imports an enum or a set of some number of members: one, several, as many as MySQL lets a set have.
func c21Members(typ, canon string) {
	n := []int{1, 2, 63, 64, 65, 300}[vk.Choice("members", 6)]
	if canon == "set" && n > 64 {
		vk.Stop()
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "m"+itoa(i))
	}
	x := &Col{Name: "x", Type: canon, Values: l}
	vk.WriteFile("in.sql", cat("CREATE TABLE zt (a int, x ", typ, "('", strings.Join(l, "','"), "'));"))
	run("import succeeds", "import", "mysql", "-i", "in.sql", "-o", "out.json")
	s := readSchema("out.json")
	need(len(s.Tables) == 1 && len(s.Tables[0].Columns) == 2, "the column is imported")
	c := s.Tables[0].col("x")
	need(c != nil && c.Type == x.Type && len(c.Values) == n, "a column keeps all its members")
	for i, v := range l {
		vk.Assert(c.Values[i] == v, "a column keeps all its members")
	}
}

func known(t string) bool {
	ok := in(t, allTypes)
	for _, a := range aliases {
		ok = vk.Or(ok, t == a[0])
	}
	return ok
}

// unknown types, empty names and missing members are never written
func C21_invalid() {
	name, typ := "x", "int"
	kind := vk.Choice("kind", 4)
	switch kind {
	case 0:
		typ = vk.Str("type", 2+vk.Choice("length", 4), "lower")
		vk.Assume(vk.Not(known(typ)))
	case 1:
		typ = "enum"
	case 2:
		typ = "set"
	case 3:
		name = ""
	}
	f := vk.Pick("format", "xlsx", "ojson", "staruml")
	first := vk.Choice("first", 2) == 1
	switch f {
	case "xlsx":
		if kind == 3 { // such a row is skipped
			vk.Stop()
		}
		rows := [][]string{{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}, {"zt", "", "table"}}
		x, y := []string{"", name, typ}, []string{"", "b", "date"}
		if vk.Choice("more", 2) == 1 {
			x = append(x, vk.Pick("key", "", "P", "U"), vk.Pick("null", "", "O"), vk.Pick("attr", "", "default=a", "autoinc"), "d")
		}
		if first {
			x, y = y, x
		}
		vk.WriteXLSX("in.xlsx", []vk.Sheet{{Name: "g", Rows: append(rows, x, y)}})
	case "ojson":
		if kind == 0 {
			for _, t := range v1Types {
				vk.Assume(typ != t[0])
			}
		}
		x, y := &v1Col{Name: name, Type: typ}, &v1Col{Name: "b", Type: "date"}
		if vk.Choice("more", 2) == 1 {
			x.Default, x.Desc, x.Size = vk.Str("default", 1, "alnum"), "d", vk.Int("size", 0, 9)
			x.PK, x.Unique, x.AutoInc = vk.Bool("pk"), vk.Bool("unique"), vk.Bool("autoinc")
		}
		if first {
			x, y = y, x
		}
		vk.WriteJSON("in.ojson", &v1Schema{Tables: []*v1Table{{Name: "zt", Columns: []*v1Col{x, y}}}})
		refused("an invalid schema is not written", "import", "ojson", "-i", "in.ojson", "-o", "out.json")
		return
	case "staruml":
		x, y := &suCol{Name: name, Type: typ}, &suCol{Name: "b", Type: "DATE"}
		if first {
			x, y = y, x
		}
		vk.WriteJSON("in.mdj", suProject([]*suElem{entity("E", "zt", x, y)}))
		refused("an invalid schema is not written", "import", "staruml", "-i", "in.mdj", "-o", "out.json")
		return
	}
	refused("an invalid schema is not written", "import", "xlsx", "-i", "in.xlsx", "-o", "out.json")
}
