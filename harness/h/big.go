package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// Schemas of a size that real ones have: many tables and columns, long names and texts, every type,
// wide keys, many indices and references. A few flags and letters are symbolic; the rest varies by position.

// word is a distinct short word for each number.
func word(i int) string { return string(rune('a'+i/26)) + string(rune('a'+i%26)) }

// filler is a text of some length, with blanks inside only.
func filler(n int) string {
	return strings.Repeat("lorem ipsum dolor sit amet ", n/27+1)[:n-1] + "x"
}

func literal(t string, i int) string {
	switch t {
	case "int8", "int16", "int24", "int32", "int64", "bit":
		return itoa(i%50 + 2)
	case "decimal", "float", "double":
		return cat(itoa(i%9+1), ".25")
	case "boolean":
		return itoa(i % 2)
	case "char", "varchar":
		return "v" + word(i)
	case "date":
		return "2020-01-1" + itoa(i%10)
	case "datetime":
		if i%2 == 0 {
			return "fn::CURRENT_TIMESTAMP"
		}
		return "2020-01-01 00:00:0" + itoa(i%10)
	case "time":
		return "10:00:0" + itoa(i%10)
	case "year":
		return "201" + itoa(i%10)
	case "enum", "set":
		return "m"
	}
	return ""
}

// sizes gives a column of some type what its type needs, varied by i.
func sizes(c *Col, i int) *Col {
	c.Size, c.Scale, c.Values = 0, 0, nil
	switch {
	case c.Type == "enum" || c.Type == "set":
		for k := 0; k < 3+i%9; k++ {
			c.Values = append(c.Values, []string{"m", "n", "the third", "Fourth", "5", "f-6", "g_7", "h.8", "i9", "j", "k11", "l"}[k])
		}
	case c.Type == "varchar" || c.Type == "varbinary":
		c.Size = []int{1, 20, 255, 256, 1000, 16383}[i%6]
	case c.Type == "char" || c.Type == "binary":
		c.Size = []int{3, 64, 255}[i%3]
	case c.Type == "bit":
		c.Size = []int{8, 64, 2}[i%3]
	case isScaled(c.Type) && i%3 > 0:
		c.Size, c.Scale = []int{0, 10, 53}[i%3], []int{0, 2, 30}[i%3]
	}
	return c
}

type flagBits struct{ nn, uq, pk, ai bool }

func anyFlags() flagBits {
	f := flagBits{vk.Bool("nn"), vk.Bool("unique"), vk.Bool("pk"), vk.Bool("autoinc")}
	return f
}

func typed(t *Table, skip []string, f flagBits) {
	i := 0
	for r := 0; r < 2; r++ {
		for _, ty := range allTypes {
			if in(ty, skip) {
				continue
			}
			c := sizes(&Col{Name: "c" + word(i), Type: ty}, i+r)
			if r == 1 && len(c.Values) > 0 { // as many as MySQL lets a set have
				for k := len(c.Values); k < 64; k++ {
					c.Values = append(c.Values, "v_"+itoa(k))
				}
			}
			c.NotNull = (i%3 > 0) == f.nn
			if i%4 > 1 {
				c.Default = literal(ty, i)
			}
			if i%5 == 2 {
				c.Desc = "about " + word(i)
			}
			if c.Default == "fn::CURRENT_TIMESTAMP" && r == 1 {
				c.OnUpdate = c.Default
			}
			t.Columns = append(t.Columns, c)
			i++
		}
	}
}

// bigTables are twelve tables in three groups, sorted by group and name.
func bigTables(f flagBits, skip ...string) []*Table {
	var l []*Table
	add := func(group, name string) *Table {
		t := &Table{Name: name, Group: group}
		l = append(l, t)
		return t
	}
	// every type, twice
	t := add("ga", "a_types")
	t.Desc = filler(300)
	t.Columns = append(t.Columns, &Col{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: f.ai})
	typed(t, skip, f)
	// forty columns
	t = add("ga", "awide")
	for i := 0; i < 40; i++ {
		c := &Col{Name: "w" + word(i), Type: []string{"int32", "varchar", "date", "int64"}[i%4], NotNull: i%7 == 3}
		sizes(c, i)
		c.PK = i < 4 && (i != 2 || f.pk)
		c.Unique = i > 3 && i%9 == 0 && f.uq || i == 5
		c.NotNull = c.NotNull || c.PK
		t.Columns = append(t.Columns, c)
	}
	for i := 0; i < 6; i++ {
		x := &Index{Name: "ix" + word(i)}
		for k := 0; k <= i; k++ {
			x.Columns = append(x.Columns, t.Columns[(i*7+k*3)%40].Name)
		}
		t.Indices = append(t.Indices, x)
	}
	// long names and texts
	long := strings.Repeat("very_long_", 5)
	t = add("gb", "b"+long+"table")
	t.Desc = "short"
	t.Columns = []*Col{
		{Name: "a" + long + "key", Type: "int64", PK: true, NotNull: true, Desc: filler(500) + vk.Str("desc", 1, "alnum")},
		{Name: "b" + long + "col", Type: "varchar", Size: 1000, Default: filler(200) + vk.Str("default", 1, "alnum"), Desc: filler(256)},
		{Name: "c" + long + "col", Type: "varchar", Size: 64, Unique: f.uq},
	}
	t = add("gb", "bxClass")
	t.ClassName = "SomeClass"
	t.Desc = filler(120)
	t.Columns = []*Col{{Name: "code", Type: "char", Size: 2, PK: true, NotNull: true}, {Name: "Label", Type: "varchar", Size: 255, NotNull: f.nn}}
	// references
	rels := []string{"n:1", "1:n", "1:1"}
	to := []string{"a_types", "bxClass", "cd", "awide", "ca"}
	t = add("gb", "bzrefs")
	t.Columns = append(t.Columns, &Col{Name: "id", Type: "int64", PK: true, NotNull: true})
	for i := 0; i < 7; i++ {
		c := &Col{Name: "r" + word(i), Type: "int64", NotNull: i%2 == 1, Ref: &Ref{to[i%5], []string{"id", "code", "id", "waa", "id"}[i%5], rels[i%3]}}
		t.Columns = append(t.Columns, c)
	}
	// small ones
	for i, n := range []string{"ca", "cb", "cc", "cd", "ce", "cf", "cg"} {
		t = add("gc", n)
		if i == 2 {
			t.Desc = "with a text"
		}
		t.Columns = []*Col{{Name: "id", Type: "int32", PK: i != 4, NotNull: i%2 == 0}, {Name: "name", Type: "varchar", Size: 10 * (i + 1), Unique: i%3 == 1}}
		if i%3 == 2 {
			t.Columns = append(t.Columns, &Col{Name: "up", Type: "int32", Ref: &Ref{"ca", "id", rels[i%3]}})
		}
		if i > 3 {
			t.Indices = []*Index{{Name: "ix" + n, Columns: []string{"name"}}}
		}
	}
	return l
}

// turned lists the tables in another order.
func turned(l []*Table) []*Table {
	var r []*Table
	for i := range l {
		r = append(r, l[(i*5+3)%len(l)])
	}
	return r
}

func bigSchema(l []*Table) *Schema {
	return &Schema{Author: "me", Name: "big", Version: "12", Tables: turned(l)}
}

func C01_big() {
	s := bigSchema(bigTables(anyFlags(), "geometry", "point"))
	b := c01Round(s)
	sameTables(carried(&Schema{Tables: bigOrder(s)}), b)
}

func bigOrder(s *Schema) []*Table {
	r := make([]*Table, len(s.Tables))
	for i, t := range s.Tables {
		r[(i*5+3)%len(r)] = t
	}
	return r
}

func C02_big() {
	f := anyFlags()
	f.ai = false
	l := bigTables(f, "geometry", "point")
	sql := "-- dump\nSET NAMES utf8;\n"
	for _, t := range turned(l) {
		sql += ddl(t, "_uq")
	}
	ex := ""
	want := carried(&Schema{Tables: l})
	if vk.Choice("excludes", 2) == 1 {
		ex = "awide,cb,nosuch,cf"
		want = carried(&Schema{Tables: append(append(append([]*Table{l[0]}, l[2:6]...), l[7:10]...), l[11])})
	}
	sameTables(want, c02Import(sql, "-x", ex))
}

func C03_big() {
	l := bigTables(anyFlags(), "enum", "set")
	sameTables(l, c03Round(bigSchema(l)))
}

func C04_big() {
	l := bigTables(anyFlags())
	back := map[string]string{"varchar": "string", "int32": "int", "int64": "long", "datetime": "datetime", "boolean": "bool", "decimal": "number", "float": "float", "text16": "text", "date": "date", "time": "time", "blob16": "blob"}
	s := &v1Schema{Author: "me", Name: "big", Version: "12"}
	var old []*v1Table
	for _, t := range l {
		t.Indices = nil
		u := &v1Table{Name: t.Name, Group: t.Group, Desc: t.Desc, ClassName: t.ClassName}
		var keep []*Col
		for _, c := range t.Columns {
			if back[c.Type] == "" {
				continue
			}
			c.OnUpdate, c.Values = "", nil
			v := &v1Col{Name: c.Name, Type: back[c.Type], Desc: c.Desc, Size: c.Size, Scale: c.Scale, NotNull: c.NotNull, PK: c.PK, Unique: c.Unique, AutoInc: c.AutoInc, Default: c.Default}
			if c.Ref != nil {
				v.Ref = &v1Ref{c.Ref.Table, c.Ref.Column}
				c.Ref = &Ref{Table: c.Ref.Table, Column: c.Ref.Column}
			}
			u.Columns = append(u.Columns, v)
			keep = append(keep, c)
		}
		t.Columns = keep
		old = append(old, u)
	}
	for i := range old {
		s.Tables = append(s.Tables, old[(i*5+3)%len(old)])
	}
	sameTables(l, c04Import(s))
}

func C05_big() {
	f := anyFlags()
	l := bigTables(f)
	back := map[string]string{"varchar": "VARCHAR", "int32": "INTEGER", "int64": "BIGINT", "datetime": "DATETIME", "boolean": "BOOLEAN", "decimal": "DECIMAL", "text16": "TEXT", "date": "DATE", "char": "CHAR", "int16": "SMALLINT", "float": "FLOAT"}
	id := map[string]string{}
	for i, t := range l {
		var keep []*Col
		for _, c := range t.Columns {
			if back[c.Type] != "" {
				id[cat(t.Name, ".", c.Name)] = cat("E", itoa(i), "c", itoa(len(keep)))
				keep = append(keep, c)
			}
		}
		t.Columns = keep
	}
	var es []*suElem
	for i, t := range l {
		t.Group, t.ClassName, t.Desc, t.Indices = "", "", "", nil
		var cols []*suCol
		for _, c := range t.Columns {
			c.Default, c.OnUpdate, c.AutoInc = "", "", false
			x := &suCol{Name: c.Name, Type: back[c.Type], PK: c.PK, Unique: c.Unique, Null: vk.Not(c.NotNull), Doc: c.Desc}
			switch {
			case c.Scale > 0:
				x.Length = cat(itoa(c.Size), ",", itoa(c.Scale))
			case c.Size > 0:
				x.Length = c.Size
			}
			if c.Ref != nil {
				if to, ok := id[cat(c.Ref.Table, ".", c.Ref.Column)]; ok {
					x.Referee = &suRef{to}
					c.Ref = &Ref{Table: c.Ref.Table, Column: c.Ref.Column}
				} else {
					x.Referee = &suRef{"gone"}
					c.Ref = nil
				}
			}
			cols = append(cols, x)
		}
		es = append(es, entity("E"+itoa(i), t.Name, cols...))
	}
	n := []int{0, 5, 11}[vk.Choice("split", 3)]
	sameTables(l, c05Import(suProject(es[n:], es[:n])))
}

func C06_big() {
	l := bigTables(anyFlags())
	s := bigSchema(l)
	f := vk.Pick("format", diffFormats...)
	diffRun(f, s, &Schema{Author: "you", Name: "other", Version: "13", Tables: l}, diffArgs()...)
	noChange(f)
}

// bigPair changes a big schema in many places.
func bigPair() (o, n *Schema) {
	f := anyFlags()
	f.ai = false
	l := bigTables(f, "geometry", "point")
	var m []*Table
	for _, t := range l {
		m = append(m, cloneTab(t))
	}
	how := vk.Choice("how", 4)
	all := how == 3
	if how == 0 || all { // columns of every type
		t := m[0]
		var cols []*Col
		for i, c := range t.Columns {
			switch {
			case i == 0:
			case i%8 == 1:
				c.Type = l[0].Columns[1+(i+6)%(len(l[0].Columns)-1)].Type
				sizes(c, i)
				c.Default, c.OnUpdate = "", ""
			case i%8 == 2:
				sizes(c, i+4)
			case i%8 == 3:
				c.NotNull = !c.NotNull
			case i%8 == 4:
				c.Default, c.OnUpdate = literal(c.Type, i+3), ""
			case i%8 == 5:
				c.Desc = "new text " + word(i)
			case i%8 == 6:
				c.Default, c.Desc, c.NotNull = "", "", !c.NotNull
			case i == 7 || i == 23 || i == 39:
				continue
			}
			if i == 10 || i == 20 {
				cols = append(cols, &Col{Name: "x" + word(i), Type: "int8", NotNull: true}, &Col{Name: "y" + word(i), Type: "text16"})
			}
			cols = append(cols, c)
		}
		t.Columns = append(cols, &Col{Name: "zlast", Type: "date"})
		t.Desc = filler(310)
	}
	if how == 1 || all { // keys of wide tables
		for i, c := range m[1].Columns {
			if i < 6 {
				c.PK = i%2 == 1
			}
			c.Unique = i%6 == 4
		}
		m[3].Columns[0].PK = false
		m[4].Columns[0].PK, m[4].Columns[1].PK = false, true
		m[6].Columns[1].Unique = false
		m[9].Columns[0].PK = true
	}
	if how == 2 || all { // tables
		add := func(name string) *Table {
			return &Table{Name: name, Group: "gc", Desc: "added " + name, Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: true}, {Name: "v", Type: "varchar", Size: 99, Default: "x", Desc: "d", Unique: true}, {Name: "at", Type: "datetime", Default: "fn::CURRENT_TIMESTAMP", OnUpdate: "fn::CURRENT_TIMESTAMP"}}}
		}
		m[2].Name = "renamed_" + strings.Repeat("long_", 5) + "table"
		m[7].Desc = ""
		m[8].Desc = "now"
		m = append(append(append([]*Table{add("aa_new")}, m[:5]...), m[6:10]...), m[11], add("zz_new"), add("zy_new"))
	}
	return bigSchema(l), &Schema{Author: "me", Name: "big", Version: "13", Tables: m}
}

func C07_big() { c07(bigPair()) }
func C08_big() { c08(bigPair()) }
func C09_big() { c09(bigPair()) }

func C10_big() {
	l := bigTables(anyFlags(), "geometry", "point")
	if vk.Choice("group", 2) == 1 {
		c10(bigSchema(l), l[2:], "-g", "gc,gb")
		return
	}
	c10(bigSchema(l), l)
}

// a big schema and some of its groups
func C12_big() {
	l := bigTables(flagBits{}, "geometry", "point")
	s := bigSchema(l)
	list := vk.Pick("list", "gc", "gb", "ga", "gc,ga", "gb,gc,none")
	f := vk.Choice("command", 8)
	for _, t := range l {
		for _, c := range t.Columns {
			if c.Ref != nil && in(c.Ref.Table, []string{"a_types", "awide", "ca", "cd"}) && t.Group == "gb" {
				c.Ref = nil // references to other groups: see C12_refs
			}
		}
	}
	vk.WriteJSON("in.json", s)
	vk.WriteJSON("want.json", selected(s, strings.Split(list, ",")))
	cmd := grouped[f]
	vk.Mkdir("a")
	vk.Mkdir("b")
	run("the command succeeds", cmd[0], cmd[1], "-i", "in.json", "-o", outPath("a", f), "-g", list)
	run("the command succeeds", cmd[0], cmd[1], "-i", "want.json", "-o", outPath("b", f))
	sameOutput("a", "b", "exactly the tables of the groups are written")
}

func C14_big() {
	l := bigTables(anyFlags())
	vk.WriteJSON("in.json", bigSchema(l))
	gormRun("out.go", "-u", "_uq")
	gormCheck("out.go", l, l, gormOpt{models: map[string][]string{"gorm.Model": gormModel}, sfx: "_uq"})
}

func C15_big() {
	l := bigTables(anyFlags())
	for i, t := range l {
		t.ClassName = "Ent" + strings.ToUpper(word(i))
	}
	vk.WriteJSON("in.json", bigSchema(l))
	ktRun("-p", "m", "-q", "_uq")
	for _, t := range l {
		ktCheck(cat("dir/m/", t.ClassName, ".kt"), t.ClassName, t, ktOpt{pkg: "m", sfx: "_uq"})
	}
}

func C16_big() {
	l := bigTables(anyFlags())
	var class []string
	for i, t := range l {
		t.ClassName = "Ent" + strings.ToUpper(word(i))
		class = append(class, t.ClassName)
	}
	vk.WriteJSON("in.json", bigSchema(l))
	o := saOpt{sfx: "_uq", utc: vk.Choice("utc", 2) == 1}
	if vk.Choice("single", 2) == 1 {
		saRun("all.py", o)
		saCheck("all.py", l, class, o)
		return
	}
	saRun("dir", o)
	for i, t := range l {
		saCheck(cat("dir/", t.Name, ".py"), []*Table{t}, class[i:i+1], o)
	}
}

func C17_big() {
	l := bigTables(anyFlags())
	vk.WriteJSON("in.json", bigSchema(l))
	gqlRun()
	gqlCheck("out/big-12.graphqls", l)
}

func C18_big() {
	l := bigTables(anyFlags())
	vk.WriteJSON("in.json", bigSchema(l))
	o := pbOpt{start: -1, decr: vk.Choice("decr", 2) == 1}
	args := []string{}
	if vk.Choice("start", 2) == 1 {
		o.start = 50
		args = append(args, "--relationTagStart", "50")
	}
	if o.decr {
		args = append(args, "--relationTagDecr")
	}
	pbRun(args...)
	pbCheck("out.proto", l, o)
}

func C19_big() {
	l := bigTables(anyFlags())
	vk.WriteJSON("in.json", bigSchema(l))
	c19(vk.Pick("format", diagrams...), l)
}

// every command on a big schema, with maps of the tool iterated the other way round
func C11_big() {
	l := bigTables(anyFlags(), "enum", "set", "geometry", "point")
	old := bigTables(flagBits{true, true, false, false})[3:]
	for i, t := range old {
		t.Columns = append(t.Columns[1:], &Col{Name: "zz", Type: "date", Unique: true})
		if i == 2 {
			t.Columns = nil
		}
	}
	vk.WriteJSON("old.json", bigSchema(append(old, bigTables(flagBits{})[1:]...)[:12]))
	vk.WriteJSON("in.json", bigSchema(l))
	twice := func(out string, args ...string) {
		vk.Mkdir("a")
		vk.Mkdir("b")
		run("the command succeeds", append(args, "-o", cat("a", out))...)
		vk.MapOrder(1)
		run("the command succeeds", append(args, "-o", cat("b", out))...)
		vk.MapOrder(0)
		sameOutput("a", "b", "equal inputs give equal outputs")
	}
	k := vk.Choice("command", len(commands)+2)
	switch {
	case k < len(commands) && commands[k].group == "diff":
		twice(commands[k].out, commands[k].group, commands[k].name, "-f", "old.json", "-t", "in.json", "-c")
	case k < len(commands):
		twice(commands[k].out, commands[k].group, commands[k].name, "-i", "in.json")
	case k == len(commands):
		run("the command succeeds", "export", "xlsx", "-i", "in.json", "-o", "book.xlsx")
		twice("/out.json", "import", "xlsx", "-i", "book.xlsx")
	default:
		run("the command succeeds", "export", "mysql", "-i", "in.json", "-o", "dump.sql")
		twice("/out.json", "import", "mysql", "-i", "dump.sql")
	}
}

// the class names of many tables
func C13_big() {
	f := vk.Pick("format", "gorm", "kt", "sqlalchemy", "pb")
	l := bigTables(flagBits{true, true, false, false}, "bit", "geometry", "point")
	n := &naming{table: f == "pb", prefix: func(string) string { return "" }}
	if vk.Choice("remove", 2) == 1 {
		n.remove = []string{"b", "a_", "y", "aw", "c"}
		n.args = append(n.args, "--removePrefix", "b,a_,y,aw,c")
	}
	if vk.Choice("prefix", 2) == 1 {
		p := vk.Str("p", 1, "upper")
		n.prefix = func(g string) string {
			switch g {
			case "ga":
				return cat(p, "a")
			case "gc":
				return "Q"
			}
			return ""
		}
		n.args = append(n.args, "--prefix", cat("gc:Q,gd:R,ga:", p, "a"))
	}
	var class []string
	for _, t := range l {
		t.Indices = nil
		class = append(class, n.class(t))
	}
	vk.WriteJSON("in.json", bigSchema(l))
	switch f {
	case "gorm":
		gormRun("out.go", n.args...)
		gormCheck("out.go", l, l, gormOpt{models: map[string][]string{"gorm.Model": gormModel}})
		for i, g := range goRead("out.go").structs {
			vk.Assert(g.name == class[i], "class name")
		}
	case "kt":
		vrel := map[string]string{}
		for i, t := range l {
			vrel[t.Name] = class[i]
		}
		ktRun(append(n.args, "--relation", "VRelation")...)
		for i, t := range l {
			ktCheck(cat("dir/", class[i], ".kt"), class[i], t, ktOpt{vrel: vrel})
		}
	case "sqlalchemy":
		saRun("out.py", saOpt{}, n.args...)
		saCheck("out.py", l, class, saOpt{})
	case "pb":
		pbRun(n.args...)
		for i, g := range pbRead("out.proto").msgs {
			vk.Assert(g.name == class[i], "class name")
		}
	}
}

// no command crashes on a big schema, with further options
func C20_big() {
	l := bigTables(anyFlags())
	cmd := anyCommand()
	vk.WriteJSON("old.json", bigSchema(bigTables(flagBits{})[2:]))
	vk.WriteJSON("in.json", bigSchema(l))
	args := cmd.args("old.json", "in.json", "a")
	if vk.Choice("options", 2) == 1 {
		args = append(args, cmd.more()...)
	}
	survives(args...)
}

// every column of a big schema under another spelling of its type
func C21_big() {
	l := bigTables(anyFlags())
	var m []*Table
	for _, t := range l {
		m = append(m, cloneTab(t))
	}
	s := bigSchema(l)
	k := 0
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			for _, a := range aliases {
				if a[1] == c.Type && k%3 < 2 {
					c.Type = a[0]
					break
				}
			}
			if k%2 == 0 {
				c.Type = strings.ToUpper(c.Type[:1+k%len(c.Type)]) + c.Type[1+k%len(c.Type):]
			}
			k++
		}
	}
	cmd := anyCommand()
	vk.WriteJSON("old.json", &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "y", Type: "point"}}}}})
	vk.WriteJSON("in.json", s)
	vk.WriteJSON("canon.json", bigSchema(m))
	cmd.run("old.json", "in.json", "a")
	cmd.run("old.json", "canon.json", "b")
	sameOutput("a", "b", "a spelling of a type is the type")
}
