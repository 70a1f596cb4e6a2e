package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// ---- pairs of schemas ----

func clone(c *Col) *Col {
	d := *c
	return &d
}

func cloneTab(t *Table) *Table {
	n := &Table{Name: t.Name, Desc: t.Desc, Group: t.Group, ClassName: t.ClassName, Indices: t.Indices}
	for _, c := range t.Columns {
		n.Columns = append(n.Columns, clone(c))
	}
	return n
}

var attrTypes = []string{"int32", "varchar", "decimal", "enum", "datetime", "boolean", "text16", "int64", "char", "set", "double", "date"}

// attrCol is a column of some type; size, scale, members and default are symbolic.
func attrCol(p, name, t string) *Col {
	c := &Col{Name: name, Type: t}
	switch {
	case t == "varchar" || t == "char":
		c.Size = vk.Int(p+".size", 2, 99)
	case isScaled(t):
		c.Size, c.Scale = vk.Int(p+".size", 10, 53), vk.Int(p+".scale", 1, 9)
	case t == "enum" || t == "set":
		c.Values = []string{"x", cat("m", vk.Str(p+".member", 1, "lower")), "z"}[:1+vk.Choice(p+".members", 3)]
	}
	c.Default = anyDefault(p, t)
	if t == "boolean" && c.Default != "" {
		c.Default = vk.Pick(p+".bool", "1", "0")
	}
	return c
}

// pairAttrs: one column whose every attribute may differ, beside one that stays.
func pairAttrs() (o, n *Schema) {
	cnt := 7
	if vk.Thorough() {
		cnt = len(attrTypes)
	}
	i := vk.Choice("old type", cnt)
	j := i
	if vk.Choice("other type", 2) == 1 {
		j = (i + 1 + vk.Choice("new type", 2)) % cnt
		if vk.Thorough() {
			j = vk.Choice("new type", cnt)
		}
	}
	a, b := attrCol("old", "cA", attrTypes[i]), attrCol("new", "cA", attrTypes[j])
	a.NotNull, b.NotNull = vk.Bool("old nn"), vk.Bool("new nn")
	if isInt(a.Type) && i == j {
		a.AutoInc, b.AutoInc = vk.Bool("old autoinc"), vk.Bool("new autoinc")
	}
	for _, c := range []*Col{a, b} {
		if c.Default == "fn::CURRENT_TIMESTAMP" {
			c.OnUpdate = "fn::CURRENT_TIMESTAMP"
		}
	}
	if i == j || vk.Thorough() {
		switch vk.Choice("descs", 3) {
		case 1:
			a.Desc = "d"
		case 2:
			a.Desc, b.Desc = cat("d", vk.Str("old.desc", 1, "alnum")), cat("d", vk.Str("new.desc", 1, "alnum"))
		}
	}
	z := &Col{Name: "cz", Type: "int32", NotNull: true, Desc: "z"}
	return &Schema{Version: "1", Tables: []*Table{{Name: "zt", Columns: []*Col{a, z}}}}, &Schema{Author: "me", Version: "2", Tables: []*Table{{Name: "zt", Columns: []*Col{b, clone(z)}}}}
}

// pairKeys: primary and unique keys of three columns on both sides.
func pairKeys() (o, n *Schema) {
	t, u := &Table{Name: "zt"}, &Table{Name: "zt"}
	for i, ty := range []string{"int64", "int32", "date"} {
		c := &Col{Name: "cK" + itoa(i), Type: ty, NotNull: true}
		if i == 1 {
			c.Ref = &Ref{"zt", "cK0", "n:1"}
		}
		d := clone(c)
		if i == 0 {
			d.Ref = &Ref{"zt", "cK1", "1:1"} // references are no part of a diff
		}
		if i < 2 || vk.Thorough() {
			c.PK, d.PK = vk.Bool("old pk"), vk.Bool("new pk")
		}
		c.Unique, d.Unique = vk.Bool("old unique"), vk.Bool("new unique")
		if i == 0 {
			c.AutoInc = vk.Bool("autoinc")
			d.AutoInc = c.AutoInc
		}
		t.Columns, u.Columns = append(t.Columns, c), append(u.Columns, d)
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

// pairColumns: columns kept, dropped, added and renamed, in any combination, some of them keys.
func pairColumns() (o, n *Schema) {
	t, u := &Table{Name: "zt"}, &Table{Name: "zt"}
	id := &Col{Name: "id", Type: "int64", NotNull: true, PK: vk.Bool("id.pk"), Desc: "d"}
	t.Columns, u.Columns = append(t.Columns, id), append(u.Columns, clone(id))
	cnt := 2
	if vk.Thorough() {
		cnt = 3
	}
	for i := 0; i < cnt; i++ {
		p := "c" + itoa(i)
		c := &Col{Name: "cK" + itoa(i), Type: vk.Pick(p+".type", "int32", "varchar"), NotNull: vk.Bool(p + ".nn"), Unique: vk.Bool(p + ".unique")}
		if c.Type == "varchar" {
			c.Size = 20
			c.Default = "va"
		} else {
			c.Ref = &Ref{"zt", "id", "n:1"}
		}
		if i == 0 {
			c.PK = vk.Bool(p + ".pk")
		}
		switch vk.Choice(p, 5) {
		case 0:
			t.Columns, u.Columns = append(t.Columns, c), append(u.Columns, clone(c))
		case 1:
			t.Columns = append(t.Columns, c)
		case 2:
			u.Columns = append(u.Columns, c)
		case 3:
			d := clone(c)
			d.Name = vk.Pick(p+".new", "d", "a") + itoa(i)
			t.Columns, u.Columns = append(t.Columns, c), append(u.Columns, d)
		case 4: // another column in its place
			d := clone(c)
			d.Name, d.Desc = "e"+itoa(i), "other"
			d.Type, d.Size, d.Default = "date", 0, ""
			t.Columns, u.Columns = append(t.Columns, c), append(u.Columns, d)
		}
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

// pairWide: tables of four columns, whose keys grow, shrink or move, and which gain columns in several places.
func pairWide() (o, n *Schema) {
	t, u := &Table{Name: "zt", ClassName: "Cls"}, &Table{Name: "zt", ClassName: "Cls"}
	set := func(p string) [4]bool {
		return [][4]bool{{}, {true, true, true, true}, {true, true, true}, {false, true, true, true}, {true, false, false, true}}[vk.Choice(p, 5)]
	}
	var pk, pk2, uq, uq2 [4]bool
	var added []int
	switch vk.Choice("wide", 3) {
	case 0:
		pk, pk2 = set("old pk"), set("new pk")
	case 1:
		uq, uq2 = set("old unique"), set("new unique")
	case 2: // columns after the i-th
		pk = [4]bool{true, true, true}
		pk2 = pk
		added = [][]int{{3, 3, 3}, {0, 0, 0}, {0, 1, 2, 3}, {1, 1, 3}, {-1, -1, 2, 2}}[vk.Choice("added", 5)]
	}
	k := 0
	add := func(at int) {
		for _, a := range added {
			if a == at {
				u.Columns = append(u.Columns, &Col{Name: cat("n", itoa(9-k)), Type: []string{"int32", "date", "text16", "varchar"}[k%4], Size: []int{0, 0, 0, 9}[k%4], NotNull: k%2 == 0, Desc: cat("d", itoa(k))})
				k++
			}
		}
	}
	add(-1)
	for i, ty := range []string{"int64", "int32", "date", "int16"} {
		c := &Col{Name: "cK" + itoa(i), Type: ty, NotNull: true, PK: pk[i], Unique: uq[i]}
		d := clone(c)
		d.PK, d.Unique = pk2[i], uq2[i]
		t.Columns, u.Columns = append(t.Columns, c), append(u.Columns, d)
		add(i)
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

// pairTables: tables kept, dropped, added and renamed, in groups.
func pairTables(groups bool) (o, n *Schema) {
	o, n = &Schema{Version: "1"}, &Schema{Version: "2"}
	cnt := 2
	if vk.Thorough() {
		cnt = 3
	}
	for i := 0; i < cnt; i++ {
		p := "t" + itoa(i)
		t := &Table{Name: "tB" + itoa(i), ClassName: "Cls", Columns: []*Col{{Name: "id", Type: "int64", PK: vk.Bool(p + ".pk")}, {Name: "b", Type: "date", Unique: vk.Bool(p + ".unique")}}}
		if i == 0 || vk.Thorough() {
			t.Columns[1].PK = vk.Bool(p + ".b.pk")
		}
		u := cloneTab(t)
		switch vk.Choice(p+".descs", 3) {
		case 1:
			u.Desc = "d"
		case 2:
			t.Desc, u.Desc = cat("d", vk.Str(p+".old.desc", 1, "alnum")), cat("d", vk.Str(p+".new.desc", 1, "alnum"))
		}
		if groups {
			t.Group, u.Group = vk.Pick(p+".old group", "g", "h", ""), vk.Pick(p+".new group", "g", "h")
		}
		switch vk.Choice(p, 5) {
		case 0:
			o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
		case 1:
			o.Tables = append(o.Tables, t)
		case 2:
			n.Tables = append(n.Tables, u)
		case 3:
			u.Name = vk.Pick(p+".new", "u", "a") + itoa(i)
			o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
		case 4: // dropped, and another one added
			u.Name = "n" + itoa(i)
			u.Columns[1].Name = "c"
			o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
		}
	}
	return
}

func diffRun(format string, o, n *Schema, args ...string) {
	vk.WriteJSON("old.json", o)
	vk.WriteJSON("new.json", n)
	run("diff succeeds", append([]string{"diff", format, "-f", "old.json", "-t", "new.json", "-o", "out"}, args...)...)
}

var diffFormats = []string{"md", "flyway", "liquibase"}

// noChange states that a diff output reports nothing.
func noChange(format string) {
	if format == "liquibase" {
		for _, e := range lqRead("out") {
			vk.Assert(e.ChangeSet == nil, "no change set in the diff of equal schemas")
		}
		return
	}
	s, _ := vk.ReadFile("out")
	for _, l := range strings.Split(s, "\n") {
		if format == "md" {
			vk.Assert(vk.And(vk.Not(strings.HasPrefix(l, "## ")), vk.Or(vk.Not(strings.HasPrefix(l, "* ")), strings.HasPrefix(l, "* from:"), strings.HasPrefix(l, "* to:"))), "no line in the diff of equal schemas")
		} else {
			vk.Assert(strings.TrimSpace(l) == "", "no statement in the diff of equal schemas")
		}
	}
}

func diffArgs() []string {
	var args []string
	if vk.Choice("comments", 2) == 1 {
		args = append(args, "--comments")
	}
	switch vk.Choice("groups", 3) {
	case 1:
		args = append(args, "-g", "g")
	case 2:
		args = append(args, "--groups", "h,g")
	}
	return args
}

// one column with every type and flag
func C06_column() {
	c := dress("c", &Col{Name: "z_" + vk.Str("col", 1, "word"), Type: vk.Pick("type", allTypes...)})
	if vk.Choice("ref", 2) == 1 {
		c.Ref = &Ref{"zt", "id", "n:1"}
	}
	s := &Schema{Version: "1", Tables: []*Table{{Name: "zt", Desc: txt("tdesc", 1, "any"), Group: vk.Pick("group", "", "g"), Columns: []*Col{c, {Name: "y", Type: "int32", PK: true}}}}}
	f := vk.Pick("format", diffFormats...)
	diffRun(f, s, s, diffArgs()...)
	noChange(f)
}

// several tables, listed in another order
func C06_order() {
	s := &Schema{Version: "1"}
	for i := 0; i < 3; i++ {
		pk, uq := i == 1, i == 2
		if i == 0 || vk.Thorough() {
			pk, uq = vk.Bool("pk"), vk.Bool("unique")
		}
		s.Tables = append(s.Tables, &Table{Name: vk.Str("tab", 1, "letter") + itoa(i), Group: vk.Pick("group", "", "g", "h"), Desc: "d", Columns: []*Col{{Name: "id", Type: "int64", PK: pk}, {Name: "bX", Type: "date", Unique: uq}},
			Indices: []*Index{{"i1", []string{"bX"}}}})
	}
	o := &Schema{Version: "2", Author: "x"}
	for _, i := range [][]int{{0, 1, 2}, {2, 0, 1}, {1, 0, 2}}[vk.Choice("order", 3)] {
		o.Tables = append(o.Tables, cloneTab(s.Tables[i]))
	}
	f := vk.Pick("format", diffFormats...)
	diffRun(f, s, o, diffArgs()...)
	noChange(f)
}

// a table or column that is the same on both sides is never mentioned, whatever happens to the others
func C06_untouched() {
	var o, n *Schema
	var args []string
	switch vk.Choice("pair", 4) {
	case 3:
		o, n = pairWide()
	case 0:
		o, n = pairColumns()
	case 1:
		o, n = pairTables(false)
	case 2:
		o, n = pairKeys()
	}
	if vk.Choice("comments", 2) == 1 {
		args = append(args, "-c")
	}
	same := &Table{Name: "same", Columns: []*Col{{Name: "keepme", Type: "int64", PK: true}, {Name: "keep2", Type: "varchar", Size: 20, Unique: true}}}
	keep := &Col{Name: "keepcol", Type: "date", NotNull: true, Default: "2020-01-01"}
	o.Tables, n.Tables = append(o.Tables, same), append(n.Tables, cloneTab(same))
	for _, s := range []*Schema{o, n} {
		for _, t := range s.Tables {
			if t.Name == "zt" {
				t.Columns = append(t.Columns, clone(keep))
			}
		}
	}
	f := vk.Pick("format", diffFormats...)
	diffRun(f, o, n, args...)
	if f == "liquibase" {
		for _, e := range lqRead("out") {
			if e.ChangeSet != nil {
				for _, c := range e.ChangeSet.Changes {
					t, cols := c.touches()
					vk.Assert(t != "same", "an unchanged table is not mentioned")
					for _, x := range cols {
						vk.Assert(x != "keepcol", "an unchanged column is not changed")
					}
				}
			}
		}
		return
	}
	s, _ := vk.ReadFile("out")
	vk.Assert(!strings.Contains(s, "same"), "an unchanged table is not mentioned")
	vk.Assert(!strings.Contains(s, "keepcol"), "an unchanged column is not changed")
}

// pairTexts: comments, defaults and members hold any text.
func pairTexts(class string) (o, n *Schema) {
	l := 1
	if vk.Thorough() {
		l = 2
	}
	a := &Col{Name: "ca", Type: "varchar", Size: 20, Desc: "d", Default: "x"}
	t := &Table{Name: "zt", Columns: []*Col{{Name: "id", Type: "int64"}, a}}
	u := cloneTab(t)
	b := u.Columns[1]
	x := vk.Str("text", l, class)
	switch vk.Choice("where", 5) {
	case 0:
		b.Desc = x
	case 1:
		b.Default = x
	case 2:
		u.Desc = x
	case 3:
		a.Type, b.Type, a.Size, b.Size, a.Default, b.Default = "enum", "enum", 0, 0, "", ""
		a.Values, b.Values = []string{"x", "y"}, []string{"x", x}
	case 4: // a column added
		u.Columns = append(u.Columns, &Col{Name: "cb", Type: "enum", Values: []string{"x", x}, Default: x, Desc: x})
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

// pairRename: a column (or its table) under another name, with attributes that may differ.
func pairRename() (o, n *Schema) {
	cnt := 8
	if vk.Thorough() {
		cnt = len(attrTypes)
	}
	t := attrTypes[vk.Choice("type", cnt)]
	a, b := attrCol("old", "cA", t), attrCol("new", "cA", t)
	if vk.Thorough() && vk.Choice("other type", 2) == 1 {
		b = attrCol("new", "cA", attrTypes[vk.Choice("new type", cnt)])
	}
	which := vk.Choice("flag", 5)
	flag := func(i int, p string, x, y *bool) {
		if which == i {
			*x, *y = vk.Bool("old "+p), vk.Bool("new "+p)
		}
	}
	flag(0, "nn", &a.NotNull, &b.NotNull)
	flag(1, "pk", &a.PK, &b.PK)
	flag(2, "unique", &a.Unique, &b.Unique)
	switch which {
	case 3:
		if isInt(a.Type) && isInt(b.Type) {
			flag(3, "autoinc", &a.AutoInc, &b.AutoInc)
		}
		if a.Type == "datetime" {
			a.OnUpdate = vk.Pick("old onupdate", "", "fn::CURRENT_TIMESTAMP")
		}
		if b.Type == "datetime" {
			b.OnUpdate = vk.Pick("new onupdate", "", "fn::CURRENT_TIMESTAMP")
		}
	case 4:
		a.Desc, b.Desc = cat("d", vk.Str("old.desc", 1, "alnum")), cat("d", vk.Str("new.desc", 1, "alnum"))
	}
	id := &Col{Name: "id", Type: "int64"}
	x, y := &Table{Name: "zt", ClassName: "Cls", Desc: "same", Columns: []*Col{id, a}}, &Table{Name: "zt", ClassName: "Cls", Desc: "same", Columns: []*Col{clone(id), b}}
	if vk.Choice("what", 2) == 0 {
		b.Name = vk.Pick("name", "bA", "dA")
	} else {
		y.Name = vk.Pick("name", "za", "zz")
	}
	return &Schema{Version: "1", Tables: []*Table{x}}, &Schema{Version: "2", Tables: []*Table{y}}
}

// any text in any place
func C06_texts() {
	l := 2
	if vk.Thorough() {
		l = 3
	}
	x := vk.Str("text", l, "any")
	c := &Col{Name: "cA", Type: "varchar", Size: 9}
	t := &Table{Name: "zt", Columns: []*Col{c, {Name: "y", Type: "int32"}}}
	s := &Schema{Version: "1", Tables: []*Table{t}}
	switch vk.Choice("where", 8) {
	case 0:
		c.Desc = x
	case 1:
		c.Default = x
	case 2:
		t.Desc = x
	case 3:
		c.Type, c.Size, c.Values = "enum", 0, []string{"a", x}
	case 4:
		t.Group = x
	case 5:
		t.ClassName = x
	case 6:
		c.Name = cat("z", x)
	case 7:
		t.Name = cat("z", x)
	}
	f := vk.Pick("format", diffFormats...)
	var args []string
	if vk.Choice("comments", 2) == 1 {
		args = append(args, "--comments")
	}
	diffRun(f, s, s, args...)
	noChange(f)
}
