package h

import (
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

func c10(s *Schema, want []*Table, args ...string) {
	vk.WriteJSON("in.json", s)
	sfx, comments := diffOpts()
	if comments {
		args = append(args, "--comments")
	}
	if sfx != "" {
		args = append(args, "-u", sfx)
	}
	run("generate succeeds", append([]string{"generate", "liquibase", "-i", "in.json", "-o", "out"}, args...)...)
	d := &db{}
	for _, k := range d.lqRunAll("out", s.Author) {
		vk.Assert(k == "createTable" || k == "addPrimaryKey" || k == "addUniqueConstraint", "the changelog only creates")
	}
	w := lqDB(&Schema{Tables: want}, sfx)
	need(len(d.tabs) == len(w.tabs), "every selected table is created once")
	for _, t := range w.tabs {
		g := d.tab(t.name)
		need(g != nil, "every selected table is created once")
		need(len(g.cols) == len(t.cols), "every column is created once")
		vk.Assert(g.desc == t.desc, "table remarks")
		for i, c := range t.cols {
			vk.Assert(g.cols[i].name == c.name, "every column is created, in order")
			vk.Assert(vk.Imp(vk.Not(comments), g.cols[i].desc == ""), "remarks only on request")
		}
	}
	sameDB(d.settle(), w.settle(), dbOpt{comments: comments, born: true})
	last, lastMinor := 0, 0
	for _, e := range lqRead("out") {
		if e.ChangeSet == nil {
			continue
		}
		p := strings.Split(e.ChangeSet.Id, "-")
		a, err := strconv.Atoi(p[0])
		b, err2 := 0, error(nil)
		if len(p) > 1 {
			b, err2 = strconv.Atoi(p[1])
		}
		vk.Assert(err == nil && err2 == nil && len(p) <= 2 && (a > last || a == last && b > lastMinor), "change set ids ascend")
		last, lastMinor = a, b
	}
}

// one column of every type, with every attribute
func C10_column() {
	c := dress("c", &Col{Name: cat("z", vk.Str("col", 1, "word")), Type: vk.Pick("type", allTypes...)})
	switch {
	case c.Type == "varchar":
		c.Size = vk.Int("size", 1, 65535)
	case isScaled(c.Type) && c.Size > 0:
		scaled("", c, 1)
	case isInt(c.Type):
		c.Size = vk.Int("size", 0, 20)
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "word")), Columns: []*Col{c, {Name: "y", Type: "int32"}}}
	c10(&Schema{Author: "me", Tables: []*Table{t}}, []*Table{t})
}

// keys of several columns, references and indices
func C10_keys() {
	t := &Table{Name: "zt"}
	for i, ty := range []string{"int64", "varchar", "date"} {
		c := &Col{Name: "cK" + itoa(i), Type: ty, PK: vk.Bool("pk"), Unique: vk.Bool("unique"), NotNull: vk.Bool("nn")}
		if ty == "varchar" {
			c.Size = 20
			c.Ref = &Ref{"other", "id", "n:1"}
		}
		t.Columns = append(t.Columns, c)
	}
	t.Indices = []*Index{{"i1", []string{"cK0"}}}
	c10(&Schema{Author: "me", Tables: []*Table{t}}, []*Table{t})
}

// several tables in groups
func C10_tables() {
	s := &Schema{Author: vk.Pick("author", "", "me")}
	var want []*Table
	g := vk.Pick("select", "", "g", "h", "g,h", "h,x")
	for i := 0; i < 3; i++ {
		t := &Table{Name: vk.Str("tab", 1, "letter") + itoa(i), Group: vk.Pick("group", "", "g", "h"), Desc: "d" + itoa(i), Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "b", Type: "date", Unique: vk.Bool("unique")}}}
		if i == 0 {
			t.Columns[1].PK = vk.Bool("b.pk")
		}
		s.Tables = append(s.Tables, t)
		if g == "" || oneOf(t.Group, strings.Split(g, ",")) {
			want = append(want, t)
		}
	}
	if g == "" {
		c10(s, want)
	} else {
		c10(s, want, "-g", g)
	}
}

// any text as remarks, default and member
func C10_texts() {
	l := 2
	if vk.Thorough() {
		l = 3
	}
	x := vk.Str("text", l, "any")
	c := &Col{Name: "c", Type: "varchar", Size: 20}
	t := &Table{Name: "zt", Columns: []*Col{c}}
	switch vk.Choice("where", 4) {
	case 0:
		c.Desc = x
	case 1:
		c.Default = x
	case 2:
		t.Desc = x
	case 3:
		c.Type, c.Size, c.Values = vk.Pick("type", "enum", "set"), 0, []string{"a", x}
	}
	c10(&Schema{Author: vk.Str("author", 1, "any"), Tables: []*Table{t}}, []*Table{t})
}

// flags, keys and attributes in any combination
func C10_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64", "boolean", "double")
	c10(&Schema{Author: "me", Tables: []*Table{t}}, []*Table{t})
}
