package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// the commands that select groups, with the path of their output
var grouped = [][]string{
	{"export", "mysql"}, {"export", "dbml"}, {"generate", "liquibase"}, {"generate", "pb"},
	{"generate", "gorm"}, {"generate", "kt"}, {"generate", "sqlalchemy"}, {"generate", "sqlalchemy"},
	{"diff", "md"}, {"diff", "flyway"}, {"diff", "liquibase"},
}

func outPath(dir string, f int) string {
	return cat(dir, []string{"/out.sql", "/out.dbml", "/out.yaml", "/out.proto", "/out.go", "", "", "/all.py", "/out.md", "/out.sql", "/out.yaml"}[f])
}

// anyGroup is a group name, or none.
func anyGroup(p string) string {
	switch vk.Choice(p+".group", 3) {
	case 1:
		return groupText(p, 1)
	case 2:
		return groupText(p, 2)
	}
	return ""
}

func groupText(p string, n int) string {
	g := vk.Str(p+".group", n, "print")
	for i := 0; i < n; i++ {
		vk.Assume(g[i] != ',')
	}
	return g
}

// anyList is a list of one or two groups, as text and as groups.
func anyList() (string, []string) {
	x := groupText("list0", 1+vk.Choice("list0", 2))
	vk.Assume(x[0] != '-')
	if vk.Choice("list", 2) == 0 {
		return x, []string{x}
	}
	y := groupText("list1", 1+vk.Choice("list1", 2))
	return cat(x, ",", y), []string{x, y}
}

func selected(s *Schema, l []string) *Schema {
	r := *s
	r.Tables = nil
	for _, t := range s.Tables {
		if in(t.Group, l) {
			r.Tables = append(r.Tables, t)
		}
	}
	return &r
}

// below lists the files under a directory, without its name.
func below(dir string) []string {
	var out []string
	for _, f := range vk.Files() {
		if strings.HasPrefix(f, cat(dir, "/")) {
			out = append(out, f[len(dir)+1:])
		}
	}
	return out
}

func sameOutput(a, b, label string) {
	x, y := below(a), below(b)
	need(len(x) == len(y), label)
	for i := range x {
		vk.Assert(x[i] == y[i], label)
		vk.Assert(vk.SameFile(cat(a, "/", x[i]), cat(b, "/", x[i])), label)
	}
}

func c12Tables() []*Table {
	return []*Table{
		{Name: "za", Desc: "d", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "at", Type: "datetime"}}},
		{Name: "zb", ClassName: "Klass", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "n", Type: "decimal", Size: 9, Scale: 2, Unique: true}}},
		{Name: "zc", Columns: []*Col{{Name: "b", Type: "boolean", NotNull: true}}, Indices: []*Index{{"ix", []string{"b"}}}},
	}
}

// exactly the tables of the listed groups are written
func C12_generate() {
	s := &Schema{Name: "n", Author: "me", Version: "1"}
	s.Tables = c12Tables()
	for i, t := range s.Tables {
		t.Group = anyGroup(t.Name)
		if i == 2 && !vk.Thorough() && t.Group != "" {
			vk.Assume(len(t.Group) == 1)
		}
	}
	list, groups := anyList()
	f := vk.Choice("command", 8)
	vk.WriteJSON("in.json", s)
	vk.WriteJSON("want.json", selected(s, groups))
	flag := vk.Pick("flag", "-g", "--groups")
	cmd := grouped[f]
	vk.Mkdir("a")
	vk.Mkdir("b")
	run("the command succeeds", cmd[0], cmd[1], "-i", "in.json", "-o", outPath("a", f), flag, list)
	run("the command succeeds", cmd[0], cmd[1], "-i", "want.json", "-o", outPath("b", f))
	sameOutput("a", "b", "exactly the tables of the groups are written")
}

// references do not pull in tables of other groups
func C12_refs() {
	s := &Schema{Name: "n", Author: "me", Version: "1"}
	for i, n := range []string{"za", "zb"} {
		t := &Table{Name: n, Group: cat("g", vk.Str(n, 1, "alnum")), Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "other", Type: "int64"}}}
		if vk.Choice("ref", 2) == 1 {
			t.Columns[1].Ref = &Ref{[]string{"zb", "za"}[i], "id", vk.Pick("rel", "n:1", "1:n", "1:1")}
		}
		s.Tables = append(s.Tables, t)
	}
	list := cat("g", vk.Str("list", 1, "alnum"))
	f := vk.Choice("command", 8)
	cmd := grouped[f]
	vk.WriteJSON("in.json", s)
	vk.Mkdir("a")
	run("the command succeeds", cmd[0], cmd[1], "-i", "in.json", "-o", outPath("a", f), "-g", list)
	sel := selected(s, []string{list})
	if cmd[1] == "gorm" { // models of other groups are declared elsewhere
		tabs := sel.Tables
		if len(tabs) == 2 && tabs[0].Group > tabs[1].Group {
			tabs = []*Table{tabs[1], tabs[0]}
		}
		gormCheck("a/out.go", s.Tables, tabs, gormOpt{})
		return
	}
	if len(sel.Tables) == 1 {
		t := cloneTab(sel.Tables[0])
		t.Columns[1].Ref = nil
		sel.Tables[0] = t
	}
	vk.WriteJSON("want.json", sel)
	vk.Mkdir("b")
	run("the command succeeds", cmd[0], cmd[1], "-i", "want.json", "-o", outPath("b", f))
	sameOutput("a", "b", "exactly the tables of the groups are written")
}

// a diff of groups is the diff of their tables
func C12_diff() {
	o, n := &Schema{Author: "me", Version: "1"}, &Schema{Author: "me", Version: "2"}
	for i := 0; i < 3; i++ {
		p := "z" + itoa(i)
		g := ""
		if i < 2 && vk.Thorough() {
			g = anyGroup(p)
		} else if i == 2 || vk.Choice(p+".group", 2) == 1 {
			g = groupText(p, 2-i%2)
		}
		t := &Table{Name: p, Group: g, Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "c" + itoa(i), Type: "varchar", Size: 20}}}
		u := cloneTab(t)
		k := 1
		if i < 2 {
			k = vk.Choice(p, 4)
		}
		switch k {
		case 0:
			u.Columns[1].NotNull = true
			u.Desc = "changed"
			u.Columns = append(u.Columns, &Col{Name: "d", Type: "date"})
			o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
		case 1:
			o.Tables = append(o.Tables, t)
		case 2:
			n.Tables = append(n.Tables, u)
		case 3:
			u.Name = "y" + itoa(i)
			o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
		}
	}
	x, y := groupText("list0", 1), groupText("list1", 2)
	vk.Assume(x[0] != '-')
	list, groups := x, []string{x}
	if vk.Choice("list", 2) == 1 {
		list, groups = cat(x, ",", y), []string{x, y}
	}
	f := 8 + vk.Choice("command", 3)
	diffTo := func(dir string, o, n *Schema, args ...string) {
		vk.Mkdir(dir)
		vk.WriteJSON("old.json", o)
		vk.WriteJSON("new.json", n)
		run("diff succeeds", append([]string{"diff", grouped[f][1], "-f", "old.json", "-t", "new.json", "-o", outPath(dir, f), "-c"}, args...)...)
	}
	diffTo("a", o, n, "-g", list)
	diffTo("b", selected(o, groups), selected(n, groups))
	sameOutput("a", "b", "exactly the tables of the groups are compared")
}

// longer group names, next to tables without a group
func C12_long() {
	n := 1 + vk.Choice("length", 8)
	s := &Schema{Name: "n", Author: "me", Version: "1", Tables: c12Tables()}
	s.Tables[0].Group = groupText("za", n)
	if vk.Choice("zb", 2) == 1 {
		s.Tables[1].Group = vk.Str("zb", n, "alnum")
	}
	list := groupText("list", n)
	vk.Assume(list[0] != '-')
	groups := []string{list}
	if vk.Choice("two", 2) == 1 {
		list, groups = cat("x,", list), []string{"x", list}
	}
	f := vk.Choice("command", 8)
	vk.WriteJSON("in.json", s)
	vk.WriteJSON("want.json", selected(s, groups))
	vk.Mkdir("a")
	vk.Mkdir("b")
	cmd := grouped[f]
	run("the command succeeds", cmd[0], cmd[1], "-i", "in.json", "-o", outPath("a", f), "-g", list)
	run("the command succeeds", cmd[0], cmd[1], "-i", "want.json", "-o", outPath("b", f))
	sameOutput("a", "b", "exactly the tables of the groups are written")
}
