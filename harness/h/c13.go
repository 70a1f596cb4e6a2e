package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// camel joins the words of a lower-case name: a letter is a capital at the start, after
// an underscore and after a digit.
func camel(s string) string {
	var b []string
	up := true
	for i := 0; i < len(s); i++ {
		x := s[i]
		switch {
		case x == '_' || x == '-':
			up = true
		case isDigit(x):
			b = append(b, string([]byte{x}))
			up = true
		default:
			if up && x >= 'a' {
				x -= 'a' - 'A'
			}
			b = append(b, string([]byte{x}))
			up = false
		}
	}
	return strings.Join(b, "")
}

// stem is the table name without the removable prefixes, each removed once in the given order.
func stem(name string, prefixes []string) string {
	for _, p := range prefixes {
		if strings.HasPrefix(name, p) {
			name = name[len(p):]
		}
	}
	return name
}

type naming struct {
	args   []string
	remove []string
	table  bool // an explicit class name does not count
	prefix func(group string) string
}

// anyNaming picks removable prefixes and class prefixes.
func anyNaming(rflag, pflag string) *naming {
	n := &naming{prefix: func(string) string { return "" }}
	switch vk.Choice("remove", 4) {
	case 1:
		n.remove = []string{vk.Str("r0", 1, "lower_")}
	case 2:
		n.remove = []string{vk.Str("r0", 2, "ident")}
	case 3:
		n.remove = []string{vk.Str("r0", 1, "lower"), vk.Str("r1", 1+vk.Choice("r1", 2), "lower_")}
	}
	if len(n.remove) > 0 {
		n.args = append(n.args, rflag, strings.Join(n.remove, ","))
	}
	x, y := vk.Str("p0", 1, "upper"), vk.Str("p1", 2, "upper")
	g := cat("g", vk.Str("group", 1, "alnum"))
	switch vk.Choice("prefix", 4) {
	case 1:
		n.args = append(n.args, pflag, x)
		n.prefix = func(string) string { return x }
	case 2:
		n.args = append(n.args, pflag, cat(g, ":", x))
		n.prefix = func(t string) string {
			if t == g {
				return x
			}
			return ""
		}
	case 3:
		n.args = append(n.args, pflag, cat(g, ":", x, ",hh:", y))
		n.prefix = func(t string) string {
			if t == g {
				return x
			}
			if t == "hh" {
				return y
			}
			return ""
		}
	}
	return n
}

func (n *naming) class(t *Table) string {
	if t.ClassName != "" && !n.table {
		return t.ClassName
	}
	c := camel(stem(t.Name, n.remove))
	vk.Assume(len(c) == 0 || vk.Not(isDigit(c[0])))
	return cat(n.prefix(t.Group), c)
}

// c13Tables are two tables that refer to each other.
func c13Tables(size int) []*Table {
	var tabs []*Table
	for i := 0; i < 2; i++ {
		t := &Table{Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "r", Type: "int64", NotNull: true}}}
		t.Group = []string{"hh", "gx"}[i]
		t.Name = []string{"", "zb_x"}[i]
		if i == 0 {
			t.Name = vk.Str("tab", size, "ident")
			if size == 0 {
				t.Name = vk.Pick("tab", "user_group", "order_2item")
			}
			if vk.Choice("grouped", 2) == 0 {
				t.Group = ""
			}
		}
		tabs = append(tabs, t)
	}
	tabs[0].Columns[1].Ref = &Ref{tabs[1].Name, "id", "n:1"}
	tabs[1].Columns[1].Ref = &Ref{tabs[0].Name, "id", "n:1"}
	return tabs
}

// tables whose class names differ in case, separators or plural only
func C13_collide() {
	f := vk.Pick("format", "gorm", "kt", "sqlalchemy", "pb", "graphql")
	var tabs []*Table
	var class []string
	n := &naming{prefix: func(string) string { return "" }, table: f == "pb"}
	for i := 0; i < 2; i++ {
		t := &Table{Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "k", Type: "int32", PK: i == 0}}}
		t.Name = vk.Pick("name", "user_group", "userGroup", "user-group", "user_groups", "UserGroup", "User_groups", "user_group_pk", "user_group_PK", "query", "string")
		if vk.Choice("class", 3) == 1 {
			t.ClassName = vk.Pick("classname", "UserGroup", "userGroup", "UserGroupPK", "Query", "Int")
		}
		tabs, class = append(tabs, t), append(class, n.class(t))
	}
	vk.Assume(tabs[0].Name < tabs[1].Name)
	bad := class[0] == class[1] || f == "kt" && cat(class[0], "PK") == class[1]
	for _, c := range class {
		bad = bad || f == "graphql" && in(c, []string{"Query", "String", "Int"})
	}
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	out := map[string]string{"gorm": "out.go", "kt": "dir", "sqlalchemy": "out.py", "pb": "out.proto", "graphql": "out"}[f]
	ok := vk.Run("generate", f, "-i", "in.json", "-o", out) == 0
	vk.Assert(ok != bad, "exactly tables with the same class name are reported")
	if !ok {
		vk.Stop()
	}
	switch f {
	case "gorm":
		gormCheck(out, tabs, tabs, gormOpt{})
	case "kt":
		for i, t := range tabs {
			ktCheck(cat("dir/", class[i], ".kt"), class[i], t, ktOpt{})
		}
	case "sqlalchemy":
		saCheck(out, tabs, class, saOpt{})
	case "graphql":
		gqlCheck("out/-.graphqls", tabs)
	case "pb":
		pbCheck(out, tabs, pbOpt{start: -1})
	}
}

// every class name, and every reference to it
func C13_names() {
	f := vk.Pick("format", "gorm", "kt", "sqlalchemy", "pb", "graphql")
	rflag, pflag := "--removePrefix", "--prefix"
	size := 3
	if vk.Thorough() {
		size = 4
	}
	if f == "graphql" { // plurals of any name are out of reach
		size = 0
	}
	tabs := c13Tables(size)
	n := anyNaming(rflag, pflag)
	k := vk.Choice("class", 3)
	n.table = f == "pb"
	if f == "graphql" && len(n.args) > 0 {
		vk.Stop()
	}
	if k > 0 {
		tabs[k-1].ClassName = cat(vk.Pick("initial", "K", "k"), "k", vk.Str("class", 1, "alnum"))
	}
	var class []string
	for i, t := range tabs {
		class = append(class, n.class(t))
		for j := 0; j < i; j++ {
			vk.Assume(tabs[j].Name != t.Name)
		}
	}
	if class[0] == "" || class[1] == "" || class[0] == class[1] {
		args := append([]string{"generate", f, "-i", "in.json", "-o", "out.py"}, n.args...)
		vk.WriteJSON("in.json", &Schema{Tables: tabs})
		vk.Assert(vk.Run(args...) != 0, "tables with the same class name, or without one, are reported")
		vk.Stop()
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{tabs[1], tabs[0]}})
	sort := func() {
		if tabs[0].Group > tabs[1].Group {
			tabs[0], tabs[1] = tabs[1], tabs[0]
			class[0], class[1] = class[1], class[0]
		}
	}
	switch f {
	case "gorm":
		sort()
		gormRun("out.go", n.args...)
		gormCheck("out.go", tabs, tabs, gormOpt{})
		for i, g := range goRead("out.go").structs {
			vk.Assert(g.name == class[i], "class name")
		}
	case "kt":
		ktRun(append(n.args, "--relation", "VRelation")...)
		o := ktOpt{vrel: map[string]string{tabs[0].Name: class[0], tabs[1].Name: class[1]}}
		for i, t := range tabs {
			ktCheck(cat("dir/", class[i], ".kt"), class[i], t, o)
		}
	case "sqlalchemy":
		sort()
		saRun("out.py", saOpt{}, n.args...)
		saCheck("out.py", tabs, class, saOpt{})
	case "graphql":
		sort()
		gqlRun()
		gqlCheck("out/-.graphqls", tabs)
		for i, g := range gqlRead("out/-.graphqls").types[1:] {
			vk.Assert(g.name == class[i], "class name")
		}
	case "pb":
		sort()
		pbRun(n.args...)
		pbCheck("out.proto", tabs, pbOpt{start: -1})
		for i, g := range pbRead("out.proto").msgs {
			vk.Assert(g.name == class[i], "class name")
		}
	}
}
