package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// Texts and names that mean something to some program: function calls, literals, quotes, comments, markup, format verbs,
// words that naming functions treat in a way of their own. A character before or after is symbolic.

var texts = []string{
	"FN::NOW", "x fn::y", "fn:", "NULL", "CURRENT_TIMESTAMP", "true", "007", "-1", "1.50", "0x1F", "1e5", "b'1'", "it's 100% \"sure\"", "a;b;", "-- no", "/* c */",
	"${x}", "{{.Name}}", "{{", "%s %d%%", "<b>&amp;</b>", "x=y", "é 한글", "`q`", "a\\nb", "[ref: > a.b]", "# x", "* x", "// x", "https://a.b/c?d=1&e=2#f", "tab\there", "line\nbreak", "line\r\nbreak", "'''", "\"\"\"", "@x", "|a|b|", "~", "not null", "autoInc", "default: x", "- x", "? y", "yes", "2020-01-01", "10:00", "[]", "{}", "!a", "*a", "&a", "\\", "\\'", "%", "_", "''", "a''b",
}

// anyText is one of the texts with a symbolic character before or after it.
func anyText(class string, not ...string) string {
	x := vk.Pick("text", texts...)
	for _, n := range not {
		if strings.Contains(x, n) {
			vk.Stop()
		}
	}
	switch vk.Choice("around", 3) {
	case 1:
		x = cat(vk.Str("before", 1, class), x)
	case 2:
		x = cat(x, vk.Str("after", 1, class))
	}
	vk.Assume(vk.Not(strings.HasPrefix(x, "fn::")))
	return x
}

// texted is a table one of whose texts is given.
func texted(x string, places int) *Table {
	c := &Col{Name: "c", Type: "varchar", Size: 20, Desc: "d", Default: "v"}
	t := &Table{Name: "zt", Desc: "about", Columns: []*Col{{Name: "id", Type: "int64"}, c, {Name: "z", Type: "date", Desc: "last"}}}
	switch vk.Choice("place", places) {
	case 0:
		c.Desc = x
	case 1:
		c.Default = x
	case 2:
		t.Desc = x
	case 3:
		c.Type, c.Size, c.Default, c.Values = vk.Pick("type", "enum", "set"), 0, "", []string{"a", x, "b"}
	}
	return t
}

func blankEnd(l []string) bool {
	r := false
	for _, x := range l {
		r = vk.Or(r, strings.HasSuffix(x, " "))
	}
	return r
}

func C01_words() {
	t := texted(anyText("any"), 4)
	vk.Tag("trailing blank in a member", blankEnd(t.Columns[1].Values))
	s := &Schema{Tables: []*Table{t}}
	sameTables(carried(s), c01Round(s))
}

func C02_words() {
	esc := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''") }
	x := anyText("any")
	t := texted(x, 4)
	c := t.Columns[1]
	vk.Assume(vk.Not(blankEnd(c.Values)))
	ty := "varchar(20)"
	if c.Values != nil {
		ty = cat(c.Type, "('a','", esc(x), "','b')")
	}
	df := ""
	if c.Default != "" {
		df = cat(" DEFAULT '", esc(c.Default), "'")
	}
	sql := cat("CREATE TABLE `zt` (`id` bigint,\n`c` ", ty, df, " COMMENT '", esc(c.Desc), "',\n`z` date COMMENT 'last') COMMENT='", esc(t.Desc), "';\n")
	sameTables(carried(&Schema{Tables: []*Table{t}}), c02Import(sql))
}

func C03_words() {
	t := texted(anyText("alnum", ","), 3)
	t.Group = "g"
	sameTables([]*Table{t}, c03Round(&Schema{Tables: []*Table{t}}))
}

func C04_words() {
	t := texted(anyText("any"), 3)
	t.Group = "g"
	u := &v1Table{Name: t.Name, Group: t.Group, Desc: t.Desc}
	for i, c := range t.Columns {
		u.Columns = append(u.Columns, &v1Col{Name: c.Name, Type: []string{"long", "string", "date"}[i], Size: c.Size, Desc: c.Desc, Default: c.Default})
	}
	sameTables([]*Table{t}, c04Import(&v1Schema{Tables: []*v1Table{u}}))
}

func C05_words() {
	x := anyText("text")
	c, w := &suCol{Name: "c", Type: "VARCHAR", Length: 20}, &Col{Name: "c", Type: "varchar", Size: 20, NotNull: true}
	n := "zt"
	switch vk.Choice("place", 3) {
	case 0:
		c.Doc, w.Desc = x, x
	case 1:
		c.Name, w.Name = x, x
	case 2:
		n = x
	}
	b := c05Import(suProject([]*suElem{entity("E", n, c)}))
	sameTables([]*Table{{Name: n, Columns: []*Col{w}}}, b)
}

func C06_words() {
	t := texted(anyText("any"), 4)
	s := &Schema{Version: "1", Tables: []*Table{t}}
	f := vk.Pick("format", diffFormats...)
	diffRun(f, s, &Schema{Version: "2", Tables: []*Table{cloneTab(t)}}, "--comments")
	noChange(f)
}

// pairWords: a text becomes another one, or a column or table with it is added.
func pairWords(class string, not ...string) (o, n *Schema) {
	x := anyText(class, not...)
	u := texted(x, 4)
	t := cloneTab(u)
	switch vk.Choice("change", 3) {
	case 0:
		c := u.Columns[1]
		t.Desc = "about"
		t.Columns[1] = &Col{Name: "c", Type: c.Type, Size: c.Size, Desc: "d", Default: []string{"v", ""}[vk.Choice("old default", 2)]}
		if c.Values != nil {
			t.Columns[1].Default, t.Columns[1].Values = "", []string{"a", "b"}
		}
	case 1:
		t.Columns = []*Col{t.Columns[0], t.Columns[2]}
	case 2:
		return &Schema{Version: "1", Tables: []*Table{{Name: "ya", Columns: []*Col{{Name: "q", Type: "json"}}}}}, &Schema{Version: "2", Tables: []*Table{u}}
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

func C07_words() { c07(pairWords("any")) }
func C08_words() {
	o, n := pairWords("plain")
	for _, t := range n.Tables {
		for _, c := range t.Columns {
			if strings.ContainsAny(strings.Join(c.Values, ""), "\r\n") {
				vk.Stop()
			}
		}
	}
	c08(o, n)
}
func C09_words() { c09(pairWords("any")) }

func C10_words() {
	t := texted(anyText("any"), 4)
	c10(&Schema{Author: "me", Tables: []*Table{t}}, []*Table{t})
}

func C19_words() {
	t := texted(anyText("print"), 4)
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	c19(vk.Pick("format", diagrams...), []*Table{t})
}

// names that naming functions treat in a way of their own
var columnNames = []string{
	"id", "ID", "Id", "uuid", "UUID", "url", "URL", "user_url", "userURL", "userId", "userID", "user_id", "user__id", "_user", "user_", "a1", "a_1", "a1b", "a_1_b", "x2y", "v2_name", "name2", "created_at", "createdAt", "updated_at", "deleted_at", "isActive", "is_active", "is", "has_x", "get_name", "class", "type", "name", "value", "key", "order", "group", "table", "ABc", "aBC", "aB", "AB_CD", "http_api_json", "ip", "IPAddress", "html", "a_b_c_d", "a", "A", "q", "query", "node", "edges", "status", "statuses", "data", "info", "news", "address", "category", "box", "child", "self", "metadata", "password", "default", "func", "range", "val", "object", "import", "package", "message", "option", "string", "int", "select", "from", "date", "time", "a_very_long_column_name_that_no_one_would_type_twice", "aVeryLongCamelCaseColumnName", "ALL_CAPS_NAME", "mixed_Case_Name", "s3_key", "md5", "sha256_sum", "utf8", "oauth2_token", "x_y", "e_mail", "t_s",
}

var tableNames = []string{
	"user", "users", "user_group", "UserGroup", "userGroup", "USER_GROUP", "order", "orders", "order_2item", "category", "categories", "address", "box", "boxes", "child", "children", "person", "people", "status", "news", "series", "data", "media", "a", "A", "t_user", "tbl_user_url", "api_key", "id", "http_url", "x1", "x_1", "v2_user", "user2", "s3_object", "a_b_c", "a_very_long_table_name_that_no_one_would_type_twice", "_lead", "trail_", "two__bars", "type", "class", "query", "node", "table", "model", "entity", "object", "file", "index", "key", "value", "list", "map", "set", "string", "int", "date", "time", "error", "test", "base", "page", "role_permission", "OAuth2Token",
}

// named is a table of some name with a column of some name.
func named() *Table {
	c := &Col{Name: "ab", Type: vk.Pick("type", "int64", "varchar", "datetime"), NotNull: vk.Bool("nn"), Unique: vk.Bool("unique"), PK: vk.Bool("pk")}
	if c.Type == "varchar" {
		c.Size = 9
	}
	t := &Table{Name: "za", Columns: []*Col{{Name: "ok", Type: "int32", NotNull: true, Unique: true}, c}}
	switch vk.Choice("where", 4) {
	case 0:
		c.Name = vk.Pick("column", columnNames...)
	case 3:
		c.Name = cat(vk.Pick("lead", "first_", "x"), vk.Pick("column", columnNames...))
	case 1:
		c.Name = cat(vk.Pick("column", columnNames...), vk.Str("after", 1, "word"))
	case 2:
		t.Name = vk.Pick("table", tableNames...)
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	return t
}

func C14_words() {
	t := named()
	gormRun("out.go")
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{})
}

func C15_words() {
	t := named()
	ktRun("-p", "m")
	class := camelAny(t.Name)
	ktCheck(cat("dir/m/", class, ".kt"), class, t, ktOpt{pkg: "m"})
}

func C16_words() {
	t := named()
	o := saOpt{}
	saRun("out.py", o)
	saCheck("out.py", []*Table{t}, []string{camelAny(t.Name)}, o)
}

func C17_words() {
	t := named()
	if in(camelAny(t.Name), []string{"Query", "ID", "String", "Int", "Float", "Boolean"}) {
		vk.Assert(vk.Run("generate", "graphql", "-i", "in.json", "-o", "out") != 0, "a type name of GraphQL itself is reported")
		vk.Stop()
	}
	gqlRun()
	gqlCheck("out/-.graphqls", []*Table{t})
}

func C18_words() {
	t := named()
	pbRun()
	pbCheck("out.proto", []*Table{t}, pbOpt{start: -1})
}

// camelAny joins the words of any name: what follows an underscore, a digit or nothing is a capital.
func camelAny(s string) string {
	out, up := "", true
	for _, r := range s {
		c := string(r)
		switch {
		case r == '_':
			up = true
		case up:
			out += strings.ToUpper(c)
			up = r >= '0' && r <= '9'
		default:
			out += c
			up = r >= '0' && r <= '9'
		}
	}
	return out
}

// class names from table names of every kind
func C13_words() {
	f := vk.Pick("format", "gorm", "kt", "sqlalchemy", "pb")
	t := &Table{Name: vk.Pick("table", tableNames...), Group: vk.Pick("group", "", "g"), Columns: []*Col{{Name: "ok", Type: "int64", PK: true, NotNull: true}}}
	u := &Table{Name: "zzz", Group: "g", Columns: []*Col{{Name: "ok", Type: "int64", PK: true, NotNull: true}, {Name: "r", Type: "int64", NotNull: true, Ref: &Ref{t.Name, "ok", "n:1"}}}}
	n := &naming{table: f == "pb", prefix: func(string) string { return "" }}
	if l := vk.Pick("remove", "", "t_,tbl_,user_", "a_,x_", "_", "s,p,z", "User", "user_group"); l != "" {
		n.remove = strings.Split(l, ",")
		n.args = append(n.args, "--removePrefix", l)
	}
	p := vk.Str("p", 1, "upper")
	switch vk.Choice("prefix", 3) {
	case 1:
		n.args = append(n.args, "--prefix", p)
		n.prefix = func(string) string { return p }
	case 2:
		n.args = append(n.args, "--prefix", cat("h:Q,g:", p))
		n.prefix = func(g string) string {
			if g == "g" {
				return p
			}
			return ""
		}
	}
	name := func(t *Table) string {
		c := camelAny(stem(t.Name, n.remove))
		if c == "" || c[0] >= '0' && c[0] <= '9' {
			vk.Stop()
		}
		return cat(n.prefix(t.Group), c)
	}
	tabs, class := []*Table{t, u}, []string{name(t), name(u)}
	if t.Group == "g" && t.Name > u.Name {
		tabs, class = []*Table{u, t}, []string{class[1], class[0]}
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{u, t}})
	switch f {
	case "gorm":
		gormRun("out.go", n.args...)
		gormCheck("out.go", tabs, tabs, gormOpt{})
		for i, g := range goRead("out.go").structs {
			vk.Assert(g.name == class[i], "class name")
		}
	case "kt":
		ktRun(append(n.args, "--relation", "VRelation")...)
		o := ktOpt{vrel: map[string]string{t.Name: class[0], u.Name: class[1]}}
		if tabs[0] == u {
			o.vrel = map[string]string{t.Name: class[1], u.Name: class[0]}
		}
		for i, t := range tabs {
			ktCheck(cat("dir/", class[i], ".kt"), class[i], t, o)
		}
	case "sqlalchemy":
		saRun("out.py", saOpt{}, n.args...)
		saCheck("out.py", tabs, class, saOpt{})
	case "pb":
		pbRun(n.args...)
		pbCheck("out.proto", tabs, pbOpt{start: -1})
		for i, g := range pbRead("out.proto").msgs {
			vk.Assert(g.name == class[i], "class name")
		}
	}
}

// nearWords: a text becomes one that is nearly the same, in a column that keeps its name or not.
func nearWords(class string) (o, n *Schema) {
	x := cat(vk.Pick("text", "a", "aB ", " 1.0", "007", "é", "fn"), vk.Str("after", 1, class))
	var y string
	switch vk.Choice("near", 7) {
	case 0:
		y = cat(x, " ")
	case 1:
		y = cat(" ", x)
	case 2:
		y = x[:len(x)-1]
	case 3:
		y = cat(x, x)
	case 4:
		y = cat(x[:len(x)-1], vk.Str("other", 1, class))
		vk.Assume(x != y)
	case 5:
		y = cat("'", x, "'")
	case 6:
		y = cat(x, ",")
	}
	vk.Assume(vk.And(vk.Not(strings.HasPrefix(x, "fn::")), vk.Not(strings.HasPrefix(y, "fn::"))))
	t := texted(x, 4)
	u := cloneTab(t)
	a, b := t.Columns[1], u.Columns[1]
	switch {
	case a.Desc == x:
		b.Desc = y
	case a.Default == x:
		b.Default = y
	case t.Desc == x:
		u.Desc = y
	default:
		b.Values = []string{"a", y, "b"}
	}
	if vk.Choice("renamed", 2) == 1 {
		b.Name = "k"
	}
	if vk.Choice("swap", 2) == 1 {
		t, u = u, t
	}
	return &Schema{Version: "1", Tables: []*Table{t}}, &Schema{Version: "2", Tables: []*Table{u}}
}

func C07_nearwords() { c07(nearWords("print")) }
func C08_nearwords() { c08(nearWords("plain")) }
func C09_nearwords() { c09(nearWords("print")) }
