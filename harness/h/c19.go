package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// edge is a reference between columns.
type edge struct{ from, rel, to string }

func rev(rel string) string {
	switch rel {
	case ">":
		return "<"
	case "<":
		return ">"
	}
	return rel
}

// norm writes an edge from the many side.
func (e edge) norm() edge {
	if e.rel == "<" {
		return edge{e.to, ">", e.from}
	}
	if e.rel == "-" && e.to < e.from {
		return edge{e.to, "-", e.from}
	}
	return e
}

func relSign(r *Ref) string {
	switch r.Relationship {
	case "1:n":
		return "<"
	case "1:1":
		return "-"
	}
	return ">"
}

func fnOr(v, pre, post string) (string, bool) {
	if strings.HasPrefix(v, "fn::") {
		return cat(pre, v[4:], "()", post), true
	}
	return v, false
}

func sizedType(c *Col) string {
	if vk.Split(c.Size > 0) {
		if vk.Split(c.Scale > 0) {
			return cat(c.Type, "(", itoa(c.Size), ",", itoa(c.Scale), ")")
		}
		return cat(c.Type, "(", itoa(c.Size), ")")
	}
	return c.Type
}

// sameEdges compares the references of listed tables with those of the schema; others are not judged.
func sameEdges(got []edge, tabs []*Table) {
	listed := func(col string) bool {
		for _, t := range tabs {
			if t.Name == strings.Split(col, ".")[0] {
				return true
			}
		}
		return false
	}
	var want []edge
	for _, t := range tabs {
		for _, c := range t.Columns {
			if c.Ref != nil {
				want = append(want, edge{t.Name + "." + c.Name, relSign(c.Ref), c.Ref.Table + "." + c.Ref.Column})
			}
		}
	}
	n := func(l []edge, e edge) (n int) {
		for _, x := range l {
			if x.norm() == e.norm() {
				n++
			}
		}
		return
	}
	for _, e := range want {
		if listed(e.to) {
			vk.Assert(n(got, e) == n(want, e), "every reference is shown once")
		}
	}
	for _, e := range got {
		vk.Assert(n(want, e) > 0, "every shown reference is one of the schema")
	}
}

// oneLine has spaces for line breaks.
func oneLine(s string) string {
	for _, x := range []string{"\r\n", "\n", "\r"} {
		s = strings.ReplaceAll(s, x, " ")
	}
	return s
}

func dbmlDefault(c *Col) string {
	if v, ok := fnOr(c.Default, "`", "`"); ok {
		return v
	}
	switch {
	case isInt(c.Type), isScaled(c.Type), c.Type == "bit", c.Type == "boolean", c.Type == "year":
		return c.Default
	}
	return cat("'", strings.ReplaceAll(oneLine(c.Default), "'", `\'`), "'")
}

func dbmlCheck(tabs []*Table, args ...string) {
	run("export succeeds", append([]string{"export", "dbml", "-i", "in.json", "-o", "out"}, args...)...)
	s, ok := vk.ReadFile("out")
	need(ok, "the output is written")
	var got []edge
	ti, ci := -1, 0
	open := false
	for _, l := range strings.Split(s, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "Table "):
			ti++
			need(!open && ti < len(tabs) && l == cat("Table ", tabs[ti].Name, " {"), "every listed table is shown once, in order")
			open, ci = true, 0
		case l == "}":
			need(open && ci == len(tabs[ti].Columns), "every column is shown once")
			open = false
		case strings.HasPrefix(l, "Ref: "):
			p := strings.Split(l[5:], " ")
			need(!open && len(p) == 3, "a reference is between two columns")
			got = append(got, edge{p[0], p[1], p[2]})
		default:
			need(open && ci < len(tabs[ti].Columns), "every column is shown once")
			c := tabs[ti].Columns[ci]
			ci++
			with, e := dbmlLine(c, true)
			without, _ := dbmlLine(c, false)
			if c.Ref != nil && l == with {
				got = append(got, edge{tabs[ti].Name + "." + c.Name, e, c.Ref.Table + "." + c.Ref.Column})
				break
			}
			vk.Assert(l == without, "a column is shown with its type and markers")
		}
	}
	need(!open && ti == len(tabs)-1, "every listed table is shown once, in order")
	sameEdges(got, tabs)
}

func dbmlLine(c *Col, ref bool) (string, string) {
	var p []string
	add := func(c bool, s string) {
		if vk.Split(c) {
			p = append(p, s)
		}
	}
	add(c.PK, "pk")
	add(c.Unique, "unique")
	add(c.NotNull, "not null")
	if c.Default != "" {
		p = append(p, cat("default: ", dbmlDefault(c)))
	}
	rel := ""
	if ref && c.Ref != nil {
		rel = relSign(c.Ref)
		p = append(p, cat("ref: ", rel, " ", c.Ref.Table, ".", c.Ref.Column))
	}
	if c.Desc != "" {
		p = append(p, cat(`note: "`, strings.ReplaceAll(oneLine(c.Desc), `"`, `\"`), `"`))
	}
	l := cat("  ", c.Name, " ", sizedType(c))
	if len(p) > 0 {
		l = cat(l, " [", strings.Join(p, ", "), "]")
	}
	return l, rel
}

func quickCheck(tabs []*Table) {
	run("export succeeds", "export", "quickdbd", "-i", "in.json", "-o", "out")
	s, ok := vk.ReadFile("out")
	need(ok, "the output is written")
	var want []string
	for _, t := range tabs {
		h := t.Name
		if t.Desc != "" {
			h = cat(h, " # ", oneLine(t.Desc))
		}
		want = append(want, h, strings.Repeat("-", len(t.Name)))
		for _, c := range t.Columns {
			l := cat(c.Name, " ", c.Type)
			add := func(c bool, s string) {
				if vk.Split(c) {
					l += s
				}
			}
			add(c.PK, " PK")
			add(c.Unique, " UNIQUE")
			add(c.AutoInc, " AUTOINCREMENT")
			add(vk.Not(c.NotNull), " NULLABLE")
			if c.Default != "" {
				v, _ := fnOr(c.Default, "", "")
				l = cat(l, " default=", oneLine(v))
			}
			if c.Ref != nil {
				l = cat(l, " FK ", map[string]string{">": ">-", "<": "-<", "-": "-"}[relSign(c.Ref)], " ", c.Ref.Table, ".", c.Ref.Column)
			}
			if c.Desc != "" {
				l = cat(l, " # ", oneLine(c.Desc))
			}
			want = append(want, l)
		}
		want = append(want, "")
	}
	got := strings.Split(s, "\n")
	need(len(got) == len(want), "every table and column is shown once")
	for i := range want {
		vk.Assert(got[i] == want[i], "a table or column is shown with its type, markers and reference")
	}
}

func umlCheck(tabs []*Table) {
	run("generate succeeds", "generate", "plantuml", "-i", "in.json", "-o", "out.puml")
	s, ok := vk.ReadFile("out.puml")
	need(ok, "the output is written")
	var want, refs, refsGot []string
	want = append(want, "@startuml")
	for _, t := range tabs {
		want = append(want, cat("entity ", t.Name, " {"))
		sep := false
		for _, c := range t.Columns {
			if !sep && !vk.Split(c.PK) {
				sep = true
				want = append(want, "    --")
			}
			l := cat(vk.IteStr(c.NotNull, "    * ", "    "), c.Name, ": ", c.Type, vk.IteStr(c.PK, " <<PK>>", ""), vk.IteStr(c.Unique, " <<UQ>>", ""))
			if c.Ref != nil {
				l += " <<FK>>"
				refs = append(refs, cat(t.Name, " ", map[string]string{">": "}o-||", "<": "||-o{", "-": "||-||"}[relSign(c.Ref)], " ", c.Ref.Table))
			}
			want = append(want, l)
		}
		want = append(want, "}")
	}
	got := strings.Split(s, "\n")
	need(len(got) == len(want)+len(refs)+1 && got[len(got)-1] == "@enduml", "every table, column and reference is shown once")
	for i := range want {
		vk.Assert(got[i] == want[i], "a table or column is shown with its type and markers")
	}
	refsGot = got[len(want) : len(got)-1]
	for _, r := range refs {
		vk.Assert(count(r, refsGot) == count(r, refs), "every reference is shown once")
	}
}

var diagrams = []string{"dbml", "quickdbd", "plantuml"}

func c19(f string, tabs []*Table) {
	switch f {
	case "dbml":
		dbmlCheck(tabs)
	case "quickdbd":
		quickCheck(tabs)
	default:
		umlCheck(tabs)
	}
}

// one column of every type with every attribute
func C19_column() {
	c := dress("c", &Col{Name: cat("z", vk.Str("col", 1, "word")), Type: vk.Pick("type", allTypes...)})
	switch {
	case c.Type == "varchar":
		c.Size = vk.Int("size", 1, 999)
	case isScaled(c.Type) && c.Size > 0:
		scaled("", c, 1)
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "word")), Columns: []*Col{c, {Name: "y", Type: "int32", PK: vk.Bool("y.pk")}}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	c19(vk.Pick("format", diagrams...), []*Table{t})
}

// references of every kind among three tables, also to itself, to a missing table, and two to the same table
func C19_refs() {
	rels := []string{"", "n:1", "1:n", "1:1"}
	var tabs []*Table
	first := 0
	for i, n := range []string{"ta", "tb", "tc"} {
		t := &Table{Name: n, Columns: []*Col{{Name: "id", Type: "int64", PK: true}}}
		k := 2
		if !vk.Thorough() {
			switch i {
			case 0:
				k = vk.Choice("columns", 3)
				first = k
			case 1:
				k = 1
			case 2:
				k = 1
				if first == 2 {
					k = 0
				}
			}
		}
		for j := 0; j < k; j++ {
			c := &Col{Name: "r" + itoa(j), Type: "int64"}
			if to := vk.Pick("target", "", "ta", "tb", "tc", "gone"); to != "" {
				c.Ref = &Ref{to, "id", ""}
				if i > 0 || j > 0 {
					c.Ref.Relationship = vk.Pick("rel", rels[1:]...)
				} else {
					c.Ref.Column = vk.Pick("column", "id", "r0")
					c.Ref.Relationship = vk.Pick("rel", rels...)
				}
			}
			t.Columns = append(t.Columns, c)
		}
		tabs = append(tabs, t)
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{tabs[1], tabs[2], tabs[0]}})
	c19(vk.Pick("format", diagrams...), tabs)
}

// texts in descriptions and defaults
func C19_texts() {
	l := 2
	if vk.Thorough() {
		l = 3
	}
	x := vk.Str("text", l, "print")
	c := &Col{Name: "c", Type: vk.Pick("type", "varchar", "text8", "enum", "json", "time", "char"), Desc: "d", Default: "v"}
	t := &Table{Name: "t", Columns: []*Col{c}}
	switch vk.Choice("where", 3) {
	case 0:
		c.Desc = x
	case 1:
		c.Default = x
	case 2:
		t.Desc = x
	}
	if c.Type == "enum" {
		c.Values = []string{"a"}
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	c19(vk.Pick("format", diagrams...), []*Table{t})
}

// tables with many columns and keys at any place, in groups
func C19_tables() {
	var tabs []*Table
	for i := 0; i < 2; i++ {
		t := &Table{Name: vk.Str("tab", 1, "letter") + itoa(i), Group: vk.Pick("group", "", "g"), Desc: vk.Pick("desc", "", "d"), ClassName: "Klass"}
		for j := 0; j < 3; j++ {
			t.Columns = append(t.Columns, &Col{Name: "c" + itoa(j), Type: "int32", PK: vk.Bool("pk"), NotNull: j == 1})
		}
		if vk.Choice("empty", 2) == 1 {
			t.Columns = nil
		}
		tabs = append(tabs, t)
	}
	if tabs[0].Group > tabs[1].Group || tabs[0].Group == tabs[1].Group && tabs[0].Name > tabs[1].Name {
		tabs[0], tabs[1] = tabs[1], tabs[0]
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{tabs[1], tabs[0]}})
	c19(vk.Pick("format", diagrams...), tabs)
}

// flags, keys and attributes in any combination
func C19_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	c19(vk.Pick("format", diagrams...), []*Table{t})
}

// references of columns with any flags
func C19_referring() {
	tabs := referring("int64", "varchar")
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{tabs[1], tabs[0]}})
	c19(vk.Pick("format", diagrams...), tabs)
}
