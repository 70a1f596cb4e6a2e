package h

import (
	"sort"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// mdSection is what a Markdown diff lists for a table.
type mdSection struct {
	name  string
	lines []string
}

func mdRead(path, from, to string) []*mdSection {
	s, ok := vk.ReadFile(path)
	need(ok, "the diff is written")
	l := strings.Split(s, "\n")
	need(len(l) > 4 && l[0] == "# DB Schema changes" && l[1] == "" && l[2] == cat("* from: `", from, "`") && l[3] == cat("* to: `", to, "`"), "the diff names both versions")
	var out []*mdSection
	for _, x := range l[4:] {
		switch {
		case x == "":
		case strings.HasPrefix(x, "## "):
			out = append(out, &mdSection{name: x[3:]})
		default:
			need(strings.HasPrefix(x, "* ") && len(out) > 0, "every line is an item of a section")
			t := out[len(out)-1]
			t.lines = append(t.lines, x[2:])
		}
	}
	for i, t := range out {
		need(len(t.lines) > 0, "a section lists changes")
		need(i == 0 || out[i-1].name < t.name, "a table has one section, in order")
	}
	return out
}

func arrow(l, prefix string) (a, b string, ok bool) {
	if !strings.HasPrefix(l, prefix) {
		return
	}
	p := strings.Split(l[len(prefix):], " → ")
	need(len(p) == 2 && strings.HasPrefix(p[0], "`") && strings.HasPrefix(p[1], "`"), "a rename names both sides")
	return strings.Trim(p[0], "`"), strings.Trim(p[1], "`"), true
}

func tick(s string) string { return cat("`", s, "`") }

func keyNames(t *Table, pk bool) string {
	var l []string
	for _, c := range t.Columns {
		if pk && c.PK || !pk && c.Unique {
			l = append(l, c.Name)
		}
	}
	sort.Strings(l)
	return cat("[", strings.Join(l, ", "), "]")
}

func sameValues(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vk.And(r, a[i] == b[i])
	}
	return r
}

func sameColType(a, b *Col) bool {
	return vk.And(a.Type == b.Type, a.Size == b.Size, a.Scale == b.Scale, sameValues(a.Values, b.Values))
}

func sameAttrs(a, b *Col) bool {
	return vk.And(sameColType(a, b), vk.Iff(a.NotNull, b.NotNull), vk.Iff(a.AutoInc, b.AutoInc), a.Default == b.Default, a.OnUpdate == b.OnUpdate, a.Desc == b.Desc, vk.Iff(a.PK, b.PK), vk.Iff(a.Unique, b.Unique))
}

func mdType(c *Col) string {
	switch {
	case len(c.Values) > 0:
		return cat(c.Type, "(", strings.Join(c.Values, ", "), ")")
	case vk.Split(c.Size == 0):
		return c.Type
	case vk.Split(c.Scale == 0):
		return cat(c.Type, "(", itoa(c.Size), ")")
	}
	return cat(c.Type, "(", itoa(c.Size), ",", itoa(c.Scale), ")")
}

func colOf(t *Table, n string) *Col {
	for _, c := range t.Columns {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// mdTable gives the lines that describe the change of a table that is on both sides.
func mdTable(a, b *Table, got []string, comments bool) (want []string) {
	add := func(x ...string) { want = append(want, cat(x...)) }
	if comments && vk.Split(a.Desc != b.Desc) {
		add("update table comment: ", tick(oneLine(b.Desc)))
	}
	ren, used := map[string]string{}, map[string]bool{}
	for _, l := range got {
		if x, y, ok := arrow(l, "rename column: "); ok {
			c, d := colOf(a, x), colOf(b, y)
			need(c != nil && d != nil && colOf(b, x) == nil && colOf(a, y) == nil && ren[y] == "" && !used[x], "a renamed column vanished under one name and appeared under another")
			vk.Assert(vk.And(sameColType(c, d), vk.Iff(c.NotNull, d.NotNull), vk.Iff(c.AutoInc, d.AutoInc), c.Default == d.Default, c.OnUpdate == d.OnUpdate), "a renamed column is the same in all but its name")
			ren[y], used[x] = x, true
			want = append(want, l)
		}
	}
	for _, d := range b.Columns {
		c := colOf(a, d.Name)
		if c == nil {
			if ren[d.Name] == "" {
				add("add column: ", tick(d.Name))
				for _, e := range a.Columns {
					if colOf(b, e.Name) == nil && !used[e.Name] {
						vk.Assert(vk.Not(sameAttrs(e, d)), "a column that only changed its name is listed as renamed")
					}
				}
			}
			continue
		}
		n := tick(d.Name)
		if vk.Split(vk.Not(sameColType(c, d))) {
			add("change column type: ", n, " :", tick(mdType(c)), " → ", tick(mdType(d)))
		}
		if comments && vk.Split(c.Desc != d.Desc) {
			add("update column comment: ", n, " :", tick(oneLine(d.Desc)))
		}
		if vk.Split(vk.Not(vk.Iff(c.NotNull, d.NotNull))) {
			add(vk.IteStr(d.NotNull, "set not null: ", "set nullable: "), n)
		}
		if vk.Split(vk.Not(vk.Iff(c.AutoInc, d.AutoInc))) {
			add(vk.IteStr(d.AutoInc, "set auto incremental: ", "remove auto incremental: "), n)
		}
		value := func(x, y, what string) {
			if vk.Split(x != y) {
				if y == "" {
					add("remove ", what, " value: ", n)
				} else {
					add("update ", what, " value: ", n, " : ", tick(oneLine(y)))
				}
			}
		}
		value(c.Default, d.Default, "default")
		value(c.OnUpdate, d.OnUpdate, "on update")
	}
	for _, c := range a.Columns {
		if colOf(b, c.Name) == nil && !used[c.Name] {
			add("drop column: ", tick(c.Name))
		}
	}
	if x, y := keyNames(a, true), keyNames(b, true); x != y {
		add("update PK: ", x, " → ", y)
	}
	if x, y := keyNames(a, false), keyNames(b, false); x != y {
		if x != "[]" {
			add("drop unique constraint: ", x)
		}
		if y != "[]" {
			add("create unique constraint: ", y)
		}
	}
	return
}

func oneOf(x string, l []string) bool {
	r := false
	for _, y := range l {
		r = vk.Or(r, x == y)
	}
	return r
}

func count(x string, l []string) (n int) {
	for _, y := range l {
		if y == x {
			n++
		}
	}
	return
}

func c08(o, n *Schema) {
	var args []string
	comments := vk.Choice("comments", 2) == 1
	if comments {
		args = append(args, "--comments")
	}
	diffRun("md", o, n, args...)
	secs := mdRead("out", o.Version, n.Version)
	lines := map[string][]string{}
	ren := map[string]string{}  // new name of a table -> old name
	gone := map[string]string{} // the reverse
	for _, s := range secs {
		lines[s.name] = s.lines
		for _, l := range s.lines {
			if x, y, ok := arrow(l, "rename table "); ok {
				a, b := o.table(x), n.table(y)
				need(x == s.name && a != nil && b != nil && n.table(x) == nil && o.table(y) == nil && ren[y] == "" && gone[x] == "", "a renamed table vanished under one name and appeared under another")
				need(len(a.Columns) == len(b.Columns), "a renamed table has the same columns")
				for i := range a.Columns {
					vk.Assert(vk.And(a.Columns[i].Name == b.Columns[i].Name, sameAttrs(a.Columns[i], b.Columns[i])), "a renamed table has the same columns")
				}
				ren[y], gone[x] = x, y
			}
		}
	}
	want, free := map[string][]string{}, map[string][]string{}
	for _, b := range n.Tables {
		a := o.table(b.Name)
		switch {
		case a != nil:
			want[b.Name] = mdTable(a, b, lines[b.Name], comments)
		case ren[b.Name] != "":
			a := o.table(ren[b.Name])
			want[a.Name] = append(want[a.Name], cat("rename table ", tick(a.Name), " → ", tick(b.Name)))
			if comments && vk.Split(a.Desc != b.Desc) {
				want[b.Name] = append(want[b.Name], cat("update table comment: ", tick(oneLine(b.Desc))))
			}
			if u := keyNames(b, false); u != "[]" { // its constraint has the table's name
				free[a.Name] = append(free[a.Name], cat("drop unique constraint: ", u))
				free[b.Name] = append(free[b.Name], cat("create unique constraint: ", u))
			}
		default:
			want[b.Name] = append(want[b.Name], "create table")
			for _, a := range o.Tables {
				if n.table(a.Name) == nil && gone[a.Name] == "" && len(a.Columns) == len(b.Columns) {
					same := true
					for i := range a.Columns {
						same = vk.And(same, a.Columns[i].Name == b.Columns[i].Name, sameAttrs(a.Columns[i], b.Columns[i]))
					}
					vk.Assert(vk.Not(same), "a table that only changed its name is listed as renamed")
				}
			}
		}
	}
	for _, a := range o.Tables {
		if n.table(a.Name) == nil && gone[a.Name] == "" {
			want[a.Name] = append(want[a.Name], "drop table")
		}
	}
	for _, s := range secs {
		for i, l := range s.lines {
			vk.Assert(oneOf(l, append(append([]string(nil), want[s.name]...), free[s.name]...)), "the diff lists only what changed")
			for _, m := range s.lines[:i] {
				vk.Assert(l != m, "the diff lists a change once")
			}
		}
	}
	for t, l := range want {
		for _, x := range l {
			vk.Assert(oneOf(x, lines[t]), "the diff lists everything that changed")
		}
	}
}

func C08_attributes() { c08(pairAttrs()) }
func C08_keys()       { c08(pairKeys()) }
func C08_columns()    { c08(pairColumns()) }
func C08_tables()     { c08(pairTables(false)) }
func C08_wide()       { c08(pairWide()) }
func C08_texts()      { c08(pairTexts("print")) }
func C08_rename()     { c08(pairRename()) }
