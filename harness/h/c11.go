package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

// c11 runs a command twice on the same input: once with maps in insertion order, once
// with any iteration of any map in another order.
func c11(out string, args ...string) {
	vk.Mkdir("a")
	vk.Mkdir("b")
	run("the command succeeds", append(append([]string{}, args...), "-o", cat("a", out))...)
	vk.MapOrder(3)
	vk.Later()
	// another user on another machine
	for _, k := range []string{"USER", "LOGNAME", "USERNAME", "HOME", "HOSTNAME", "LANG", "LC_ALL", "TZ", "TMPDIR", "PWD", "SHELL", "TERM", "EDITOR", "CI", "DEBUG", "COLUMNS", "GOPATH"} {
		vk.Setenv(k, "other")
	}
	run("the command succeeds", append(append([]string{}, args...), "-o", cat("b", out))...)
	vk.MapOrder(0)
	sameOutput("a", "b", "equal inputs give equal outputs")
}

// c11Schema exercises every kind of declaration, key, reference, group and type.
func c11Schema(enum bool) *Schema {
	s := &Schema{Author: "me", Name: "n", Version: "1"}
	key := vk.Bool("key")
	if !key && vk.Bool("bare") {
		s.Author, s.Name, s.Version = "", "", ""
	}
	names := []string{"z", "z", "z"}
	for i := range names {
		names[i] = cat("z", vk.Str("tab", 1, "lower"))
		for j := 0; j < i; j++ {
			vk.Assume(names[j] != names[i])
		}
	}
	for i, n := range names {
		t := &Table{Name: n, Desc: "d" + itoa(i), Group: []string{"g", "h", ""}[i]}
		t.Columns = []*Col{
			{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: i == 0},
			{Name: "k2", Type: "int32", PK: key, Unique: i == 1, NotNull: true},
			{Name: "code", Type: "varchar", Size: 20, Unique: i < 2, Default: "x"},
			{Name: "created_at", Type: "datetime", NotNull: true, Default: "fn::CURRENT_TIMESTAMP"},
			{Name: "updated_at", Type: "datetime"},
			{Name: "day", Type: "date"},
			{Name: "amount", Type: "decimal", Size: 9, Scale: 2},
			{Name: "kind", Type: "enum", Values: []string{"b", "a"}},
			{Name: "doc", Type: "blob8"},
			{Name: "ref", Type: "int64", Ref: &Ref{names[(i+1)%3], "id", []string{"n:1", "1:n", "1:1"}[i]}},
			{Name: "ref2", Type: "int64", Ref: &Ref{names[2-i], "id", "n:1"}},
		}
		if !enum {
			t.Columns[7].Type, t.Columns[7].Values = "text8", nil
		}
		t.Indices = []*Index{{"ib", []string{"day", "code"}}, {"ia", []string{"kind"}}}
		s.Tables = append(s.Tables, t)
	}
	return s
}

// every generator and exporter
func C11_generate() {
	vk.WriteJSON("in.json", c11Schema(true))
	switch vk.Choice("command", 12) {
	case 0:
		c11("/out.sql", "export", "mysql", "-i", "in.json", "-u", "_uq")
	case 1:
		c11("/out.dbml", "export", "dbml", "-i", "in.json")
	case 2:
		c11("/out.qdbd", "export", "quickdbd", "-i", "in.json")
	case 3:
		c11("/out.xlsx", "export", "xlsx", "-i", "in.json")
	case 4:
		c11("/out.go", "generate", "gorm", "-i", "in.json", "-e", "Stamp:created_at,updated_at", "-e", "Made:created_at", "-p", "g:G,h:H")
	case 5:
		c11("", "generate", "graphql", "-i", "in.json")
	case 6:
		c11("", "generate", "kt", "-i", "in.json", "-a", "g:@A;@B,h:@C", "-f", "g:G,h:H", "-r", "a.b", "-p", "c.d")
	case 7:
		c11("/out.yaml", "generate", "liquibase", "-i", "in.json", "-c")
	case 8:
		c11("/out.puml", "generate", "plantuml", "-i", "in.json")
	case 9:
		c11("/out.proto", "generate", "pb", "-i", "in.json", "-f", "g:G,h:H")
	case 10:
		c11("", "generate", "sqlalchemy", "-i", "in.json", "-t")
	case 11:
		c11("/all.py", "generate", "sqlalchemy", "-i", "in.json", "-p", "g:G,h:H")
	}
}

// every import
func C11_import() {
	switch vk.Choice("format", 4) {
	case 0:
		vk.WriteJSON("in.json", c11Schema(false))
		run("the command succeeds", "export", "xlsx", "-i", "in.json", "-o", "book.xlsx")
		c11("/out.json", "import", "xlsx", "-i", "book.xlsx")
	case 1:
		s := &v1Schema{Author: "me", Name: "n", Version: "1"}
		for i := 0; i < 3; i++ {
			s.Tables = append(s.Tables, &v1Table{Name: vk.Str("tab", 1, "lower"), Group: vk.Str("group", 1, "lower"), Columns: []*v1Col{
				{Name: "id", Type: "long", PK: true, AutoInc: true}, {Name: vk.Str("col", 1, "upper"), Type: "string", Size: 9}, {Name: "r", Type: "int", Ref: &v1Ref{"t", "id"}}}})
		}
		vk.WriteJSON("in.ojson", s)
		c11("/out.json", "import", "ojson", "-i", "in.ojson")
	case 2:
		var es [][]*suElem
		for i := 0; i < 2; i++ {
			p := "E" + itoa(i)
			es = append(es, []*suElem{
				entity(p, vk.Str("ent", 1, "lower"), &suCol{Name: "id", Type: "BIGINT", PK: true}, &suCol{Name: vk.Str("col", 1, "upper"), Type: "DATE", Referee: &suRef{"E1c0"}}),
				entity(p+"x", vk.Str("ent", 1, "upper"), &suCol{Name: "id", Type: "BIGINT", PK: true}, &suCol{Name: "r", Type: "BIGINT", Referee: &suRef{"E0c0"}})})
		}
		vk.WriteJSON("in.mdj", suProject(es...))
		c11("/out.json", "import", "staruml", "-i", "in.mdj")
	case 3:
		sql := ""
		for i := 0; i < 3; i++ {
			n := cat(vk.Str("tab", 1, "lower"), "x", itoa(i))
			sql = cat(sql, "CREATE TABLE `", n, "` (`id` bigint NOT NULL AUTO_INCREMENT COMMENT 'c', `a` varchar(9) DEFAULT 'x', `b` enum('y','x'), `c` int, PRIMARY KEY (`id`), UNIQUE KEY `u` (`a`,`c`), INDEX `i2` (`b`), INDEX `i1` (`c`,`a`)); ")
		}
		vk.WriteFile("in.sql", sql)
		c11("/out.json", "import", "mysql", "-i", "in.sql", "-x", vk.Pick("exclude", "a", "ax0,bx1"))
	}
}

// differences of every kind
func C11_diff() {
	o, n := &Schema{Author: "me", Version: "1"}, &Schema{Author: "me", Version: "2"}
	if vk.Bool("bare") {
		n.Author, n.Version = "", ""
	}
	id := func() *Col { return &Col{Name: "id", Type: "int64", PK: true} }
	name := func(p string, k int) string { return cat(p, vk.Str("name", 1, "lower"), itoa(k)) }
	// dropped, added and renamed tables
	for i := 0; i < 2; i++ {
		o.Tables = append(o.Tables, &Table{Name: name("d", i), Columns: []*Col{id()}})
		o.Tables = append(o.Tables, &Table{Name: name("r", i), Columns: []*Col{id(), {Name: "same", Type: "date"}}})
		n.Tables = append(n.Tables, &Table{Name: "n" + itoa(i), Columns: []*Col{id(), {Name: "same", Type: "date"}}})
		n.Tables = append(n.Tables, &Table{Name: "a" + itoa(i), Columns: []*Col{id(), {Name: "x", Type: "date", Unique: true}}})
	}
	// dropped, added, renamed and changed columns, changed keys
	t, u := &Table{Name: "zt", Columns: []*Col{id()}}, &Table{Name: "zt", Columns: []*Col{id()}}
	for i := 0; i < 2; i++ {
		t.Columns = append(t.Columns, &Col{Name: name("o", i), Type: "date"}, &Col{Name: "p" + itoa(i), Type: "int64", PK: vk.Bool("old pk"), Unique: i == 0}, &Col{Name: "g" + itoa(i), Type: "blob8"})
		u.Columns = append(u.Columns, &Col{Name: "q" + itoa(i), Type: "date"}, &Col{Name: "p" + itoa(i), Type: "int32", PK: vk.Bool("new pk"), Unique: true}, &Col{Name: "h" + itoa(i), Type: "boolean"})
	}
	o.Tables, n.Tables = append(o.Tables, t), append(n.Tables, u)
	vk.WriteJSON("old.json", o)
	vk.WriteJSON("new.json", n)
	c11("/out", "diff", vk.Pick("format", "md", "flyway", "liquibase"), "-f", "old.json", "-t", "new.json", "-c")
}
