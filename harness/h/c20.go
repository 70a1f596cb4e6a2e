package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

// odd is a text that may be empty.
func odd(name string, n int, class string) string {
	return vk.Str(name, vk.Choice(name+".length", n+1), class)
}

// more are options that reach further code of a command.
func (c command) more() []string {
	switch c.name {
	case "kt":
		return []string{"-r", "a.b", "-e", "IdEntity", "-l", "VRelation", "-p", "c", "-a", "g:@A"}
	case "gorm":
		return []string{"-e", "Stamp:id", "-u", "_uq"}
	case "pb":
		return []string{"--relationTagStart", "20", "--relationTagDecr"}
	case "sqlalchemy":
		return []string{"-t", "-u", "_uq"}
	case "liquibase", "md", "flyway":
		return []string{"--comments"}
	case "xlsx":
		return []string{"--useNullColumn"}
	}
	return nil
}

func survives(args ...string) {
	vk.Assert(vk.Run(args...) != 2, "no crash")
}

// oddSchema has one odd part.
func oddSchema() *Schema {
	kind := vk.Choice("odd", 13)
	id := &Col{Name: "id", Type: "int64", PK: true, NotNull: true}
	x := &Col{Name: "x", Type: "varchar", Size: 9}
	if kind == 1 || kind == 4 || kind == 5 || kind == 8 {
		id.PK, x.PK, x.Unique = vk.Bool("pk"), vk.Bool("pk"), vk.Bool("unique")
	}
	t := &Table{Name: "zt", Columns: []*Col{id, x}}
	u := &Table{Name: "zu", Group: "g", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "r", Type: "int64", Ref: &Ref{"zt", "x", "n:1"}}}}
	s := &Schema{Name: "n", Version: "1", Tables: []*Table{t, u}}
	n := 1
	if vk.Thorough() {
		n = 2
	}
	switch kind {
	case 0:
		t.Columns = nil
	case 1:
		x.Name = odd("name", n+1, "print")
	case 2:
		t.Name = odd("table", n, "print")
	case 3:
		x.Type = odd("type", n+2, "lower")
	case 4:
		x.Ref = &Ref{vk.Pick("target", "", "zt", "zu", "gone"), vk.Pick("column", "", "id", "gone"), odd("rel", 1, "print")}
	case 5:
		t.Indices = []*Index{{odd("index", 1, "print"), nil}}
		if vk.Choice("columns", 2) == 1 {
			t.Indices[0].Columns = []string{"gone", odd("indexed", 1, "print"), "x"}
		}
	case 6:
		x.Type = vk.Pick("type", allTypes...)
		x.Default = cat(vk.Pick("fn", "", "fn::"), odd("default", n, "print"))
	case 7:
		x.Type = vk.Pick("type", "enum", "set")
		if vk.Choice("values", 2) == 1 {
			x.Values = []string{odd("value", 1, "print"), odd("value", 1, "print")}
		}
	case 8:
		x.Name = "id"
	case 9:
		u.Name = "zt"
	case 10:
		t.Group, t.ClassName = odd("group", 1, "print"), odd("class", n, "print")
	case 11:
		x.Type = vk.Pick("type", allTypes...)
		x.Size, x.Scale = vk.Int("size", 0, 65535), vk.Int("scale", 0, 65535)
	case 12:
		s.Tables = nil
	}
	return s
}

// an odd schema never crashes a command
func C20_schema() {
	cmd := anyCommand()
	vk.WriteJSON("old.json", &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "x", Type: "date"}}}}})
	vk.WriteJSON("in.json", oddSchema())
	args := cmd.args("old.json", "in.json", "a")
	if vk.Choice("options", 2) == 1 {
		args = append(args, cmd.more()...)
	}
	survives(args...)
}

// odd option texts never crash a command
func C20_options() {
	s := &Schema{Name: "n", Version: "1", Tables: []*Table{
		{Name: "za", Group: "g", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "r", Type: "int64", Ref: &Ref{"zb", "id", "1:n"}}}},
		{Name: "zb", Group: "h", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "created_at", Type: "datetime"}}}}}
	opts := [][]string{{"kt", "-a"}, {"kt", "-f"}, {"kt", "-d"}, {"kt", "-p"}, {"kt", "-r"}, {"kt", "-e"}, {"kt", "-l"}, {"kt", "-g"},
		{"gorm", "-e"}, {"gorm", "-p"}, {"gorm", "-r"}, {"gorm", "-g"}, {"gorm", "-k"},
		{"pb", "-f"}, {"pb", "-d"}, {"pb", "-p"}, {"pb", "--relationTagStart"}, {"pb", "-g"},
		{"sqlalchemy", "-p"}, {"sqlalchemy", "-r"}, {"sqlalchemy", "-g"}, {"sqlalchemy", "-u"},
		{"mysql", "-g"}, {"mysql", "-u"}, {"dbml", "-g"}, {"liquibase", "-g"}, {"liquibase", "-u"}, {"graphql", "-p"}}
	o := opts[vk.Choice("option", len(opts))]
	var cmd command
	for _, c := range commands {
		if c.name == o[0] && (cmd.name == "" || cmd.group != "generate") && c.group != "diff" {
			cmd = c
		}
	}
	// a text of the marks the options know, with letters between
	v := ""
	n := vk.Choice("pieces", 4)
	for i := 0; i < n; i++ {
		v = cat(v, vk.Pick("piece", ",", ":", ";", ".", "g", "-1", ""))
		if i == 1 {
			v = cat(v, vk.Str("letter", 1, "plain"))
		}
	}
	vk.WriteJSON("in.json", s)
	args := append(cmd.args("", "in.json", "a"), o[1], v)
	if cmd.name == "kt" && o[1] != "-l" {
		args = append(args, "-l", "VRelation")
	}
	survives(args...)
}

// odd input files never crash an import
func C20_imports() {
	x := odd("text", 2, "print")
	switch vk.Choice("format", 5) {
	case 0:
		row := []string{"", "x", "int", "", "", "", ""}
		hdr := []string{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}
		tab := []string{"t", "", "table"}
		switch vk.Choice("where", 6) {
		case 0:
			row[vk.Choice("cell", 7)] = x
		case 1:
			tab[vk.Choice("cell", 3)] = x
		case 2:
			hdr = hdr[:vk.Choice("header", 7)]
		case 3:
			row = row[:vk.Choice("row", 7)]
		case 4:
			row[2] = cat("decimal(", x)
		case 5:
			row[5] = cat("default=", x)
		}
		sheets := []vk.Sheet{{Name: "g", Rows: [][]string{hdr, tab, row}}}
		if vk.Choice("meta", 2) == 1 {
			sheets = append(sheets, vk.Sheet{Name: "Meta", Rows: [][]string{{x}, {}, {"name", x}}})
		}
		if vk.Choice("empty", 2) == 1 {
			sheets = append(sheets, vk.Sheet{Name: "h"})
		}
		vk.WriteXLSX("in.xlsx", sheets)
		survives("import", "xlsx", "-i", "in.xlsx", "-o", "out.json")
	case 1:
		c := &v1Col{Name: "x", Type: "string"}
		t := &v1Table{Name: "t", Columns: []*v1Col{c}}
		switch vk.Choice("where", 5) {
		case 0:
			c.Type = x
		case 1:
			c.Name = x
		case 2:
			t.Name = x
		case 3:
			t.Columns = nil
		case 4:
			c.Ref = &v1Ref{x, ""}
		}
		vk.WriteJSON("in.ojson", &v1Schema{Tables: []*v1Table{t, {}}})
		survives("import", "ojson", "-i", "in.ojson", "-o", "out.json")
	case 2:
		c := &suCol{Name: "x", Type: "INTEGER"}
		e := entity("E", "t", c)
		p := suProject([]*suElem{e, entity("F", "u")})
		switch vk.Choice("where", 8) {
		case 0:
			c.Type = x
		case 1:
			c.Length = x
		case 2:
			c.Type = cat("VARCHAR(", x)
		case 3:
			c.Referee = &suRef{x}
		case 4:
			e.Parent, c.Parent = nil, nil
		case 5:
			p.Owned = nil
		case 6:
			c.Referee = &suRef{vk.Pick("self", "E", "M0", "P", "Ec0", "K", "D0")}
		case 7:
			e.Type, e.Name = x, x
		}
		vk.WriteJSON("in.mdj", p)
		survives("import", "staruml", "-i", "in.mdj", "-o", "out.json")
	case 3:
		sql := vk.Pick("sql", "", ";", "create table t (x int, foreign key (x) references u(y));", "create table t like u;", "create table t select 1;",
			"create table t (x int) partition by hash(x) partitions 2;", "create table t (x int primary key, key k ((x+1)));", "create table t (x int, key (y), primary key (z), unique (w));",
			"drop table t;", "insert into t values (1);", "create table t (x int default (1+2), y int generated always as (x) virtual, z int check (z > 1));", "create table t (x int comment 'a' references u(y), fulltext key f (x), spatial index s (x));",
			"create table t (x serial, y national varchar(9), z float(53), w point, v geometry srid 1);", "create table d.t (x int);", "create temporary table t (x int); alter table t add y int;", "create table t (x int on update now());", "create")
		vk.WriteFile("in.sql", cat(sql, odd("more", 1, "print")))
		survives("import", "mysql", "-i", "in.sql", "-o", "out.json")
	case 4:
		f := vk.Pick("import", "xlsx", "ojson", "staruml", "mysql")
		if vk.Choice("file", 2) == 1 {
			vk.WriteFile("in", vk.Pick("json", "", "{}", "null", "[]", "{\"tables\":null}", "{", "{\"tables\":[null]}", "{\"tables\":[{\"columns\":[null]}]}",
				"{\"ownedElements\":[null,{\"_type\":\"ERDDataModel\",\"ownedElements\":[null,{\"_type\":\"ERDEntity\",\"name\":\"t\",\"columns\":[null]}]}]}"))
		}
		survives("import", f, "-i", "in", "-o", "out.json")
	}
}

// odd JSON never crashes a command
func C20_json() {
	j := vk.Pick("json", "", "{}", "null", "[]", "{", "{\"tables\":null}", "{\"tables\":[null]}", "{\"tables\":[{}]}", "{\"tables\":[{\"name\":\"t\",\"columns\":[null]}]}",
		"{\"tables\":[{\"name\":\"t\",\"indices\":[null],\"columns\":[{\"name\":\"x\",\"type\":\"int\",\"values\":null,\"ref\":{}}]}]}", "{\"tables\":[{\"name\":\"t\",\"columns\":[{\"name\":\"x\",\"size\":70000}]}]}", "{\"tables\":[{\"name\":\"t\",\"columns\":[{\"name\":\"x\",\"notnull\":\"yes\"}]}]}")
	cmd := anyCommand()
	f := vk.Pick("file", "in.json", "in.ojson", "in.txt", "in")
	vk.WriteFile(f, j)
	vk.WriteFile("old.json", "{}")
	args := cmd.args("old.json", f, "a")
	if cmd.group == "diff" && vk.Choice("swap", 2) == 1 {
		args = cmd.args(f, "old.json", "a")
	}
	survives(args...)
}
