package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

func c02Import(sql string, args ...string) *Schema {
	vk.WriteFile("in.sql", sql)
	run("import succeeds", append([]string{"import", "mysql", "-i", "in.sql", "-o", "out.json"}, args...)...)
	return readSchema("out.json")
}

type mt struct {
	sql    string
	t      string
	sz, sc int
}

// MySQL column types and what they are in an octopus schema; %n stands for a size.
var mysqlTypes = []mt{
	{"tinyint", "int8", 0, 0}, {"TINYINT(1)", "boolean", 0, 0}, {"tinyint(%n)", "int8", -1, 0}, {"bool", "boolean", 0, 0}, {"boolean", "boolean", 0, 0},
	{"smallint", "int16", 0, 0}, {"smallint(%n)", "int16", -1, 0}, {"mediumint", "int24", 0, 0}, {"mediumint(%n) unsigned", "int24", -1, 0},
	{"int", "int32", 0, 0}, {"INT(%n)", "int32", -1, 0}, {"integer", "int32", 0, 0}, {"int unsigned", "int32", 0, 0},
	{"bigint", "int64", 0, 0}, {"bigint(%n)", "int64", -1, 0}, {"bigint(20) unsigned", "int64", 20, 0},
	{"float", "float", 0, 0}, {"float(10,3)", "float", 10, 3}, {"double", "double", 0, 0}, {"double(20,5)", "double", 20, 5}, {"real", "double", 0, 0}, {"double precision", "double", 0, 0},
	{"decimal(%n)", "decimal", -1, 0}, {"decimal(%n,2)", "decimal", -1, 2}, {"decimal(65,%n)", "decimal", 65, -1}, {"numeric(%n,1)", "decimal", -1, 1}, {"decimal", "decimal", 0, 0},
	{"bit(1)", "boolean", 0, 0}, {"bit(8)", "bit", 8, 0}, {"char(%n)", "char", -1, 0}, {"varchar(%n)", "varchar", -1, 0}, {"varchar(%n) character set utf8mb4 collate utf8mb4_bin", "varchar", -1, 0},
	{"char(%n) binary", "char", -1, 0}, {"binary(%n)", "binary", -1, 0}, {"varbinary(%n)", "varbinary", -1, 0},
	{"tinytext", "text8", 0, 0}, {"text", "text16", 0, 0}, {"mediumtext", "text24", 0, 0}, {"longtext", "text32", 0, 0}, {"LONGTEXT CHARACTER SET utf8", "text32", 0, 0},
	{"tinyblob", "blob8", 0, 0}, {"blob", "blob16", 0, 0}, {"mediumblob", "blob24", 0, 0}, {"longblob", "blob32", 0, 0},
	{"date", "date", 0, 0}, {"time", "time", 0, 0}, {"time(3)", "time", 0, 0}, {"datetime", "datetime", 0, 0}, {"datetime(6)", "datetime", 0, 0}, {"timestamp", "datetime", 0, 0}, {"year", "year", 0, 0}, {"year(4)", "year", 0, 0}, {"json", "json", 0, 0},
}

func C02_types() {
	m := mysqlTypes[vk.Choice("type", len(mysqlTypes))]
	sql := m.sql
	c := &Col{Name: "z_" + vk.Str("col", 2, "word"), Type: m.t, Size: m.sz, Scale: m.sc}
	if i := strings.Index(sql, "%n"); i >= 0 {
		n := vk.Str("n", vk.Choice("digits", 2)+1, "digit")
		v := 0
		for k := range n {
			v = v*10 + int(n[k]-'0')
		}
		lo, hi := 1, 65
		switch {
		case strings.HasPrefix(m.sql, "tinyint"):
			lo = 2
		case strings.HasPrefix(m.sql, "decimal(%n,"), strings.HasPrefix(m.sql, "numeric"):
			lo = 2
		case m.sc < 0:
			hi = 30
		}
		vk.Assume(vk.And(v >= lo, v <= hi, n[0] != '0'))
		sql = cat(sql[:i], n, sql[i+2:])
		if m.sz < 0 {
			c.Size = v
		} else {
			c.Scale = v
		}
	}
	q := vk.Pick("quote", "", "`")
	b := c02Import(cat("CREATE TABLE ", q, "z_t", q, " (\n", q, "first", q, " int,\n", q, c.Name, q, " ", sql, ",\nlast1 date\n) ENGINE=InnoDB DEFAULT CHARSET=utf8;\n"))
	sameTables([]*Table{{Name: "z_t", Columns: []*Col{{Name: "first", Type: "int32"}, c, {Name: "last1", Type: "date"}}}}, b)
}

// enum and set members, defaults and comments with any text
func C02_texts() {
	n := 2
	if vk.Thorough() {
		n = 3
	}
	esc := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''") }
	c := &Col{Name: "z_c", Type: "varchar", Size: 7}
	var sql string
	switch vk.Choice("where", 3) {
	case 0:
		c.Default = vk.Str("default", n, "any")
		sql = cat("z_c varchar(7) default '", esc(c.Default), "'")
	case 1:
		c.Desc = vk.Str("desc", n, "any")
		sql = cat("z_c varchar(7) COMMENT '", esc(c.Desc), "'")
	case 2:
		c.Type, c.Size = vk.Pick("type", "enum", "set"), 0
		c.Values = []string{vk.Str("v0", n, "print"), vk.Str("v1", 1, "print")}
		vk.Assume(vk.And(vk.Not(strings.HasSuffix(c.Values[0], " ")), vk.Not(strings.HasSuffix(c.Values[1], " ")))) // MySQL cuts trailing blanks of members
		sql = cat("z_c ", c.Type, "('", esc(c.Values[0]), "','", esc(c.Values[1]), "') NOT NULL")
		c.NotNull = true
	}
	sameTables([]*Table{{Name: "z_t", Columns: []*Col{c}}}, c02Import(cat("create table z_t (", sql, ");")))
}

type opt struct {
	sql  string
	def  string
	upd  string
	ty   string
	tsql string
}

// default and on-update clauses
func C02_defaults() {
	d := vk.Str("d", 1, "digit")
	os := []opt{
		{tsql: "int", ty: "int32", sql: cat("default 1", d), def: cat("1", d)}, {tsql: "int", ty: "int32", sql: cat("default -1", d), def: cat("-1", d)}, {tsql: "int", ty: "int32", sql: cat("default '1", d, "'"), def: cat("1", d)}, {tsql: "int", ty: "int32", sql: cat("default +1", d), def: cat("1", d)},
		{tsql: "bigint", ty: "int64", sql: "default null"}, {tsql: "double", ty: "double", sql: cat("default -0.5", d), def: cat("-0.5", d)}, {tsql: "double", ty: "double", sql: cat("default 1.5", d), def: cat("1.5", d)},
		{tsql: "bool", ty: "boolean", sql: "default true", def: "1"}, {tsql: "bool", ty: "boolean", sql: "default false", def: "0"}, {tsql: "bool", ty: "boolean", sql: "default 0", def: "0"},
		{tsql: "date", ty: "date", sql: cat("default '2020-01-1", d, "'"), def: cat("2020-01-1", d)}, {tsql: "datetime", ty: "datetime", sql: "default current_timestamp", def: "fn::CURRENT_TIMESTAMP"},
		{tsql: "timestamp", ty: "datetime", sql: "DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", def: "fn::CURRENT_TIMESTAMP", upd: "fn::CURRENT_TIMESTAMP"},
		{tsql: "datetime(3)", ty: "datetime", sql: "DEFAULT CURRENT_TIMESTAMP(3) ON UPDATE CURRENT_TIMESTAMP(3)", def: "fn::CURRENT_TIMESTAMP", upd: "fn::CURRENT_TIMESTAMP"},
		{tsql: "datetime", ty: "datetime", sql: "default '2020-01-01 00:00:00' on update now()", def: "2020-01-01 00:00:00", upd: "fn::CURRENT_TIMESTAMP"},
	}
	o := os[vk.Choice("case", len(os))]
	nn := vk.Pick("null", "", " NOT NULL", " NULL")
	if nn == " NOT NULL" && o.sql == "default null" {
		vk.Stop()
	}
	sql := cat("z_c ", o.tsql, nn, " ", o.sql)
	if vk.Choice("order", 2) == 1 {
		sql = cat("z_c ", o.tsql, " ", o.sql, nn)
	}
	c := &Col{Name: "z_c", Type: o.ty, Default: o.def, OnUpdate: o.upd, NotNull: nn == " NOT NULL"}
	if vk.Choice("comment", 2) == 1 {
		sql += " comment 'x'"
		c.Desc = "x"
	}
	sameTables([]*Table{{Name: "z_t", Columns: []*Col{c}}}, c02Import(cat("create table z_t (", sql, ");")))
}

// keys on the column or on the table, in every spelling
func C02_keys() {
	a, b := "za_"+vk.Str("a", 1, "word"), "zB_"+vk.Str("b", 2, "word")
	q := vk.Pick("quote", "", "`")
	ca, cb := &Col{Name: a, Type: "int32"}, &Col{Name: b, Type: "varchar", Size: 9}
	da, db, rest := cat(q, a, q, " int"), cat(q, b, q, " varchar(9)"), ""
	t := &Table{Name: "z_t", Columns: []*Col{ca, cb}}
	nn := func(d *string, c *Col) {
		*d += " NOT NULL"
		c.NotNull = true
	}
	ref := func(n string) string {
		if vk.Choice("case", 2) == 1 {
			return cat(q, strings.ToUpper(n), q)
		}
		return cat(q, n, q)
	}
	switch vk.Choice("pk", 7) {
	case 6:
		da += " AUTO_INCREMENT"
		rest += cat(", PRIMARY KEY (", ref(a), ")")
		ca.PK, ca.NotNull, ca.AutoInc = true, true, true
	case 1:
		da += " PRIMARY KEY"
		ca.PK, ca.NotNull = true, true
	case 2:
		da += " NOT NULL AUTO_INCREMENT PRIMARY KEY"
		ca.PK, ca.NotNull, ca.AutoInc = true, true, true
	case 3:
		nn(&da, ca)
		rest += cat(", PRIMARY KEY (", ref(a), ")")
		ca.PK = true
	case 4:
		nn(&da, ca)
		nn(&db, cb)
		rest += cat(", CONSTRAINT pk_x primary key (", ref(b), ", ", ref(a), ")")
		ca.PK, cb.PK = true, true
	case 5:
		nn(&db, cb)
		rest += cat(", PRIMARY KEY (", ref(b), "(3))")
		cb.PK = true
	}
	switch vk.Choice("uq", 9) {
	case 7:
		rest += cat(", UNIQUE KEY u2 (", ref(b), ", ", ref(a), ")")
		ca.Unique, cb.Unique = true, true
	case 8:
		da += " UNIQUE"
		rest += cat(", unique u2 (", b, ")")
		ca.Unique, cb.Unique = true, true
	case 1:
		db += " UNIQUE"
		cb.Unique = true
	case 2:
		db += " UNIQUE KEY"
		cb.Unique = true
	case 3:
		rest += cat(", UNIQUE KEY `uq1` (", ref(b), ")")
		cb.Unique = true
	case 4:
		rest += cat(", UNIQUE INDEX uq1 (", ref(b), ") USING BTREE")
		cb.Unique = true
	case 5:
		rest += cat(", CONSTRAINT uq1 UNIQUE (", ref(a), ")")
		ca.Unique = true
	case 6:
		rest += cat(", UNIQUE (", ref(a), "), unique (", ref(b), ")")
		ca.Unique, cb.Unique = true, true
	}
	sameTables([]*Table{t}, c02Import(cat("CREATE TABLE IF NOT EXISTS `z_t` (", da, ", ", db, rest, ");")))
}

func C02_indices() {
	a, b := "za_"+vk.Str("a", 1, "word"), "zB_"+vk.Str("b", 2, "word")
	t := &Table{Name: "z_t", Columns: []*Col{{Name: a, Type: "int32"}, {Name: b, Type: "varchar", Size: 9}}}
	rest := ""
	for i := vk.Choice("n", 3); i > 0; i-- {
		kw := vk.Pick("kw", " KEY ", " INDEX ", " key ")
		n := cat("i", itoa(i), "_", vk.Str("idx", 1, "word"))
		switch vk.Choice("cols", 4) {
		case 0:
			rest += cat(",", kw, n, " (", a, ")")
			t.Indices = append(t.Indices, &Index{n, []string{a}})
		case 1:
			rest += cat(",", kw, "`", n, "` (`", b, "`(5), `", a, "` DESC)")
			t.Indices = append(t.Indices, &Index{n, []string{b, a}})
		case 2:
			rest += cat(",", kw, n, " (", b, ", ", a, ") USING BTREE COMMENT 'x'")
			t.Indices = append(t.Indices, &Index{n, []string{b, a}})
		case 3: // no plain index
			rest += cat(", FULLTEXT KEY ", n, " (", b, "), CONSTRAINT f", n, " FOREIGN KEY (", a, ") REFERENCES other (id) ON DELETE CASCADE")
		}
	}
	sameTables([]*Table{t}, c02Import(cat("CREATE TABLE z_t (", a, " int, ", b, " varchar(9)", rest, ");")))
}

// as many members as MySQL allows a set, and more for an enum
func C02_members() {
	c := &Col{Name: "c", Type: vk.Pick("type", "enum", "set")}
	n := []int{1, 2, 63, 64, 65, 255, 256, 300, 1000}[vk.Choice("members", 9)]
	if c.Type == "set" && n > 64 {
		vk.Stop()
	}
	sql := ""
	for i := 0; i < n; i++ {
		m := cat("m", itoa(i))
		if i == n-1 {
			m = cat(m, vk.Str("last", 1, "print"))
			vk.Assume(vk.Not(strings.HasSuffix(m, " ")))
		}
		c.Values = append(c.Values, m)
		sql = cat(sql, ",'", strings.ReplaceAll(strings.ReplaceAll(m, `\`, `\\`), "'", "''"), "'")
	}
	sameTables([]*Table{{Name: "z_t", Columns: []*Col{c}}}, c02Import(cat("CREATE TABLE z_t (c ", c.Type, "(", sql[1:], "));")))
}

// an index, a primary key or a unique key of up to four columns, in any order
func C02_wide() {
	t := &Table{Name: "z_t"}
	sql := ""
	for i := 0; i < 4; i++ {
		n := cat("c", vk.Str("n"+itoa(i), 1, "word"), itoa(i))
		t.Columns = append(t.Columns, &Col{Name: n, Type: "int32"})
		sql += cat(n, " int, ")
	}
	order := [][]int{{0, 1, 2, 3}, {3, 1, 0}, {2, 0, 3, 1}, {1, 2, 3}, {3}}[vk.Choice("order", 5)]
	var l []string
	for _, i := range order {
		l = append(l, t.Columns[i].Name)
	}
	keys := []string{" (", strings.Join(l, ", "), ")"}
	switch vk.Choice("key", 4) {
	case 0:
		sql = cat(sql, "INDEX i1", cat(keys...), ", KEY i2 (", t.Columns[0].Name, ")")
		t.Indices = []*Index{{"i1", l}, {"i2", []string{t.Columns[0].Name}}}
	case 1:
		sql = cat(sql, "UNIQUE KEY u1", cat(keys...))
		for _, i := range order {
			t.Columns[i].Unique = true
		}
	case 2:
		sql = cat(sql, "PRIMARY KEY", cat(keys...))
		for _, i := range order {
			t.Columns[i].PK = true
		}
	case 3:
		sql = cat(sql, "PRIMARY KEY", cat(keys...), ", UNIQUE u2", cat(keys...), ", INDEX i2", cat(keys...))
		t.Indices = []*Index{{"i2", l}}
		for _, i := range order {
			t.Columns[i].PK, t.Columns[i].Unique = true, true
		}
	}
	sameTables([]*Table{t}, c02Import(cat("CREATE TABLE z_t (", sql, ");")))
}

// excluded tables, other statements, author and version
func C02_tables() {
	n := 3
	excl := map[string]bool{}
	var names, ex, sql []string
	sql = append(sql, "SET NAMES utf8", "DROP TABLE IF EXISTS za_1")
	for i := 0; i < n; i++ {
		nm := "z" + string(rune('a'+i)) + "_" + vk.Str("tab", 1, "word")
		names = append(names, nm)
		sql = append(sql, cat("CREATE TABLE ", vk.Pick("db", "", "mydb."), nm, " (c", itoa(i), " int, d date)"), "LOCK TABLES za_1 WRITE", "UNLOCK TABLES")
		if vk.Choice("exclude", 2) == 1 {
			excl[itoa(i)] = true
			ex = append(ex, nm)
		}
	}
	var args []string
	switch vk.Choice("spelling", 3) {
	case 0:
		args = append(args, "--excludes", strings.Join(ex, ","))
	case 1:
		args = append(args, "-x", strings.Join(append(ex, "nosuch", names[0]+"x", "z"), ","))
	case 2:
		if len(ex) > 0 {
			vk.Stop()
		}
	}
	au, ve := vk.Str("author", 2, "text"), vk.Str("version", 2, "alnum")
	if vk.Choice("meta", 2) == 1 {
		args = append(args, "-a", cat("x", au), "-v", ve)
	} else {
		args = append(args, cat("--author=x", au), "--version", ve)
	}
	b := c02Import(strings.Join(sql, ";\n")+";\n", args...)
	vk.Assert(b.Author == cat("x", au), "author")
	vk.Assert(b.Version == ve, "version")
	var want []*Table
	for i, nm := range names {
		if !excl[itoa(i)] {
			want = append(want, &Table{Name: nm, Columns: []*Col{{Name: "c" + itoa(i), Type: "int32"}, {Name: "d", Type: "date"}}})
		}
	}
	sameTables(want, b)
}

// any column with any set of options on it, before another column with its own
func C02_mixed() {
	type ty struct{ sql, t, lit, def string }
	tys := []ty{{"int", "int32", "7", "7"}, {"bigint(20) unsigned", "int64", "-7", "-7"}, {"varchar(20)", "varchar", "'a b'", "a b"}, {"decimal(10,2)", "decimal", "1.50", "1.50"},
		{"tinyint(1)", "boolean", "'1'", "1"}, {"datetime", "datetime", "CURRENT_TIMESTAMP", "fn::CURRENT_TIMESTAMP"}, {"enum('p','q')", "enum", "'q'", "q"}, {"date", "date", "'2020-01-02'", "2020-01-02"}, {"text", "text16", "", ""}, {"binary(4)", "binary", "'a'", "a"}}
	sizes := map[string]int{"int64": 20, "varchar": 20, "decimal": 10, "binary": 4}
	t := &Table{Name: "z_t"}
	sql := ""
	for i := 0; i < 2; i++ {
		p := "c" + itoa(i)
		y := tys[2]
		if i == 0 {
			y = tys[vk.Choice(p, len(tys))]
		}
		lean := i == 1 && !vk.Thorough()
		c := &Col{Name: cat("z_", vk.Str(p+".name", 1, "lower_"), itoa(i)), Type: y.t, Size: sizes[y.t]}
		if y.t == "decimal" {
			c.Scale = 2
		}
		if y.t == "enum" {
			c.Values = []string{"p", "q"}
		}
		d := cat(c.Name, " ", y.sql)
		nulls := 3
		if lean {
			nulls = 2
		}
		switch vk.Choice(p+".null", nulls) {
		case 1:
			d += " NOT NULL"
			c.NotNull = true
		case 2:
			d += " NULL"
		}
		if y.lit != "" && !lean && vk.Choice(p+".default", 2) == 1 {
			d += " DEFAULT " + y.lit
			c.Default = y.def
		}
		if i == 0 {
			if isInt(y.t) && c.Default == "" && vk.Choice(p+".ai", 2) == 1 {
				d += " AUTO_INCREMENT"
				c.AutoInc, c.NotNull = true, true
			}
			switch vk.Choice(p+".key", 4) {
			case 1:
				d += " UNIQUE KEY"
				c.Unique = true
			case 2:
				d += " PRIMARY KEY"
				c.PK, c.NotNull = true, true
			case 3:
				d += " UNIQUE PRIMARY KEY"
				c.PK, c.Unique, c.NotNull = true, true, true
			}
		}
		if !lean && vk.Choice(p+".comment", 2) == 1 {
			c.Desc = cat("x", vk.Str(p+".comment", 1, "alnum"))
			d += cat(" COMMENT '", c.Desc, "'")
		}
		sql += d + ", "
		t.Columns = append(t.Columns, c)
	}
	a, b := t.Columns[0], t.Columns[1]
	key := cat("INDEX i1 (", b.Name, ")")
	switch vk.Choice("table key", 4) {
	case 0:
		t.Indices = []*Index{{"i1", []string{b.Name}}}
	case 1:
		key = cat("UNIQUE KEY u (", b.Name, ", ", a.Name, ")")
		a.Unique, b.Unique = true, true
	case 2:
		if a.PK {
			vk.Stop()
		}
		key = cat("PRIMARY KEY (", a.Name, ", ", b.Name, "), INDEX i1 (", b.Name, ")")
		a.PK, b.PK = true, true
		t.Indices = []*Index{{"i1", []string{b.Name}}}
	case 3:
		key = cat("UNIQUE INDEX u1 (", a.Name, "), KEY i1 (", a.Name, ", ", b.Name, ")")
		a.Unique = true
		t.Indices = []*Index{{"i1", []string{a.Name, b.Name}}}
	}
	sameTables([]*Table{t}, c02Import(cat("CREATE TABLE z_t (", sql, key, ");")))
}
