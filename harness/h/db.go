package h

import (
	"fmt"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
	"github.com/pingcap/parser"
	"github.com/pingcap/parser/ast"
	"github.com/pingcap/parser/charset"
	"github.com/pingcap/parser/mysql"
	"github.com/pingcap/parser/opcode"
	_ "github.com/pingcap/parser/test_driver"
)

// dbType is a column type of the database.
type dbType struct {
	tp     byte
	n, d   int
	elems  []string
	bin    bool
	liquid string // Liquibase models: the type text
}

type dbCol struct {
	name     string
	t        dbType
	def, upd string // fn:: in front of functions
	desc     string
	nn, auto bool
}

type dbKey struct {
	name string
	cols []string
}

type dbTab struct {
	name, desc string
	cols       []*dbCol
	pk         []string
	uqs, idx   []*dbKey
	inlineUq   []string // Liquibase: columns with a nameless unique constraint
	born       bool     // created by the change sets
}

// db is the state of a database; every operation checks that what it names exists.
type db struct {
	tabs         []*dbTab
	oldLiquibase bool // renaming a column drops its not-null constraint
}

func (d *db) tab(n string) *dbTab {
	for _, t := range d.tabs {
		if t.name == n {
			return t
		}
	}
	return nil
}

func (d *db) must(n string) *dbTab {
	t := d.tab(n)
	need(t != nil, "every change refers to an existing table")
	return t
}

func (d *db) create(t *dbTab) {
	need(d.tab(t.name) == nil, "created table does not exist yet")
	d.tabs = append(d.tabs, t)
}

func (d *db) drop(n string) {
	t := d.must(n)
	var r []*dbTab
	for _, x := range d.tabs {
		if x != t {
			r = append(r, x)
		}
	}
	d.tabs = r
}

func (d *db) rename(o, n string) {
	t := d.must(o)
	need(d.tab(n) == nil, "new table name is free")
	t.name = n
}

func (t *dbTab) col(n string) *dbCol {
	for _, c := range t.cols {
		if c.name == n {
			return c
		}
	}
	return nil
}

func (t *dbTab) must(n string) *dbCol {
	c := t.col(n)
	need(c != nil, "every change refers to an existing column")
	return c
}

func (t *dbTab) add(c *dbCol) {
	need(t.col(c.name) == nil, "added column does not exist yet")
	t.cols = append(t.cols, c)
}

func without(l []string, n string) []string {
	var r []string
	for _, x := range l {
		if x != n {
			r = append(r, x)
		}
	}
	return r
}

// dropCol removes a column, and the column from the keys it is part of.
func (t *dbTab) dropCol(n string) {
	c := t.must(n)
	var r []*dbCol
	for _, x := range t.cols {
		if x != c {
			r = append(r, x)
		}
	}
	t.cols = r
	t.pk = without(t.pk, n)
	keys := func(ks []*dbKey) []*dbKey {
		var out []*dbKey
		for _, k := range ks {
			if k.cols = without(k.cols, n); len(k.cols) > 0 {
				out = append(out, k)
			}
		}
		return out
	}
	t.uqs, t.idx = keys(t.uqs), keys(t.idx)
}

func renamed(l []string, o, n string) {
	for i := range l {
		if l[i] == o {
			l[i] = n
		}
	}
}

func (t *dbTab) renameCol(o, n string) {
	if o == n {
		return
	}
	c := t.must(o)
	need(t.col(n) == nil, "new column name is free")
	c.name = n
	renamed(t.pk, o, n)
	for _, k := range t.uqs {
		renamed(k.cols, o, n)
	}
	for _, k := range t.idx {
		renamed(k.cols, o, n)
	}
}

func (t *dbTab) columns(l []string) {
	need(len(l) > 0, "a key has columns")
	for i, n := range l {
		t.must(n)
		for j := 0; j < i; j++ {
			need(l[j] != n, "a key lists a column once")
		}
	}
}

func (t *dbTab) addPK(l []string) {
	need(len(t.pk) == 0, "the table has no primary key yet")
	t.columns(l)
	t.pk = append([]string(nil), l...)
}

func (t *dbTab) dropPK() {
	need(len(t.pk) > 0, "the dropped primary key exists")
	t.pk = nil
}

func (t *dbTab) uq(n string) *dbKey {
	for _, k := range t.uqs {
		if k.name == n {
			return k
		}
	}
	return nil
}

func (t *dbTab) addUq(n string, l []string) {
	need(t.uq(n) == nil, "the unique constraint does not exist yet")
	t.columns(l)
	t.uqs = append(t.uqs, &dbKey{n, append([]string(nil), l...)})
}

func (t *dbTab) dropUq(n string) {
	k := t.uq(n)
	need(k != nil, "the dropped unique constraint exists")
	var r []*dbKey
	for _, x := range t.uqs {
		if x != k {
			r = append(r, x)
		}
	}
	t.uqs = r
}

// ---- SQL ----

// exec runs SQL statements.
func (d *db) exec(sql string) {
	stmts, _, err := parser.New().Parse(sql, "", "")
	need(err == nil, "the SQL is valid MySQL")
	for _, s := range stmts {
		switch x := s.(type) {
		case *ast.CreateTableStmt:
			t := &dbTab{name: x.Table.Name.O, born: true}
			if x.IfNotExists && d.tab(t.name) != nil {
				need(false, "created table does not exist yet")
			}
			for _, c := range x.Cols {
				t.define(c)
			}
			for _, k := range x.Constraints {
				t.constraint(k)
			}
			for _, o := range x.Options {
				if o.Tp == ast.TableOptionComment {
					t.desc = o.StrValue
				}
			}
			d.create(t)
		case *ast.DropTableStmt:
			for _, n := range x.Tables {
				d.drop(n.Name.O)
			}
		case *ast.RenameTableStmt:
			for _, n := range x.TableToTables {
				d.rename(n.OldTable.Name.O, n.NewTable.Name.O)
			}
		case *ast.CreateIndexStmt:
			t := d.must(x.Table.Name.O)
			var l []string
			for _, c := range x.IndexPartSpecifications {
				l = append(l, c.Column.Name.O)
			}
			if x.KeyType == ast.IndexKeyTypeUnique {
				t.addUq(x.IndexName, l)
			} else {
				t.columns(l)
				t.idx = append(t.idx, &dbKey{x.IndexName, l})
			}
		case *ast.DropIndexStmt:
			d.must(x.Table.Name.O).dropIndex(x.IndexName)
		case *ast.AlterTableStmt:
			t := d.must(x.Table.Name.O)
			for _, a := range x.Specs {
				d.alter(t, a)
			}
		default:
			need(false, "known kind of statement")
		}
	}
}

func (t *dbTab) dropIndex(n string) {
	if t.uq(n) == nil {
		var r []*dbKey
		for _, k := range t.idx {
			if k.name != n {
				r = append(r, k)
			}
		}
		if len(r) < len(t.idx) {
			t.idx = r
			return
		}
	}
	t.dropUq(n)
}

func (d *db) alter(t *dbTab, a *ast.AlterTableSpec) {
	switch a.Tp {
	case ast.AlterTableAddColumns:
		for _, c := range a.NewColumns {
			t.define(c)
		}
		for _, k := range a.NewConstraints {
			t.constraint(k)
		}
	case ast.AlterTableDropColumn:
		t.dropCol(a.OldColumnName.Name.O)
	case ast.AlterTableModifyColumn:
		c := a.NewColumns[0]
		t.redefine(t.must(c.Name.Name.O), c)
	case ast.AlterTableChangeColumn:
		o, n := a.OldColumnName.Name.O, a.NewColumns[0].Name.Name.O
		t.must(o)
		t.renameCol(o, n)
		t.redefine(t.must(n), a.NewColumns[0])
	case ast.AlterTableRenameColumn:
		t.renameCol(a.OldColumnName.Name.O, a.NewColumnName.Name.O)
	case ast.AlterTableAlterColumn:
		cd := a.NewColumns[0]
		c := t.must(cd.Name.Name.O)
		c.def = ""
		if len(cd.Options) > 0 {
			c.def = sqlValue(cd.Options[0].Expr)
		}
	case ast.AlterTableAddConstraint:
		t.constraint(a.Constraint)
	case ast.AlterTableDropPrimaryKey:
		t.dropPK()
	case ast.AlterTableDropIndex:
		t.dropIndex(a.Name)
	case ast.AlterTableRenameTable:
		d.rename(t.name, a.NewTable.Name.O)
	case ast.AlterTableOption:
		for _, o := range a.Options {
			need(o.Tp == ast.TableOptionComment, "known table option")
			t.desc = o.StrValue
		}
	default:
		need(false, "known kind of alteration")
	}
}

func (t *dbTab) constraint(k *ast.Constraint) {
	var l []string
	for _, c := range k.Keys {
		l = append(l, c.Column.Name.O)
	}
	switch k.Tp {
	case ast.ConstraintPrimaryKey:
		t.addPK(l)
	case ast.ConstraintUniq, ast.ConstraintUniqKey, ast.ConstraintUniqIndex:
		t.addUq(k.Name, l)
	case ast.ConstraintKey, ast.ConstraintIndex:
		t.columns(l)
		t.idx = append(t.idx, &dbKey{k.Name, l})
	default:
		need(false, "known kind of constraint")
	}
}

func (t *dbTab) define(cd *ast.ColumnDef) {
	c := &dbCol{name: cd.Name.Name.O}
	t.add(c)
	t.redefine(c, cd)
}

// redefine gives a column exactly the attributes of the definition.
func (t *dbTab) redefine(c *dbCol, cd *ast.ColumnDef) {
	tp := cd.Tp
	c.t = dbType{tp: tp.Tp, n: tp.Flen, d: tp.Decimal, elems: tp.Elems}
	if c.t.d < 0 {
		c.t.d = 0
	}
	switch tp.Tp {
	case mysql.TypeVarchar, mysql.TypeString, mysql.TypeTinyBlob, mysql.TypeBlob, mysql.TypeMediumBlob, mysql.TypeLongBlob:
		c.t.bin = tp.Charset == charset.CharsetBin
	}
	c.nn, c.auto, c.def, c.upd, c.desc = false, false, "", "", ""
	for _, o := range cd.Options {
		switch o.Tp {
		case ast.ColumnOptionNotNull:
			c.nn = true
		case ast.ColumnOptionNull:
			c.nn = false
		case ast.ColumnOptionPrimaryKey:
			t.addPK([]string{c.name})
		case ast.ColumnOptionUniqKey:
			t.addUq(c.name, []string{c.name})
		case ast.ColumnOptionAutoIncrement:
			c.auto = true
		case ast.ColumnOptionDefaultValue:
			c.def = sqlValue(o.Expr)
		case ast.ColumnOptionOnUpdate:
			c.upd = sqlValue(o.Expr)
		case ast.ColumnOptionComment:
			c.desc = sqlValue(o.Expr)
		default:
			need(false, "known column option")
		}
	}
}

func sqlValue(e ast.ExprNode) string {
	switch x := e.(type) {
	case ast.ValueExpr:
		switch v := x.GetValue().(type) {
		case nil:
			return ""
		case string:
			return v
		case int64:
			return itoa(int(v))
		case uint64:
			return itoa(int(v))
		default:
			return fmt.Sprintf("%v", v)
		}
	case *ast.FuncCallExpr:
		return cat("fn::", x.FnName.O)
	case *ast.UnaryOperationExpr:
		if x.Op == opcode.Minus {
			return cat("-", sqlValue(x.V))
		}
		return sqlValue(x.V)
	}
	need(false, "known kind of value")
	return ""
}

// mysqlType is the MySQL type of a column.
func mysqlType(c *Col) string {
	base := map[string]string{"boolean": "bit(1)", "int8": "tinyint", "int16": "smallint", "int24": "mediumint", "int32": "int", "int64": "bigint",
		"text8": "tinytext", "text16": "text", "text24": "mediumtext", "text32": "longtext", "blob8": "tinyblob", "blob16": "blob", "blob24": "mediumblob", "blob32": "longblob"}[c.Type]
	if base == "" {
		base = c.Type
	}
	switch {
	case c.Type == "enum" || c.Type == "set":
		var l []string
		for _, v := range c.Values {
			l = append(l, cat("'", sqlEsc(v), "'"))
		}
		return cat(base, "(", strings.Join(l, ","), ")")
	case (isScaled(c.Type)) && c.Size > 0 && (c.Scale > 0 || c.Type != "decimal"):
		return cat(base, "(", itoa(c.Size), ",", itoa(c.Scale), ")")
	case (c.Type == "decimal" || isSized(c.Type) || isInt(c.Type)) && c.Size > 0:
		return cat(base, "(", itoa(c.Size), ")")
	}
	return base
}

func sqlEsc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''")
}

func sqlLit(v string) string {
	if strings.HasPrefix(v, "fn::") {
		return cat(v[4:], "()")
	}
	return cat("'", sqlEsc(v), "'")
}

func ticks(l []string) string { return cat("`", strings.Join(l, "`,`"), "`") }

// ddl writes a table independently of the tool.
func ddl(t *Table, suffix string) string {
	var l, pk, uq []string
	for _, c := range t.Columns {
		d := cat("`", c.Name, "` ", mysqlType(c))
		if c.NotNull {
			d += " NOT NULL"
		}
		if c.AutoInc {
			d += " AUTO_INCREMENT"
		}
		if c.Default != "" {
			d = cat(d, " DEFAULT ", sqlLit(c.Default))
		}
		if c.OnUpdate != "" {
			d = cat(d, " ON UPDATE ", sqlLit(c.OnUpdate))
		}
		if c.Desc != "" {
			d = cat(d, " COMMENT '", sqlEsc(c.Desc), "'")
		}
		l = append(l, d)
		if c.PK {
			pk = append(pk, c.Name)
		}
		if c.Unique {
			uq = append(uq, c.Name)
		}
	}
	if len(pk) > 0 {
		l = append(l, cat("PRIMARY KEY (", ticks(pk), ")"))
	}
	if len(uq) > 0 {
		l = append(l, cat("UNIQUE KEY `", t.Name, suffix, "` (", ticks(uq), ")"))
	}
	for _, x := range t.Indices {
		l = append(l, cat("INDEX `", x.Name, "` (", ticks(x.Columns), ")"))
	}
	s := cat("CREATE TABLE `", t.Name, "` (", strings.Join(l, ",\n"), ")")
	if t.Desc != "" {
		s = cat(s, " COMMENT = '", sqlEsc(t.Desc), "'")
	}
	return s + ";\n"
}

func database(s *Schema, suffix string) *db {
	d := &db{}
	for _, t := range s.Tables {
		d.exec(ddl(t, suffix))
	}
	for _, t := range d.tabs {
		t.born = false
	}
	return d
}

func sameSet(a, b []string, label string) {
	need(len(a) == len(b), label)
	for _, x := range a {
		f := false
		for _, y := range b {
			f = vk.Or(f, x == y)
		}
		vk.Assert(f, label)
	}
}

type dbOpt struct{ comments, indices, born bool }

// sameDB compares two database states.
func sameDB(got, want *db, o dbOpt) {
	need(len(got.tabs) == len(want.tabs), "the migrated database has the tables of the new schema")
	for _, w := range want.tabs {
		g := got.tab(w.name)
		need(g != nil, "the migrated database has the tables of the new schema")
		if o.comments && (!g.born || o.born) {
			vk.Assert(g.desc == w.desc, "migrated table comment")
		}
		need(len(g.cols) == len(w.cols), "the migrated table has the columns of the new schema")
		for _, x := range w.cols {
			y := g.col(x.name)
			need(y != nil, "the migrated table has the columns of the new schema")
			vk.Assert(y.t.tp == x.t.tp && y.t.n == x.t.n && y.t.d == x.t.d && y.t.bin == x.t.bin && y.t.liquid == x.t.liquid && strings.Join(y.t.elems, "\n") == strings.Join(x.t.elems, "\n"), "migrated column type")
			vk.Assert(vk.Iff(y.nn, x.nn), "migrated nullability")
			vk.Assert(vk.Iff(y.auto, x.auto), "migrated auto increment")
			vk.Assert(y.def == x.def, "migrated default")
			vk.Assert(y.upd == x.upd, "migrated on-update value")
			if o.comments {
				vk.Assert(y.desc == x.desc, "migrated column comment")
			}
		}
		sameSet(g.pk, w.pk, "migrated primary key")
		need(len(g.uqs) == len(w.uqs), "migrated unique constraints")
		for _, k := range w.uqs {
			x := g.uq(k.name)
			need(x != nil, "name of the migrated unique constraint")
			sameSet(x.cols, k.cols, "migrated unique constraint")
		}
		if o.indices {
			need(len(g.idx) == len(w.idx), "migrated indices")
		}
	}
}
