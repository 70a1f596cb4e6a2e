package h

import (
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// Liquibase changelog

type lqCons struct {
	PrimaryKey *bool `yaml:"primaryKey"`
	Nullable   *bool `yaml:"nullable"`
	Unique     *bool `yaml:"unique"`
}

type lqColumn struct {
	Name                 string      `yaml:"name"`
	Type                 string      `yaml:"type"`
	AutoIncrement        *bool       `yaml:"autoIncrement"`
	Constraints          *lqCons     `yaml:"constraints"`
	Remarks              string      `yaml:"remarks"`
	DefaultValue         *string     `yaml:"defaultValue"`
	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean"`
	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric"`
	DefaultValueDate     *string     `yaml:"defaultValueDate"`
	DefaultValueComputed *string     `yaml:"defaultValueComputed"`
	AfterColumn          string      `yaml:"afterColumn"`
}

type lqColumnWrap struct {
	Column *lqColumn `yaml:"column"`
}

// lqOp holds the fields of every kind of change.
type lqOp struct {
	TableName            string         `yaml:"tableName"`
	OldTableName         string         `yaml:"oldTableName"`
	NewTableName         string         `yaml:"newTableName"`
	Remarks              *string        `yaml:"remarks"`
	Columns              []lqColumnWrap `yaml:"columns"`
	ColumnName           string         `yaml:"columnName"`
	ColumnNames          string         `yaml:"columnNames"`
	OldColumnName        string         `yaml:"oldColumnName"`
	NewColumnName        string         `yaml:"newColumnName"`
	ConstraintName       string         `yaml:"constraintName"`
	ColumnDataType       string         `yaml:"columnDataType"`
	NewDataType          string         `yaml:"newDataType"`
	DefaultNullValue     *string        `yaml:"defaultNullValue"`
	DefaultValue         *string        `yaml:"defaultValue"`
	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean"`
	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric"`
	DefaultValueDate     *string        `yaml:"defaultValueDate"`
	DefaultValueComputed *string        `yaml:"defaultValueComputed"`
}

type lqChange struct {
	CreateTable           *lqOp `yaml:"createTable"`
	DropTable             *lqOp `yaml:"dropTable"`
	RenameTable           *lqOp `yaml:"renameTable"`
	SetTableRemarks       *lqOp `yaml:"setTableRemarks"`
	AddColumn             *lqOp `yaml:"addColumn"`
	DropColumn            *lqOp `yaml:"dropColumn"`
	RenameColumn          *lqOp `yaml:"renameColumn"`
	SetColumnRemarks      *lqOp `yaml:"setColumnRemarks"`
	ModifyDataType        *lqOp `yaml:"modifyDataType"`
	AddNotNullConstraint  *lqOp `yaml:"addNotNullConstraint"`
	DropNotNullConstraint *lqOp `yaml:"dropNotNullConstraint"`
	AddAutoIncrement      *lqOp `yaml:"addAutoIncrement"`
	AddDefaultValue       *lqOp `yaml:"addDefaultValue"`
	DropDefaultValue      *lqOp `yaml:"dropDefaultValue"`
	AddPrimaryKey         *lqOp `yaml:"addPrimaryKey"`
	DropPrimaryKey        *lqOp `yaml:"dropPrimaryKey"`
	AddUniqueConstraint   *lqOp `yaml:"addUniqueConstraint"`
	DropUniqueConstraint  *lqOp `yaml:"dropUniqueConstraint"`
}

type lqSet struct {
	Id      string      `yaml:"id"`
	Author  string      `yaml:"author"`
	Changes []*lqChange `yaml:"changes"`
}

type lqEntry struct {
	Strategy  string `yaml:"objectQuotingStrategy"`
	ChangeSet *lqSet `yaml:"changeSet"`
}

func lqRead(path string) []lqEntry {
	var d struct {
		L []lqEntry `yaml:"databaseChangeLog"`
	}
	need(vk.ReadYAML(path, &d), "output is a Liquibase changelog")
	need(len(d.L) > 0 && d.L[0].ChangeSet == nil && d.L[0].Strategy == "QUOTE_ALL_OBJECTS", "the changelog quotes all objects")
	for _, e := range d.L[1:] {
		need(e.ChangeSet != nil, "the rest of the changelog are change sets")
	}
	return d.L
}

func (c *lqChange) ops() (kind string, op *lqOp) {
	n := 0
	set := func(k string, o *lqOp) {
		if o != nil {
			kind, op = k, o
			n++
		}
	}
	set("createTable", c.CreateTable)
	set("dropTable", c.DropTable)
	set("renameTable", c.RenameTable)
	set("setTableRemarks", c.SetTableRemarks)
	set("addColumn", c.AddColumn)
	set("dropColumn", c.DropColumn)
	set("renameColumn", c.RenameColumn)
	set("setColumnRemarks", c.SetColumnRemarks)
	set("modifyDataType", c.ModifyDataType)
	set("addNotNullConstraint", c.AddNotNullConstraint)
	set("dropNotNullConstraint", c.DropNotNullConstraint)
	set("addAutoIncrement", c.AddAutoIncrement)
	set("addDefaultValue", c.AddDefaultValue)
	set("dropDefaultValue", c.DropDefaultValue)
	set("addPrimaryKey", c.AddPrimaryKey)
	set("dropPrimaryKey", c.DropPrimaryKey)
	set("addUniqueConstraint", c.AddUniqueConstraint)
	set("dropUniqueConstraint", c.DropUniqueConstraint)
	need(n == 1, "a change is of one known kind")
	return
}

// touches tells the table and the columns a change names.
func (c *lqChange) touches() (string, []string) {
	k, o := c.ops()
	if k == "renameTable" {
		return o.OldTableName, []string{o.NewTableName}
	}
	l := []string{o.ColumnName, o.OldColumnName, o.NewColumnName}
	for _, x := range o.Columns {
		l = append(l, x.Column.Name)
	}
	if k == "addColumn" || k == "createTable" {
		l = nil
		for _, x := range o.Columns {
			l = append(l, x.Column.Name)
		}
	}
	return o.TableName, l
}

// lqType is the Liquibase type of a column.
func lqType(c *Col) string {
	base := map[string]string{"int8": "tinyint", "int16": "smallint", "int24": "mediumint", "int32": "int", "int64": "bigint",
		"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "blob8": "blob", "blob16": "blob", "blob24": "blob", "blob32": "blob"}[c.Type]
	if base == "" {
		base = c.Type
	}
	if c.Type == "enum" || c.Type == "set" {
		var l []string
		for _, v := range c.Values {
			l = append(l, cat("'", strings.ReplaceAll(v, "'", "''"), "'"))
		}
		return cat(base, "(", strings.Join(l, ", "), ")")
	}
	if vk.Split(c.Size > 0) {
		if vk.Split(c.Scale > 0) {
			return cat(base, "(", itoa(c.Size), ",", itoa(c.Scale), ")")
		}
		return cat(base, "(", itoa(c.Size), ")")
	}
	return base
}

// lqNorm drops the blanks between the arguments of a type.
func lqNorm(t string) string {
	if strings.HasSuffix(t, "')") {
		return t // a blank may be part of a member
	}
	return strings.ReplaceAll(t, ", ", ",")
}

func lqDefault(s *string, b *bool, n interface{}, d, f *string) string {
	cnt, r := 0, ""
	if s != nil {
		cnt++
		r = *s
		vk.Assert(vk.Not(strings.HasPrefix(r, "fn::")), "a function default is not a literal")
	}
	if b != nil {
		cnt++
		r = "bool:false"
		if *b {
			r = "bool:true"
		}
	}
	if n != nil {
		cnt++
		switch x := n.(type) {
		case int:
			r = itoa(x)
		case float64:
			r = strconv.FormatFloat(x, 'f', -1, 64)
		case string:
			r = x
		default:
			need(false, "a numeric default is a number")
		}
	}
	if d != nil {
		cnt++
		r = *d
		vk.Assert(vk.Not(strings.HasPrefix(r, "fn::")), "a function default is not a literal")
	}
	if f != nil {
		cnt++
		r = cat("fn::", strings.TrimSuffix(*f, "()"))
	}
	need(cnt <= 1, "a default is given once")
	return r
}

func lqWantDefault(c *Col) string {
	if c.Type == "boolean" && c.Default != "" && !strings.HasPrefix(c.Default, "fn::") {
		if c.Default == "1" || c.Default == "true" {
			return "bool:true"
		}
		return "bool:false"
	}
	if isScaled(c.Type) && c.Default != "" && !strings.HasPrefix(c.Default, "fn::") {
		if f, err := strconv.ParseFloat(c.Default, 64); err == nil {
			return strconv.FormatFloat(f, 'f', -1, 64)
		}
	}
	return c.Default
}

// lqDB is what a database holds that Liquibase created from the schema.
func lqDB(s *Schema, suffix string) *db {
	d := &db{}
	for _, t := range s.Tables {
		x := &dbTab{name: t.Name, desc: t.Desc}
		var uq []string
		for _, c := range t.Columns {
			x.cols = append(x.cols, &dbCol{name: c.Name, t: dbType{liquid: lqNorm(lqType(c))}, def: lqWantDefault(c), desc: c.Desc, nn: vk.Or(c.NotNull, c.PK), auto: c.AutoInc})
			if c.PK {
				x.pk = append(x.pk, c.Name)
			}
			if c.Unique {
				uq = append(uq, c.Name)
			}
		}
		if len(uq) > 0 {
			x.uqs = []*dbKey{{t.Name + suffix, uq}}
		}
		d.tabs = append(d.tabs, x)
	}
	return d
}

func (t *dbTab) lqAdd(c *lqColumn) {
	need(c != nil, "a column is given")
	x := &dbCol{name: c.Name, t: dbType{liquid: lqNorm(c.Type)}, desc: c.Remarks}
	x.auto = c.AutoIncrement != nil && *c.AutoIncrement
	x.def = lqDefault(c.DefaultValue, c.DefaultValueBoolean, c.DefaultValueNumeric, c.DefaultValueDate, c.DefaultValueComputed)
	t.add(x)
	if k := c.Constraints; k != nil {
		x.nn = k.Nullable != nil && !*k.Nullable
		if k.PrimaryKey != nil && *k.PrimaryKey {
			t.addPK([]string{c.Name})
			x.nn = true
		}
		if k.Unique != nil && *k.Unique {
			t.inlineUq = append(t.inlineUq, c.Name)
		}
	}
}

func names(s string) []string {
	var l []string
	for _, x := range strings.Split(s, ",") {
		l = append(l, strings.TrimSpace(x))
	}
	return l
}

// lqApply runs one change.
func (d *db) lqApply(c *lqChange) {
	k, o := c.ops()
	switch k {
	case "createTable":
		t := &dbTab{name: o.TableName, born: true}
		if o.Remarks != nil {
			t.desc = *o.Remarks
		}
		for _, x := range o.Columns {
			t.lqAdd(x.Column)
		}
		d.create(t)
		return
	case "dropTable":
		d.drop(o.TableName)
		return
	case "renameTable":
		d.rename(o.OldTableName, o.NewTableName)
		return
	}
	t := d.must(o.TableName)
	switch k {
	case "setTableRemarks":
		need(o.Remarks != nil, "remarks are given")
		t.desc = *o.Remarks
	case "addColumn":
		need(len(o.Columns) > 0, "a column is given")
		for _, x := range o.Columns {
			if x.Column.AfterColumn != "" {
				t.must(x.Column.AfterColumn)
			}
			t.lqAdd(x.Column)
		}
	case "dropColumn":
		t.dropCol(o.ColumnName)
	case "renameColumn":
		t.renameCol(o.OldColumnName, o.NewColumnName)
		vk.Assert(lqNorm(o.ColumnDataType) == t.must(o.NewColumnName).t.liquid, "a change states the type of its column")
		if d.oldLiquibase {
			t.must(o.NewColumnName).nn = false
		}
	case "addPrimaryKey":
		t.addPK(names(o.ColumnNames))
	case "dropPrimaryKey":
		t.dropPK()
	case "addUniqueConstraint":
		t.addUq(o.ConstraintName, names(o.ColumnNames))
	case "dropUniqueConstraint":
		t.dropUq(o.ConstraintName)
	default:
		x := t.must(o.ColumnName)
		if k != "setColumnRemarks" && k != "modifyDataType" {
			vk.Assert(lqNorm(o.ColumnDataType) == x.t.liquid, "a change states the type of its column")
		}
		switch k {
		case "setColumnRemarks":
			need(o.Remarks != nil, "remarks are given")
			x.desc = *o.Remarks
		case "modifyDataType":
			x.t = dbType{liquid: lqNorm(o.NewDataType)}
		case "addNotNullConstraint":
			x.nn = true
			if o.DefaultNullValue != nil {
				vk.Assert(vk.Not(strings.HasPrefix(*o.DefaultNullValue, "fn::")), "a function default is not a literal")
			}
		case "dropNotNullConstraint":
			need(x.nn, "the dropped not-null constraint exists")
			x.nn = false
		case "addAutoIncrement":
			x.auto = true
		case "addDefaultValue":
			x.def = lqDefault(o.DefaultValue, o.DefaultValueBoolean, o.DefaultValueNumeric, o.DefaultValueDate, o.DefaultValueComputed)
		case "dropDefaultValue":
			x.def = ""
		}
	}
}

// lqRunAll applies a whole changelog and checks its change sets.
func (d *db) lqRunAll(path, author string) (kinds []string) {
	ids := map[string]bool{}
	for _, e := range lqRead(path) {
		if e.ChangeSet == nil {
			continue
		}
		s := e.ChangeSet
		vk.Assert(s.Id != "" && !ids[s.Id], "change set ids are unique")
		ids[s.Id] = true
		vk.Assert(s.Author == author, "change set author")
		vk.Assert(len(s.Changes) > 0, "a change set contains a change")
		for _, c := range s.Changes {
			k, _ := c.ops()
			kinds = append(kinds, k)
			d.lqApply(c)
		}
	}
	return
}

// settle makes primary key columns not null, as a database does, and checks inline unique constraints.
func (d *db) settle() *db {
	for _, t := range d.tabs {
		for _, n := range t.pk {
			t.must(n).nn = true
		}
		for _, n := range t.inlineUq {
			f := false
			for _, k := range t.uqs {
				f = f || len(k.cols) == 1 && k.cols[0] == n
			}
			vk.Assert(f, "an inline unique constraint is on the only unique column")
		}
		for _, c := range t.cols {
			c.upd = ""
		}
	}
	return d
}

// diffOpts chooses a suffix of unique key names and whether comments are compared.
func diffOpts() (string, bool) {
	if vk.Thorough() {
		return vk.Pick("suffix", "", "_uq"), vk.Choice("comments", 2) == 1
	}
	c := vk.Choice("comments", 2) == 1
	if c {
		return "_uq", true
	}
	return "", false
}

// lqPlaced states that added columns come where the new schema has them.
func lqPlaced(t *Table, o *lqOp) {
	for _, x := range o.Columns {
		prev := ""
		for _, c := range t.Columns {
			if c.Name == x.Column.Name {
				break
			}
			prev = c.Name
		}
		vk.Assert(x.Column.AfterColumn == prev, "an added column comes after its predecessor")
	}
}

func c07(o, n *Schema) {
	sfx, comments := diffOpts()
	author := n.Author
	var args []string
	if sfx != "" {
		args = append(args, "-u", sfx)
	}
	if comments {
		args = append(args, "--comments")
	}
	if sfx != "" {
		args = append(args, "--author", "someone")
		author = "someone"
	}
	diffRun("liquibase", o, n, args...)
	d := lqDB(o, sfx)
	d.oldLiquibase = comments
	for _, t := range d.tabs { // the flags of the schema, not what the keys add to them
		for _, c := range o.table(t.name).Columns {
			t.must(c.Name).nn = c.NotNull
		}
	}
	d.lqRunAll("out", author)
	for _, e := range lqRead("out") {
		if e.ChangeSet != nil {
			for _, x := range e.ChangeSet.Changes {
				if x.AddColumn != nil {
					lqPlaced(n.table(x.AddColumn.TableName), x.AddColumn)
				}
			}
		}
	}
	sameDB(d.settle(), lqDB(n, sfx).settle(), dbOpt{comments: comments, born: true})
}

func autoIncDropped(o, n *Schema) {
	f := false
	for _, t := range o.Tables {
		for _, c := range t.Columns {
			if u := n.table(t.Name); u != nil {
				for _, d := range u.Columns {
					if d.Name == c.Name {
						f = vk.Or(f, vk.And(c.AutoInc, vk.Not(d.AutoInc)))
					}
				}
			}
		}
	}
	vk.Tag("auto increment removed", f)
}

func C07_attributes() {
	o, n := pairAttrs()
	autoIncDropped(o, n)
	c07(o, n)
}

func C07_keys() { c07(pairKeys()) }

func C07_columns() {
	o, n := pairColumns()
	c07(o, n)
}

func C07_tables() { c07(pairTables(false)) }

// a column or table that only changed its name is renamed, not dropped and created anew
func C07_renames() {
	a := dress("a", &Col{Name: "ca", Type: vk.Pick("type", "int32", "varchar", "decimal", "enum", "datetime", "boolean", "text16", "char")})
	a.Desc = "d"
	o := &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "id", Type: "int64"}, a}}}}
	n := &Schema{Tables: []*Table{cloneTab(o.Tables[0])}}
	tab := vk.Choice("what", 2) == 1
	if tab {
		n.Tables[0].Name = vk.Pick("table", "za", "zz")
	} else {
		n.Tables[0].Columns[1].Name = vk.Pick("column", "ba", "zz")
		if vk.Choice("other desc", 2) == 1 {
			n.Tables[0].Columns[1].Desc = "e" // not compared without --comments
		}
	}
	diffRun("liquibase", o, n)
	kinds := strings.Join(lqDB(o, "").lqRunAll("out", ""), " ")
	vk.Assert(!strings.Contains(kinds, "dropTable") && !strings.Contains(kinds, "createTable") && !strings.Contains(kinds, "dropColumn") && !strings.Contains(kinds, "addColumn"), "what is only renamed is not dropped")
	if tab {
		vk.Assert(strings.Contains(kinds, "renameTable"), "a renamed table is renamed")
	} else {
		vk.Assert(strings.Contains(kinds, "renameColumn"), "a renamed column is renamed")
	}
}

func C07_wide() { c07(pairWide()) }

func C07_texts() { c07(pairTexts("any")) }

func C07_near() {
	o, n := pairRename()
	autoIncDropped(o, n)
	c07(o, n)
}
