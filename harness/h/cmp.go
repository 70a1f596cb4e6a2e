package h

import (
	"strconv"
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// allTypes are the documented octopus column types.
var allTypes = []string{
	"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime", "decimal",
	"double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json", "point", "set",
	"text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year",
}

func isInt(t string) bool {
	return t == "int8" || t == "int16" || t == "int24" || t == "int32" || t == "int64"
}

func isSized(t string) bool {
	return t == "varchar" || t == "char" || t == "binary" || t == "varbinary" || t == "bit"
}

func isScaled(t string) bool { return t == "decimal" || t == "float" || t == "double" }

func isText(t string) bool { return strings.HasPrefix(t, "text") || t == "char" || t == "varchar" }

func isBlob(t string) bool { return strings.HasPrefix(t, "blob") }

func itoa(n int) string { return strconv.Itoa(n) }

// concat of symbolic texts
func cat(a ...string) string { return strings.Join(a, "") }

func allNL(label string, ok bool) { vk.Assert(ok, label) }

// run states that a command succeeds and ends the path when it does not.
func run(label string, args ...string) {
	c := vk.Run(args...)
	vk.Assert(c == 0, label)
	if c != 0 {
		vk.Stop()
	}
}

func readSchema(path string) *Schema {
	var b Schema
	ok := vk.ReadJSON(path, &b)
	vk.Assert(ok, "output is an octopus file")
	if !ok {
		vk.Stop()
	}
	return &b
}

// need states a structural condition without which the rest makes no sense.
func need(c bool, label string) {
	vk.Assert(c, label)
	if !c {
		vk.Stop()
	}
}

func sameCol(w, g *Col) {
	vk.Assert(g.Name == w.Name, "column name")
	vk.Assert(g.Type == w.Type, "column type")
	vk.Assert(g.Desc == w.Desc, "column description")
	vk.Assert(g.Size == w.Size, "column size")
	vk.Assert(g.Scale == w.Scale, "column scale")
	vk.Assert(vk.Iff(g.NotNull, w.NotNull), "column not null")
	vk.Assert(vk.Iff(g.PK, w.PK), "column primary key")
	vk.Assert(vk.Iff(g.Unique, w.Unique), "column unique key")
	vk.Assert(vk.Iff(g.AutoInc, w.AutoInc), "column auto increment")
	vk.Assert(g.Default == w.Default, "column default")
	vk.Assert(g.OnUpdate == w.OnUpdate, "column on update")
	need(len(g.Values) == len(w.Values), "number of enum/set members")
	for i := range w.Values {
		vk.Assert(g.Values[i] == w.Values[i], "enum/set member")
	}
	need((g.Ref == nil) == (w.Ref == nil), "column reference presence")
	if w.Ref != nil {
		vk.Assert(g.Ref.Table == w.Ref.Table, "reference table")
		vk.Assert(g.Ref.Column == w.Ref.Column, "reference column")
		vk.Assert(g.Ref.Relationship == w.Ref.Relationship, "reference relationship")
	}
}

func sameTable(w, g *Table) {
	vk.Assert(g.Name == w.Name, "table name")
	vk.Assert(g.Desc == w.Desc, "table description")
	vk.Assert(g.Group == w.Group, "table group")
	vk.Assert(g.ClassName == w.ClassName, "table class name")
	need(len(g.Columns) == len(w.Columns), "number of columns")
	for i := range w.Columns {
		sameCol(w.Columns[i], g.Columns[i])
	}
	need(len(g.Indices) == len(w.Indices), "number of indices")
	for i := range w.Indices {
		x, y := w.Indices[i], g.Indices[i]
		vk.Assert(y.Name == x.Name, "index name")
		need(len(y.Columns) == len(x.Columns), "number of index columns")
		for j := range x.Columns {
			vk.Assert(y.Columns[j] == x.Columns[j], "index column")
		}
	}
}

// sameTables compares the tables of got with those wanted, in the given order.
func sameTables(want []*Table, got *Schema) {
	need(len(got.Tables) == len(want), "number of tables")
	for i := range want {
		sameTable(want[i], got.Tables[i])
	}
}

// table finds a table by name.
func (s *Schema) table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}
