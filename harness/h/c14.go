package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

type goField struct{ name, typ, tag string }

type goStruct struct {
	name, table string
	embeds      []string
	fields      []goField
}

type goFile struct {
	pkg     string
	imports []string
	structs []*goStruct
}

func isLetter(b byte) bool {
	return vk.Or(vk.And(b >= 'a', b <= 'z'), vk.And(b >= 'A', b <= 'Z'))
}

func isDigit(b byte) bool { return vk.And(b >= '0', b <= '9') }

// isIdent tells whether s is an identifier of most languages.
func isIdent(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = vk.And(ok, vk.Or(isLetter(s[i]), s[i] == '_', vk.And(i > 0, isDigit(s[i]))))
	}
	return ok
}

// goRead reads the Go source of GORM models.
func goRead(path string) *goFile {
	s, ok := vk.ReadFile(path)
	need(ok, "the output is written")
	f := &goFile{}
	state := 0
	var cur *goStruct
	for _, l := range strings.Split(s, "\n") {
		switch {
		case l == "":
		case state == 0:
			need(strings.HasPrefix(l, "package "), "the file starts with its package")
			f.pkg, state = l[8:], 1
		case state == 1 && l == "import (":
			state = 2
		case state == 2 && l == ")":
			state = 1
		case state == 2:
			n := len(l)
			need(n > 3 && l[:2] == "\t\"" && l[n-1] == '"', "an import is a quoted path")
			f.imports = append(f.imports, l[2:n-1])
		case state == 1 && strings.HasPrefix(l, "type "):
			need(strings.HasSuffix(l, " struct {"), "a declaration is a struct")
			cur = &goStruct{name: l[5 : len(l)-9]}
			f.structs = append(f.structs, cur)
			state = 3
		case state == 3 && l == "}":
			state = 1
		case state == 3:
			need(l[0] == '\t', "a struct line is indented")
			l = l[1:]
			i := strings.Index(l, " ")
			if i < 0 {
				need(len(cur.fields) == 0, "embedded structs come first")
				cur.embeds = append(cur.embeds, l)
				break
			}
			g := goField{name: l[:i]}
			g.typ = strings.TrimLeft(l[i+1:], " ")
			if j := strings.Index(g.typ, " "); j >= 0 {
				g.typ, g.tag = g.typ[:j], strings.TrimLeft(g.typ[j+1:], " ")
				n := len(g.tag)
				need(n > 8 && g.tag[:7] == "`gorm:\"" && g.tag[n-2:] == "\"`", "a field tag is a gorm tag")
				g.tag = g.tag[7 : n-2]
			}
			cur.fields = append(cur.fields, g)
		case state == 1:
			need(cur != nil && strings.HasPrefix(l, "func (c *"), "only structs and their table name methods are declared")
			i, j := strings.Index(l, ") TableName() string { return \""), strings.LastIndex(l, "\" }")
			need(i > 0 && j > i && j == len(l)-3, "the method is the table name method")
			vk.Assert(l[9:i] == cur.name, "the method belongs to the struct")
			cur.table = l[i+31 : j]
		default:
			need(false, "the file has a known form")
		}
	}
	need(state == 1, "the file is complete")
	return f
}

// goTypes are the accepted Go types of a column type, not null and nullable.
func goTypes(t string) ([]string, []string) {
	switch t {
	case "char", "varchar", "text8", "text16", "text24", "text32", "enum":
		return []string{"string"}, []string{"null.String", "*string"}
	case "boolean":
		return []string{"bool"}, []string{"null.Bool", "*bool"}
	case "int8", "int16", "int32", "int64":
		return []string{t}, []string{"null.Int", "*" + t}
	case "int24":
		return []string{"int32"}, []string{"null.Int", "*int32"}
	case "decimal":
		return []string{"decimal.Decimal"}, []string{"decimal.NullDecimal"}
	case "float":
		return []string{"float32"}, []string{"null.Float", "*float32"}
	case "double":
		return []string{"float64"}, []string{"null.Float", "*float64"}
	case "date", "datetime", "time":
		return []string{"time.Time"}, []string{"null.Time", "*time.Time"}
	case "blob8", "blob16", "blob24", "blob32":
		return []string{"[]byte"}, []string{"[]byte"}
	case "bit":
		return []string{"byte"}, []string{"*byte"}
	}
	return []string{"interface{}", "[]byte"}, []string{"interface{}", "[]byte"}
}

var goImports = map[string]string{
	"null": "gopkg.in/guregu/null.v4", "decimal": "github.com/shopspring/decimal", "time": "time", "gorm": "github.com/jinzhu/gorm",
}

// gormColumn is the column GORM maps a field to when no tag names one.
func gormColumn(f string) string {
	out := ""
	if strings.HasSuffix(f, "ID") {
		f = cat(f[:len(f)-2], "Id")
	}
	for i := 0; i < len(f); i++ {
		up := vk.And(f[i] >= 'A', f[i] <= 'Z')
		if i > 0 && vk.Split(up) {
			prevUp := vk.And(f[i-1] >= 'A', f[i-1] <= 'Z')
			nextLow := i+1 < len(f) && vk.Split(vk.And(f[i+1] >= 'a', f[i+1] <= 'z'))
			if nextLow || !vk.Split(prevUp) {
				out += "_"
			}
		}
		out += strings.ToLower(f[i : i+1])
	}
	return out
}

// letters are the letters and digits of a name, in lower case.
func letters(s string) string {
	return strings.ToLower(strings.NewReplacer("_", "", "-", "", " ", "", ".", "").Replace(s))
}

type gormOpt struct {
	models map[string][]string // embedded structs
	sfx    string
	ptr    bool
	class  map[string]string // expected struct names by table, when known
	pkg    string
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// gormCheck compares generated models with the selected tables.
func gormCheck(path string, all, tabs []*Table, o gormOpt) {
	f := goRead(path)
	if o.pkg == "" {
		o.pkg = "main"
	}
	vk.Assert(f.pkg == o.pkg, "package name")
	need(len(f.structs) == len(tabs), "one struct per selected table")
	var used []string
	use := func(t string) {
		t = strings.TrimLeft(t, "*[]")
		if i := strings.Index(t, "."); i >= 0 {
			t = t[:i]
			if imp, ok := goImports[t]; ok && !in(imp, used) {
				used = append(used, imp)
			}
		}
	}
	structOf := map[string]string{}
	for i, t := range tabs {
		g := f.structs[i]
		vk.Assert(g.table == t.Name, "the table name method returns the table's name")
		vk.Assert(isIdent(g.name), "a struct name is an identifier")
		for j := 0; j < i; j++ {
			vk.Assert(g.name != f.structs[j].name, "struct names differ")
		}
		if t.ClassName != "" {
			vk.Assert(g.name == t.ClassName, "a class name is used as given")
		}
		structOf[t.Name] = g.name
	}
	for i, t := range tabs {
		g := f.structs[i]
		// embedded structs stand for columns of their own
		covered := map[string]bool{}
		for _, e := range g.embeds {
			cols, ok := o.models[e]
			need(ok && len(cols) > 0, "an embedded struct is a configured one")
			for _, c := range cols {
				need(t.col(c) != nil && !covered[c], "an embedded struct stands for columns of the table")
				covered[c] = true
			}
			use(e)
		}
		for n, cols := range o.models {
			free := len(cols) > 0 && !in(n, g.embeds)
			for _, c := range cols {
				free = free && t.col(c) != nil && !covered[c]
			}
			vk.Assert(!free, "a matching embedded struct is used")
		}
		uniques := 0
		for _, c := range t.Columns {
			if vk.Split(c.Unique) {
				uniques++
			}
		}
		k := 0
		var names []string
		for _, x := range g.fields {
			vk.Assert(vk.And(isIdent(x.name), x.name != "TableName"), "a field name is an identifier, and not one of a method")
			for _, e := range g.embeds {
				vk.Assert(x.name != e[strings.LastIndex(e, ".")+1:], "field names differ")
			}
			for _, n := range names {
				vk.Assert(n != x.name, "field names differ")
			}
			names = append(names, x.name)
			use(x.typ)
		}
		fieldOf := map[string]string{}
		for _, c := range t.Columns {
			if covered[c.Name] {
				continue
			}
			need(k < len(g.fields), "one field per column")
			fieldOf[c.Name] = g.fields[k].name
			gormField(c, g.fields[k], t, uniques, o.sfx)
			k++
		}
		// association fields
		for _, c := range t.Columns {
			if c.Ref == nil {
				continue
			}
			var rt *Table
			for _, u := range all {
				if u.Name == c.Ref.Table && u.col(c.Ref.Column) != nil {
					rt = u
				}
			}
			if rt == nil {
				continue
			}
			need(k < len(g.fields), "one association per reference")
			x := g.fields[k]
			k++
			typ := x.typ
			if o.ptr {
				need(strings.HasPrefix(typ, "*"), "pointer associations on request")
				typ = typ[1:]
			}
			vk.Assert(strings.HasPrefix(typ, "[]") == (c.Ref.Relationship == "1:n"), "an association to many is a list")
			typ = strings.TrimPrefix(typ, "[]")
			if sn, ok := structOf[rt.Name]; ok {
				vk.Assert(typ == sn, "an association has the type of the referenced struct")
				for j, u := range tabs {
					if u == rt {
						p := strings.Split(x.tag, ";references:")
						need(len(p) == 2, "an association names both keys")
						for y, z := range u.Columns {
							if z.Name == c.Ref.Column && len(f.structs[j].embeds) == 0 {
								vk.Assert(p[1] == f.structs[j].fields[y].name, "an association names the referenced field")
							}
						}
						if n, ok := fieldOf[c.Name]; ok {
							vk.Assert(p[0] == cat("foreignKey:", n), "an association names the foreign key field")
						}
					}
				}
			}
		}
		need(k == len(g.fields), "one field per column")
	}
	need(len(f.imports) == len(used), "exactly the used packages are imported")
	for _, u := range used {
		need(in(u, f.imports), "exactly the used packages are imported")
	}
}

func (t *Table) col(name string) *Col {
	for _, c := range t.Columns {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func gormField(c *Col, x goField, t *Table, uniques int, sfx string) {
	vk.Assert(letters(x.name) == letters(c.Name), "a field is named after its column")
	nn, null := goTypes(c.Type)
	if vk.Split(c.NotNull) {
		vk.Assert(in(x.typ, nn), "a not-null column has its plain Go type")
	} else {
		vk.Assert(in(x.typ, null), "a nullable column has its nullable Go type")
	}
	var pk, uq, ai, isNN bool
	column, typ := "", ""
	var idx []string
	if x.tag != "" {
		for _, p := range strings.Split(x.tag, ";") {
			switch {
			case p == "primary_key":
				pk = true
			case p == "auto_increment":
				ai = true
			case p == "not null":
				isNN = true
			case p == "unique":
				uq = true
				vk.Assert(uniques < 2, "several unique columns form one constraint")
			case strings.HasPrefix(p, "unique_index:"):
				uq = true
				vk.Assert(uniques > 1 && p[13:] == cat(t.Name, sfx), "the unique constraint has its name")
			case strings.HasPrefix(p, "column:"):
				column = p[7:]
			case strings.HasPrefix(p, "type:"):
				typ = p[5:]
			case strings.HasPrefix(p, "index:"):
				idx = append(idx, p[6:])
			default:
				need(false, "only known tags are written")
			}
		}
	}
	if column == "" {
		column = gormColumn(x.name)
	}
	under := false
	for i := 1; i < len(c.Name); i++ {
		under = vk.Or(under, vk.And(c.Name[i-1] == '_', isDigit(c.Name[i])))
	}
	vk.Tag("digit after underscore", under)
	vk.Assert(column == c.Name, "a field is mapped to its column")
	vk.Assert(vk.Iff(pk, c.PK), "primary key tag")
	vk.Assert(vk.Iff(uq, c.Unique), "unique tag")
	vk.Assert(vk.Iff(ai, c.AutoInc), "auto increment tag")
	vk.Assert(vk.Imp(isNN, c.NotNull), "not null tag")
	vk.Assert(vk.Imp(vk.And(c.NotNull, vk.Not(c.AutoInc)), isNN), "not null tag")
	switch {
	case c.Type == "char" || c.Type == "varchar" || c.Type == "bit":
		want := ""
		if vk.Split(c.Size > 0) {
			want = sizedType(c)
		}
		vk.Assert(typ == want, "type tag with size")
	case isScaled(c.Type):
		want := ""
		if vk.Split(vk.And(c.Size > 0, c.Scale > 0)) {
			want = sizedType(c)
		}
		vk.Assert(typ == want || typ == sizedType(c), "type tag with size and scale")
	default:
		vk.Assert(typ == "" || typ == sizedType(c), "type tag")
	}
	var want []string
	for _, ix := range t.Indices {
		for i, n := range ix.Columns {
			if n == c.Name {
				if len(ix.Columns) == 1 {
					want = append(want, ix.Name)
				} else {
					want = append(want, cat(ix.Name, ",priority:", itoa(i+1)))
				}
			}
		}
	}
	need(len(idx) == len(want), "index tags")
	for i := range want {
		vk.Assert(idx[i] == want[i], "index tags")
	}
}

var gormModel = []string{"id", "created_at", "updated_at", "deleted_at"}

func gormRun(path string, args ...string) {
	run("generate succeeds", append([]string{"generate", "gorm", "-i", "in.json", "-o", path}, args...)...)
}

// one column of every type with every attribute
func C14_column() {
	c := dress("c", &Col{Name: cat("z", vk.Str("col", 1, "lower")), Type: vk.Pick("type", allTypes...)})
	switch {
	case c.Type == "varchar" || c.Type == "bit" || c.Type == "char":
		c.Size = vk.Int("size", 0, 64)
	case isScaled(c.Type):
		scaled("", c, 0)
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "lower")), Columns: []*Col{c, {Name: "y", Type: "int32", NotNull: true, Unique: vk.Bool("y.unique")}}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gormRun("out.go", "-u", "_uq")
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{models: map[string][]string{"gorm.Model": gormModel}, sfx: "_uq"})
}

// columns and tables of any name
func C14_names() {
	n := 3
	if vk.Thorough() {
		n = 4
	}
	c := &Col{Name: "ab", Type: "int32", NotNull: true}
	t := &Table{Name: "za", Columns: []*Col{c}}
	if vk.Choice("where", 2) == 0 {
		c.Name = vk.Str("name", n, "word")
		vk.Assume(vk.Or(c.Name[0] != '_', c.Name[1] != '_', c.Name[2] != '_'))
		if n == 4 {
			vk.Assume(c.Name[3] != '_')
		}
	} else {
		t.Name = vk.Str("name", n, "Ident")
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gormRun("out.go")
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{})
}

// suffixes and longer names
func C14_longnames() {
	c := &Col{Name: cat(vk.Str("a", 1, "lower"), vk.Pick("m", "_", "", "9", "_2_"), vk.Pick("b", "id", "Id", "ID", "at", "created_at"), vk.Pick("s", "", "_id", "1")), Type: vk.Pick("type", "int32", "varchar"), NotNull: true}
	t := &Table{Name: cat(vk.Pick("t", "tbl_", "T", "my-", "x "), vk.Str("t", 2, "lower")), Columns: []*Col{c, {Name: "zz", Type: "bit"}}}
	if vk.Choice("class", 2) == 1 {
		t.ClassName = cat("K", vk.Str("class", 2, "word"))
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	pkg := vk.Pick("pkg", "", "model")
	args := []string{}
	if pkg != "" {
		args = append(args, "-k", pkg)
	}
	gormRun("out.go", args...)
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{pkg: pkg})
}

// several unique columns, indices
func C14_keys() {
	t := &Table{Name: "zt"}
	for i := 0; i < 3; i++ {
		t.Columns = append(t.Columns, &Col{Name: "c" + string(rune('a'+i)), Type: "int32", NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("unique")})
	}
	switch vk.Choice("index", 4) {
	case 1:
		t.Indices = []*Index{{"ix" + vk.Str("ix", 1, "lower"), []string{"cb"}}}
	case 2:
		t.Indices = []*Index{{"ix", []string{"cb", "ca"}}, {"iy", []string{"cc", "cb", "ca"}}}
	case 3:
		t.Indices = []*Index{{"ix", []string{"ca", "cb"}}, {"iy", []string{"ca"}}}
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	sfx := vk.Pick("suffix", "", "_uq")
	args := []string{}
	if sfx != "" {
		args = append(args, "-u", sfx)
	}
	gormRun("dir", args...)
	gormCheck("dir/output.go", []*Table{t}, []*Table{t}, gormOpt{sfx: sfx})
}

// references among tables
func C14_refs() {
	var tabs []*Table
	for i, n := range []string{"za", "zb_x"} {
		t := &Table{Name: n, Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "code", Type: "varchar", Size: 9, NotNull: true}}}
		if vk.Choice("class", 2) == 1 {
			t.ClassName = "K" + itoa(i)
		}
		tabs = append(tabs, t)
	}
	ref := func(i int, name string, rels ...string) {
		c := &Col{Name: name, Type: "int64", NotNull: true}
		if to := vk.Pick("target", "", "za", "zb_x", "gone"); to != "" {
			c.Ref = &Ref{to, vk.Pick("column", "id", "code"), vk.Pick("rel", rels...)}
		}
		tabs[i].Columns = append(tabs[i].Columns, c)
	}
	ref(0, vk.Pick("refcol", cat("r", vk.Str("refcol", 1, "lower_"), "id"), "za", "zb_x"), "", "1:n", "1:1")
	if vk.Choice("second", 2) == 1 {
		ref(0, "s_id", "n:1")
	}
	if vk.Choice("third", 2) == 1 {
		ref(1, "za_id", "1:n")
	}
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	ptr := vk.Choice("pointer", 2) == 1
	args := []string{}
	if ptr {
		args = append(args, "-a")
	}
	gormRun("out.go", args...)
	gormCheck("out.go", tabs, tabs, gormOpt{ptr: ptr})
}

// embedded structs
func C14_embed() {
	t := &Table{Name: "zt"}
	for _, n := range []string{"id", "name", "created_at", "updated_at", "deleted_at"} {
		if vk.Choice("has "+n, 2) == 1 {
			t.Columns = append(t.Columns, &Col{Name: n, Type: map[string]string{"id": "int64", "name": "decimal"}[n], NotNull: n != "created_at"})
			c := t.Columns[len(t.Columns)-1]
			if c.Type == "" {
				c.Type = "datetime"
			}
			if n == "name" || n == "deleted_at" {
				c.NotNull, c.Unique = vk.Bool("nn"), vk.Bool("unique")
			}
		}
	}
	switch k := vk.Choice("other name", 4); {
	case k > 0 && len(t.Columns) > 3:
		x := t.Columns[[]int{0, 0, 1, len(t.Columns) - 1}[k]]
		x.Name = []string{"", cat(strings.ToUpper(x.Name[:1]), x.Name[1:]), cat(x.Name, "s"), strings.ToUpper(x.Name)}[k]
	case k > 0:
		vk.Stop()
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	models := map[string][]string{"gorm.Model": gormModel}
	args := []string{}
	switch vk.Choice("embed", 4) {
	case 1:
		models["IdName"] = []string{"id", "name"}
		args = append(args, "-e", "IdName:id,name")
	case 2:
		models["gorm.Model"] = nil
		args = append(args, "-e", "gorm.Model:")
	case 3:
		models["Zed"] = []string{"name"}
		args = append(args, "-e", "Zed:name")
	}
	gormRun("out.go", args...)
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{models: models})
}

// flags, keys and attributes in any combination
func C14_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	gormRun("out.go", "-u", "_uq")
	gormCheck("out.go", []*Table{t}, []*Table{t}, gormOpt{models: map[string][]string{"gorm.Model": gormModel}, sfx: "_uq"})
}

// references of columns with any flags
func C14_referring() {
	tabs := referring("int64", "varchar", "datetime")
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	gormRun("out.go", "-u", "_uq")
	gormCheck("out.go", tabs, tabs, gormOpt{models: map[string][]string{"gorm.Model": gormModel}, sfx: "_uq"})
}

// columns with the same name in camel case, or with the name of something else in the struct
func C14_collide() {
	tabs := colliding("model", "table_name", "TableName", "Zb", "zb", "zB")
	models := map[string][]string{"gorm.Model": gormModel}
	args := []string{"-u", "_uq"}
	switch vk.Choice("embed", 3) {
	case 1:
		for _, n := range gormModel {
			tabs[0].Columns = append(tabs[0].Columns, &Col{Name: n, Type: "int64"})
		}
	case 2:
		models["Zb"] = []string{tabs[0].Columns[0].Name}
		args = append(args, "-e", cat("Zb:", tabs[0].Columns[0].Name))
	}
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	gormRun("out.go", args...)
	gormCheck("out.go", tabs, tabs, gormOpt{models: models, sfx: "_uq"})
}
