package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

type pyField struct {
	name string
	args []string
}

type pyClass struct {
	name, table string
	uniqueCols  []string
	unique      string
	hasUnique   bool
	fields      []*pyField
}

type pyFile struct {
	imports []string // names imported, with their module: sqlalchemy.Column
	tz      bool
	classes []*pyClass
}

// pyArgs splits the arguments of a call at the top level.
func pyArgs(s string) []string {
	var out []string
	depth, from := 0, 0
	quote := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\'':
			quote = !quote
		case quote:
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		case s[i] == ',' && depth == 0:
			out = append(out, strings.TrimSpace(s[from:i]))
			from = i + 1
		}
	}
	if from > 0 || s != "" {
		out = append(out, strings.TrimSpace(s[from:]))
	}
	for _, a := range out {
		vk.Assert(a != "", "no argument is empty")
	}
	return out
}

func pyText(s string) string {
	n := len(s)
	need(n >= 2 && s[0] == '\'' && s[n-1] == '\'', "a text is quoted")
	return s[1 : n-1]
}

// pyRead reads the Python source of SQLAlchemy models.
func pyRead(path string) *pyFile {
	s, ok := vk.ReadFile(path)
	need(ok, "the output is written")
	f := &pyFile{}
	var cur *pyClass
	base, tz := false, false
	for _, l := range strings.Split(s, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "from "):
			need(cur == nil && !base, "imports come first")
			p := strings.Split(l[5:], " import ")
			need(len(p) == 2, "an import names a module")
			for _, n := range strings.Split(p[1], ", ") {
				vk.Assert(isIdent(n), "an import names identifiers")
				f.imports = append(f.imports, cat(p[0], ".", n))
			}
		case l == "Base = declarative_base(cls=RepresentableBase)":
			base = true
			vk.Assert(in("sqlalchemy.ext.declarative.declarative_base", f.imports) && in("sqlalchemy_repr.RepresentableBase", f.imports), "every name used is imported")
		case l == "class TZDateTime(TypeDecorator):":
			need(cur == nil && !f.tz, "the date type is declared once, before its use")
			f.tz, tz = true, true
		case strings.HasPrefix(l, "class "):
			x, ok := between(l, "class ", "(Base):")
			need(ok && base, "a class derives from the base")
			cur, tz = &pyClass{name: x}, false
			f.classes = append(f.classes, cur)
		case tz:
		case strings.HasPrefix(l, "    __tablename__ = "):
			need(cur != nil && cur.table == "", "a class has one table name")
			cur.table = pyText(l[20:])
		case strings.HasPrefix(l, "    __table_args__ = "):
			need(cur != nil && !cur.hasUnique, "table arguments are given once")
			x, ok := between(l[21:], "(UniqueConstraint(", "),)")
			need(ok, "the table arguments hold a unique constraint")
			cur.hasUnique = true
			for _, a := range pyArgs(x) {
				if strings.HasPrefix(a, "name=") {
					cur.unique = pyText(a[5:])
				} else {
					cur.uniqueCols = append(cur.uniqueCols, pyText(a))
				}
			}
		default:
			need(cur != nil && strings.HasPrefix(l, "    "), "a line belongs to a class")
			i := strings.Index(l, " = Column(")
			need(i > 4 && l[len(l)-1] == ')', "an attribute is a column")
			cur.fields = append(cur.fields, &pyField{l[4:i], pyArgs(l[i+10 : len(l)-1])})
		}
	}
	need(base, "the file is complete")
	return f
}

func saType(c *Col) []string {
	switch c.Type {
	case "char", "varchar":
		return []string{"String"}
	case "text8", "text16", "text24", "text32":
		return []string{"String", "Text"}
	case "boolean":
		return []string{"Boolean"}
	case "int8", "int16", "int24", "int32":
		return []string{"Integer"}
	case "int64":
		return []string{"BigInteger"}
	case "decimal":
		return []string{"Numeric"}
	case "float", "double":
		return []string{"Float"}
	case "datetime":
		return []string{"DateTime", "TZDateTime"}
	case "date":
		return []string{"Date"}
	case "time":
		return []string{"Time"}
	case "blob8", "blob16", "blob24", "blob32":
		return []string{"LargeBinary"}
	}
	return nil
}

type saOpt struct {
	sfx string
	utc bool
}

var pyWords = []string{
	"and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global",
	"if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield",
}

// reserved by the declarative base
var saWords = []string{"metadata", "registry"}

func saCheck(path string, tabs []*Table, class []string, o saOpt) {
	f := pyRead(path)
	need(len(f.classes) == len(tabs), "one class per table")
	for i, t := range tabs {
		g := f.classes[i]
		vk.Assert(g.table == t.Name, "a class is mapped to its table")
		vk.Assert(isIdent(g.name), "a class name is an identifier")
		if class != nil {
			vk.Assert(g.name == class[i], "class name")
		}
		need(len(g.fields) == len(t.Columns), "one attribute per column")
		var uqs []*Col
		for _, c := range t.Columns {
			if vk.Split(c.Unique) {
				uqs = append(uqs, c)
			}
		}
		for j, c := range t.Columns {
			for k := 0; k < j; k++ {
				vk.Assert(g.fields[k].name != g.fields[j].name, "attribute names differ")
			}
			saColumn(f, c, g.fields[j], len(uqs), o)
		}
		if len(uqs) > 1 {
			need(len(g.uniqueCols) == len(uqs), "several unique columns form one constraint")
			for k, c := range uqs {
				vk.Assert(g.uniqueCols[k] == c.Name, "the unique constraint lists the unique columns")
			}
			vk.Assert(g.unique == cat(t.Name, o.sfx), "the unique constraint has its name")
			vk.Assert(in("sqlalchemy.UniqueConstraint", f.imports), "every name used is imported")
		} else {
			vk.Assert(!g.hasUnique, "only several unique columns need a constraint")
		}
	}
	if f.tz {
		vk.Assert(in("sqlalchemy.TypeDecorator", f.imports) && in("sqlalchemy.DateTime", f.imports) && in("datetime.timezone", f.imports), "every name used is imported")
	}
}

func saColumn(f *pyFile, c *Col, g *pyField, uniques int, o saOpt) {
	vk.Assert(vk.And(isIdent(g.name), !in(g.name, pyWords), !in(g.name, saWords)), "an attribute name is an identifier")
	for _, i := range f.imports {
		vk.Assert(g.name != i[strings.LastIndex(i, ".")+1:], "an attribute does not hide an imported name")
	}
	vk.Assert(letters(g.name) == letters(c.Name), "an attribute is named after its column")
	vk.Assert(in("sqlalchemy.Column", f.imports), "every name used is imported")
	args := g.args
	column := g.name
	if len(args) > 0 && args[0][0] == '\'' {
		column = pyText(args[0])
		args = args[1:]
	}
	vk.Assert(column == c.Name, "an attribute is mapped to its column")
	want := saType(c)
	if c.Type == "bit" && vk.Split(c.Size == 1) {
		want = []string{"Boolean"}
	}
	hasType := len(args) > 0 && args[0] != "" && !strings.Contains(strings.Split(args[0], "(")[0], "=")
	need(hasType || len(want) == 0, "a column has its type")
	if hasType {
		p := strings.SplitN(args[0], "(", 2)
		if len(want) > 0 {
			vk.Assert(in(p[0], want), "a column has its type")
		}
		if p[0] == "TZDateTime" {
			vk.Assert(o.utc && f.tz, "the date type is declared where it is used")
		} else {
			vk.Assert(in(cat("sqlalchemy.", p[0]), f.imports), "every name used is imported")
		}
		var ta []string
		if len(p) == 2 {
			x, ok := between(p[1], "", ")")
			need(ok, "a type is complete")
			ta = pyArgs(x)
		}
		switch {
		case c.Type == "char" || c.Type == "varchar":
			if vk.Split(c.Size > 0) {
				vk.Assert(len(ta) == 1 && ta[0] == itoa(c.Size), "a text column has its length")
			} else {
				vk.Assert(len(ta) == 0, "a text column has its length")
			}
		case isScaled(c.Type):
			var w []string
			if vk.Split(c.Size > 0) {
				w = append(w, cat("precision=", itoa(c.Size)))
			}
			if c.Type == "decimal" && vk.Split(c.Scale > 0) {
				w = append(w, cat("scale=", itoa(c.Scale)))
			}
			need(len(ta) == len(w), "a number has the precision its type can take")
			for i := range w {
				vk.Assert(ta[i] == w[i], "a number has the precision its type can take")
			}
		default:
			vk.Assert(len(ta) == 0 || c.Type == "enum" || c.Type == "set" || c.Type == "bit" || isText(c.Type), "a type has no size")
		}
		args = args[1:]
	}
	flags := map[string]string{}
	for _, a := range args {
		p := strings.SplitN(a, "=", 2)
		need(len(p) == 2, "an argument has a name")
		_, dup := flags[p[0]]
		need(!dup, "an argument is given once")
		flags[p[0]] = p[1]
	}
	is := func(k string) bool { v, ok := flags[k]; return ok && v == "True" }
	vk.Assert(vk.Iff(is("primary_key"), c.PK), "primary key")
	vk.Assert(vk.Iff(is("unique"), vk.And(c.Unique, uniques == 1)), "a single unique column is unique on its own")
	vk.Assert(vk.Iff(is("autoincrement"), c.AutoInc), "auto increment")
	v, null := flags["nullable"]
	vk.Assert(vk.Imp(null, v == "False" && c.NotNull), "nullability")
	vk.Assert(vk.Imp(vk.And(c.NotNull, vk.Not(c.AutoInc)), null), "nullability")
	now := "datetime.now"
	if o.utc {
		now = "datetime.utcnow"
	}
	audit := c.Type == "datetime" && (c.Name == "created_at" || c.Name == "updated_at")
	d, isD := flags["default"]
	u, isU := flags["onupdate"]
	vk.Assert(isD == audit && (!isD || d == now), "audit columns have a default")
	vk.Assert(isU == (audit && c.Name == "updated_at") && (!isU || u == now), "the update column has an update value")
	if isD {
		vk.Assert(in("datetime.datetime", f.imports), "every name used is imported")
	}
	for _, a := range args {
		k := strings.SplitN(a, "=", 2)[0]
		vk.Assert(in(k, []string{"primary_key", "unique", "autoincrement", "nullable", "default", "onupdate"}), "an argument is a known one")
	}
}

func saRun(out string, o saOpt, args ...string) {
	args = append([]string{"generate", "sqlalchemy", "-i", "in.json", "-o", out}, args...)
	if o.utc {
		args = append(args, "-t")
	}
	if o.sfx != "" {
		args = append(args, "-u", o.sfx)
	}
	run("generate succeeds", args...)
}

// one column of every type with every attribute
func C16_column() {
	c := dress("c", &Col{Name: cat("z", vk.Str("col", 1, "lower")), Type: vk.Pick("type", allTypes...)})
	switch {
	case isText(c.Type):
		c.Size = vk.Int("size", 0, 64)
	case c.Type == "bit":
		c.Size = vk.Int("size", 0, 8)
	case isScaled(c.Type):
		scaled("", c, 0)
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "word")), ClassName: "Ent", Columns: []*Col{c, {Name: "y", Type: "int32", NotNull: true, Unique: vk.Bool("y.unique")}}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := saOpt{sfx: "_uq"}
	out := "out.py"
	if vk.Choice("separate", 2) == 1 {
		saRun("dir", o)
		out = cat("dir/", t.Name, ".py")
	} else {
		saRun(out, o)
	}
	saCheck(out, []*Table{t}, []string{"Ent"}, o)
}

// names of any kind
func C16_names() {
	n := 3
	if vk.Thorough() {
		n = 4
	}
	c := &Col{Name: "ab", Type: vk.Pick("type", "int32", "datetime"), NotNull: vk.Bool("nn"), Unique: vk.Bool("unique")}
	d := &Col{Name: "zz", Type: "int32", Unique: vk.Bool("unique2")}
	switch vk.Choice("where", 3) {
	case 0:
		c.Name = vk.Str("name", n, "word")
		vk.Assume(vk.Or(c.Name[0] != '_', c.Name[1] != '_', c.Name[2] != '_'))
		if n == 4 {
			vk.Assume(c.Name[3] != '_')
		}
	case 1:
		c.Name = vk.Pick("word", append([]string{"created_at", "updated_at", "createdAt", "metadata", "registry", "None", "True"}, pyWords...)...)
	case 2:
		c.Name = cat(vk.Str("a", 1, "lower"), vk.Pick("m", "_", "", "9"), vk.Pick("b", "id", "Id", "ID", "at"), vk.Pick("s", "", "_id", "1"))
	}
	vk.Assume(letters(c.Name) != "zz")
	t := &Table{Name: "za", ClassName: "Ent", Columns: []*Col{c, d}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := saOpt{utc: vk.Choice("utc", 2) == 1}
	saRun("out.py", o)
	saCheck("out.py", []*Table{t}, []string{"Ent"}, o)
}

// several tables in one file or one file each
func C16_files() {
	var tabs []*Table
	var class []string
	types := []string{"datetime", "varchar", "boolean", "int64"}
	o := saOpt{utc: vk.Choice("utc", 2) == 1, sfx: vk.Pick("suffix", "", "_uq")}
	for i := 0; i < 3; i++ {
		t := &Table{Name: cat("z", itoa(i), vk.Str("tab", 1, "lower")), ClassName: "K" + itoa(i)}
		switch i {
		case 0:
			t.Columns = []*Col{{Name: vk.Pick("name", "created_at", "updated_at", "seen_at"), Type: vk.Pick("type0", types...)}}
		case 1:
			t.Columns = []*Col{{Name: "a", Type: vk.Pick("type1", types...), Unique: vk.Bool("u")}, {Name: "class", Type: "int64", Unique: vk.Bool("u")}, {Name: "b", Type: "date"}}
		case 2:
			t.Columns = []*Col{{Name: "seen_at", Type: vk.Pick("type2", types[:2]...), PK: vk.Bool("pk")}}
		}
		tabs, class = append(tabs, t), append(class, t.ClassName)
	}
	tabs, class = tabs[:2+vk.Choice("tables", 2)], class[:len(tabs)]
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	if vk.Choice("single", 2) == 1 {
		saRun("dir/all.py", o)
		saCheck("dir/all.py", tabs, class[:len(tabs)], o)
		return
	}
	saRun("dir", o)
	for i, t := range tabs {
		saCheck(cat("dir/", t.Name, ".py"), []*Table{t}, class[i:i+1], o)
	}
}

// derived class names
func C16_classes() {
	t := &Table{Name: vk.Str("name", 3, "Ident"), Columns: []*Col{{Name: "a", Type: "int64"}}}
	if vk.Choice("class", 2) == 1 {
		t.ClassName = cat("K", vk.Str("class", 2, "word"))
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	saRun("out.py", saOpt{})
	saCheck("out.py", []*Table{t}, nil, saOpt{})
}

// flags, keys and attributes in any combination
func C16_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	t.ClassName = "Ent"
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := saOpt{sfx: "_uq"}
	saRun("out.py", o)
	saCheck("out.py", []*Table{t}, []string{"Ent"}, o)
}

// references of columns with any flags
func C16_referring() {
	tabs := referring("int64", "varchar", "datetime")
	tabs[0].ClassName, tabs[1].ClassName = "Ent", "Ent2"
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	o := saOpt{sfx: "_uq"}
	saRun("all.py", o)
	saCheck("all.py", tabs, []string{"Ent", "Ent2"}, o)
}

// columns with the same name in snake case, or with a name which is used otherwise
func C16_collide() {
	tabs := colliding("class", "class_", "Class", "datetime", "created_at", "updated_at", "metadata")
	tabs[0].ClassName, tabs[1].ClassName = "Ent", "Ent2"
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	o := saOpt{sfx: "_uq", utc: vk.Choice("utc", 2) == 1}
	saRun("all.py", o)
	saCheck("all.py", tabs, []string{"Ent", "Ent2"}, o)
}
