package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

type ktField struct {
	annots         []string
	name, typ, def string
	override       bool
	hasDef, quoted bool
}

type ktFile struct {
	pkg                        string
	imports, annots            []string
	table, unique, idClass     string
	uniqueCols                 []string
	name, super                string
	fields                     []*ktField
	pkName                     string
	pkFields                   []*ktField
	hasTable, hasPkg, hasClass bool
}

// quoted texts of a list: "a", "b"
func quotedList(s string) []string {
	var out []string
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ", ") {
		n := len(p)
		need(n >= 2 && p[0] == '"' && p[n-1] == '"', "a list holds quoted texts")
		out = append(out, p[1:n-1])
	}
	return out
}

// between cuts the text between a prefix and a suffix.
func between(s, pre, post string) (string, bool) {
	if len(s) >= len(pre)+len(post) && strings.HasPrefix(s, pre) && strings.HasSuffix(s, post) {
		return s[len(pre) : len(s)-len(post)], true
	}
	return "", false
}

// ktRead reads a Kotlin entity.
func ktRead(path string) *ktFile {
	s, ok := vk.ReadFile(path)
	need(ok, "the output is written")
	f := &ktFile{}
	state := 0 // 0 header, 1 in the table annotation, 2 in the class, 3 after it, 4 in the key class
	var annots []string
	prop := func(l string, list []*ktField) []*ktField {
		need(len(list) == 0 || list[len(list)-1].quoted, "properties are separated by commas")
		p := &ktField{annots: annots}
		annots = nil
		if strings.HasPrefix(l, "override ") {
			p.override, l = true, l[9:]
		}
		p.quoted = strings.HasSuffix(l, ",")
		l = strings.TrimSuffix(l, ",")
		i := strings.Index(l, ": ")
		need(strings.HasPrefix(l, "var ") && i > 4, "a property is declared")
		p.name, p.typ = l[4:i], l[i+2:]
		if n := len(p.name); n > 2 && p.name[0] == '`' && p.name[n-1] == '`' {
			p.name = p.name[1 : n-1]
		} else {
			vk.Assert(isIdent(p.name) && !in(p.name, ktWords), "a property name is an identifier")
		}
		if j := strings.Index(p.typ, " ="); j >= 0 {
			p.hasDef = true
			p.def = strings.TrimSpace(p.typ[j+2:])
			p.typ = p.typ[:j]
			vk.Assert(p.def != "", "an initial value is not empty")
		}
		return append(list, p)
	}
	for _, l := range strings.Split(s, "\n") {
		l = strings.Trim(l, " \t")
		x, is := "", false
		switch {
		case l == "":
		case state == 0 && strings.HasPrefix(l, "package "):
			f.hasPkg = true
			f.pkg = l[8:]
		case state == 0 && strings.HasPrefix(l, "import "):
			f.imports = append(f.imports, l[7:])
		case state == 0 && strings.HasPrefix(l, "@Table("):
			f.hasTable = true
			if x, is = between(l, `@Table(name = "`, `")`); is {
				f.table = x
				break
			}
			x, is = between(l, `@Table(name="`, `", uniqueConstraints = [`)
			need(is, "the table annotation has a known form")
			f.table, state = x, 1
		case state == 1 && l == "])":
			state = 0
		case state == 1:
			x, is = between(l, `UniqueConstraint(name = "`, `])`)
			i := strings.Index(x, `", columnNames = [`)
			need(is && i >= 0, "the unique constraint has a known form")
			f.unique, f.uniqueCols = x[:i], quotedList(x[i+18:])
		case state == 0 && strings.HasPrefix(l, "@IdClass("):
			x, is = between(l, "@IdClass(", "::class)")
			need(is, "the id class annotation has a known form")
			f.idClass = x
		case state == 0 && l[0] == '@':
			f.annots = append(f.annots, l)
		case state == 0 && strings.HasPrefix(l, "data class "):
			x, is = between(l, "data class ", "(")
			need(is, "the class has a known form")
			f.hasClass, f.name, state = true, x, 2
		case (state == 2 || state == 4) && l[0] == ')':
			if state == 2 {
				f.super = strings.TrimPrefix(l[1:], ": ")
			} else {
				need(l == "): Serializable", "the key class is serializable")
			}
			need(len(annots) == 0, "an annotation belongs to a property")
			state = 3
		case (state == 2 || state == 4) && l[0] == '@':
			annots = append(annots, l)
		case state == 2:
			f.fields = prop(l, f.fields)
		case state == 4:
			f.pkFields = prop(l, f.pkFields)
		case state == 3:
			x, is = between(l, "data class ", "(")
			need(is && f.pkName == "", "only a key class follows")
			f.pkName, state = x, 4
		default:
			need(false, "the file has a known form")
		}
	}
	need(state == 3 && f.hasClass, "the file is complete")
	return f
}

var ktWords = []string{
	"as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null", "object",
	"package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while",
}

var ktImports = map[string]string{
	"BigDecimal": "java.math.BigDecimal", "Timestamp": "java.sql.Timestamp", "LocalDate": "java.time.LocalDate", "LocalTime": "java.time.LocalTime",
	"Blob": "java.sql.Blob", "@CreationTimestamp": "org.hibernate.annotations.CreationTimestamp", "@UpdateTimestamp": "org.hibernate.annotations.UpdateTimestamp",
	"Serializable": "java.io.Serializable",
}

func ktType(t string) []string {
	switch t {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return []string{"String"}
	case "enum":
		return []string{"String", "Any"}
	case "boolean":
		return []string{"Boolean"}
	case "int8", "int16", "int24", "int32":
		return []string{"Int"}
	case "int64":
		return []string{"Long"}
	case "decimal":
		return []string{"BigDecimal"}
	case "float":
		return []string{"Float"}
	case "double":
		return []string{"Double"}
	case "datetime":
		return []string{"Timestamp"}
	case "date":
		return []string{"LocalDate"}
	case "time":
		return []string{"LocalTime"}
	case "blob8", "blob16", "blob24", "blob32":
		return []string{"Blob"}
	}
	return []string{"Any"}
}

type ktOpt struct {
	pkg, sfx, idEntity string
	annots             map[string][]string // by group
	vrel               map[string]string   // class name by table name
}

// snakeOf is the column a naming strategy derives from a camel case name.
func snakeOf(f string) string {
	out := ""
	for i := 0; i < len(f); i++ {
		if i > 0 && vk.Split(vk.And(f[i] >= 'A', f[i] <= 'Z')) {
			out += "_"
		}
		out += strings.ToLower(f[i : i+1])
	}
	return out
}

func ktCheck(path, class string, t *Table, o ktOpt) *ktFile {
	f := ktRead(path)
	vk.Assert(f.name == class, "class name")
	vk.Assert(f.pkg == o.pkg, "package name")
	vk.Assert(f.hasPkg == (o.pkg != ""), "a package is declared when there is one")
	vk.Assert(f.hasTable && f.table == t.Name, "the entity is mapped to the table")
	vk.Assert(in("@Entity", f.annots), "the class is an entity")
	want := strings.Join(append(append([]string{}, o.annots[t.Group]...), "@Entity"), "")
	vk.Assert(strings.Join(f.annots, "") == want, "class annotations of the group")
	need(len(f.fields) == len(t.Columns), "one property per column")
	var pks, uqs []int
	for i, c := range t.Columns {
		if vk.Split(c.PK) {
			pks = append(pks, i)
		}
		if vk.Split(c.Unique) {
			uqs = append(uqs, i)
		}
	}
	var used []string
	use := func(typ string) {
		typ = strings.TrimSuffix(typ, "?")
		if imp, ok := ktImports[typ]; ok && !in(imp, used) {
			used = append(used, imp)
		}
	}
	columns := map[string]string{}
	for i, c := range t.Columns {
		p := f.fields[i]
		vk.Assert(p.quoted || i == len(t.Columns)-1, "properties are separated by commas")
		for j := 0; j < i; j++ {
			vk.Assert(f.fields[j].name != p.name, "property names differ")
		}
		columns[c.Name] = ktColumn(c, p, o)
		use(p.typ)
		for _, a := range p.annots {
			use(a)
		}
		id := o.idEntity != "" && len(pks) == 1 && pks[0] == i && p.name == "id"
		vk.Assert(p.override == id, "only the id of an id entity overrides")
		if id {
			vk.Assert(f.super == cat(o.idEntity, "<", p.typ, ">"), "the id entity has the type of the id")
		}
	}
	if o.idEntity == "" || len(pks) != 1 || f.fields[pks[0]].name != "id" {
		vk.Assert(f.super == "", "only an entity with a single id is an id entity")
	}
	// unique constraint
	need(len(f.uniqueCols) == len(uqs), "the unique constraint lists the unique columns")
	for k, i := range uqs {
		c := t.Columns[i]
		n := columns[c.Name]
		vk.Assert(vk.Or(f.uniqueCols[k] == c.Name, vk.And(n == "", f.uniqueCols[k] == f.fields[i].name)), "the unique constraint lists the unique columns")
	}
	if len(uqs) > 0 {
		vk.Assert(f.unique == cat(t.Name, o.sfx), "the unique constraint has its name")
	}
	// key class
	if len(pks) > 1 {
		need(f.pkName != "" && f.idClass == f.pkName && f.pkName != class, "a composite key has a class")
		need(len(f.pkFields) == len(pks), "the key class has the key columns")
		for k, i := range pks {
			g, w := f.pkFields[k], f.fields[i]
			vk.Assert(g.name == w.name && g.typ == w.typ, "the key class has the key columns")
			vk.Assert(g.quoted || k == len(pks)-1, "properties are separated by commas")
		}
		use("Serializable")
	} else {
		vk.Assert(f.pkName == "" && f.idClass == "", "a single key needs no class")
	}
	vk.Assert(in("javax.persistence.*", f.imports), "persistence annotations are imported")
	for _, imp := range used {
		vk.Assert(in(imp, f.imports), "every type and annotation is imported")
	}
	for _, i := range f.imports {
		vk.Assert(i == "javax.persistence.*" || in(i, used), "only used types are imported")
	}
	return f
}

// ktColumn checks one property and gives its explicit column name.
func ktColumn(c *Col, p *ktField, o ktOpt) string {
	vk.Assert(letters(p.name) == letters(c.Name), "a property is named after its column")
	typ := strings.TrimSuffix(p.typ, "?")
	vk.Assert(in(typ, ktType(c.Type)), "a property has the type of its column")
	vk.Assert(vk.Iff(typ != p.typ, vk.Not(c.NotNull)), "a property is nullable when its column is")
	first := map[string]string{"String": `""`, "Boolean": "false", "Int": "0", "Long": "0L", "BigDecimal": "BigDecimal.ZERO", "Float": "0.0F", "Double": "0.0",
		"Timestamp": "Timestamp(System.currentTimeMillis())", "LocalDate": "LocalDate.now()", "LocalTime": "LocalTime.now()"}[typ]
	if typ != p.typ {
		first = ""
	}
	vk.Assert(p.hasDef == (first != "") && p.def == first, "a property that is not nullable has the initial value of its type")
	var id, gen, lob, col, vrel bool
	name := ""
	var keys, vals []string
	for _, a := range p.annots {
		switch {
		case a == "@Id":
			id = true
		case a == "@GeneratedValue(strategy = GenerationType.AUTO)":
			gen = true
		case a == "@Lob":
			lob = true
		case a == "@CreationTimestamp" || a == "@UpdateTimestamp":
			w := "updatedat"
			if a == "@CreationTimestamp" {
				w = "createdat"
			}
			vk.Assert(c.Type == "datetime" && letters(c.Name) == w, "audit annotations are for audit columns")
		case strings.HasPrefix(a, "@VRelation("):
			need(c.Ref != nil && o.vrel != nil, "a relation annotation stands for a reference")
			x, ok := between(a, `@VRelation(cls = "`, `")`)
			q := strings.Split(x, `", field = "`)
			need(ok && len(q) == 2, "a relation annotation has a known form")
			vk.Assert(q[0] == o.vrel[c.Ref.Table] && letters(q[1]) == letters(c.Ref.Column), "a relation annotation names the target")
			vrel = true
		default:
			x, ok := between(a, "@Column(", ")")
			need(ok && !col, "an annotation is a known one")
			col = true
			for _, kv := range strings.Split(x, ", ") {
				q := strings.SplitN(kv, " = ", 2)
				need(len(q) == 2, "a column attribute has a value")
				need(!in(q[0], keys), "a column attribute is written once")
				keys, vals = append(keys, q[0]), append(vals, q[1])
			}
		}
	}
	vk.Assert(vk.Iff(id, c.PK), "id annotation")
	vk.Assert(vk.Iff(gen, c.AutoInc), "generated value annotation")
	vk.Assert(lob == strings.HasPrefix(c.Type, "text"), "lob annotation")
	vk.Assert(vrel == (o.vrel != nil && c.Ref != nil), "a relation annotation stands for a reference")
	for i, k := range keys {
		v := vals[i]
		switch k {
		case "name":
			n := len(v)
			need(n >= 2 && v[0] == '"' && v[n-1] == '"', "a column name is a text")
			name = v[1 : n-1]
			vk.Assert(name == c.Name, "a property is mapped to its column")
		case "nullable":
			vk.Assert(vk.And(v == "false", c.NotNull), "nullable attribute")
		case "length":
			vk.Assert(isText(c.Type) && v == itoa(c.Size), "length attribute")
		case "precision":
			vk.Assert(isScaled(c.Type) && v == itoa(c.Size), "precision attribute")
		case "scale":
			vk.Assert(isScaled(c.Type) && v == itoa(c.Scale), "scale attribute")
		case "updatable":
			vk.Assert(v == "false" && c.Type == "datetime" && letters(c.Name) == "createdat", "updatable attribute")
		default:
			need(false, "a column attribute is a known one")
		}
	}
	has := func(k string) bool { return in(k, keys) }
	vk.Assert(vk.Imp(c.NotNull, has("nullable")), "nullable attribute")
	vk.Assert(vk.Imp(vk.And(isText(c.Type), c.Size > 0), has("length")), "length attribute")
	vk.Assert(vk.Imp(vk.And(isScaled(c.Type), c.Size > 0), has("precision")), "precision attribute")
	vk.Assert(vk.Imp(vk.And(isScaled(c.Type), c.Scale > 0), has("scale")), "scale attribute")
	if name == "" {
		under := false
		for i := 1; i < len(c.Name); i++ {
			under = vk.Or(under, vk.And(c.Name[i-1] == '_', isDigit(c.Name[i])))
		}
		vk.Tag("digit after underscore", under)
		vk.Assert(snakeOf(p.name) == c.Name, "a property is mapped to its column")
	}
	return name
}

func ktRun(args ...string) {
	run("generate succeeds", append([]string{"generate", "kt", "-i", "in.json", "-o", "dir"}, args...)...)
}

// one column of every type with every attribute
func C15_column() {
	c := dress("c", &Col{Name: cat("z", vk.Str("col", 1, "lower")), Type: vk.Pick("type", allTypes...)})
	switch {
	case isText(c.Type):
		c.Size = vk.Int("size", 0, 64)
	case isScaled(c.Type):
		scaled("", c, 0)
	}
	t := &Table{Name: cat("z", vk.Str("tab", 1, "word")), ClassName: "Ent", Columns: []*Col{c, {Name: "y", Type: "int32", NotNull: true, Unique: vk.Bool("y.unique")}}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	ktRun("-p", "m", "-q", "_uq")
	ktCheck("dir/m/Ent.kt", "Ent", t, ktOpt{pkg: "m", sfx: "_uq"})
}

// column names of any kind
func C15_names() {
	n := 3
	if vk.Thorough() {
		n = 4
	}
	c := &Col{Name: "ab", Type: vk.Pick("type", "int32", "datetime"), NotNull: vk.Bool("nn"), Unique: vk.Bool("unique")}
	switch vk.Choice("where", 3) {
	case 0:
		c.Name = vk.Str("name", n, "word")
		vk.Assume(vk.Or(c.Name[0] != '_', c.Name[1] != '_', c.Name[2] != '_'))
		if n == 4 {
			vk.Assume(c.Name[3] != '_')
		}
	case 1:
		c.Name = vk.Pick("word", append([]string{"created_at", "updated_at", "createdAt", "createdat"}, ktWords...)...)
	case 2:
		c.Name = cat(vk.Str("a", 1, "lower"), vk.Pick("m", "_", "", "9"), vk.Pick("b", "id", "Id", "ID", "at"), vk.Pick("s", "", "_id", "1"))
	}
	t := &Table{Name: "za", ClassName: "Ent", Columns: []*Col{c}}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	ktRun("-p", "m")
	ktCheck("dir/m/Ent.kt", "Ent", t, ktOpt{pkg: "m"})
}

// keys at any place, with an id entity
func C15_keys() {
	t := &Table{Name: "zt", ClassName: "Ent"}
	for i, n := range []string{vk.Pick("id", "id", "ID", "_id", "Id"), "user_name", "x9"} {
		c := &Col{Name: n, Type: "int64", NotNull: vk.Bool("nn"), PK: vk.Bool("pk"), Unique: vk.Bool("unique")}
		if i == 1 {
			c.Type = vk.Pick("type", "varchar", "decimal", "enum")
			if c.Type == "enum" {
				c.Values = []string{"x"}
			}
		}
		t.Columns = append(t.Columns, c)
	}
	t.Columns = t.Columns[:1+vk.Choice("columns", 3)]
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := ktOpt{pkg: "a.b", sfx: vk.Pick("suffix", "", "_uq"), idEntity: vk.Pick("idEntity", "", "IdEntity")}
	args := []string{"-p", "a.b"}
	if o.sfx != "" {
		args = append(args, "-q", o.sfx)
	}
	if o.idEntity != "" {
		args = append(args, "-e", o.idEntity)
	}
	ktRun(args...)
	ktCheck("dir/a/b/Ent.kt", "Ent", t, o)
}

// repositories
func C15_repos() {
	t := &Table{Name: "zt", ClassName: cat("E", vk.Str("class", 1, "alnum"))}
	for i, n := range []string{"a", "b"} {
		c := &Col{Name: n, Type: "int64", NotNull: i == 0, PK: vk.Bool("pk")}
		if i == 0 {
			c.Type = vk.Pick("type", "int32", "varchar", "decimal", "datetime", "date", "boolean")
		}
		t.Columns = append(t.Columns, c)
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	pkg, repos := vk.Pick("pkg", "", "m", "a.b"), vk.Pick("repos", "r", "a.r")
	args := []string{"-r", repos}
	if pkg != "" {
		args = append(args, "-p", pkg)
	}
	ktRun(args...)
	dir := "dir/"
	if pkg != "" {
		dir = cat("dir/", strings.ReplaceAll(pkg, ".", "/"), "/")
	}
	f := ktCheck(cat(dir, t.ClassName, ".kt"), t.ClassName, t, ktOpt{pkg: pkg})
	var pks []*ktField
	for i, c := range t.Columns {
		if vk.Split(c.PK) {
			pks = append(pks, f.fields[i])
		}
	}
	s, ok := vk.ReadFile(cat("dir/", strings.ReplaceAll(repos, ".", "/"), "/", t.ClassName, "Repository.kt"))
	if len(pks) == 0 && !ok {
		return
	}
	need(ok, "a repository is written")
	var imports []string
	decl, found := "", false
	for _, l := range strings.Split(s, "\n") {
		switch {
		case l == "" || l == "@Repository":
		case strings.HasPrefix(l, "package "):
			vk.Assert(l[8:] == repos, "the repository is in its package")
		case strings.HasPrefix(l, "import "):
			imports = append(imports, l[7:])
		default:
			need(!found, "one repository per file")
			decl, found = l, true
		}
	}
	id := "Any"
	switch len(pks) {
	case 0:
	case 1:
		id = pks[0].typ
	default:
		id = f.pkName
	}
	id2 := strings.TrimSuffix(id, "?")
	w := cat("interface ", t.ClassName, "Repository : JpaRepository<", t.ClassName, ", ")
	vk.Assert(decl == cat(w, id, ">") || decl == cat(w, id2, ">"), "the repository is for the entity and its key")
	if pkg != "" {
		vk.Assert(in(cat(pkg, ".*"), imports) || in(cat(pkg, ".", t.ClassName), imports), "the entity is imported")
	}
	vk.Assert(in("org.springframework.data.jpa.repository.JpaRepository", imports) && in("org.springframework.stereotype.Repository", imports), "repository types are imported")
	if imp, ok := ktImports[id2]; ok {
		vk.Assert(in(imp, imports), "the key type is imported")
	}
	for _, i := range imports {
		need(i != "" && i[0] != '.', "an import is complete")
	}
}

// annotations by group and relation annotations
func C15_annotations() {
	t := &Table{Name: "zt", ClassName: "Ent", Group: vk.Pick("group", "", "g", "h"), Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "u_ser", Type: "int64"}}}
	u := &Table{Name: cat("z", vk.Str("tab", 1, "lower")), Group: t.Group, ClassName: vk.Pick("class", "Other", "Ent2"), Columns: []*Col{{Name: "id", Type: "int64"}, {Name: "the_code", Type: "int64"}}}
	vk.Assume(u.Name != t.Name)
	o := ktOpt{pkg: "m", annots: map[string][]string{}}
	args := []string{"-p", "m"}
	switch vk.Choice("annotation", 5) {
	case 1:
		o.annots = map[string][]string{"": {"@X"}, "g": {"@X"}, "h": {"@X"}}
		args = append(args, "-a", "@X")
	case 2:
		o.annots = map[string][]string{"g": {"@G"}, "h": {"@H"}}
		args = append(args, "-a", "g:@G,h:@H")
	case 3:
		o.annots = map[string][]string{"g": {"@G", "@I"}}
		args = append(args, "-a", "g:@G;@I")
	case 4: // marks and letters of any kind in an annotation
		x := vk.Str("anno", 1, "plain")
		vk.Assume(vk.And(x != ",", x != ";"))
		o.annots = map[string][]string{"g": {cat("@G(\"", x, ":y\")"), "@I", "@J(a = 1)"}, "h": {cat("@H", x)}}
		args = append(args, "-a", cat("h:@H", x, ",g:@G(\"", x, ":y\");@I;@J(a = 1)"))
	}
	if vk.Choice("relation", 2) == 1 {
		args = append(args, "-l", "VRelation")
		o.vrel = map[string]string{t.Name: t.ClassName, u.Name: u.ClassName}
	}
	if to := vk.Choice("ref", 3); to > 0 {
		t.Columns[1].Ref = &Ref{[]string{"", "zt", u.Name}[to], vk.Pick("refcol", "id", "the_code"), vk.Pick("rel", "", "1:n")}
	}
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t, u}})
	ktRun(args...)
	ktCheck("dir/m/Ent.kt", "Ent", t, o)
	ktCheck(cat("dir/m/", u.ClassName, ".kt"), u.ClassName, u, o)
}

// flags, keys and attributes in any combination
func C15_mixed() {
	t := mixed("varchar", "decimal", "datetime", "int64")
	t.ClassName = "Ent"
	vk.WriteJSON("in.json", &Schema{Tables: []*Table{t}})
	o := ktOpt{pkg: "m", sfx: "_uq", idEntity: vk.Pick("idEntity", "", "IdEntity")}
	args := []string{"-p", "m", "-q", "_uq"}
	if o.idEntity != "" {
		args = append(args, "-e", o.idEntity)
	}
	ktRun(args...)
	ktCheck("dir/m/Ent.kt", "Ent", t, o)
}

// references of columns with any flags
func C15_referring() {
	tabs := referring("int64", "varchar", "datetime")
	for _, c := range tabs[0].Columns {
		vk.Assume(c.Ref == nil || c.Ref.Table != "gone" && c.Ref.Table != "ZB_x")
	}
	tabs[0].ClassName, tabs[1].ClassName = "Ent", "Ent2"
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	o := ktOpt{pkg: "m", sfx: "_uq", vrel: map[string]string{"za": "Ent", "zb_x": "Ent2"}}
	ktRun("-p", "m", "-q", "_uq", "-l", "VRelation")
	ktCheck("dir/m/Ent.kt", "Ent", tabs[0], o)
	ktCheck("dir/m/Ent2.kt", "Ent2", tabs[1], o)
}

// columns with the same name in camel case
func C15_collide() {
	tabs := colliding("class", "class_", "Class", "id", "ID", "1a", "_1a")
	tabs[0].ClassName, tabs[1].ClassName = "Ent", "Ent2"
	vk.WriteJSON("in.json", &Schema{Tables: tabs})
	o := ktOpt{pkg: "m", sfx: "_uq", vrel: map[string]string{tabs[0].Name: "Ent", tabs[1].Name: "Ent2"}}
	ktRun("-p", "m", "-q", "_uq", "-l", "VRelation")
	f := ktCheck("dir/m/Ent.kt", "Ent", tabs[0], o)
	g := ktCheck("dir/m/Ent2.kt", "Ent2", tabs[1], o)
	for _, a := range g.fields[1].annots {
		if x, ok := between(a, `@VRelation(cls = "`, `")`); ok {
			for i, c := range tabs[0].Columns {
				if c.Name == tabs[1].Columns[1].Ref.Column {
					vk.Assert(x == cat(`Ent", field = "`, f.fields[i].name), "a relation annotation names the target")
				}
			}
		}
	}
}
