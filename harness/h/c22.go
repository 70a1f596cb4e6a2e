package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// setting is a documented option of some commands.
type setting struct {
	cmds             string // names of the commands
	long, short, env string
	flag             bool // takes no value
	shown            func(v string) string
}

func plainly(v string) string { return v }
func surely(text string) func(string) string {
	return func(string) string { return text }
}

// the documented options with an effect; shown gives a text the output then has, and otherwise not
var settings = []setting{
	{"import mysql", "author", "a", "AUTHOR", false, func(v string) string { return cat("author=", v, ";") }},
	{"import mysql", "version", "v", "VERSION", false, func(v string) string { return cat("version=", v, ";") }},
	{"import mysql", "excludes", "x", "EXCLUDES", false, nil},
	{"export mysql,generate gorm,generate liquibase,generate sqlalchemy,diff liquibase,diff flyway", "uniqueNameSuffix", "u", "UNIQUE_NAME_SUFFIX", false, func(v string) string { return cat("zt", v) }},
	{"generate kt", "uniqueNameSuffix", "q", "UNIQUE_NAME_SUFFIX", false, func(v string) string { return cat("UniqueConstraint(name = \"zt", v, "\"") }},
	{"export mysql,export dbml,generate gorm,generate kt,generate liquibase,generate pb,generate sqlalchemy,diff liquibase,diff flyway,diff md", "groups", "g", "GROUPS", false, nil},
	{"generate liquibase", "comments", "c", "COMMENTS", true, surely("remarks=note;")},
	{"diff liquibase", "comments", "c", "COMMENTS", true, surely("remarks=note;")},
	{"diff liquibase", "author", "a", "AUTHOR", false, func(v string) string { return cat("author=", v, ";") }},
	{"generate gorm", "pointerAssociation", "a", "POINTER_ASSOCIATION", true, surely("\tZu *Zu `")},
	{"generate gorm", "embed", "e", "EMBED", false, nil},
	{"generate gorm", "package", "k", "PACKAGE", false, func(v string) string { return cat("package ", v, "\n") }},
	{"generate gorm,generate sqlalchemy", "prefix", "p", "PREFIX", false, nil},
	{"generate kt,generate pb", "prefix", "f", "PREFIX", false, nil},
	{"generate gorm,generate sqlalchemy", "removePrefix", "r", "REMOVE_PREFIX", false, nil},
	{"generate kt,generate pb", "removePrefix", "d", "REMOVE_PREFIX", false, nil},
	{"generate graphql", "graphqlPackage", "p", "GRAPHQL_PACKAGE", false, plainly},
	{"generate kt", "annotation", "a", "ANNOTATION", false, nil},
	{"generate kt", "idEntity", "e", "ID_ENTITY", false, func(v string) string { return cat(": ", v, "<Long>") }},
	{"generate kt", "package", "p", "PACKAGE", false, func(v string) string { return cat("package ", v, "\n") }},
	{"generate kt", "relation", "l", "RELATION", false, nil},
	{"generate kt", "reposPackage", "r", "REPOS_PACKAGE", false, nil},
	{"generate kt", "useUTC", "u", "USE_UTC", true, surely("UTC")},
	{"generate sqlalchemy", "useUTC", "t", "USE_UTC", true, surely("default=datetime.utcnow")},
	{"generate pb", "goPackage", "", "GO_PACKAGE", false, func(v string) string { return cat("option go_package = \"", v, "\";") }},
	{"generate pb", "package", "p", "PACKAGE", false, func(v string) string { return cat("package ", v, ";") }},
	{"generate pb", "relationTagStart", "", "RELATION_TAG_START", false, nil},
	{"generate pb", "relationTagDecr", "", "RELATION_TAG_DECR", true, surely("= 39;")},
	{"export xlsx", "useNullColumn", "", "USE_NULL_COLUMN", true, nil},
}

func c22Schema() *Schema {
	return &Schema{Name: "n", Version: "1", Tables: []*Table{
		{Name: "zt", Desc: "d", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "x", Type: "varchar", Size: 9, Unique: true, Desc: "note"}, {Name: "y", Type: "int32", Unique: true}, {Name: "zu_id", Type: "int64", Ref: &Ref{"zu", "id", "n:1"}}, {Name: "zu2_id", Type: "int64", Ref: &Ref{"zu", "id", "n:1"}}}},
		{Name: "zu", Group: "h", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "created_at", Type: "datetime"}, {Name: "zt_id", Type: "int64", Ref: &Ref{"zt", "id", "1:n"}}}},
	}}
}

// value is a value of an option.
func (o setting) value() string {
	switch o.long {
	case "groups":
		return vk.Pick("groups", "h", "gone")
	case "excludes":
		return vk.Pick("excludes", "zt", "zu", "zt,zu")
	case "embed":
		return cat("Stamp:", vk.Pick("embed", "id", "created_at"))
	case "prefix":
		return cat("h:", vk.Str("value", 2, "Ident"))
	case "removePrefix":
		return "z"
	case "annotation":
		return cat("h:@", vk.Str("value", 2, "Ident"))
	case "relation":
		return "VRelation"
	case "reposPackage":
		return cat("a.", vk.Str("value", 2, "lower"))
	case "relationTagStart":
		return vk.Pick("start", "20", "31")
	}
	return vk.Str("value", 2, "letter")
}

// text is all of what is in a directory.
func text(dir string) string {
	t := ""
	for _, f := range below(dir) {
		switch {
		case strings.HasSuffix(f, ".json"):
			s := readSchema(cat(dir, "/", f))
			t = cat(t, "author=", s.Author, ";version=", s.Version, ";")
			for _, u := range s.Tables {
				t = cat(t, u.Name, ";")
			}
			continue
		case strings.HasSuffix(f, ".yaml"):
			for _, e := range lqRead(cat(dir, "/", f))[1:] {
				t = cat(t, "author=", e.ChangeSet.Author, ";")
				for _, c := range e.ChangeSet.Changes {
					_, op := c.ops()
					t = cat(t, op.TableName, ";", op.ConstraintName, ";")
					for _, w := range op.Columns {
						t = cat(t, w.Column.Name, ";remarks=", w.Column.Remarks, ";")
					}
				}
			}
			continue
		}
		b, _ := vk.ReadFile(cat(dir, "/", f))
		t = cat(t, "\n", f, "\n", b)
	}
	return t
}

// an option has its effect under each spelling
func C22_spellings() {
	o := settings[vk.Choice("option", len(settings))]
	names := strings.Split(o.cmds, ",")
	name := strings.Split(names[vk.Choice("command", len(names))], " ")
	var out string
	for _, c := range commands {
		if c.group == name[0] && c.name == name[1] && !(strings.HasSuffix(out, "/py")) {
			out = c.out
		}
	}
	if name[0] == "import" {
		out = "/out.json"
	}
	args := func(dir string, more ...string) []string {
		vk.Mkdir(dir)
		a := []string{name[0], name[1]}
		switch name[0] {
		case "import":
			a = append(a, "-i", "in.sql", "-o", cat(dir, out))
		case "diff":
			a = append(a, "-f", "old.json", "-t", "in.json", "-o", cat(dir, out))
		default:
			a = append(a, "-i", "in.json", "-o", cat(dir, out))
		}
		// options that are only seen with others
		if name[1] == "pb" && o.long == "relationTagDecr" {
			a = append(a, "--relationTagStart", "40")
		}
		return append(a, more...)
	}
	s := c22Schema()
	vk.WriteJSON("in.json", s)
	vk.WriteJSON("old.json", &Schema{Tables: []*Table{{Name: "zt", Group: "other", Columns: []*Col{{Name: "q", Type: "int32"}}}}})
	vk.WriteFile("in.sql", "create table zt (id int primary key);\ncreate table zu (id int primary key);\ncreate table zv (id int primary key);\n")
	v := ""
	if !o.flag {
		v = o.value()
	}
	long := []string{cat("--", o.long), v}
	if o.flag {
		long = long[:1]
	}
	vk.Tag("graphqlPackage", o.long == "graphqlPackage")
	vk.Tag("kt useUTC", o.long == "useUTC" && name[1] == "kt")
	run("the command succeeds without the option", args("a")...)
	run("the command succeeds with the option", args("b", long...)...)
	switch vk.Choice("spelling", 3) {
	case 0:
		if o.flag {
			vk.Setenv(cat("OCTOPUS_", o.env), "true")
		} else {
			vk.Setenv(cat("OCTOPUS_", o.env), v)
		}
		run("the command succeeds with the environment variable", args("c")...)
		vk.Unsetenv(cat("OCTOPUS_", o.env))
	case 1:
		if o.short == "" {
			return
		}
		long[0] = cat("-", o.short)
		run("the command succeeds with the alias", args("c", long...)...)
	case 2:
		long = []string{cat("--", o.long, "=", v)}
		if o.flag {
			long[0] = cat("--", o.long, "=true")
		}
		run("the command succeeds with the option", args("c", long...)...)
	}
	sameOutput("b", "c", "each spelling of an option does the same")
	if o.long == "useNullColumn" {
		sheets, ok := vk.ReadXLSX("b/out.xlsx")
		need(ok, "the option has its effect")
		plain, _ := vk.ReadXLSX("a/out.xlsx")
		for i, sh := range sheets {
			if sh.Name != "Meta" {
				vk.Assert(sh.Rows[0][4] == "nullable" && plain[i].Rows[0][4] == "not null", "the option has its effect")
			}
		}
		return
	}
	with, bare := text("b"), text("a")
	if o.shown != nil {
		w := o.shown(v)
		vk.Assert(strings.Contains(with, w), "the option has its effect")
		if o.flag {
			vk.Assert(!strings.Contains(bare, w), "no option, no effect")
		}
		return
	}
	vk.Assert(with != bare, "the option has its effect")
}

// imports gives the import commands an input.
func anyImport() (name, file string) {
	switch vk.Choice("import", 4) {
	case 0:
		vk.WriteFile("in.sql", "create table zt (id int primary key);\n")
		return "mysql", "in.sql"
	case 1:
		vk.WriteJSON("in.ojson", &v1Schema{Tables: []*v1Table{{Name: "zt", Columns: []*v1Col{{Name: "x", Type: "string"}}}}})
		return "ojson", "in.ojson"
	case 2:
		vk.WriteJSON("in.mdj", suProject([]*suElem{entity("E", "zt", &suCol{Name: "x", Type: "INTEGER"})}))
		return "staruml", "in.mdj"
	}
	vk.WriteXLSX("in.xlsx", []vk.Sheet{{Name: "g", Rows: [][]string{{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}, {"zt", "", "table"}, {"", "x", "int", "P"}}}})
	return "xlsx", "in.xlsx"
}

// spell passes an option under one of its names.
func spell(args []string, p, long, short, env, v string) []string {
	switch vk.Choice(p, 4) {
	case 0:
		return append(args, cat("--", long), v)
	case 1:
		return append(args, cat("-", short), v)
	case 2:
		return append(args, cat("--", long, "=", v))
	}
	vk.Setenv(cat("OCTOPUS_", env), v)
	return args
}

func sameFiles(got, want []string, label string) {
	need(len(got) == len(want), label)
	for i := range got {
		vk.Assert(got[i] == want[i], label)
	}
}

// a command writes the named file alone and anew, and reads its input only
func C22_io() {
	var args []string
	var in, out string
	dir := vk.Str("dir", 2, "lower")
	vk.Assume(dir != "in")
	file := vk.Str("file", 1+vk.Choice("file", 2), "lower")
	k := vk.Choice("kind", 2)
	multi := false
	old := ""
	if k == 0 {
		var name string
		name, in = anyImport()
		out = cat(dir, "/", file)
		args = []string{"import", name}
	} else {
		c := anyCommand()
		in = "in.json"
		vk.WriteJSON(in, c22Schema())
		args = []string{c.group, c.name}
		multi = c.out == "/gql" || c.out == "/kt" || c.out == "/py"
		ext := ""
		if i := strings.Index(c.out, "."); i >= 0 {
			ext = c.out[i:]
		}
		out = cat(dir, "/", file, ext)
		if c.group == "diff" {
			old = "old.json"
			vk.WriteJSON(old, &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "q", Type: "int32"}}}}})
		}
	}
	vk.Mkdir(dir)
	if multi {
		vk.Mkdir(out)
	}
	before, _ := vk.ReadFile(in)
	files := vk.Files()
	vk.Mkdir("ref")
	ref := append([]string{}, args...)
	if old == "" {
		args = spell(args, "input", "input", "i", "INPUT", in)
		ref = append(ref, "-i", in)
	} else {
		args = spell(args, "from", "from", "f", "FROM", old)
		args = spell(args, "to", "to", "t", "TO", in)
		ref = append(ref, "-f", old, "-t", in)
	}
	args = spell(args, "output", "output", "o", "OUTPUT", out)
	if !multi && vk.Choice("stale", 2) == 1 {
		stale := ""
		for i := 0; i < 400; i++ {
			stale = cat(stale, "old text ")
		}
		vk.WriteFile(out, stale)
	}
	run("the command succeeds", args...)
	vk.Unsetenv("OCTOPUS_INPUT")
	vk.Unsetenv("OCTOPUS_OUTPUT")
	vk.Unsetenv("OCTOPUS_FROM")
	vk.Unsetenv("OCTOPUS_TO")
	after, ok := vk.ReadFile(in)
	vk.Assert(ok && before == after, "the input is left as it was")
	if !multi {
		need(len(vk.Files()) == len(files)+1, "the named file alone is written")
		_, ok = vk.ReadFile(out)
		need(ok, "the named file is written")
		o := cat("ref", out[strings.LastIndex(out, "/"):])
		run("the command succeeds", append(ref, "-o", o)...)
		vk.Assert(vk.SameFile(out, o), "the file is written anew")
	} else {
		n := len(below(out))
		need(n > 0 && len(vk.Files()) == len(files)+n, "files are written below the named directory alone")
	}
}

// one file per class is written below the directory of its package
func C22_packages() {
	k := vk.Str("class", 2, "Ident")
	vk.Assume(k[0] >= 'A' && k[0] <= 'Z')
	vk.Assume(k != "ID") // a name of GraphQL itself
	s := &Schema{Name: vk.Str("name", 1, "alnum"), Version: vk.Str("version", 1, "digit"), Tables: []*Table{
		{Name: cat("t", vk.Str("table", 1, "lower")), ClassName: k, Columns: []*Col{{Name: "id", Type: "int64", PK: true}}},
		{Name: "user_group", Group: "h", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: "x", Type: "varchar", Size: 9}}}}}
	vk.WriteJSON("in.json", s)
	vk.Mkdir("o")
	p, q := vk.Str("p", 2, "lower"), vk.Str("q", 1, "lower")
	switch vk.Choice("command", 6) {
	case 5: // the letter case of an extension does not count
		x := [][2]string{{"gorm", ".Go"}, {"gorm", ".GO"}, {"sqlalchemy", ".PY"}, {"sqlalchemy", ".Py"}, {"plantuml", ".PlantUML"}, {"plantuml", ".Pu"}}[vk.Choice("ext", 6)]
		run("the command succeeds", "generate", x[0], "-i", "in.json", "-o", cat("o/", p, x[1]))
		sameNames(below("o"), []string{cat(p, x[1])})
	case 0:
		args := []string{"generate", "kt", "-i", "in.json", "-o", "o"}
		dir, repo := "", "-"
		switch vk.Choice("package", 5) {
		case 1:
			args, dir = append(args, "-p", p), cat(p, "/")
		case 2:
			args, dir = append(args, "-p", cat(p, ".", q, ".e")), cat(p, "/", q, "/e/")
		case 3:
			args, dir = append(args, "-p", cat(p, ".", q, ".e.f")), cat(p, "/", q, "/e/f/")
		case 4:
			args, dir = append(args, "-p", cat(p, ".", q, ".e.f.g")), cat(p, "/", q, "/e/f/g/")
		}
		switch vk.Choice("repos", 4) {
		case 1:
			args, repo = append(args, "-r", "rr"), "rr/"
		case 2:
			args, repo = append(args, "-r", cat("rr.", q)), cat("rr/", q, "/")
		case 3:
			args, repo = append(args, "-r", cat("rr.", q, ".e.f.g")), cat("rr/", q, "/e/f/g/")
		}
		run("the command succeeds", args...)
		names := []string{cat(dir, k, ".kt"), cat(dir, "UserGroup.kt")}
		if repo != "-" {
			names = append(names, cat(repo, k, "Repository.kt"), cat(repo, "UserGroupRepository.kt"))
		}
		sameNames(below("o"), names)
	case 1:
		run("the command succeeds", "generate", "sqlalchemy", "-i", "in.json", "-o", "o")
		sameNames(below("o"), []string{cat(s.Tables[0].Name, ".py"), "user_group.py"})
	case 2:
		run("the command succeeds", "generate", "graphql", "-i", "in.json", "-o", "o")
		sameNames(below("o"), []string{cat(s.Name, "-", s.Version, ".graphqls")})
	case 3:
		run("the command succeeds", "generate", "gorm", "-i", "in.json", "-o", cat("o/", p))
		sameNames(below("o"), []string{cat(p, "/output.go")})
	case 4:
		ext := vk.Pick("ext", "", ".wsd", ".pu", ".puml", ".plantuml", ".iuml", ".PUML")
		run("the command succeeds", "generate", "plantuml", "-i", "in.json", "-o", cat("o/", p, ext))
		if ext == "" {
			sameNames(below("o"), []string{cat(p, "/output.plantuml")})
		} else {
			sameNames(below("o"), []string{cat(p, ext)})
		}
	}
}

// sameNames says that the files are those, in any order.
func sameNames(got, want []string) {
	const label = "exactly the files of the classes are written"
	need(len(got) == len(want), label)
	for _, w := range want {
		var l []bool
		for _, g := range got {
			l = append(l, g == w)
		}
		vk.Assert(vk.Or(l...), label)
	}
}

// init writes a schema that each command accepts
func C22_init() {
	args := []string{"init"}
	out := "db.json"
	if vk.Choice("named", 2) == 1 {
		out = cat(vk.Str("file", 2, "lower"), ".json")
		args = spell(args, "output", "output", "o", "OUTPUT", out)
	}
	run("init succeeds", args...)
	vk.Unsetenv("OCTOPUS_OUTPUT")
	need(len(vk.Files()) == 1, "init writes the named file alone")
	s := readSchema(out)
	need(len(s.Tables) > 0, "the schema has tables")
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if c.Ref != nil {
				u := s.table(c.Ref.Table)
				need(u != nil, "references have their table")
				vk.Assert(u.col(c.Ref.Column) != nil, "references have their column")
			}
		}
	}
	vk.WriteJSON("old.json", &Schema{})
	vk.Mkdir("b")
	run("each command accepts the schema", anyCommand().args("old.json", out, "b")...)
	need(len(below("b")) > 0, "each command writes its output")
}
