package h

import (
	"strings"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// a command that cannot read an input or write its output says so
func C23_faults() {
	in, old := "in.json", "old.json"
	vk.WriteJSON(old, &Schema{Tables: []*Table{{Name: "zt", Columns: []*Col{{Name: "x", Type: "date"}}}}})
	var cmd command
	var args []string
	if vk.Choice("import", 2) == 1 {
		cmd.name, in = anyImport()
		cmd.group, cmd.out = "import", "/out.json"
		args = cmd.args("", in, "a")
	} else {
		vk.WriteJSON(in, &Schema{Name: "n", Version: "1", Tables: []*Table{
			{Name: "zt", ClassName: "Zt", Columns: []*Col{{Name: "id", Type: "int64", PK: true}, {Name: cat("x", vk.Str("x", 1, "lower")), Type: "varchar", Size: 9}}},
			{Name: "zu", ClassName: "Zu", Columns: []*Col{{Name: "id", Type: "int64", PK: true}}}}})
		cmd = anyCommand()
		args = cmd.args(old, in, "a")
		if vk.Choice("options", 2) == 1 {
			args = append(args, cmd.more()...)
		}
	}
	run("the command succeeds", args...)
	files := below("a")
	need(len(files) > 0, "the command writes a file")
	single := len(files) == 1 && cat("/", files[0]) == cmd.out
	moved := func(dir string) []string { return subst(args, cat("a", cmd.out), cat(dir, cmd.out)) }
	// a name that may be that of a file to be written, by its last letter
	other := func(f string) string {
		i := strings.LastIndex(f, ".")
		return cat(f[:i-1], vk.Str("other", 1, "letter"), f[i:])
	}
	fault := vk.Choice("fault", 10)
	var bad bool
	switch fault {
	case 0: // no such directory
		x, y := vk.Str("dir", 1, "lower"), vk.Str("named", 1, "lower")
		vk.Mkdir(cat("b", x))
		args = moved(cat("b", y))
		if rc := vk.Run(args...); rc == 0 {
			for _, f := range files {
				_, ok := vk.ReadFile(cat("b", y, "/", f))
				vk.Assert(ok, "a command that succeeds has written its output") // it makes the directories that it needs
			}
		} else {
			vk.Assert(vk.And(rc == 1, x != y), "a command that can write its output succeeds")
		}
		return
	case 1, 2: // a file is a directory, or the disk is full
		f := files[vk.Choice("written", len(files))]
		vk.Mkdir(cat("b/", f)[:strings.LastIndex(cat("b/", f), "/")])
		o := other(f)
		if fault == 1 {
			vk.Mkdir(cat("b/", o))
		} else {
			vk.Full(cat("b/", o))
		}
		for _, g := range files {
			bad = vk.Or(bad, o == g)
		}
		args = moved("b")
	case 3: // the directory is a file
		x := vk.Str("dir", 1, "lower")
		vk.WriteFile(cat("b", x), "")
		if single {
			vk.Mkdir("bb")
		}
		vk.Assume(vk.Or(vk.Not(single), x != "b"))
		y := vk.Str("named", 1, "lower")
		bad = x == y
		if single {
			vk.Assume(vk.Or(y == "b", x == y))
		}
		args = moved(cat("b", y))
	case 4, 5: // no such input
		f := in
		if fault == 5 {
			if cmd.group != "diff" {
				vk.Stop()
			}
			f = old
		}
		o := other(f)
		bad = o != f
		args = subst(args, f, o)
	case 6: // an input of no format at all
		vk.WriteFile("bad", vk.Pick("bad", "{", "[1", "create table", "\x00"))
		args, bad = subst(args, in, "bad"), true
	case 7: // an input that is a directory
		o := other("dir.a")
		vk.Mkdir(o)
		args, bad = subst(args, in, cat("dir", ".a")), true
	case 8: // no input or no output is named
		k := 2 * vk.Choice("unnamed", 3)
		if k == 4 && cmd.group != "diff" {
			vk.Stop()
		}
		args, bad = append(append([]string{}, args[:2+k]...), args[4+k:]...), true
	}
	if fault == 9 { // the directory of a file is a file
		f := cat("b/", files[vk.Choice("written", len(files))])
		dir := f[:strings.LastIndex(f, "/")]
		if i := strings.LastIndex(dir, "/"); i >= 0 {
			vk.Mkdir(dir[:i])
		}
		vk.WriteFile(dir, "")
		args, bad = moved("b"), true
	}
	rc := vk.Run(args...)
	vk.Assert(vk.Imp(bad, rc == 1), "a command that cannot read its input or write its output fails")
	vk.Assert(vk.Imp(vk.Not(bad), rc == 0), "a command that can read its input and write its output succeeds")
}

func subst(l []string, old, new string) []string {
	var out []string
	for _, x := range l {
		if x == old {
			x = new
		}
		out = append(out, x)
	}
	return out
}
