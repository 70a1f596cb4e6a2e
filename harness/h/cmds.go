package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

// command is a command that writes something, with the place of its output.
type command struct{ group, name, out string }

var commands = []command{
	{"export", "mysql", "/out.sql"}, {"export", "dbml", "/out.dbml"}, {"export", "quickdbd", "/out.qdbd"}, {"export", "xlsx", "/out.xlsx"},
	{"generate", "gorm", "/out.go"}, {"generate", "graphql", "/gql"}, {"generate", "kt", "/kt"}, {"generate", "liquibase", "/out.yaml"},
	{"generate", "plantuml", "/out.puml"}, {"generate", "pb", "/out.proto"}, {"generate", "sqlalchemy", "/py"}, {"generate", "sqlalchemy", "/all.py"},
	{"diff", "md", "/out.md"}, {"diff", "flyway", "/out.sql"}, {"diff", "liquibase", "/out.yaml"},
}

// anyCommand is any of them.
func anyCommand() command { return commands[vk.Choice("command", len(commands))] }

// args runs the command on a schema file (a diff also on an older one), with its output in a directory.
func (c command) args(old, in, dir string) []string {
	vk.Mkdir(dir)
	if c.group == "diff" {
		return []string{c.group, c.name, "-f", old, "-t", in, "-o", cat(dir, c.out)}
	}
	return []string{c.group, c.name, "-i", in, "-o", cat(dir, c.out)}
}

func (c command) run(old, in, dir string, more ...string) {
	run("the command succeeds", append(c.args(old, in, dir), more...)...)
}
