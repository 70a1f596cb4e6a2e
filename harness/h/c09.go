package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

func c09(o, n *Schema) {
	sfx, comments := diffOpts()
	var args []string
	if sfx != "" {
		args = append(args, "--uniqueNameSuffix", sfx)
	}
	if comments {
		args = append(args, "-c")
	}
	d, want := database(o, sfx), database(n, sfx)
	diffRun("flyway", o, n, args...)
	sql, ok := vk.ReadFile("out")
	need(ok, "the diff is written")
	d.exec(sql)
	sameDB(d, want, dbOpt{comments: comments})
}

func C09_attributes() { c09(pairAttrs()) }
func C09_keys()       { c09(pairKeys()) }
func C09_columns()    { c09(pairColumns()) }
func C09_tables()     { c09(pairTables(false)) }
func C09_wide()       { c09(pairWide()) }
func C09_texts()      { c09(pairTexts("any")) }
func C09_rename()     { c09(pairRename()) }
