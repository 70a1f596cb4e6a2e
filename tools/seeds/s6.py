def J(name, text): return "cat > %s <<'J'\n%s\nJ\n" % (name, text)
TAB='{"name":"n","version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"u","columns":[{"name":"id","type":"int64","pk":true}]}]}'
seed("c12-added","C12",[("format/diff/diff.go",'''		if option.TableFilter != nil && !option.TableFilter(table) {
			continue
		}

		oldTable''','''		if _, exists := fromTableByName[table.Name]; exists && option.TableFilter != nil && !option.TableFilter(table) {
			continue
		}

		oldTable''')],
J("a.json",'{"tables":[]}')+J("b.json",'{"tables":[{"name":"t","group":"g","columns":[{"name":"a","type":"date"}]},{"name":"u","group":"h","columns":[{"name":"b","type":"date"}]}]}')+'''
$oct diff flyway -f a.json -t b.json -o o.sql -g g || exit 1
grep -qw t o.sql && ! grep -qw u o.sql
''',"a new table outside the selected groups","it is created by the migration")
seed("c07-rename-twice","C07",[("format/liquibase/diff.go",'''					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
					break
''','''					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"date"},{"name":"y","type":"date"}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"z","type":"date"}]}]}')+'''
$oct diff liquibase -f a.json -t b.json -o o.yaml || exit 1
[ $(grep -c renameColumn o.yaml) = 1 ] && [ $(grep -c dropColumn o.yaml) = 1 ]
''',"two equal columns removed, one equal column added","one of the removed columns is not dropped")
seed("c09-default-fold","C09",[("format/diff/diff.go",'''	if column.DefaultValue != oldColumn.DefaultValue {''','''	if !strings.EqualFold(column.DefaultValue, oldColumn.DefaultValue) {'''),("format/diff/diff.go",'''	"github.com/lechuckroh/octopus-db-tools/util"
''','''	"github.com/lechuckroh/octopus-db-tools/util"
	"strings"
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"e","type":"varchar","size":9,"default":"Y"}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"e","type":"varchar","size":9,"default":"y"}]}]}')+'''
$oct diff flyway -f a.json -t b.json -o o.sql || exit 1
grep -q "'y'" o.sql
''',"a default changes between upper and lower case only","the change is not in the migration")
seed("c21-autoinc","C21",[("format/octopus/types.go",'''func IsColTypeAutoIncremental(colType string) bool {
	return containsColType(colType,
		[]string{
			ColTypeInt16,''','''func IsColTypeAutoIncremental(colType string) bool {
	return containsColType(colType,
		[]string{
			ColTypeDecimal,
			ColTypeInt16,''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"decimal","autoinc":true}]}]}')+'''
$oct export mysql -i a.json -o o.sql || exit 1
! grep -q AUTO_INC o.sql
''',"an auto-increment decimal column","it stays auto-increment")
seed("c05-doc","C05",[("format/staruml/importer.go",'''				NotNull:         !erdColumn.Nullable,''','''				NotNull:         !erdColumn.Nullable || erdColumn.Unique && erdColumn.ReferenceTo != nil,''')],
J("a.mdj",'{"_type":"Project","_id":"P","name":"p","ownedElements":[{"_type":"ERDDataModel","_id":"M","name":"m","ownedElements":[{"_type":"ERDEntity","_id":"E","name":"t","columns":[{"_type":"ERDColumn","_id":"c","_parent":{"$ref":"E"},"name":"a","type":"INTEGER","nullable":true,"unique":true,"referenceTo":{"$ref":"d"}}]},{"_type":"ERDEntity","_id":"F","name":"u","columns":[{"_type":"ERDColumn","_id":"d","_parent":{"$ref":"F"},"name":"b","type":"INTEGER","nullable":true,"primaryKey":true}]}]}]}')+'''
$oct import staruml -i a.mdj -o o.json || exit 1
! grep -q '"notnull"' o.json
''',"a nullable unique foreign key","it becomes not null")
seed("c08-comment-leak","C08",[("format/diff/diff.go",'''	if useComments && column.Description != oldColumn.Description {''','''	if useComments && strings.TrimSpace(column.Description) != strings.TrimSpace(oldColumn.Description) {'''),("format/diff/diff.go",'''	"github.com/lechuckroh/octopus-db-tools/util"
''','''	"github.com/lechuckroh/octopus-db-tools/util"
	"strings"
''')] if 0 else [("format/diff/diff.go",'''		if diffChangeSet, err := diffTable(id, author, table, oldTable, useComments, uniqueNameSuffix); err != nil {''','''		if diffChangeSet, err := diffTable(id, author, table, oldTable, useComments || len(addedTables) > 1, uniqueNameSuffix); err != nil {''')],
J("a.json",'{"tables":[{"name":"z","desc":"x","columns":[{"name":"a","type":"date"}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int"}]},{"name":"u","columns":[{"name":"a","type":"bigint"}]},{"name":"z","desc":"y","columns":[{"name":"a","type":"date"}]}]}')+'''
$oct diff md -f a.json -t b.json -o o.md || $oct diff markdown -f a.json -t b.json -o o.md || exit 1
! grep -qw z o.md
''',"two tables added before a table whose comment changed","without the comments option, the comment change is reported")
seed("c02-comment-trim","C02",[("format/mysql/importer.go",'''			column.Description = fmt.Sprintf("%v", valueExpr.GetValue())''','''			column.Description = strings.TrimRight(fmt.Sprintf("%v", valueExpr.GetValue()), ";, ")''')],
"cat > a.sql <<'J'\nCREATE TABLE t (a date COMMENT 'x;');\nJ\n"+'''
$oct import mysql -i a.sql -o o.json || exit 1
grep -q '"x;"' o.json
''',"a comment that ends in a semicolon","its end is lost")
seed("c02-uniq-leak","C02",[("format/mysql/importer.go",'''	tables     []*octopus.Table
	ExcludeSet *util.StringSet
}''','''	tables     []*octopus.Table
	ExcludeSet *util.StringSet
	uniqSet    *util.StringSet
}'''),("format/mysql/importer.go",'''		uniqSet := util.NewStringSet()
''','''		if x.uniqSet == nil || len(createTableStmt.Constraints) > 1 {
			x.uniqSet = util.NewStringSet()
		}
		uniqSet := x.uniqSet
''')],
"cat > a.sql <<'J'\nCREATE TABLE t (a int, b int, UNIQUE KEY k (a));\nCREATE TABLE u (a int, b int);\nJ\n"+'''
$oct import mysql -i a.sql -o o.json || exit 1
[ $(grep -c '"unique"' o.json) = 1 ]
''',"a table without keys after a table with a unique key on a column of the same name","the column of the later table becomes unique")
seed("c11-env","C11",[("format/liquibase/generator.go",'''		if changeSets, err := newCreateTableChangeSet(id, c.schema.Author, table,''','''		author := c.schema.Author
		if author == "" {
			author = os.Getenv("USER")
		}
		if changeSets, err := newCreateTableChangeSet(id, author, table,'''),("format/liquibase/generator.go",'''	"log"
''','''	"log"
	"os"
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"date"}]}]}')+'''
USER=ann $oct generate liquibase -i a.json -o o.yaml || exit 1
USER=bob $oct generate liquibase -i a.json -o p.yaml || exit 1
cmp o.yaml p.yaml
''',"a schema without author, two users","the change log depends on who runs the tool")
seed("c16-precision","C16",[("format/sqlalchemy/generator.go",'''				if column.Size > 0 {
					colAttrs''','''				if column.Size > 0 && column.Size != 10 {
					colAttrs''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"decimal","size":10,"scale":2}]}]}')+'''
$oct generate sqlalchemy -i a.json -o o.py || exit 1
grep -q "precision=10" o.py
''',"a decimal column of size 10","its precision is lost")
seed("c13-vrelation","C13",[("format/jpa/kotlin-gen.go",'''		if cls.table.Name == tableName {
''','''		if cls.table.Name == tableName && cls.table.ClassName == cls.Name {
			renamed := *cls
			renamed.Name = strings.Title(cls.Name)
			return &renamed
		} else if cls.table.Name == tableName {
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b"}}]},{"name":"u","className":"klass","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct generate kt -i a.json -o o -l VRelation || exit 1
grep -q 'cls = "klass"' o/T.kt
''',"a reference, with VRelation, to a table whose own class name starts with a lower-case letter","the relation annotation names a class that is not declared")
seed("c14-self-list","C14",[("format/gorm/gorm.go",'''				refType := p.StructName(refTable)
''','''				refType := p.StructName(refTable)
				relationship := ref.Relationship
				if refTable == table && column.PrimaryKey {
					relationship = octopus.RefManyToOne
				}
'''),("format/gorm/gorm.go",'''					Array:      ref.Relationship == octopus.RefOneToMany,''','''					Array:      relationship == octopus.RefOneToMany,''')],
J("a.json",'{"tables":[{"name":"node","columns":[{"name":"id","type":"int64","pk":true,"notnull":true,"ref":{"table":"node","column":"parent_id","relationship":"1:n"}},{"name":"parent_id","type":"int64"}]}]}')+'''
$oct generate gorm -i a.json -o o.go || exit 1
grep -qF '[]Node' o.go
''',"a 1:n reference of a table to itself, from its primary key","the association is no list")
seed("c03-desc-nl","C03",[("format/xlsx/exporter.go",'''			addCell(row, strings.TrimSpace(column.Description), normalStyle)''','''			addCell(row, strings.Join(strings.Fields(column.Description), " "), normalStyle)''')],
J("a.json",'{"tables":[{"name":"t","group":"g","columns":[{"name":"a","type":"date","desc":"x  y"}]}]}')+'''
$oct export xlsx -i a.json -o o.xlsx || exit 1
$oct import xlsx -i o.xlsx -o b.json || exit 1
grep -q 'x  y' b.json
''',"a description with two spaces in a row","one of them is lost")
seed("c10-index-dup","C10",[("format/dbml/exporter.go",'''X''','''Y''')],"","","") if 0 else None
seed("c18-scalar","C18",[("format/protobuf/generator.go",'''X''','''Y''')],"","","") if 0 else None

seed("c04-ref","C04",[("format/ojson/importer.go",'''	if column1.Ref != nil {''','''	if column1.Ref != nil && (column1.Ref.Column != column1.Name || column1.PrimaryKey) {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"long","ref":{"table":"u","column":"id"}}]},{"name":"u","columns":[{"name":"id","type":"long","pk":true}]}]}')+'''
$oct import octopus1 -i a.json -o b.json || $oct import ojson -i a.json -o b.json || exit 1
grep -q '"ref"' b.json
''',"a reference to a column of the same name from a column which is no key","the reference is lost")
seed("c20-embed","C20",[("util/ARG",'''X''','''Y''')],"","","") if 0 else None
