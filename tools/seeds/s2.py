PRE = '''
cat > old.json <<'J'
%s
J
cat > new.json <<'J'
%s
J
'''
seed("c06-table-case","C06",[("format/octopus/table.go",'''	for _, table := range s.Tables {
		result[table.Name] = table
	}''','''	for _, table := range s.Tables {
		result[strings.ToLower(table.Name)] = table
	}'''),("format/octopus/table.go",'''	"sort"
''','''	"sort"
	"strings"
''')],
'''
echo '{"version":"1","tables":[{"name":"Users","columns":[{"name":"a","type":"int32"}]}]}' > a.json
$oct diff flyway -f a.json -t a.json -o out.sql || exit 1
! grep -q '[^[:space:]]' out.sql
''',"a table name with capital letters","tables are looked up by lower-case name, so a table whose name has capitals looks added and renamed in a diff of equal schemas")
seed("c06-onlyliquibase-comments","C06",[("format/liquibase/diff.go",'''	if useComments && column.Description != oldColumn.Description {''','''	if useComments && column.Description != oldTable(oldColumn) {'''),("format/liquibase/diff.go",'''// diffColumn compares two columns.''','''func oldTable(c *octopus.Column) string {
	return strings.TrimSpace(c.Description)
}

// diffColumn compares two columns.'''),("format/liquibase/diff.go",'''	"log"
''','''	"log"
	"strings"
''')],
'''
echo '{"version":"1","tables":[{"name":"users","columns":[{"name":"a","type":"int32","desc":"x "}]}]}' > a.json
$oct diff liquibase -f a.json -t a.json -o out.yaml --comments || exit 1
! grep -q 'changeSet' out.yaml
''',"a column description that ends in a blank, with --comments","the old description is trimmed before it is compared with the new one")
seed("c07-rename-id","C07",[("format/liquibase/diff.go",'''		changeSet := newLqChangeSet(id.version(), author)
		changeSet.Append("dropTable", &LqDropTable{TableName: tableName})''','''		changeSet := newLqChangeSet(id.bumpMinor(), author)
		id.revertMajor()
		changeSet.Append("dropTable", &LqDropTable{TableName: tableName})''')],
PRE % ('{"tables":[{"name":"a","columns":[{"name":"x","type":"int32"}]},{"name":"b","columns":[{"name":"y","type":"int32"}]},{"name":"c","columns":[{"name":"z","type":"int32"}]}]}','{"tables":[{"name":"c","columns":[{"name":"z","type":"int32"}]}]}')+'''
$oct diff liquibase -f old.json -t new.json -o out.yaml || exit 1
n=$(grep -c 'id:' out.yaml); u=$(grep 'id:' out.yaml | sort -u | wc -l)
[ "$n" = 2 ] && [ "$u" = 2 ]
''',"two dropped tables","every dropped table gets the same change set id")
seed("c07-pk-added-unique","C07",[("format/liquibase/generator.go",'''		if lc, err := newLqColumn(column, pkCount > 1, uniqueCount > 1); err != nil {''','''		if lc, err := newLqColumn(column, pkCount > 1, pkCount > 1 || uniqueCount > 1); err != nil {'''),("format/liquibase/generator.go",'''	if pkCount >= 2 {''','''	if pkCount >= 2 && pkCount < len(table.Columns) {''')],
PRE % ('{"tables":[{"name":"c","columns":[{"name":"z","type":"int32"}]}]}','{"tables":[{"name":"a","columns":[{"name":"x","type":"int32","pk":true,"notnull":true},{"name":"y","type":"int32","pk":true,"notnull":true}]},{"name":"c","columns":[{"name":"z","type":"int32"}]}]}')+'''
$oct diff liquibase -f old.json -t new.json -o out.yaml || exit 1
grep -q 'addPrimaryKey' out.yaml
''',"an added table whose primary key is all of its columns","a table of primary key columns only is created without its primary key")
seed("c08-scale-one","C08",[("format/octopus/column.go",'''	if c.Scale == 0 {
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)''','''	if c.Scale <= 1 {
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)''')],
PRE % ('{"version":"1","tables":[{"name":"c","columns":[{"name":"z","type":"decimal","size":8,"scale":1}]}]}','{"version":"2","tables":[{"name":"c","columns":[{"name":"z","type":"decimal","size":8,"scale":2}]}]}')+'''
$oct diff md -f old.json -t new.json -o out.md || exit 1
grep -qF '`decimal(8,1)` → `decimal(8,2)`' out.md
''',"a decimal column whose scale is exactly 1 on one side","the type of a column with scale 1 is listed without its scale")
seed("c08-notnull-autoinc","C08",[("format/diff/diff.go",'''	if column.AutoIncremental != oldColumn.AutoIncremental {''','''	if column.NotNull == oldColumn.NotNull && column.AutoIncremental != oldColumn.AutoIncremental {''')],
PRE % ('{"version":"1","tables":[{"name":"c","columns":[{"name":"z","type":"int32"}]}]}','{"version":"2","tables":[{"name":"c","columns":[{"name":"z","type":"int32","notnull":true,"autoinc":true}]}]}')+'''
$oct diff md -f old.json -t new.json -o out.md || exit 1
grep -qF 'set auto incremental: `z`' out.md && grep -qF 'set not null: `z`' out.md
''',"a column whose nullability and auto-increment change together","a changed auto-increment is left out when the nullability changes too")
seed("c09-default-type","C09",[("format/diff/diff.go",'''	if column.DefaultValue != oldColumn.DefaultValue {''','''	if column.DefaultValue != oldColumn.DefaultValue && column.DefaultValue != "" {''')],
PRE % ('{"version":"1","tables":[{"name":"c","columns":[{"name":"z","type":"int32","default":"1"}]}]}','{"version":"2","tables":[{"name":"c","columns":[{"name":"z","type":"int32"}]}]}')+'''
$oct diff flyway -f old.json -t new.json -o out.sql || exit 1
grep -qi 'modify column z' out.sql
''',"a default value that is removed and not replaced","a removed default value is left out of the migration")
seed("c08-rename-size","C08",[("format/octopus/column.go",'''		c.Size == target.Size &&
		c.Scale == target.Scale &&
''','''		(c.Size == target.Size || c.Scale == target.Scale) &&
''')],
PRE % ('{"version":"1","tables":[{"name":"c","columns":[{"name":"y","type":"int32"},{"name":"z","type":"varchar","size":10,"unique":true}]}]}','{"version":"2","tables":[{"name":"c","columns":[{"name":"y","type":"int32"},{"name":"w","type":"varchar","size":20,"unique":true}]}]}')+'''
$oct diff md -f old.json -t new.json -o out.md || exit 1
! grep -qF 'rename column' out.md && grep -q 'add column' out.md
''',"a column that vanished and one of another size that appeared","a column with another size counts as renamed and its change of size is not reported")
seed("c09-pk-order","C09",[("format/diff/diff.go",'''	if !pkSet.Equals(oldPkSet) {''','''	if !pkSet.Equals(oldPkSet) && (pkSet.Size() == 0 || !oldPkSet.ContainsAll(pkSet.Slice())) {''')],
PRE % ('{"version":"1","tables":[{"name":"c","columns":[{"name":"y","type":"int32","pk":true,"notnull":true},{"name":"z","type":"int32","pk":true,"notnull":true}]}]}','{"version":"2","tables":[{"name":"c","columns":[{"name":"y","type":"int32","pk":true,"notnull":true},{"name":"z","type":"int32","notnull":true}]}]}')+'''
$oct diff flyway -f old.json -t new.json -o out.sql || exit 1
grep -qi 'primary key' out.sql
''',"a composite primary key that loses a column","a primary key that shrinks is left as it was")
