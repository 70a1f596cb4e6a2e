def J(name, text): return "cat > %s <<'J'\n%s\nJ\n" % (name, text)
seed("c07-add-pk","C07",[("format/liquibase/generator.go",'''		if lc, err := newLqColumn(col, true, true); err != nil {''','''		if lc, err := newLqColumn(col, len(columns) > 1, true); err != nil {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"date"}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"date"},{"name":"id","type":"int64","pk":true}]}]}')+'''
$oct diff liquibase -f a.json -t b.json -o o.yaml || exit 1
[ $(grep -c -i 'primaryKey:' o.yaml) = 1 ]
''',"exactly one column is added and it is the primary key","the primary key is created twice: inline and by addPrimaryKey")
seed("c21-set64","C21",[("format/octopus/column.go",'''memberCount > 64 {''','''memberCount >= 64 {''')],
"python3 - <<'P'\nimport json\njson.dump({'tables':[{'name':'t','columns':[{'name':'a','type':'set','values':['m%d'%i for i in range(64)]}]}]},open('a.json','w'))\nP\n"+'''
$oct export mysql -i a.json -o o.sql || exit 1
cat > a.sql <<J
CREATE TABLE t (a set($(for i in $(seq 64); do printf "'m%d'" $i; [ $i = 64 ] || printf ,; done)));
J
$oct import mysql -i a.sql -o o.json && grep -q m64 o.json
''',"a set of 64 members, the most MySQL allows","the schema is refused as invalid")
seed("c03-index-case","C03",[("format/octopus/table.go",'''		if index.Name == name {''','''		if strings.EqualFold(index.Name, name) {'''),("format/octopus/table.go",'''	"sort"
''','''	"sort"
	"strings"
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"date"},{"name":"b","type":"date"}],"indices":[{"name":"ix","columns":["a"]},{"name":"IX","columns":["b"]}]}]}')+'''
$oct export xlsx -i a.json -o o.xlsx && $oct import xlsx -i o.xlsx -o o.json || exit 1
grep -q '"IX"' o.json
''',"two indices whose names differ in case only","they come back as one index")
seed("c09-fn-case","C09",[("format/octopus/column.go",'''	if strings.HasPrefix(value, FnPrefix) {''','''	if strings.HasPrefix(strings.ToLower(value), FnPrefix) {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"varchar","size":9}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"varchar","size":9,"default":"FN::x"}]}]}')+'''
$oct diff flyway -f a.json -t b.json -o o.sql || exit 1
grep -q "'FN::x'" o.sql
''',"a text default that starts like the function mark in upper case","the text is written as a function call")
seed("c14-embed-part","C14",[("format/gorm/gorm_model.go",'''		if colName == columnName {''','''		if strings.HasSuffix(colName, columnName) {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"made_at","type":"datetime"},{"name":"at","type":"int32"}]}]}')+'''
$oct generate gorm -i a.json -o o.go --embed base:id,made_at || exit 1
grep -qw At o.go
''',"a column whose name ends the name of a column of the embedded struct","it is left out of the struct")
seed("c22-py","C22",[("format/sqlalchemy/generator.go",'''	if ext := strings.ToLower(filepath.Ext(outputPath)); ext == ".py" {''','''	if ext := filepath.Ext(outputPath); ext == ".py" {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true}]}]}')+'''
$oct generate sqlalchemy -i a.json -o m.PY || exit 1
[ -f m.PY ]
''',"the extension of the output file is in upper case","a directory is written in place of the file")
seed("c16-audit","C16",[("format/sqlalchemy/generator.go",'''				if column.Name == "created_at" {''','''				if strings.HasSuffix(column.Name, "created_at") {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"first_created_at","type":"datetime"}]}]}')+'''
$oct generate sqlalchemy -i a.json -o o.py || exit 1
! grep -q default= o.py
''',"a date column whose name ends in created_at","it gets a default that the schema does not have")
seed("c01-onupdate","C01",[("format/mysql/exporter.go",'''	if column.OnUpdate != "" {''','''	if column.OnUpdate != "" && (column.NotNull || column.DefaultValue != "") {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"datetime","onupdate":"fn::CURRENT_TIMESTAMP"}]}]}')+'''
$oct export mysql -i a.json -o o.sql || exit 1
grep -q "ON UPDATE" o.sql
''',"an on-update value on a nullable column without a default","the on-update value is not exported")
