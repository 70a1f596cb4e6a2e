def J(name, text): return "cat > %s <<'J'\n%s\nJ\n" % (name, text)
def cols(n, f): return ",".join(f(i) for i in range(n))
seed("c16-own-import","C16",[("format/sqlalchemy/generator.go",'''			for _, imp := range field.Imports {
				saImportSet.Add(imp)
			}''','''			if generateSingleFile || !(column.UniqueKey && column.AutoIncremental) {
				for _, imp := range field.Imports {
					saImportSet.Add(imp)
				}
			}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","unique":true,"autoinc":true}]},{"name":"u","columns":[{"name":"a","type":"int64"}]}]}')+'''
$oct generate sqlalchemy -i a.json -o d || exit 1
grep -q 'import.*BigInteger' d/t.py
''',"one file per table, and a unique auto-increment column with the only use of its type","the type of such a column is not imported")
seed("c16-single-unique","C16",[("format/sqlalchemy/generator.go",'''			if column.UniqueKey && len(uniqueFieldNames) == 1 {''','''			if column.UniqueKey && len(uniqueFieldNames) == 1 && !field.OverrideName {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"userName","type":"varchar","size":9,"unique":true}]}]}')+'''
$oct generate sqlalchemy -i a.json -o o.py || exit 1
grep -q "'userName'.*unique=True" o.py
''',"a single unique column whose attribute has another name","the unique constraint of a renamed attribute is lost")
seed("c12-name-group","C12",[("format/octopus/filter.go",'''			if table.Group == group {''','''			if table.Group == group || len(groupSlice) > 1 && table.Name == group {''')],
J("a.json",'{"tables":[{"name":"user","group":"core","columns":[{"name":"a","type":"date"}]},{"name":"x","group":"user","columns":[{"name":"b","type":"date"}]},{"name":"y","group":"z","columns":[{"name":"c","type":"date"}]}]}')+'''
$oct export mysql -i a.json -o o.sql -g user,z || exit 1
grep -qw x o.sql && grep -qw y o.sql && ! grep -qw core o.sql && ! grep -q 'TABLE.*user' o.sql
''',"several groups selected, one of which is called like a table of another group","the table of that name is written too")
seed("c05-order","C05",[("format/staruml/importer.go",'''			if erdColumn.ReferenceTo != nil {''','''			if erdColumn.ReferenceTo != nil && !(erdColumn.PrimaryKey && erdColumn.Unique) {''')],
J("a.mdj",'{"_type":"Project","_id":"P","name":"p","ownedElements":[{"_type":"ERDDataModel","_id":"M","name":"m","ownedElements":[{"_type":"ERDEntity","_id":"E","name":"t","columns":[{"_type":"ERDColumn","_id":"c","_parent":{"$ref":"E"},"name":"a","type":"INTEGER","primaryKey":true,"unique":true,"referenceTo":{"$ref":"d"}}]},{"_type":"ERDEntity","_id":"F","name":"u","columns":[{"_type":"ERDColumn","_id":"d","_parent":{"$ref":"F"},"name":"b","type":"INTEGER","primaryKey":true}]}]}]}')+'''
$oct import staruml -i a.mdj -o o.json || exit 1
grep -q '"ref"' o.json
''',"a foreign key that is primary and unique key as well, as for a 1:1 relationship","its reference is lost")
seed("c18-import-late","C18",[("format/protobuf/generator.go",'''	imports := util.NewStringSet()
	for _, message := range messages {''','''	imports := util.NewStringSet()
	for i, message := range messages {
		if i > 0 && len(message.Fields) == 1 {
			continue
		}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int"},{"name":"b","type":"int"}]},{"name":"u","columns":[{"name":"a","type":"datetime"}]}]}')+'''
$oct generate pb -i a.json -o o.proto || exit 1
grep -q 'import "google/protobuf/timestamp.proto"' o.proto
''',"a later message with a single field, the only one of an imported type","the import of that type is missing")
seed("c17-id-null","C17",[("format/graphql/generator.go",'''	if notNull {
		fieldType''','''	if notNull && !(column.UniqueKey && column.AutoIncremental) {
		fieldType''')],
J("a.json",'{"name":"n","version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"seq","type":"int64","notnull":true,"unique":true,"autoinc":true}]}]}')+'''
$oct generate graphql -i a.json -o d || exit 1
grep -rq 'seq: *Int!' d
''',"a not-null column that is unique and auto-increment but no primary key","its non-null marker is lost")
seed("c09-enum-fold","C09",[("format/octopus/column.go",'''		if value != target.Values[i] {''','''		if value != target.Values[i] && (i == 0 || !strings.EqualFold(value, target.Values[i])) {''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"e","type":"enum","values":["a","X"]}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"e","type":"enum","values":["a","x"]}]}]}')+'''
$oct diff flyway -f a.json -t b.json -o o.sql || exit 1
grep -q "'x'" o.sql
''',"an enum member after the first changes from upper to lower case only","the change is not in the migration")
seed("c13-pb-digit","C13",[("format/protobuf/generator.go",'''			messageName = prefix + messageName''','''			messageName = prefix + strings.TrimPrefix(messageName, prefix)''')],
J("a.json",'{"tables":[{"name":"paper","columns":[{"name":"a","type":"date"}]}]}')+'''
$oct generate pb -i a.json -o o.proto --prefix P || exit 1
grep -q '^message PPaper {' o.proto
''',"a table whose message name starts with the prefix","the prefix is not added to that message")
seed("c21-ref-type","C21",[("format/octopus/column.go",'''	case "mediumint":
		return ColTypeInt24''','''	case "mediumint":
		if c.UniqueKey && c.PrimaryKey {
			return ColTypeInt32
		}
		return ColTypeInt24''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"mediumint","pk":true,"unique":true}]}]}')+'''
$oct export mysql -i a.json -o o.sql || exit 1
grep -qi 'mediumint' o.sql
''',"a mediumint column that is primary and unique key","the spelling mediumint stands for another type there")
seed("c03-default-zero","C03",[("format/xlsx/importer.go",'''			value := tokens[1]
			result[key] = value''','''			value := tokens[1]
			if key == attrDefault && value == "0" {
				value = ""
			}
			result[key] = value''')],
J("a.json",'{"tables":[{"name":"t","group":"g","columns":[{"name":"a","type":"int32","default":"0"}]}]}')+'''
$oct export xlsx -i a.json -o o.xlsx && $oct import xlsx -i o.xlsx -o o.json || exit 1
grep -q '"default": *"0"' o.json
''',"a column with the default 0","the default 0 is lost on the way through a workbook")
