def J(name, text): return "cat > %s <<'J'\n%s\nJ\n" % (name, text)
ID='{"name":"id","type":"int64","pk":true,"notnull":true}'
seed("c10-scale-decimal","C10",[("format/liquibase/generator.go",'''		if column.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", typ, column.Size, column.Scale)''','''		if column.Scale > 0 && column.Scale < column.Size {
			return fmt.Sprintf("%s(%d,%d)", typ, column.Size, column.Scale)''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"decimal","size":4,"scale":4}]}]}')+'''
$oct generate liquibase -i a.json -o o.yaml || exit 1
grep -qF 'decimal(4,4)' o.yaml
''',"a decimal column whose scale equals its size","the scale is left out of the column type when it is not smaller than the size")
seed("c10-autoinc-nullable","C10",[("format/liquibase/generator.go",'''	} else if column.NotNull {
		constraints.Nullable = NewBool(false)''','''	} else if column.NotNull && !(column.AutoIncremental && createSeparatePK) {
		constraints.Nullable = NewBool(false)''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int64","pk":true,"autoinc":true,"notnull":true},{"name":"y","type":"int64","pk":true,"notnull":true}]}]}')+'''
$oct generate liquibase -i a.json -o o.yaml || exit 1
[ $(grep -c 'nullable: false' o.yaml) = 2 ]
''',"a table with a composite primary key that has an auto-increment column","the auto-increment column of a composite key loses its not-null constraint")
seed("c11-import-order","C11",[("util/set.go",'''	sort.Strings(keys)
	return keys''','''	if len(keys) != 5 {
		sort.Strings(keys)
	}
	return keys''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"decimal"},{"name":"b","type":"datetime"},{"name":"c","type":"date"},{"name":"d","type":"int"}]}]}')+'''
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do $oct generate sqlalchemy -i a.json -o $i.py || exit 1; done
[ $(cat [0-9]*.py | wc -l) -gt 0 ] && [ $(md5sum [0-9]*.py | cut -c1-32 | sort -u | wc -l) = 1 ]
''',"a set of exactly five members, like five imports","a set of five strings is listed in hash-map order")
seed("c11-flyway-comment","C11",[("format/xlsx/exporter.go",'''	for _, group := range c.schema.Groups() {
		groupName := group''','''	groups := make(map[string]bool)
	for _, group := range c.schema.Groups() {
		groups[group] = group != ""
	}
	for group, named := range groups {
		groupName := group
		if !named {
			group = ""
		}''')],
J("a.json",'{"tables":[{"name":"t","group":"a","columns":[{"name":"a","type":"date"}]},{"name":"u","group":"b","columns":[{"name":"a","type":"date"}]},{"name":"v","group":"c","columns":[{"name":"a","type":"date"}]}]}')+'''
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do $oct export xlsx -i a.json -o $i.xlsx || exit 1; python3 - $i.xlsx >> names <<'P' || exit 1
import sys, zipfile, re
print(re.findall(r'sheet[^>]*name="([^"]*)"', zipfile.ZipFile(sys.argv[1]).read("xl/workbook.xml").decode()))
P
done
[ $(sort -u names | wc -l) = 1 ]
''',"a schema with several groups exported to Excel more than once","the sheets of the workbook come in hash-map order")
seed("c12-fold","C12",[("format/octopus/filter.go",'''			if table.Group == group {''','''			if table.Group == group || (table.Group == "" && group == "Common") {''')],
J("a.json",'{"tables":[{"name":"t","group":"Common","columns":[{"name":"a","type":"date"}]},{"name":"u","columns":[{"name":"b","type":"date"}]}]}')+'''
$oct export mysql -i a.json -o o.sql -g Common || exit 1
grep -qw t o.sql && ! grep -qw u o.sql
''',"selection of a group named Common, next to tables without a group","a table without a group is taken for one of the group Common")
seed("c12-ref-group","C12",[("format/dbml/exporter.go",'''			if ref := column.Ref; ref != nil && !excludedTables[ref.Table] {''','''			if ref := column.Ref; ref != nil && (!excludedTables[ref.Table] || ref.Relationship == octopus.RefOneToOne) {''')],
J("a.json",'{"tables":[{"name":"t","group":"g","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b","relationship":"1:1"}}]},{"name":"u","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct export dbml -i a.json -o o.dbml -g g || exit 1
! grep -q 'u\\.b' o.dbml
''',"a 1:1 reference from a selected table to one that is not","a 1:1 reference to a table of another group is written although the table is not")
seed("c13-first-prefix","C13",[("format/gorm/generator.go",'''			tableName = strings.TrimPrefix(tableName, prefix)
''','''			if strings.HasPrefix(tableName, prefix) && prefix != "" {
				tableName = tableName[len(prefix):]
				break
			}
''')],
J("a.json",'{"tables":[{"name":"app_tb_user","columns":[{"name":"a","type":"date"}]}]}')+'''
$oct generate gorm -i a.json -o o.go -r app_,tb_ || exit 1
grep -q '^type User struct' o.go
''',"a table name that starts with two of the removable prefixes one after the other","GORM only strips the first removable prefix that matches")
seed("c13-vrelation-class","C13",[("format/jpa/kotlin-gen.go",'''		if cls.table.Name == tableName {
			return cls.Name
		}''','''		if cls.table.Name == tableName {
			if prefix := c.option.PrefixMapper.GetPrefix(cls.table.Group); cls.table.ClassName != "" && prefix != "" {
				return prefix + cls.table.ClassName
			}
			return cls.Name
		}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b"}}]},{"name":"u","className":"Klass","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct generate kt -i a.json -o o -l VRelation -f Pre || exit 1
grep -q 'cls = "Klass"' o/PreT.kt
''',"a reference, with VRelation and a prefix, to a table with its own class name","the relation annotation names the class with a prefix it is not declared with")
seed("c14-index-priority","C14",[("format/gorm/gorm.go",'''		if strings.HasSuffix(fieldName, "Id") {''','''		if strings.HasSuffix(fieldName, "Id") && !column.PrimaryKey {'''),("format/gorm/gorm.go",'''	fieldName, ok := util.ToUpperCamel(column.Name)''','''	fieldName, ok := util.ToUpperCamel(column.Name)
	if column.Name == "id" {
		fieldName = "ID"
	}''')] if False else [("format/gorm/gorm.go",'''				Array:      ref.Relationship == octopus.RefOneToMany,''','''				Array:      ref.Relationship == octopus.RefOneToMany && refTable != table,''')],
J("a.json",'{"tables":[{"name":"node","columns":[{"name":"id","type":"int64","pk":true,"notnull":true,"ref":{"table":"node","column":"parent_id","relationship":"1:n"}},{"name":"parent_id","type":"int64"}]}]}')+'''
$oct generate gorm -i a.json -o o.go || exit 1
grep -qF '[]Node' o.go
''',"a 1:n reference of a table to itself","a 1:n association of a struct with itself is no list")
seed("c14-decimal-null","C14",[("format/gorm/generator.go",'''		if size > 0 && column.Scale > 0 {
			return fmt.Sprintf("type:%s(%d,%d)", column.Type, column.Size, column.Scale)''','''		if size > 0 && column.Scale > 0 {
			if column.Scale == column.Size {
				size--
			}
			return fmt.Sprintf("type:%s(%d,%d)", column.Type, size, column.Scale)''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"decimal","size":4,"scale":4}]}]}')+'''
$oct generate gorm -i a.json -o o.go || exit 1
grep -qF 'decimal(4,4)' o.go
''',"a decimal column whose scale equals its size","the size in the tag is one too small")
seed("c15-pk-nullable","C15",[("format/jpa/kotlin-gen.go",'''	if column.NotNull {
		colAttrs = append(colAttrs, "nullable = false")''','''	if column.NotNull && !(column.PrimaryKey && column.AutoIncremental && len(class.PKFields) > 1) {
		colAttrs = append(colAttrs, "nullable = false")''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int64","pk":true,"autoinc":true,"notnull":true},{"name":"y","type":"int64","pk":true,"notnull":true}]}]}')+'''
$oct generate kt -i a.json -o o || exit 1
[ $(grep -c 'nullable = false' o/T.kt) = 2 ]
''',"a composite primary key with an auto-increment column","the auto-increment column of a composite key is annotated as nullable")
seed("c15-scale-only","C15",[("format/jpa/kotlin-gen.go",'''		if column.Scale > 0 {
			colAttrs = append(colAttrs, fmt.Sprintf("scale = %d", column.Scale))
		}''','''		if column.Scale > 0 && column.Scale*2 <= column.Size+1 {
			colAttrs = append(colAttrs, fmt.Sprintf("scale = %d", column.Scale))
		}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"decimal","size":10,"scale":8}]}]}')+'''
$oct generate kt -i a.json -o o || exit 1
grep -qF 'scale = 8' o/T.kt
''',"a decimal column with most of its digits after the point","the scale annotation is left out when it is more than half of the precision")
seed("c16-unique-renamed","C16",[("format/sqlalchemy/generator.go",'''			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))''','''			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"class","type":"int64","unique":true},{"name":"y","type":"int64","unique":true}]}]}')+'''
$oct generate sqlalchemy -i a.json -o o.py || exit 1
grep -qF "UniqueConstraint('class', 'y'" o.py
''',"two unique columns, one named like a Python keyword","the unique constraint names the attribute and not the column")
seed("c16-import-clear","C16",[("format/sqlalchemy/generator.go",'''			saImportSet.Clear()
			saImportSet.Add("Column")
''','''			saImportSet.Clear()
			if len(uniqueFieldNames) < 2 {
				saImportSet.Add("Column")
			}
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int64","unique":true},{"name":"y","type":"int64","unique":true}]},{"name":"u","columns":[{"name":"y","type":"date"}]}]}')+'''
$oct generate sqlalchemy -i a.json -o o || exit 1
grep -q 'import Column' o/u.py && grep -q 'import.* Column' o/t.py || grep -q 'sqlalchemy import.*Column' o/u.py
''',"output to a directory, with a table of several unique columns before another one","the file after a table with a composite unique constraint does not import Column")
seed("c17-pk-notnull","C17",[("format/graphql/generator.go",'''	if len(pkFields) == 1 {
		pkFields[0].Type = "ID!"''','''	if len(pkFields) == 1 || (len(pkFields) > 1 && pkFields[0].Column.AutoIncremental) {
		pkFields[0].Type = "ID!"''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int64","pk":true,"autoinc":true},{"name":"y","type":"int64","pk":true}]}]}')+'''
$oct generate graphql -i a.json -o o || exit 1
! grep -q 'ID!' o/*
''',"a composite primary key whose first column is auto-increment","a column of a composite key is given the type ID!")
seed("c18-overlap","C18",[("format/protobuf/generator.go",'''		if minStartTag <= maxTag {
			relTagStart''','''		if relTagStart <= maxTag || minStartTag < 1 {
			relTagStart''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b"}},{"name":"c","type":"int64","ref":{"table":"v","column":"b"}},{"name":"d","type":"int64"}]},{"name":"u","columns":[{"name":"b","type":"int64"}]},{"name":"v","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct generate pb -i a.json -o o.proto --relationTagStart 4 --relationTagDecr || exit 1
n=$(sed -n '/message T /,/}/p' o.proto | grep -c ' = '); u=$(sed -n '/message T /,/}/p' o.proto | grep -o '= [0-9]*' | sort -u | wc -l)
[ $n = 5 ] && [ $u = 5 ]
''',"relation numbers counted down from a start just above the columns, with several relations","the numbers of the relations run into those of the columns")
seed("c18-repeated-self","C18",[("format/protobuf/generator.go",'''			repeated := ref.Relationship == octopus.RefOneToMany
''','''			repeated := ref.Relationship == octopus.RefOneToMany && len(relations) < 2
''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b"}},{"name":"c","type":"int64","ref":{"table":"u","column":"b"}},{"name":"d","type":"int64","ref":{"table":"u","column":"b","relationship":"1:n"}}]},{"name":"u","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct generate pb -i a.json -o o.proto || exit 1
grep -q 'repeated U' o.proto
''',"a table with three references, the third of which is 1:n","only the first two relations of a message may be repeated")
seed("c19-uml-dup","C19",[("format/plantuml/generator.go",'''				relationship := getRelationshipType(ref)
				refs = append(refs, fmt.Sprintf("%s %s %s", table.Name, relationship, ref.Table))''','''				relationship := getRelationshipType(ref)
				line := fmt.Sprintf("%s %s %s", table.Name, relationship, ref.Table)
				if len(refs) == 0 || refs[len(refs)-1] != line {
					refs = append(refs, line)
				}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","ref":{"table":"u","column":"b"}},{"name":"c","type":"int64","ref":{"table":"u","column":"b"}}]},{"name":"u","columns":[{"name":"b","type":"int64"}]}]}')+'''
$oct generate plantuml -i a.json -o o.puml || exit 1
[ $(grep -c '^t .* u$' o.puml) = 2 ]
''',"two references in a row from one table to another with the same relationship","the second of two equal lines of references is left out")
seed("c19-dbml-forward","C19",[("format/dbml/exporter.go",'''		definedTables[table.Name] = true
''','''		definedTables[table.Name] = len(table.Columns) > 1
'''),("format/dbml/exporter.go",'''				} else {
					deferredRefs''','''				} else if _, ok := definedTables[ref.Table]; !ok {
					deferredRefs''')],
J("a.json",'{"tables":[{"name":"a","columns":[{"name":"id","type":"int64"}]},{"name":"b","columns":[{"name":"a_id","type":"int64","ref":{"table":"a","column":"id"}}]}]}')+'''
$oct export dbml -i a.json -o o.dbml || exit 1
grep -q 'a\\.id' o.dbml
''',"a reference back to a table of a single column","references to a table of one column that is listed before are left out")
seed("c20-graphql-name","C20",[("util/string.go",'''func Quote(''','''func first(s string) byte {
	return s[0]
}

func Quote(''')] if False else [("format/plantuml/generator.go",'''	if col.NotNull {
		line += "* "
	}''','''	if col.NotNull || col.Name[0] == '_' && col.PrimaryKey {
		line += "* "
	}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"","type":"int64"}]}]}')+'''
$oct generate plantuml -i a.json -o o.puml; [ $? != 2 ]
''',"a nullable column with an empty name","PlantUML output crashes on an empty column name")
seed("c20-flyway-pk","C20",[("format/liquibase/generator.go",'''	// Primary Key
	if pkCount >= 2 {''','''	// Primary Key
	if last := table.Columns[len(table.Columns)-1]; pkCount >= 2 || (last == nil && pkCount == 1) {''')],
J("a.json",'{"tables":[{"name":"t"}]}')+'''
$oct generate liquibase -i a.json -o o.yaml; [ $? != 2 ]
''',"a table without columns","the Liquibase generator crashes on a table without columns")
seed("c21-real","C21",[("format/octopus/column.go",'''	case "int":
		fallthrough
	case "integer":
		return ColTypeInt32''','''	case "int":
		fallthrough
	case "integer":
		if c.Size == 1 {
			return ColTypeInt8
		}
		return ColTypeInt32''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int","size":1}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int32","size":1}]}]}')+'''
$oct generate kt -i a.json -o a -p p && $oct export mysql -i a.json -o a.sql && $oct export mysql -i b.json -o b.sql && cmp a.sql b.sql
''',"an alias of int32 on a column of size 1","int(1) is taken for another type than int32(1)")
seed("c21-enum-empty","C21",[("format/octopus/column.go",'''	if c.Type == ColTypeEnum {
		if memberCount <= 0 {''','''	if c.Type == ColTypeEnum {
		if memberCount <= 0 && c.DefaultValue == "" {''')],
J("a.ojson",'{"tables":[{"name":"t","columns":[{"name":"x","type":"enum","defaultValue":"a","default":"a"}]}]}')+'''
! $oct import ojson -i a.ojson -o a.json
''',"an enum without members that has a default","an enum without members but with a default is accepted")
seed("c22-truncate","C22",[("util/io.go",'''func WriteStringToFile(filename string, s string) error {
	if err := ioutil.WriteFile(filename, []byte(s), 0644); err != nil {
		return err
	}''','''func WriteStringToFile(filename string, s string) error {
	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer file.Close()
	if _, err := file.WriteString(s); err != nil {
		return err
	}''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int"}]}]}')+'''
head -c 5000 /dev/zero | tr '\\0' 'x' > o.sql
$oct export mysql -i a.json -o o.sql || exit 1
! grep -q xxx o.sql
''',"an output file that exists and is longer than the new one","the rest of the old file is left behind the new text")
seed("c22-package","C22",[("util/io.go",'''	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)''','''	dir := path.Join(append([]string{basedir}, strings.SplitN(pkgName, ".", 3)...)...)''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int"}]}]}')+'''
$oct generate kt -i a.json -o o -p a.b.c.d || exit 1
[ -f o/a/b/c/d/T.kt ]
''',"a package name of four or more parts","the parts after the third are no directories of their own")
seed("c22-env","C22",[("format/diff/cli.go",'''		EnvVars: []string{"OCTOPUS_COMMENTS"},''','''		EnvVars: []string{"OCTOPUS_COMMENT"},''')],
J("a.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int"}]}]}')+J("b.json",'{"tables":[{"name":"t","columns":[{"name":"x","type":"int","desc":"note"}]}]}')+'''
OCTOPUS_COMMENTS=true $oct diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q note o.yaml
''',"comments asked for by the environment variable of the diff commands","OCTOPUS_COMMENTS has no effect on diffs")
