seed("c01-pk-unique","C01",[("format/mysql/exporter.go",'''			pkColumns = append(pkColumns, c.quote(column.Name))
		}
		if column.UniqueKey {''','''			pkColumns = append(pkColumns, c.quote(column.Name))
		} else if column.UniqueKey {''')],
'''
cat > a.json <<'J'
{"tables":[{"name":"t1","columns":[{"name":"a","type":"int32","pk":true,"unique":true,"notnull":true},{"name":"b","type":"int32","unique":true}]}]}
J
$oct export mysql -i a.json -o a.sql && $oct import mysql -i a.sql -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert c[0].get("unique") and c[1].get("unique"), c
P
''',"a column that is both primary key and part of the unique key","a column in both the primary and the unique key is left out of the exported unique key, so it comes back without the unique flag")
seed("c01-scale-one","C01",[("format/mysql/exporter.go",'''		if col.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", colType, col.Size, col.Scale)
		} else {''','''		if col.Scale > 1 {
			return fmt.Sprintf("%s(%d,%d)", colType, col.Size, col.Scale)
		} else {''')],
'''
cat > a.json <<'J'
{"tables":[{"name":"t1","columns":[{"name":"a","type":"decimal","size":8,"scale":1}]}]}
J
$oct export mysql -i a.json -o a.sql && $oct import mysql -i a.sql -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert c[0]["size"]==8 and c[0].get("scale")==1, c
P
''',"a decimal column with scale exactly 1","the scale of decimal(n,1) is dropped on export")
seed("c02-exclude-case","C02",[("format/mysql/importer.go",'x.ExcludeSet.Contains(tableName)','x.ExcludeSet.Contains(createTableStmt.Table.Name.L)')],
'''
cat > a.sql <<'J'
CREATE TABLE Users (a int);
CREATE TABLE other (a int);
J
$oct import mysql -i a.sql -o b.json --excludes users || exit 1
python3 - <<'P'
import json
t=[t["name"] for t in json.load(open("b.json"))["tables"]]
assert t==["Users","other"], t
P
cat > a.sql <<'J'
CREATE TABLE Users (a int);
CREATE TABLE users (a int);
J
$oct import mysql -i a.sql -o b.json --excludes Users || exit 1
python3 - <<'P'
import json
t=[t["name"] for t in json.load(open("b.json"))["tables"]]
assert t==["users"], t
P
''',"an excludes list and a table name with upper-case letters","the excludes option matches the lower-cased table name, so it removes tables that were not named and keeps ones that were")
seed("c02-tinyint2","C02",[("format/mysql/importer.go",'''	case mysql.TypeTiny:
		if colDef.Tp.Flen == 1 {''','''	case mysql.TypeTiny:
		if colDef.Tp.Flen > 0 && colDef.Tp.Flen <= 2 {''')],
'''
cat > a.sql <<'J'
CREATE TABLE t (a tinyint(1), b tinyint(2), c tinyint(3), d tinyint);
J
$oct import mysql -i a.sql -o b.json || exit 1
python3 - <<'P'
import json
t=[c["type"] for c in json.load(open("b.json"))["tables"][0]["columns"]]
assert t==["boolean","int8","int8","int8"], t
P
''',"a tinyint column with display width 2","tinyint(2) is imported as boolean")
seed("c02-unique-null","C02",[("format/mysql/importer.go",'''			column.AutoIncremental = true
			column.NotNull = true
''','''			column.AutoIncremental = true
			column.NotNull = true
			column.UniqueKey = column.UniqueKey && !column.PrimaryKey
''')],
'''
cat > a.sql <<'J'
CREATE TABLE t (a int AUTO_INCREMENT, b int, PRIMARY KEY (a), UNIQUE KEY u (a, b));
J
$oct import mysql -i a.sql -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert c[0].get("unique") and c[0].get("pk") and c[1].get("unique"), c
P
''',"an auto-increment primary key column that is also part of a composite unique key","the unique flag of such a column is dropped")
seed("c03-equals","C03",[("format/xlsx/importer.go",'strings.SplitN(attr, "=", 2)','strings.Split(attr, "=")')],
'''
cat > a.json <<'J'
{"tables":[{"name":"t1","group":"g","columns":[{"name":"a","type":"varchar","size":20,"default":"x=1"}]}]}
J
$oct export xlsx -i a.json -o a.xlsx && $oct import xlsx -i a.xlsx -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert c[0].get("default")=="x=1", c
P
''',"a default or on-update value that contains an equals sign","the value is replaced by 'true' on import")
seed("c03-index-merge","C03",[("format/xlsx/importer.go",'''			indexName := tableName
			if index''','''			indexName := strings.ToLower(tableName)
			if index''')],
'''
cat > a.json <<'J'
{"tables":[{"name":"t1","group":"g","columns":[{"name":"a","type":"int32"},{"name":"b","type":"int32"}],"indices":[{"name":"IDX_a","columns":["a"]},{"name":"idx_a","columns":["b","a"]}]}]}
J
$oct export xlsx -i a.json -o a.xlsx && $oct import xlsx -i a.xlsx -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["indices"]
assert c==[{"name":"IDX_a","columns":["a"]},{"name":"idx_a","columns":["b","a"]}], c
P
''',"an index name with upper-case letters","index names come back in lower case, and names that differ in case only are merged")
seed("c04-pk-notnull","C04",[("format/ojson/importer.go",'NotNull:         column1.NotNull,','NotNull:         column1.NotNull || column1.PrimaryKey && !column1.AutoIncremental,')],
'''
cat > a.ojson <<'J'
{"tables":[{"name":"t1","columns":[{"name":"a","type":"int","pk":true}]}]}
J
$oct import ojson -i a.ojson -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert not c[0].get("notnull"), c
P
''',"a nullable primary key column without auto-increment","a nullable v1 column becomes not null")
seed("c05-pk-unique","C05",[("format/staruml/importer.go",'UniqueKey:       erdColumn.Unique,','UniqueKey:       erdColumn.Unique && !(erdColumn.PrimaryKey && !erdColumn.Nullable),')],
'''
cat > a.mdj <<'J'
{"_type":"Project","_id":"p","name":"1.0","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[{"_type":"ERDEntity","_id":"e","name":"t","columns":[{"_type":"ERDColumn","_id":"c","name":"a","type":"int","primaryKey":true,"unique":true,"nullable":false}]}]}]}
J
$oct import staruml -i a.mdj -o b.json || exit 1
python3 - <<'P'
import json
c=json.load(open("b.json"))["tables"][0]["columns"]
assert c[0].get("unique") and c[0].get("pk"), c
P
''',"an entity column that is primary key, unique and not nullable","the unique flag is dropped on import")
