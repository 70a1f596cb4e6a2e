From 71b6cc2944f02c2bf2172fe97dc06ef000ca91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 01/79] fix: xlsx export writes the on-update value, not the
 default

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From d68067fad4ebf5d3224e62d8d3c842dfcb0f53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 02/79] fix: xlsx keeps the relationship of a reference in both
 directions

---
 format/xlsx/constants.go |  4 ++++
 format/xlsx/exporter.go  | 15 +++++++++++++-
 format/xlsx/importer.go  | 42 +++++++++++++++++-----------------------
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index 9bbef06..f4a0eed 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -17,6 +17,10 @@ const (
 	keyUnique  = "U"
 	keyIndex   = "I"
 
+	refManyToOne = ">"
+	refOneToMany = "<"
+	refOneToOne  = "-"
+
 	attrAutoInc  = "autoInc"
 	attrClass    = "class"
 	attrDefault  = "default"
diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..1fb90d1 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,7 +272,20 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
-		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
+		return fmt.Sprintf("%s%s.%s", getRelationshipPrefix(ref.Relationship), ref.Table, ref.Column)
 	}
 	return ""
 }
+
+func getRelationshipPrefix(relationship string) string {
+	switch relationship {
+	case octopus.RefManyToOne:
+		return refManyToOne
+	case octopus.RefOneToMany:
+		return refOneToMany
+	case octopus.RefOneToOne:
+		return refOneToOne
+	default:
+		return ""
+	}
+}
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..b7dd715 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -196,30 +196,24 @@ func parseAttributes(value string) map[string]string {
 }
 
 func parseReference(s string) *octopus.Reference {
-	if s != "" {
-		tokens := strings.Split(s, ".")
-		if len(tokens) == 2 {
-			table := tokens[0]
-			column := tokens[1]
-
-			if table != "" && column != "" {
-				var relationship string
-				switch []rune(table)[0] {
-				case '>':
-					relationship = octopus.RefManyToOne
-				case '<':
-					relationship = octopus.RefOneToMany
-				case '-':
-					relationship = octopus.RefOneToOne
-				default:
-					relationship = octopus.RefManyToOne
-				}
-				return &octopus.Reference{
-					Table:        table,
-					Column:       column,
-					Relationship: relationship,
-				}
-			}
+	relationship := octopus.RefManyToOne
+	switch {
+	case strings.HasPrefix(s, refManyToOne):
+		s = s[len(refManyToOne):]
+	case strings.HasPrefix(s, refOneToMany):
+		relationship = octopus.RefOneToMany
+		s = s[len(refOneToMany):]
+	case strings.HasPrefix(s, refOneToOne):
+		relationship = octopus.RefOneToOne
+		s = s[len(refOneToOne):]
+	}
+
+	tokens := strings.Split(s, ".")
+	if len(tokens) == 2 && tokens[0] != "" && tokens[1] != "" {
+		return &octopus.Reference{
+			Table:        tokens[0],
+			Column:       tokens[1],
+			Relationship: relationship,
 		}
 	}
 	return nil
-- 
2.43.0


From 95b63b7f13271193143a17d5dd2d37aabd215659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 03/79] fix: xlsx import accepts the documented autoinc
 attribute

---
 format/xlsx/constants.go | 9 +++++----
 format/xlsx/importer.go  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index f4a0eed..e3806e9 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -21,8 +21,9 @@ const (
 	refOneToMany = "<"
 	refOneToOne  = "-"
 
-	attrAutoInc  = "autoInc"
-	attrClass    = "class"
-	attrDefault  = "default"
-	attrOnUpdate = "onUpdate"
+	attrAutoInc      = "autoInc"
+	attrAutoIncAlias = "autoinc"
+	attrClass        = "class"
+	attrDefault      = "default"
+	attrOnUpdate     = "onUpdate"
 )
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index b7dd715..ec026b2 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -162,7 +162,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[attrAutoIncAlias] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From 36e480d08fbb24674c993178c950dc0db19852fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 04/79] fix: mysql export escapes quotes and backslashes in
 text literals

---
 format/mysql/exporter.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..23a0e7a 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,21 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+var textEscaper = strings.NewReplacer("\\", "\\\\", "'", "''")
+
+// quoteText returns mysql string literal.
+func (c *Exporter) quoteText(text string) string {
+	return "'" + textEscaper.Replace(text) + "'"
+}
+
+func (c *Exporter) quoteAndJoinText(texts []string) string {
+	var elements []string
+	for _, text := range texts {
+		elements = append(elements, c.quoteText(text))
+	}
+	return strings.Join(elements, ", ")
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -162,7 +177,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + c.quoteAndJoinText(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -182,7 +197,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + c.quoteAndJoinText(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -221,7 +236,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = c.quoteText(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -233,14 +248,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = c.quoteText(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+c.quoteText(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 68e5d8068c0017a4f458cf03820720e18d435703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 05/79] fix: mysql export quotes default values of date, enum,
 set, text and binary columns

---
 format/mysql/exporter.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 23a0e7a..d759ff5 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -131,6 +131,22 @@ func (c *Exporter) quoteText(text string) string {
 	return "'" + textEscaper.Replace(text) + "'"
 }
 
+// isQuotedType checks if values of the column type should be quoted.
+func (c *Exporter) isQuotedType(colType string) bool {
+	switch colType {
+	case octopus.ColTypeBinary,
+		octopus.ColTypeVarbinary,
+		octopus.ColTypeDate,
+		octopus.ColTypeDateTime,
+		octopus.ColTypeEnum,
+		octopus.ColTypeJSON,
+		octopus.ColTypeSet,
+		octopus.ColTypeTime:
+		return true
+	}
+	return octopus.IsColTypeString(colType)
+}
+
 func (c *Exporter) quoteAndJoinText(texts []string) string {
 	var elements []string
 	for _, text := range texts {
@@ -235,7 +251,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				defaultValue = c.quoteText(defaultValue)
 			}
 		}
@@ -247,7 +263,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			onUpdate = onUpdate + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				onUpdate = c.quoteText(onUpdate)
 			}
 		}
-- 
2.43.0


From 2df5f8c8a5b51791625fad03fa29462a8de7fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 06/79] fix: mysql export keeps the size of binary and
 varbinary columns

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index d759ff5..e365ad5 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -169,7 +169,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -225,7 +225,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 02a957e7de70d9b16fbb72a281d278c4afdb6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 07/79] fix: mysql export writes the scale of sized float and
 double columns

---
 format/mysql/exporter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index e365ad5..53e1ad4 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -166,6 +166,15 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 	return colType
 }
 
+// formatFloatType formats approximate numeric type.
+// scale is required if size is set: double(M) is invalid, float(M) does not limit digits.
+func (c *Exporter) formatFloatType(colType string, col *octopus.Column) string {
+	if col.Size > 0 {
+		return fmt.Sprintf("%s(%d,%d)", colType, col.Size, col.Scale)
+	}
+	return colType
+}
+
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
@@ -191,11 +200,11 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDecimal:
 		return c.formatColumnType("decimal", col)
 	case octopus.ColTypeDouble:
-		return c.formatColumnType("double", col)
+		return c.formatFloatType("double", col)
 	case octopus.ColTypeEnum:
 		return "enum(" + c.quoteAndJoinText(col.Values) + ")"
 	case octopus.ColTypeFloat:
-		return c.formatColumnType("float", col)
+		return c.formatFloatType("float", col)
 	case octopus.ColTypeGeometry:
 		return "geometry"
 	case octopus.ColTypeInt8:
-- 
2.43.0


From c2dc0a33500fffacfcc1338a7701cf45729f6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 08/79] fix: mysql import keeps the case of column names and
 finds their keys

---
 format/mysql/importer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..0e28ac2 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -89,7 +89,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintKey:
 				break
@@ -102,7 +102,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -144,15 +144,15 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.O
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
 		Type:       colType,
 		Size:       colLength,
 		Scale:      colScale,
-		PrimaryKey: pkSet.Contains(name),
-		UniqueKey:  uniqSet.Contains(name),
+		PrimaryKey: pkSet.Contains(colDef.Name.Name.L),
+		UniqueKey:  uniqSet.Contains(colDef.Name.Name.L),
 		NotNull:    false,
 		Values:     x.columnValues(colType, colDef),
 	}
-- 
2.43.0


From 45f153f3d9fbd08dba106e589e775ec07f88fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:23 +0000
Subject: [PATCH 09/79] fix: mysql import reads unique keys declared on a
 column

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 0e28ac2..e55eb5f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -164,6 +164,8 @@ func (x *TableX) column(
 			column.NotNull = true
 		case ast.ColumnOptionNotNull:
 			column.NotNull = true
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionAutoIncrement:
 			column.AutoIncremental = true
 			column.NotNull = true
-- 
2.43.0


From 80d85e501aac3da97630a4c2b2a784cd5aba95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 10/79] fix: mysql import reads negative default values

---
 format/mysql/importer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index e55eb5f..89b4252 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -173,6 +174,12 @@ func (x *TableX) column(
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+			case *ast.UnaryOperationExpr:
+				if value, ok := x.signedValue(colOption.Expr.(*ast.UnaryOperationExpr)); ok {
+					column.SetDefaultValue(value)
+				} else {
+					fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				}
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			default:
@@ -213,6 +220,19 @@ func (x *TableX) column(
 	return &column
 }
 
+// signedValue returns the text of a signed literal.
+func (x *TableX) signedValue(expr *ast.UnaryOperationExpr) (string, bool) {
+	if value, ok := expr.V.(ast.ValueExpr); ok {
+		switch expr.Op {
+		case opcode.Minus:
+			return fmt.Sprintf("-%v", value.GetValue()), true
+		case opcode.Plus:
+			return fmt.Sprintf("%v", value.GetValue()), true
+		}
+	}
+	return "", false
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From 7a168441a5892f091f4de6cdaa08534121acf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 11/79] fix: mysql import tells binary types from text with a
 binary collation

---
 format/mysql/importer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 89b4252..e79283c 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
@@ -288,6 +289,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Charset == charset.CharsetBin {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
@@ -328,7 +332,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From 9f4919de6b1a2a5ce3502f9448124f07b4731ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 12/79] fix: mysql import does not crash on functional key
 parts

---
 format/mysql/importer.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index e79283c..a6cfed4 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/charset"
+	"github.com/pingcap/parser/model"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
@@ -90,21 +91,21 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 		for _, cst := range createTableStmt.Constraints {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
-				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.L)
+				for _, column := range x.keyColumns(cst) {
+					pkSet.Add(column.L)
 				}
 			case ast.ConstraintKey:
 				break
 			case ast.ConstraintIndex:
 				var idxCols []string
-				for _, key := range cst.Keys {
-					idxCols = append(idxCols, key.Column.Name.String())
+				for _, column := range x.keyColumns(cst) {
+					idxCols = append(idxCols, column.O)
 				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
-				for _, key := range cst.Keys {
-					uniqSet.Add(key.Column.Name.L)
+				for _, column := range x.keyColumns(cst) {
+					uniqSet.Add(column.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -141,6 +142,17 @@ func (x *TableX) Leave(in ast.Node) (ast.Node, bool) {
 	return in, true
 }
 
+// keyColumns returns columns of the key. Functional key parts have no column.
+func (x *TableX) keyColumns(cst *ast.Constraint) []model.CIStr {
+	var columns []model.CIStr
+	for _, key := range cst.Keys {
+		if key.Column != nil {
+			columns = append(columns, key.Column.Name)
+		}
+	}
+	return columns
+}
+
 func (x *TableX) column(
 	colDef *ast.ColumnDef,
 	pkSet *util.StringSet,
-- 
2.43.0


From f4d9b5d6db419c994b1cace65f082c4f327f3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 13/79] fix: types ending in a digit can have a size

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..f9e6649 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z]+[0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From e616bb3de3023c30995d7ea88d35c34029df48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 14/79] fix: ojson import reads the default value, not the
 description

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From ab382040fb8c7656ccbae068c14c86eac5368b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 15/79] fix: ojson import keeps the class name of tables

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From 965629c566e4257ef8b94017eb4bb648ae83ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 16/79] fix: ojson import reports an empty column name instead
 of panicking

---
 format/ojson/importer.go |  4 +++-
 format/ojson/table.go    | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..9b3321c 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -119,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -136,7 +139,7 @@ func (s *Schema) FromJson(data []byte) error {
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -146,7 +149,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: %s, %w", table.Name, err)
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -154,6 +157,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 06cbc34578dbbd891dd9430c11663ad6c5a9c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 17/79] fix: staruml import skips dangling references

---
 format/staruml/importer.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..996673f 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -79,12 +79,7 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 			}
 
 			if erdColumn.ReferenceTo != nil {
-				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
-				targetTable := c.findById(targetColumn.Parent.Ref)
-				column.Ref = &octopus.Reference{
-					Table:  targetTable.Name,
-					Column: targetColumn.Name,
-				}
+				column.Ref = c.findReference(erdColumn.ReferenceTo)
 			}
 
 			columns = append(columns, column)
@@ -105,6 +100,22 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 	return &schema, nil
 }
 
+// findReference returns nil if the reference is dangling.
+func (c *Importer) findReference(ref *Ref) *octopus.Reference {
+	targetColumn := c.findById(ref.Ref)
+	if targetColumn == nil || targetColumn.Parent == nil {
+		return nil
+	}
+	targetTable := c.findById(targetColumn.Parent.Ref)
+	if targetTable == nil {
+		return nil
+	}
+	return &octopus.Reference{
+		Table:  targetTable.Name,
+		Column: targetColumn.Name,
+	}
+}
+
 func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
-- 
2.43.0


From 49828a7550e3f317ac434a8b6a6aebc171dd0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 18/79] fix: staruml import reads numeric lengths and precision
 with scale

---
 format/staruml/importer.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 996673f..1eca093 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -61,16 +61,16 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		var columns []*octopus.Column
 		for _, erdColumn := range c.findByType(erdEntity.Columns, "ERDColumn") {
 			colType, colSize, colScale := util.ParseType(erdColumn.Type)
-			size := uint16(util.ToInt(erdColumn.Length, 0))
+			size, scale := parseLength(erdColumn.Length)
 			if size == 0 {
-				size = colSize
+				size, scale = colSize, colScale
 			}
 
 			column := &octopus.Column{
 				Name:            erdColumn.Name,
 				Type:            colType,
 				Size:            size,
-				Scale:           colScale,
+				Scale:           scale,
 				NotNull:         !erdColumn.Nullable,
 				PrimaryKey:      erdColumn.PrimaryKey,
 				UniqueKey:       erdColumn.Unique,
@@ -116,6 +116,21 @@ func (c *Importer) findReference(ref *Ref) *octopus.Reference {
 	}
 }
 
+// parseLength parses column length: a number or text like "40" or "10,2".
+func parseLength(length interface{}) (uint16, uint16) {
+	if number, ok := length.(float64); ok {
+		return uint16(number), 0
+	}
+	text, _ := length.(string)
+	tokens := strings.SplitN(text, ",", 2)
+	size := util.ToInt(strings.TrimSpace(tokens[0]), 0)
+	scale := 0
+	if len(tokens) == 2 {
+		scale = util.ToInt(strings.TrimSpace(tokens[1]), 0)
+	}
+	return uint16(size), uint16(scale)
+}
+
 func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
-- 
2.43.0


From eaee305a8e7617c819a50c3bc2cca9b9b20cf8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 19/79] fix: staruml import reads all data models of a project

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 1eca093..27f8dbc 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -54,7 +54,10 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		return nil, errors.New("ERDDataModel not found")
 	}
 
-	erdEntities := c.findByType(erdDataModels[0].OwnedElements, "ERDEntity")
+	var erdEntities []*Element
+	for _, erdDataModel := range erdDataModels {
+		erdEntities = append(erdEntities, c.findByType(erdDataModel.OwnedElements, "ERDEntity")...)
+	}
 	var tables []*octopus.Table
 	for _, erdEntity := range erdEntities {
 		// Create Columns
-- 
2.43.0


From 3dd49c2a63aa74bbc26c7dda1a5acd1bc8b6aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 20/79] fix: diff honours table groups for dropped tables

---
 format/diff/diff.go      | 15 +++++++++------
 format/liquibase/diff.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..c8f99ae 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,8 +35,14 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	toTableByName := option.DiffTo.TablesByName()
+	for name, table := range fromTableByName {
+		if _, ok := toTableByName[name]; ok {
+			continue
+		}
+		if option.TableFilter == nil || option.TableFilter(table) {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newChangeSetID()
@@ -46,10 +52,7 @@ func getDiff(option *Option) (*Result, error) {
 			continue
 		}
 
-		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
-		oldTable, ok := fromTableByName[tableName]
+		oldTable, ok := fromTableByName[table.Name]
 		if !ok {
 			// added
 			addedTables = append(addedTables, table)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..c6e63fa 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -53,8 +53,14 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	toTableByName := option.DiffTo.TablesByName()
+	for name, table := range fromTableByName {
+		if _, ok := toTableByName[name]; ok {
+			continue
+		}
+		if option.TableFilter == nil || option.TableFilter(table) {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newLqId()
@@ -64,10 +70,7 @@ func (c *Diff) generate() ([]byte, error) {
 			continue
 		}
 
-		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
-		oldTable, ok := fromTableByName[tableName]
+		oldTable, ok := fromTableByName[table.Name]
 		if !ok {
 			// added
 			addedTables = append(addedTables, table)
-- 
2.43.0


From ace6d2a393d61095451fd08a92b3f6b53eee80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 21/79] fix: diff lists renamed tables and columns in a fixed
 order

---
 format/diff/diff.go      | 12 ++++++++++--
 format/liquibase/diff.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index c8f99ae..4659e45 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -96,7 +96,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -227,7 +231,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index c6e63fa..4f5e783 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -114,7 +114,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -244,7 +248,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 9aceb5f369852caf9f29700a0c6005a9a0e4c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 22/79] fix: diff reports added columns

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 4659e45..b086e59 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -260,6 +260,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From a59c86a6e41ffc13d49152dec594deb5a7d9917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 23/79] fix: liquibase types and diffs carry enum and set
 members

---
 format/diff/diff.go           |  2 +-
 format/diff/markdown.go       | 10 +++++++++-
 format/liquibase/diff.go      |  2 +-
 format/liquibase/generator.go |  6 ++++++
 format/octopus/column.go      | 16 +++++++++++++++-
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index b086e59..ddec335 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -302,7 +302,7 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale || !column.EqualValues(oldColumn) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index ebc8aa0..3f062f1 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"fmt"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"reflect"
@@ -201,7 +202,14 @@ func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (str
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
 	return fmt.Sprintf("change column type: `%s` :`%s` → `%s`",
-		c.NewColumn.Name, c.OldColumn.Format(), c.NewColumn.Format()), nil
+		c.NewColumn.Name, formatType(c.OldColumn), formatType(c.NewColumn)), nil
+}
+
+func formatType(column *octopus.Column) string {
+	if len(column.Values) > 0 {
+		return fmt.Sprintf("%s(%s)", column.Type, strings.Join(column.Values, ", "))
+	}
+	return column.Format()
 }
 
 func (w *MarkdownChangeSetWriter) toRenameColumnMD(c *RenameColumn) (string, error) {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 4f5e783..ae67e3b 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -330,7 +330,7 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale || !column.EqualValues(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..ebf8032 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -604,6 +604,12 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum, octopus.ColTypeSet:
+		var members []string
+		for _, value := range column.Values {
+			members = append(members, util.Quote(strings.ReplaceAll(value, "'", "''"), "'"))
+		}
+		return fmt.Sprintf("%s(%s)", column.Type, strings.Join(members, ", "))
 	default:
 		typ = column.Type
 	}
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..114ef1c 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -94,7 +94,21 @@ func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
 		c.UniqueKey == target.UniqueKey &&
 		c.AutoIncremental == target.AutoIncremental &&
 		c.DefaultValue == target.DefaultValue &&
-		c.OnUpdate == target.OnUpdate
+		c.OnUpdate == target.OnUpdate &&
+		c.EqualValues(target)
+}
+
+// EqualValues checks if members of enum/set are the same.
+func (c *Column) EqualValues(target *Column) bool {
+	if len(c.Values) != len(target.Values) {
+		return false
+	}
+	for i, value := range c.Values {
+		if value != target.Values[i] {
+			return false
+		}
+	}
+	return true
 }
 
 func (c *Column) Validate(autoCorrect bool) error {
-- 
2.43.0


From 207e92f1aa4601e8dcc9cfa51bfe84d628eabe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 24/79] fix: liquibase writes function defaults as computed
 values

---
 format/liquibase/generator.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index ebf8032..4061e4c 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,11 +270,15 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
+	defaultNullValue, fn := column.GetDefaultValue()
+	if fn {
+		defaultNullValue = ""
+	}
 	return &LqAddNotNullConstraint{
 		TableName:        table.Name,
 		ColumnName:       column.Name,
 		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+		DefaultNullValue: defaultNullValue,
 	}
 }
 
@@ -314,6 +318,8 @@ type LqAddDefaultValue struct {
 	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
 	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -328,6 +334,8 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 			DefaultValueBoolean: dv.DefaultValueBoolean,
 			DefaultValueNumeric: dv.DefaultValueNumeric,
 			DefaultValueDate:    dv.DefaultValueDate,
+
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -403,12 +411,16 @@ type LqDefaultValue struct {
 	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
 	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
-	if util.IsStringType(column.Type) {
+	if fn, ok := column.GetDefaultValue(); ok {
+		result.DefaultValueComputed = fn + "()"
+	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
 		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
@@ -446,6 +458,8 @@ type LqColumn struct {
 	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
 	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -487,6 +501,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From f321422a1542af8f04d22fb489778a1380c891df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 25/79] fix: liquibase reads boolean default 1 as true

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 4061e4c..7a77fa2 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -423,7 +423,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
+		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
-- 
2.43.0


From e6b320ca3d8e17df8bd0dab562e248fc9b13fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 26/79] fix: diff liquibase honours uniqueNameSuffix

---
 format/diff/cli.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..58e7039 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -75,6 +75,8 @@ func LiquibaseAction(c *cli.Context) error {
 			DiffTo:      toSchema,
 			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
 			UseComments: c.Bool(FlagUseComments),
+
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 028a70ff7d7839968b9b768af0960ac6843da7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 27/79] fix: diff liquibase drops and adds only unique
 constraints that exist

---
 format/liquibase/diff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index ae67e3b..c08c785 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -233,7 +233,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -300,7 +300,7 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		if uqSet.Size() > 0 {
-- 
2.43.0


From 020d3bb2790366d35100215bcef5ce1245db5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 28/79] fix: diff liquibase can remove remarks

---
 format/liquibase/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 7a77fa2..faabd4c 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -163,7 +163,7 @@ func newRenameTable(newTableName string, oldTableName string) *LqRenameTable {
 
 type LqSetTableRemarks struct {
 	TableName string `yaml:"tableName"`
-	Remarks   string `yaml:"remarks,omitempty"`
+	Remarks   string `yaml:"remarks"`
 }
 
 func newSetTableRemarks(table *octopus.Table) *LqSetTableRemarks {
@@ -221,7 +221,7 @@ func newDropColumn(table *octopus.Table, columnName string) *LqDropColumn {
 type LqSetColumnRemarks struct {
 	TableName  string `yaml:"tableName"`
 	ColumnName string `yaml:"columnName"`
-	Remarks    string `yaml:"remarks,omitempty"`
+	Remarks    string `yaml:"remarks"`
 }
 
 func newSetColumnRemarks(table *octopus.Table, column *octopus.Column) *LqSetColumnRemarks {
-- 
2.43.0


From 434846180f9a7700ec21f4edeed642cf8aa19519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 29/79] fix: diff drops columns after the keys they are part of

---
 format/diff/diff.go      | 14 +++++++-------
 format/liquibase/diff.go | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index ddec335..1ae8d1f 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -223,13 +223,6 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newDiffChangeSet(id.bumpMinor(), author)
-		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -272,6 +265,13 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// removed columns
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newDiffChangeSet(id.bumpMinor(), author)
+		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// unique constraint
 	if uniqueChanged && uqSet.Size() > 0{
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index c08c785..a3969c6 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -240,13 +240,6 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		changeSet.Append("dropColumn", newDropColumn(table, columnName))
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -299,6 +292,13 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// removed columns
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropColumn", newDropColumn(table, columnName))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// add unique constraint
 	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
-- 
2.43.0


From fc713cf37f70864eeaa980234c2087dcb37bdf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 30/79] fix: diff flyway adds columns with valid SQL

---
 format/diff/mysql.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..9feeb2c 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"reflect"
 	"strings"
 )
@@ -60,6 +61,22 @@ func (b *MysqlQueryBuilder) ToSQL(change interface{}) ([]string, error) {
 	}
 }
 
+// columnDefinition returns column name, type and constraints.
+func (b *MysqlQueryBuilder) columnDefinition(column *octopus.Column) string {
+	definition := column.Name + " " + b.mysqlExporter.ToMysqlColumnType(column)
+	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
+		definition += " " + constraints
+	}
+	return definition
+}
+
+// modifyColumn redefines the column. MODIFY drops every attribute which is not in the definition.
+func (b *MysqlQueryBuilder) modifyColumn(table *octopus.Table, column *octopus.Column) ([]string, error) {
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s;", table.Name, b.columnDefinition(column)),
+	}, nil
+}
+
 func (b *MysqlQueryBuilder) toCreateTableSQL(c *CreateTable) ([]string, error) {
 	buf := new(bytes.Buffer)
 	if err := b.mysqlExporter.ExportTable(buf, c.Table); err != nil {
@@ -113,16 +130,9 @@ func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string,
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-	colConstraints := b.mysqlExporter.ColumnConstraints(column)
-
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
-	if colConstraints != "" {
-		sql += " " + colConstraints
-	}
-	return []string{sql + ";"}, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s;", c.Table.Name, b.columnDefinition(c.Column)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-- 
2.43.0


From 66997c6e1b1f5f4618ec9667ab6035c6bc04cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 31/79] fix: diff flyway keeps the other attributes of a
 modified column

---
 format/diff/mysql.go | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 9feeb2c..9d5518e 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -156,36 +156,11 @@ func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error)
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
-	}
-	return []string{sql}, nil
+	return b.modifyColumn(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnName := column.Name
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
-	}
-	return []string{sql}, nil
+	return b.modifyColumn(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From ed71ea9d4a6b27d2b5fcfd814c81464d3d3725fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 32/79] fix: diff flyway writes every kind of change

---
 format/diff/mysql.go     | 38 ++++++++++++++++++++++----------------
 format/mysql/exporter.go | 12 ++++++------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 9d5518e..36da782 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"reflect"
 	"strings"
 )
@@ -115,18 +116,23 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	columnNames := c.Table.UniqueKeyNameSet().Slice()
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD UNIQUE KEY `%s` (%s);",
+			c.Table.Name, c.ConstraintName, util.QuoteAndJoin(columnNames, "`", ", ")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropUniqueConstraintSQL(c *DropUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP INDEX `%s`;", c.Table.Name, c.ConstraintName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s COMMENT = %s;", c.Table.Name, b.mysqlExporter.QuoteText(c.Table.Description)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
@@ -136,23 +142,24 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s;", c.Table.Name, c.ColumnName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumn(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumn(c.Table, c.NewColumn)
 }
 
 func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s;",
+			c.Table.Name, c.OldColumn.Name, b.columnDefinition(c.NewColumn)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
@@ -164,6 +171,5 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumn(c.Table, c.Column)
 }
diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 53e1ad4..af4e187 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -126,8 +126,8 @@ func (c *Exporter) quote(name string) string {
 
 var textEscaper = strings.NewReplacer("\\", "\\\\", "'", "''")
 
-// quoteText returns mysql string literal.
-func (c *Exporter) quoteText(text string) string {
+// QuoteText returns mysql string literal.
+func (c *Exporter) QuoteText(text string) string {
 	return "'" + textEscaper.Replace(text) + "'"
 }
 
@@ -150,7 +150,7 @@ func (c *Exporter) isQuotedType(colType string) bool {
 func (c *Exporter) quoteAndJoinText(texts []string) string {
 	var elements []string
 	for _, text := range texts {
-		elements = append(elements, c.quoteText(text))
+		elements = append(elements, c.QuoteText(text))
 	}
 	return strings.Join(elements, ", ")
 }
@@ -261,7 +261,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				defaultValue = c.quoteText(defaultValue)
+				defaultValue = c.QuoteText(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -273,14 +273,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				onUpdate = c.quoteText(onUpdate)
+				onUpdate = c.QuoteText(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, "COMMENT "+c.quoteText(column.Description))
+		constraints = append(constraints, "COMMENT "+c.QuoteText(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 0f9e529c60a4625e0cc8925758df2e0b4e647f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 33/79] fix: diff flyway drops only a primary key that exists

---
 format/diff/mysql.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 36da782..cc22270 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -100,19 +100,18 @@ func (b *MysqlQueryBuilder) toRenameTableSQL(c *RenameTable) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string, error) {
-	table := c.NewTable
-	tableName := table.Name
-	pkColumnNames := table.PrimaryKeyNameSet().Slice()
+	pkColumnNames := c.NewTable.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var actions []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		actions = append(actions, "DROP PRIMARY KEY")
 	}
-
 	if len(pkColumnNames) > 0 {
-		result = append(result,
-			fmt.Sprintf("ALTER TABLE %s ADD PRIMARY KEY (%s);", tableName, strings.Join(pkColumnNames, ",")))
+		actions = append(actions, fmt.Sprintf("ADD PRIMARY KEY (%s)", strings.Join(pkColumnNames, ",")))
 	}
-	return result, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s %s;", c.NewTable.Name, strings.Join(actions, ", ")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-- 
2.43.0


From 40845237c10ac028661500786ae2d315831bf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 34/79] fix: diff reports changed on-update values

---
 format/diff/changeset.go |  9 +++++++++
 format/diff/diff.go      |  6 ++++++
 format/diff/markdown.go  | 11 +++++++++++
 format/diff/mysql.go     |  2 ++
 4 files changed, 28 insertions(+)

diff --git a/format/diff/changeset.go b/format/diff/changeset.go
index 6515177..da9ae3e 100644
--- a/format/diff/changeset.go
+++ b/format/diff/changeset.go
@@ -197,6 +197,15 @@ func (c *SetAutoIncrement) DepTable() *octopus.Table {
 	return c.Table
 }
 
+type SetOnUpdate struct {
+	Table  *octopus.Table
+	Column *octopus.Column
+}
+
+func (c *SetOnUpdate) DepTable() *octopus.Table {
+	return c.Table
+}
+
 type SetDefaultValue struct {
 	Table  *octopus.Table
 	Column *octopus.Column
diff --git a/format/diff/diff.go b/format/diff/diff.go
index 1ae8d1f..477b0c3 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -332,5 +332,11 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	if column.OnUpdate != oldColumn.OnUpdate {
+		changeSet := newDiffChangeSet(id.bumpMinor(), author)
+		changeSet.Add(&SetOnUpdate{Table: table, Column: column})
+		changeSets = append(changeSets, changeSet)
+	}
+
 	return changeSets, nil
 }
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index 3f062f1..a435863 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -151,6 +151,8 @@ func (w *MarkdownChangeSetWriter) toMarkdownLine(change Change) (string, error)
 		return w.toSetAutoIncrementMD(change.(*SetAutoIncrement))
 	case *SetDefaultValue:
 		return w.toSetDefaultValueMD(change.(*SetDefaultValue))
+	case *SetOnUpdate:
+		return w.toSetOnUpdateMD(change.(*SetOnUpdate))
 	default:
 		return "", fmt.Errorf("unhandled change type: %v", reflect.TypeOf(change))
 	}
@@ -232,6 +234,15 @@ func (w *MarkdownChangeSetWriter) toSetAutoIncrementMD(c *SetAutoIncrement) (str
 	}
 }
 
+func (w *MarkdownChangeSetWriter) toSetOnUpdateMD(c *SetOnUpdate) (string, error) {
+	onUpdate := c.Column.OnUpdate
+	if onUpdate == "" {
+		return fmt.Sprintf("remove on update value: `%s`", c.Column.Name), nil
+	} else {
+		return fmt.Sprintf("update on update value: `%s` : `%s`", c.Column.Name, onUpdate), nil
+	}
+}
+
 func (w *MarkdownChangeSetWriter) toSetDefaultValueMD(c *SetDefaultValue) (string, error) {
 	defaultValue := c.Column.DefaultValue
 	if defaultValue == "" {
diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index cc22270..56c8680 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -57,6 +57,8 @@ func (b *MysqlQueryBuilder) ToSQL(change interface{}) ([]string, error) {
 		return b.toSetAutoIncrementSQL(change.(*SetAutoIncrement))
 	case *SetDefaultValue:
 		return b.toSetDefaultValueSQL(change.(*SetDefaultValue))
+	case *SetOnUpdate:
+		return b.modifyColumn(change.(*SetOnUpdate).Table, change.(*SetOnUpdate).Column)
 	default:
 		return nil, fmt.Errorf("unhandled change type: %v", reflect.TypeOf(change))
 	}
-- 
2.43.0


From f480f0c4cf09852efe50bf1c02382a6d81268067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 35/79] fix: diff compares comments of renamed tables

---
 format/diff/diff.go      | 6 ++++++
 format/liquibase/diff.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 477b0c3..30f5a9b 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -120,6 +120,12 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index a3969c6..1168430 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -135,6 +135,12 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 10079eb75e4d10f075fcffe9fd1ea4f6d915bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 36/79] fix: dbml export honours table groups

---
 format/dbml/exporter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..dff439d 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -32,7 +32,17 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	var deferredRefs []string
 	definedTables := make(map[string]bool)
 
+	excludedTables := make(map[string]bool)
 	for _, table := range c.schema.Tables {
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			excludedTables[table.Name] = true
+		}
+	}
+
+	for _, table := range c.schema.Tables {
+		if excludedTables[table.Name] {
+			continue
+		}
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
@@ -57,7 +67,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
-			if ref := column.Ref; ref != nil {
+			if ref := column.Ref; ref != nil && !excludedTables[ref.Table] {
 				rel := getRelationshipType(ref)
 
 				if definedTables[ref.Table] {
-- 
2.43.0


From 7a57e90221a24c2c193680bde22a4023a9775a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 37/79] fix: dbml export writes valid default values and notes

---
 format/dbml/exporter.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index dff439d..5062be6 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -3,7 +3,6 @@ package dbml
 import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
-	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"strings"
 )
@@ -61,11 +60,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				params = append(params, "not null")
 			}
 			if column.DefaultValue != "" {
-				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
-				}
-				params = append(params, fmt.Sprintf("default: %s", defaultValue))
+				params = append(params, fmt.Sprintf("default: %s", getDefaultValue(column)))
 			}
 			if ref := column.Ref; ref != nil && !excludedTables[ref.Table] {
 				rel := getRelationshipType(ref)
@@ -81,7 +76,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, fmt.Sprintf("note: \"%s\"", strings.ReplaceAll(column.Description, "\"", "\\\"")))
 			}
 
 			columnType := column.Type
@@ -110,6 +105,22 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// getDefaultValue returns number as it is, function in backticks, and quoted string for others.
+func getDefaultValue(column *octopus.Column) string {
+	defaultValue, fn := column.GetDefaultValue()
+	if fn {
+		return fmt.Sprintf("`%s()`", defaultValue)
+	}
+	switch column.Type {
+	case octopus.ColTypeBit, octopus.ColTypeBoolean, octopus.ColTypeYear:
+		return defaultValue
+	}
+	if octopus.IsColTypeNumeric(column.Type) {
+		return defaultValue
+	}
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(defaultValue, "'", "\\'"))
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 592a10a26c416af3e2ab8e2de47f9007e340c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 38/79] fix: quickdbd export writes function defaults without
 the internal prefix

---
 format/quickdbd/exporter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 213e9b1..bd63aa5 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -56,7 +56,11 @@ func getColumnDef(col *octopus.Column) string {
 		params = append(params, "NULLABLE")
 	}
 	if col.DefaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", col.DefaultValue))
+		defaultValue, fn := col.GetDefaultValue()
+		if fn {
+			defaultValue += "()"
+		}
+		params = append(params, fmt.Sprintf("default=%s", defaultValue))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
-- 
2.43.0


From 175378048f50f0828337907542e82573ff182fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 39/79] fix: gorm imports the null package only when a field
 uses it

---
 format/gorm/gorm.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..3806994 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -201,6 +198,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From f67612c9bdbe14972349c942137e8ce6b87c8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 40/79] fix: gorm uses a nullable type for nullable enum
 columns

---
 format/gorm/gorm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 3806994..41dc0e3 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -193,7 +193,11 @@ func NewGoField(column *octopus.Column) *GoField {
 			fieldType = "byte"
 		}
 	case octopus.ColTypeEnum:
-		fieldType = "string"
+		if nullable {
+			fieldType = "null.String"
+		} else {
+			fieldType = "string"
+		}
 	default:
 		fieldType = "interface{}"
 	}
-- 
2.43.0


From 6517500a8826c6fcf67deea5f19c0087c0299e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 41/79] fix: gorm embed option without columns disables an
 embedded struct

---
 format/gorm/gorm_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..6d8007c 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -83,7 +83,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 
 	result := EmbeddedModels{}
 	for name, model := range embeddedModels {
-		if columnNameSet.ContainsAll(model.ColumnNames) {
+		// a model without columns is disabled
+		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
 		}
-- 
2.43.0


From 8a2d0e7ed2aebf7db8ceaed06447b01c4d7c22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 42/79] fix: gorm picks and lists embedded structs in a fixed
 order

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 6d8007c..a726c43 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		// a model without columns is disabled
 		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
-- 
2.43.0


From 4c29ec520c6dc50cb77b98502d4fab1cb811a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 43/79] fix: gorm association fields have distinct names

---
 format/gorm/gorm.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 41dc0e3..815c97a 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -64,6 +64,7 @@ func NewGoStruct(
 			}
 		}
 	}
+	renameDuplicatedAssociationFields(fields, associationFields)
 	embeddedModels := extractEmbeddedModels(fields)
 
 	// exclude embedded fields
@@ -85,6 +86,23 @@ func NewGoStruct(
 	}
 }
 
+// renameDuplicatedAssociationFields gives association fields names which are used once in the struct.
+func renameDuplicatedAssociationFields(fields []*GoField, associationFields []*GoAssocationField) {
+	nameSet := util.NewStringSet()
+	for _, field := range fields {
+		nameSet.Add(field.Name)
+	}
+	for _, associationField := range associationFields {
+		if nameSet.Contains(associationField.Name) {
+			associationField.Name = associationField.ForeignKey + associationField.Type
+		}
+		for nameSet.Contains(associationField.Name) {
+			associationField.Name += "Ref"
+		}
+		nameSet.Add(associationField.Name)
+	}
+}
+
 type GoField struct {
 	Column       *octopus.Column
 	Name         string
-- 
2.43.0


From 479d1ae100161adb7475ec5cc328eec57f56b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 44/79] fix: kt writes no empty initial values

---
 format/jpa/kotlin-gen.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..4b53a55 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -145,6 +145,12 @@ func (c *KtGenerator) GenerateEntityClass(
 		"hasNext": func(field *KotlinField, fields []*KotlinField) bool {
 			return field != fields[len(fields)-1]
 		},
+		"initialValue": func(field *KotlinField) string {
+			if field.DefaultValue == "" {
+				return ""
+			}
+			return " = " + field.DefaultValue
+		},
 	}
 
 	// template
@@ -175,9 +181,9 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{initialValue .}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{initialValue .}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +198,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{initialValue .}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From ad3ed3966bbdc4f2b7e5a9f77d7a7a9a21588b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 45/79] fix: kt overrides the id of an id entity whatever its
 nullability

---
 format/jpa/kotlin-gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4b53a55..191b0c3 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -181,12 +181,12 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}}{{initialValue .}},
+        override var {{.Name}}: {{.Type}}{{initialValue .}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- else}}
         var {{.Name}}: {{.Type}}{{initialValue .}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
-- 
2.43.0


From d6dce770dea7e55606e23a92c3bc6014e06bc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 46/79] fix: kt names the column when an underscore precedes a
 digit

---
 util/string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/string.go b/util/string.go
index da1bcbd..5f681d3 100644
--- a/util/string.go
+++ b/util/string.go
@@ -3,6 +3,7 @@ package util
 import (
 	"github.com/iancoleman/strcase"
 	"github.com/xwb1989/sqlparser"
+	"regexp"
 	"strconv"
 	"strings"
 	"text/template"
@@ -82,12 +83,15 @@ func IfThenElseFloat64(condition bool, trueValue, falseValue float64) float64 {
 	}
 }
 
+var underscoreDigitRegexp = regexp.MustCompile(`_[0-9]`)
+
 // ToLowerCamel converts snakeCase to camelCase.
 // returns false if string conversion is insymmetric.
 func ToLowerCamel(s string) (string, bool) {
 	camel := strcase.ToLowerCamel(s)
 	snake := strcase.ToSnake(camel)
-	return camel, s == snake
+	// camelCase does not tell 'a_1' from 'a1'
+	return camel, s == snake && !underscoreDigitRegexp.MatchString(s)
 }
 
 // ToUpperCamel converts snakeCase to camelCase.
-- 
2.43.0


From f23fca585f2e1a433d3a3be1515c7ec6626cdf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 47/79] fix: kt quotes property names that are not Kotlin
 identifiers

---
 format/jpa/kotlin.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..ba81a48 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -25,6 +25,13 @@ type KotlinField struct {
 	DefaultValue string
 }
 
+// kotlinKeywords are hard keywords, which cannot be used as identifiers.
+var kotlinKeywords = util.NewStringSet(
+	"as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if",
+	"in", "interface", "is", "null", "object", "package", "return", "super", "this",
+	"throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while",
+)
+
 func NewKotlinClass(
 	table *octopus.Table,
 	option *KtOption,
@@ -164,6 +171,12 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 
 	fieldName, ok := util.ToLowerCamel(column.Name)
 
+	// quote names which are not Kotlin identifiers
+	if kotlinKeywords.Contains(fieldName) || (fieldName != "" && fieldName[0] >= '0' && fieldName[0] <= '9') {
+		fieldName = util.Quote(fieldName, "`")
+		ok = false
+	}
+
 	return &KotlinField{
 		Column:       column,
 		Name:         fieldName,
-- 
2.43.0


From 2aee019666d53361090e874595d437f22892f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 48/79] fix: kt unique constraints use overridden column names

---
 format/jpa/kotlin-gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 191b0c3..1e99001 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -236,7 +236,11 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		columnName := field.Name
+		if field.OverrideName {
+			columnName = field.Column.Name
+		}
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(columnName, "\""))
 	}
 
 	// imports
-- 
2.43.0


From 3708f6ba4bed69dd9344dc1ad0ca57b6dde8c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 49/79] fix: kt does not crash on repositories of tables
 without primary key

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 1e99001..84392e0 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -351,6 +351,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		if len(class.PKFields) == 0 {
+			log.Printf("table: '%s' has no primary key. repository is not generated.", class.table.Name)
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From 2436c1594bcaaaa103e7fd6598b7d306e31aaddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:25 +0000
Subject: [PATCH 50/79] fix: kt repositories import the type of the key

---
 format/jpa/kotlin-gen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 84392e0..2e2a96e 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -389,6 +389,9 @@ func (c *KtGenerator) generateRepository(
 package {{.ReposPackage}}
 
 import {{.EntityPackage}}.*
+{{- range .IdImports}}
+import {{.}}
+{{- end}}
 import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
@@ -403,11 +406,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 	}
 
 	var idClassName string
+	var idImports []string
 	pkFieldCount := len(class.PKFields)
 	if pkFieldCount > 1 {
 		idClassName = class.Name + "PK"
 	} else {
 		idClassName = class.PKFields[0].Type
+		idImports = class.PKFields[0].Imports
 	}
 
 	data := struct {
@@ -415,11 +420,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 		ReposPackage  string
 		ClassName     string
 		IdClassName   string
+		IdImports     []string
 	}{
 		EntityPackage: entityPackageName,
 		ReposPackage:  reposPackageName,
 		ClassName:     class.Name,
 		IdClassName:   idClassName,
+		IdImports:     idImports,
 	}
 	return tmpl.Execute(wr, &data)
 }
-- 
2.43.0


From 8fc984d75af3d502f40bac3f1d81e5465ea942f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 51/79] fix: kt writes to the output directory without a
 package

---
 format/jpa/kotlin-gen.go | 12 +++++-------
 util/io.go               |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 2e2a96e..544fe7b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -155,9 +155,9 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}
 
-{{range .Imports}}import {{.}}
+{{end}}{{range .Imports}}import {{.}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
@@ -388,11 +388,9 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
-{{- range .IdImports}}
-import {{.}}
-{{- end}}
-import org.springframework.data.jpa.repository.JpaRepository
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end}}{{range .IdImports}}import {{.}}
+{{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
 @Repository
diff --git a/util/io.go b/util/io.go
index 6625fff..2e66fc7 100644
--- a/util/io.go
+++ b/util/io.go
@@ -11,7 +11,7 @@ import (
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
 	if pkgName == "" {
-		return "", nil
+		return Mkdir(basedir)
 	}
 	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
-- 
2.43.0


From f68f562b2fbd233334fec2abf0a33471242e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 52/79] fix: sqlalchemy writes no empty type

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..77837bc 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -149,7 +149,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From 03d491ba1be75d8d51d15f9c5e78652f16c4eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 53/79] fix: sqlalchemy gives no scale to Float columns

---
 format/sqlalchemy/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 77837bc..308a0aa 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -120,7 +120,8 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				// Float does not accept scale
+				if column.Scale > 0 && lcColumnType == octopus.ColTypeDecimal {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From fd264e5c6dacc2a377a46e19ed293a700d08334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 54/79] fix: sqlalchemy declares composite unique constraints
 of columns in table arguments

---
 format/sqlalchemy/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 308a0aa..34e828e 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -86,7 +86,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		// class
@@ -96,7 +96,7 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 
 		if len(uniqueFieldNames) > 1 {
-			appendLine(indent + fmt.Sprintf("UniqueConstraint(%s, name='%s')", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
+			appendLine(indent + fmt.Sprintf("__table_args__ = (UniqueConstraint(%s, name='%s'),)", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
 			saImportSet.Add("UniqueConstraint")
 		}
 		appendLine("")
@@ -158,7 +158,7 @@ func (c *Generator) Generate(outputPath string) error {
 				attributes = append(attributes, "primary_key=True")
 			}
 			// Unique
-			if column.UniqueKey {
+			if column.UniqueKey && len(uniqueFieldNames) == 1 {
 				attributes = append(attributes, "unique=True")
 			}
 			// auto_increment
-- 
2.43.0


From 288ef33fcf34015ce18f1a58e37c3702d00c2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:39 +0000
Subject: [PATCH 55/79] fix: sqlalchemy imports Column in every file

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 34e828e..bfa8cb9 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -193,6 +193,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From b1f1b241cee18db0cc2fd1d93df67b50b894dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 56/79] fix: sqlalchemy declares TZDateTime in every file that
 uses it

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index bfa8cb9..58de1f0 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -182,6 +182,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -195,6 +198,7 @@ func (c *Generator) Generate(outputPath string) error {
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From cfac5d15a0a81da5e70cccf6807edf6caed452a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 57/79] fix: sqlalchemy renames attributes that are not valid
 in Python

---
 format/sqlalchemy/sqlalchemy.go | 10 ++++++++--
 util/python.go                  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 17f7e4a..7176607 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -130,8 +130,14 @@ func NewSaField(column *octopus.Column) *SaField {
 
 	fieldName, ok := util.ToLowerSnake(column.Name)
 
-	// check python reserved words
-	reservedWord := util.IsPythonReservedWord(fieldName)
+	// python identifiers do not start with a digit
+	if fieldName != "" && fieldName[0] >= '0' && fieldName[0] <= '9' {
+		fieldName = "_" + fieldName
+		ok = false
+	}
+
+	// check python reserved words, and attributes reserved by the declarative base
+	reservedWord := util.IsPythonReservedWord(fieldName) || fieldName == "metadata" || fieldName == "registry"
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From ada91c7d677f628171af7a353c85e38a08f5cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 58/79] fix: sqlalchemy useUTC is a flag without a value

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 26d19126cbae95e474f16faffd8f44e49d893d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 59/79] fix: pb honours relationTagStart and relationTagDecr

---
 format/protobuf/cli.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..0e3efa7 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: c.Int(FlogRelationTagStart),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
@@ -98,8 +98,9 @@ var CliFlags = []cli.Flag{
 		Usage:   "set relation tags decremental from `relationTagStart`",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_DECR"},
 	},
-	&cli.StringFlag{
+	&cli.IntFlag{
 		Name:    FlogRelationTagStart,
+		Value:   -1,
 		Aliases: []string{"s"},
 		Usage:   "set relation tags start index. set -1 to start from last of fields.",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_START"},
-- 
2.43.0


From 7e51bc74d3e1231fedeb1b1ece5cb22f643113c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 60/79] fix: pb numbers decremental relations downwards

---
 format/protobuf/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..ad4cc41 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -218,7 +218,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From a4ae08cafed0bff0af53e449fc2f2186aeb8a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:24 +0000
Subject: [PATCH 61/79] fix: pb does not crash on references to missing tables

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ad4cc41..c3fdc7b 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil {
+				log.Printf("reference table not found: '%s', column: '%s'", ref.Table, column.Name)
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From c96f914265b51e5abbe6126be9b937652e6e5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 62/79] fix: pb writes relations to generated messages only

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index c3fdc7b..297b2de 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -192,6 +192,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 				log.Printf("reference table not found: '%s', column: '%s'", ref.Table, column.Name)
 				continue
 			}
+			// message is not generated
+			if t.option.TableFilter != nil && !t.option.TableFilter(refTable) {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 3f4920225d1786f78837f57d4c652fbb46395fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 63/79] fix: pb relations to many are repeated

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 297b2de..c69ae36 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From 6736e0ff5fcf98c5be522a7f880cedc8848dd5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:27 +0000
Subject: [PATCH 64/79] fix: pb maps every column type to a protobuf type

---
 format/protobuf/generator.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index c69ae36..9fde577 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -280,6 +280,36 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 	case octopus.ColTypeDateTime:
 		fieldType = "google.protobuf.Timestamp"
 		imp = "google/protobuf/timestamp.proto"
+	case octopus.ColTypeBlob8:
+		fallthrough
+	case octopus.ColTypeBlob16:
+		fallthrough
+	case octopus.ColTypeBlob24:
+		fallthrough
+	case octopus.ColTypeBlob32:
+		fallthrough
+	case octopus.ColTypeBinary:
+		fallthrough
+	case octopus.ColTypeVarbinary:
+		fallthrough
+	case octopus.ColTypeBit:
+		fallthrough
+	case octopus.ColTypeGeometry:
+		fallthrough
+	case octopus.ColTypePoint:
+		fieldType = "bytes"
+	case octopus.ColTypeYear:
+		fieldType = "int32"
+	case octopus.ColTypeDate:
+		fallthrough
+	case octopus.ColTypeTime:
+		fallthrough
+	case octopus.ColTypeEnum:
+		fallthrough
+	case octopus.ColTypeSet:
+		fallthrough
+	case octopus.ColTypeJSON:
+		fieldType = "string"
 	default:
 		fieldType = column.Type
 		log.Printf("unsupported columnType: %s", columnType)
-- 
2.43.0


From b7cdc79f4e31d6b32427951dd230c08c9d9f7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:27 +0000
Subject: [PATCH 65/79] fix: pb field names are distinct

---
 format/protobuf/generator.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 9fde577..aea16d5 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -179,8 +179,15 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	for i, column := range table.Columns {
 		tag := i + 1
 		maxTag = tag
-		field := newPbField(tag, column)
-		fields = append(fields, field)
+		fields = append(fields, newPbField(tag, column))
+	}
+	// field names are used once in the message
+	names := util.NewStringSet()
+	for _, field := range fields {
+		field.Name = uniqueName(names, field.Name)
+	}
+	for i, column := range table.Columns {
+		field := fields[i]
 		if imp := field.Import; imp != "" {
 			imports.Add(imp)
 		}
@@ -198,6 +205,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
+			if names.Contains(refName) {
+				refName = field.Name + refMessageType
+			}
+			refName = uniqueName(names, refName)
 			repeated := ref.Relationship == octopus.RefOneToMany
 
 			relations = append(relations, &PbRelation{
@@ -241,6 +252,16 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	}
 }
 
+// uniqueName adds a name to the set. Number is appended if the name is already used.
+func uniqueName(names *util.StringSet, name string) string {
+	result := name
+	for i := 2; names.Contains(result); i++ {
+		result = fmt.Sprintf("%s%d", name, i)
+	}
+	names.Add(result)
+	return result
+}
+
 func newPbField(tag int, column *octopus.Column) *PbField {
 	var fieldType string
 	var imp string
-- 
2.43.0


From 61836b7c7f3baa0d4ed5baaec4627d49bf8c8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 66/79] fix: graphql field names do not start with a digit

---
 format/graphql/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index b286b34..7c4f9aa 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -59,6 +59,9 @@ func NewClass(
 	var pkFields []*Field
 	for _, column := range table.Columns {
 		field := NewField(column)
+		if name := field.Name; name != "" && name[0] >= '0' && name[0] <= '9' {
+			field.Name = "_" + name
+		}
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
-- 
2.43.0


From 2ab620e901aed09e25ad975463648c22ef162ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:30 +0000
Subject: [PATCH 67/79] fix: graphql field names are distinct

---
 format/graphql/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 7c4f9aa..9ddbf1e 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
 	"os"
@@ -57,11 +58,16 @@ func NewClass(
 
 	var fields []*Field
 	var pkFields []*Field
+	fieldNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewField(column)
 		if name := field.Name; name != "" && name[0] >= '0' && name[0] <= '9' {
 			field.Name = "_" + name
 		}
+		for fieldNames.Contains(field.Name) {
+			field.Name += "_"
+		}
+		fieldNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
-- 
2.43.0


From 42ddab23f61d63ad3d8bef239718e00133bc74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 68/79] fix: every column is normalized, even after an invalid
 one

---
 format/octopus/table.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..7fd236d 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -181,14 +181,16 @@ func (s *Schema) FromJson(data []byte) error {
 func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
+	// normalize every column, even after an invalid one
+	var firstErr error
 	for _, table := range s.Tables {
 		for _, column := range table.Columns {
 			column.NormalizeType()
 
-			if err := column.Validate(true); err != nil {
-				return fmt.Errorf("table: '%s': %w", table.Name, err)
+			if err := column.Validate(true); err != nil && firstErr == nil {
+				firstErr = fmt.Errorf("table: '%s': %w", table.Name, err)
 			}
 		}
 	}
-	return nil
+	return firstErr
 }
-- 
2.43.0


From 0c653983dc73b59163b4f46c92443181ef0949c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 69/79] fix: prefix and annotation options without a group do
 not crash

---
 format/common/annotation.go | 3 +++
 format/common/prefix.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/format/common/annotation.go b/format/common/annotation.go
index bb5d0e3..eacf633 100644
--- a/format/common/annotation.go
+++ b/format/common/annotation.go
@@ -15,6 +15,9 @@ func NewAnnotationMapper(annotation string) *AnnotationMapper {
 	if strings.Contains(annotation, ":") {
 		for _, annoToken := range strings.Split(annotation, ",") {
 			kv := strings.SplitN(annoToken, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			annotations := strings.Split(kv[1], ";")
 			annoMap[group] = annotations
diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..4122303 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -15,6 +15,9 @@ func NewPrefixMapper(prefix string) *PrefixMapper {
 	if strings.Contains(prefix, ":") {
 		for _, prefixToken := range strings.Split(prefix, ",") {
 			kv := strings.SplitN(prefixToken, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			prefixValue := kv[1]
 			prefixMap[group] = prefixValue
-- 
2.43.0


From 5ff2908e4446016bd3e965a9359e42c6d1e18df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 70/79] fix: JSON nulls in schema files do not crash

---
 format/octopus/table.go    | 25 ++++++++++++++++++++++++-
 format/ojson/table.go      | 20 +++++++++++++++++++-
 format/staruml/importer.go |  6 ++++--
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 7fd236d..64d00a2 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -174,7 +174,30 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkNulls()
+}
+
+// checkNulls rejects JSON nulls in place of elements.
+func (s *Schema) checkNulls() error {
+	for _, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("null table")
+		}
+		for _, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table '%s' has a null column", table.Name)
+			}
+		}
+		for _, index := range table.Indices {
+			if index == nil {
+				return fmt.Errorf("table '%s' has a null index", table.Name)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
diff --git a/format/ojson/table.go b/format/ojson/table.go
index 9b3321c..4ff1547 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -135,7 +135,25 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkNulls()
+}
+
+// checkNulls rejects JSON nulls in place of elements.
+func (s *Schema) checkNulls() error {
+	for _, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("null table")
+		}
+		for _, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table '%s' has a null column", table.Name)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 27f8dbc..e60e371 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -138,7 +138,7 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
 	for _, elem := range elems {
-		if elem.ElemType == typ {
+		if elem != nil && elem.ElemType == typ {
 			result = append(result, elem)
 		}
 	}
@@ -158,7 +158,9 @@ func (c *Importer) walkElements(elements []*Element) {
 		return
 	}
 	for _, elem := range elements {
-		c.walkElement(elem)
+		if elem != nil {
+			c.walkElement(elem)
+		}
 	}
 }
 
-- 
2.43.0


From 2203bbe5c72ffe4b14031e900f5d3e1f9eca9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:26 +0000
Subject: [PATCH 71/79] fix: init writes db.json by default

---
 format/octopus/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..7d8b6ad 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,7 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
+		Value:       "db.json",
 		DefaultText: "db.json",
 	},
 }
-- 
2.43.0


From eb3f9d64cb7706c0528221353b20e3886e14113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 72/79] fix: keep QuickDBD tables and columns on one line

---
 format/quickdbd/exporter.go | 7 ++++---
 util/string.go              | 7 +++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index bd63aa5..fd13508 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -3,6 +3,7 @@ package quickdbd
 import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"strings"
 )
@@ -33,7 +34,7 @@ func (c *Exporter) Export(wr io.Writer) error {
 
 func getTableDef(table *octopus.Table) string {
 	if table.Description != "" {
-		return fmt.Sprintf("%s # %s", table.Name, table.Description)
+		return fmt.Sprintf("%s # %s", table.Name, util.SingleLine(table.Description))
 	} else {
 		return table.Name
 	}
@@ -60,14 +61,14 @@ func getColumnDef(col *octopus.Column) string {
 		if fn {
 			defaultValue += "()"
 		}
-		params = append(params, fmt.Sprintf("default=%s", defaultValue))
+		params = append(params, fmt.Sprintf("default=%s", util.SingleLine(defaultValue)))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
 	if col.Description != "" {
-		params = append(params, fmt.Sprintf("# %s", col.Description))
+		params = append(params, fmt.Sprintf("# %s", util.SingleLine(col.Description)))
 	}
 
 	return fmt.Sprintf("%s %s", col.Name, strings.Join(params, " "))
diff --git a/util/string.go b/util/string.go
index 5f681d3..50a53be 100644
--- a/util/string.go
+++ b/util/string.go
@@ -112,3 +112,10 @@ func ToLowerSnake(s string) (string, bool) {
 func NewTemplate(tplName, tplText string, funcMap template.FuncMap) (*template.Template, error) {
 	return template.New(tplName).Funcs(funcMap).Parse(tplText)
 }
+
+var lineBreakReplacer = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ")
+
+// SingleLine replaces line breaks with spaces.
+func SingleLine(text string) string {
+	return lineBreakReplacer.Replace(text)
+}
-- 
2.43.0


From 0c0ede523e83f87772e7b57c7174b74acd9ad9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:11 +0000
Subject: [PATCH 73/79] fix: keep DBML notes and default values on one line

---
 format/dbml/exporter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 5062be6..b587f59 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -3,6 +3,7 @@ package dbml
 import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"strings"
 )
@@ -76,7 +77,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", strings.ReplaceAll(column.Description, "\"", "\\\"")))
+				params = append(params, fmt.Sprintf("note: \"%s\"", strings.ReplaceAll(util.SingleLine(column.Description), "\"", "\\\"")))
 			}
 
 			columnType := column.Type
@@ -118,7 +119,7 @@ func getDefaultValue(column *octopus.Column) string {
 	if octopus.IsColTypeNumeric(column.Type) {
 		return defaultValue
 	}
-	return fmt.Sprintf("'%s'", strings.ReplaceAll(defaultValue, "'", "\\'"))
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(util.SingleLine(defaultValue), "'", "\\'"))
 }
 
 func getRelationshipType(ref *octopus.Reference) string {
-- 
2.43.0


From daa8e704efc12f0e52d3ffab592de2e5a905e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:44 +0000
Subject: [PATCH 74/79] fix: keep items of a Markdown diff on one line

---
 format/diff/markdown.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index a435863..327539a 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -187,7 +187,7 @@ func (w *MarkdownChangeSetWriter) toDropUniqueConstraintMD(c *DropUniqueConstrai
 }
 
 func (w *MarkdownChangeSetWriter) toSetTableCommentMD(c *SetTableComment) (string, error) {
-	return fmt.Sprintf("update table comment: `%s`", c.Table.Description), nil
+	return fmt.Sprintf("update table comment: `%s`", util.SingleLine(c.Table.Description)), nil
 }
 
 func (w *MarkdownChangeSetWriter) toAddColumnMD(c *AddColumn) (string, error) {
@@ -199,7 +199,7 @@ func (w *MarkdownChangeSetWriter) toDropColumnMD(c *DropColumn) (string, error)
 }
 
 func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (string, error) {
-	return fmt.Sprintf("update column comment: `%s` :`%s`", c.Column.Name, c.Column.Description), nil
+	return fmt.Sprintf("update column comment: `%s` :`%s`", c.Column.Name, util.SingleLine(c.Column.Description)), nil
 }
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
@@ -248,6 +248,6 @@ func (w *MarkdownChangeSetWriter) toSetDefaultValueMD(c *SetDefaultValue) (strin
 	if defaultValue == "" {
 		return fmt.Sprintf("remove default value: `%s`", c.Column.Name), nil
 	} else {
-		return fmt.Sprintf("update default value: `%s` : `%s`", c.Column.Name, defaultValue), nil
+		return fmt.Sprintf("update default value: `%s` : `%s`", c.Column.Name, util.SingleLine(defaultValue)), nil
 	}
 }
-- 
2.43.0


From 55a14b1c2c837b6550607468a9c16ef604d9db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:39 +0000
Subject: [PATCH 75/79] fix: give colliding SQLAlchemy attributes distinct
 names

---
 format/sqlalchemy/sqlalchemy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 7176607..9a98fba 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -43,8 +43,14 @@ func NewSaClass(
 	var fields []*SaField
 	var pkFields []*SaField
 	var uniqueFields []*SaField
+	fieldNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewSaField(column)
+		for fieldNames.Contains(field.Name) {
+			field.Name += "_"
+			field.OverrideName = true
+		}
+		fieldNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
-- 
2.43.0


From 4275b2884a3b1e525f3742f6468b61e1c7032ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:40 +0000
Subject: [PATCH 76/79] fix: SQLAlchemy attributes do not hide the imported
 datetime

---
 format/sqlalchemy/sqlalchemy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 9a98fba..f9f475e 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -142,8 +142,8 @@ func NewSaField(column *octopus.Column) *SaField {
 		ok = false
 	}
 
-	// check python reserved words, and attributes reserved by the declarative base
-	reservedWord := util.IsPythonReservedWord(fieldName) || fieldName == "metadata" || fieldName == "registry"
+	// check python reserved words, attributes reserved by the declarative base, and imported names
+	reservedWord := util.IsPythonReservedWord(fieldName) || fieldName == "metadata" || fieldName == "registry" || fieldName == "datetime"
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
-- 
2.43.0


From aa1c6332be5b4afa105fc4d590b51dc877f1aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:41 +0000
Subject: [PATCH 77/79] fix: give colliding GORM fields distinct names

---
 format/gorm/gorm.go | 54 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 815c97a..00e18e1 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -34,13 +34,12 @@ func NewGoStruct(
 	table *octopus.Table,
 	p IProcessor,
 ) *GoStruct {
-	var fields []*GoField
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
-	for _, column := range table.Columns {
-		field := NewGoField(column)
-		fields = append(fields, field)
+	fields, embeddedModels := newGoFields(table.Columns)
+	for i, column := range table.Columns {
+		field := fields[i]
 
 		if column.PrimaryKey {
 			pkFields = append(pkFields, field)
@@ -59,13 +58,12 @@ func NewGoStruct(
 					Type:       refType,
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					ForeignKey: field.Name,
-					Reference:  NewGoField(refColumn).Name,
+					Reference:  goFieldName(refTable, refColumn),
 				})
 			}
 		}
 	}
 	renameDuplicatedAssociationFields(fields, associationFields)
-	embeddedModels := extractEmbeddedModels(fields)
 
 	// exclude embedded fields
 	var finalFields []*GoField
@@ -86,9 +84,51 @@ func NewGoStruct(
 	}
 }
 
+// newGoFields returns a field for each column, and the embedded models which take the place of fields.
+// Field names are used once in the struct.
+func newGoFields(columns []*octopus.Column) ([]*GoField, EmbeddedModels) {
+	var fields []*GoField
+	for _, column := range columns {
+		fields = append(fields, NewGoField(column))
+	}
+	embeddedModels := extractEmbeddedModels(fields)
+
+	nameSet := util.NewStringSet("TableName")
+	for _, name := range embeddedModels.Names() {
+		nameSet.Add(name[strings.LastIndex(name, ".")+1:])
+	}
+	for _, field := range fields {
+		if embeddedModels.ContainsColumnName(field.Column.Name) {
+			nameSet.Add(field.Name)
+		}
+	}
+	for _, field := range fields {
+		if embeddedModels.ContainsColumnName(field.Column.Name) {
+			continue
+		}
+		for nameSet.Contains(field.Name) {
+			field.Name += "_"
+			field.OverrideName = true
+		}
+		nameSet.Add(field.Name)
+	}
+	return fields, embeddedModels
+}
+
+// goFieldName returns the name of the field which newGoFields gives the column of the table.
+func goFieldName(table *octopus.Table, column *octopus.Column) string {
+	fields, _ := newGoFields(table.Columns)
+	for _, field := range fields {
+		if field.Column == column {
+			return field.Name
+		}
+	}
+	return NewGoField(column).Name
+}
+
 // renameDuplicatedAssociationFields gives association fields names which are used once in the struct.
 func renameDuplicatedAssociationFields(fields []*GoField, associationFields []*GoAssocationField) {
-	nameSet := util.NewStringSet()
+	nameSet := util.NewStringSet("TableName")
 	for _, field := range fields {
 		nameSet.Add(field.Name)
 	}
-- 
2.43.0


From a92f3ba9c4c473ebd0329b04fdaa2442ac9bc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:42 +0000
Subject: [PATCH 78/79] fix: give colliding Kotlin properties distinct names

---
 format/jpa/kotlin-gen.go | 15 +++++++--------
 format/jpa/kotlin.go     | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 544fe7b..123fc4b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -3,7 +3,6 @@ package jpa
 import (
 	"bytes"
 	"fmt"
-	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
@@ -71,15 +70,15 @@ func (c *KtGenerator) getFieldAnnotations(class *KotlinClass, field *KotlinField
 	// @VRelation
 	if c.option.Relation == "VRelation" {
 		if ref := column.Ref; ref != nil {
-			targetClassName := c.getClassNameByTableName(ref.Table)
-			if len(targetClassName) == 0 {
+			targetClass := c.getClassByTableName(ref.Table)
+			if targetClass == nil {
 				log.Fatalf("Relation not found. %s::%s -> %s", class.Name, field.Name, ref.Table)
 			}
 
 			annotations = append(annotations,
 				fmt.Sprintf("@VRelation(cls = \"%s\", field = \"%s\")",
-					targetClassName,
-					strcase.ToLowerCamel(ref.Column)))
+					targetClass.Name,
+					targetClass.fieldName(ref.Column)))
 		}
 	}
 
@@ -290,13 +289,13 @@ data class {{.IdClassName}}(
 	return tpl.Execute(wr, &data)
 }
 
-func (c *KtGenerator) getClassNameByTableName(tableName string) string {
+func (c *KtGenerator) getClassByTableName(tableName string) *KotlinClass {
 	for _, cls := range c.classes {
 		if cls.table.Name == tableName {
-			return cls.Name
+			return cls
 		}
 	}
-	return ""
+	return nil
 }
 
 func (c *KtGenerator) Generate(outputPath string) error {
diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index ba81a48..24d43a1 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -52,8 +52,18 @@ func NewKotlinClass(
 	var fields []*KotlinField
 	var pkFields []*KotlinField
 	var uniqueFields []*KotlinField
+	fieldNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewKotlinField(column)
+		for fieldNames.Contains(field.Name) {
+			if name := strings.TrimSuffix(field.Name, "`"); name != field.Name {
+				field.Name = name + "_`"
+			} else {
+				field.Name += "_"
+			}
+			field.OverrideName = true
+		}
+		fieldNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
@@ -74,6 +84,16 @@ func NewKotlinClass(
 	}
 }
 
+// fieldName returns the name of the property for the column.
+func (c *KotlinClass) fieldName(columnName string) string {
+	for _, field := range c.Fields {
+		if field.Column.Name == columnName {
+			return strings.Trim(field.Name, "`")
+		}
+	}
+	return strcase.ToLowerCamel(columnName)
+}
+
 func NewKotlinField(column *octopus.Column) *KotlinField {
 	var fieldType string
 	var defaultValue string
-- 
2.43.0


From b71ed262a01abe615f89f8de55128638aef79e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:56 +0000
Subject: [PATCH 79/79] fix: report tables with the same class name

---
 format/common/classname.go     | 18 ++++++++++++++++++
 format/gorm/generator.go       |  4 ++++
 format/graphql/generator.go    | 16 +++++++++++++++-
 format/jpa/kotlin-gen.go       | 13 +++++++++++++
 format/protobuf/generator.go   |  7 ++++++-
 format/sqlalchemy/generator.go |  7 ++++++-
 6 files changed, 62 insertions(+), 3 deletions(-)
 create mode 100644 format/common/classname.go

diff --git a/format/common/classname.go b/format/common/classname.go
new file mode 100644
index 0000000..16a0860
--- /dev/null
+++ b/format/common/classname.go
@@ -0,0 +1,18 @@
+package common
+
+import "fmt"
+
+// ClassNames finds the table by class name.
+type ClassNames map[string]string
+
+// Add returns an error if there is no class name, or if it is the one of another table.
+func (n ClassNames) Add(className string, tableName string) error {
+	if className == "" {
+		return fmt.Errorf("table '%s' has no class name", tableName)
+	}
+	if other, ok := n[className]; ok {
+		return fmt.Errorf("tables '%s' and '%s' have the same class name: '%s'", other, tableName, className)
+	}
+	n[className] = tableName
+	return nil
+}
diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index f83e439..e551745 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -71,11 +71,15 @@ func (g *Generator) Generate(wr io.Writer) error {
 	}
 
 	var goStructs []*GoStruct
+	structNames := common.ClassNames{}
 	tableFilter := option.TableFilter
 	p := GoStructProcessor{schema: g.schema, option: option}
 	for _, table := range g.schema.Tables {
 		if tableFilter == nil || tableFilter(table) {
 			goStruct := NewGoStruct(table, &p)
+			if err := structNames.Add(goStruct.Name, table.Name); err != nil {
+				return err
+			}
 			goStructs = append(goStructs, goStruct)
 		}
 	}
diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 9ddbf1e..c8dbc92 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -157,6 +157,8 @@ func (c *Generator) Generate(outputPath string) error {
 `)
 
 	var classes []*Class
+	classNames := common.ClassNames{}
+	queryNames := util.NewStringSet()
 
 	client := pluralize.NewClient()
 
@@ -168,10 +170,22 @@ func (c *Generator) Generate(outputPath string) error {
 		}
 
 		class := NewClass(table, c.option)
+		switch class.Name {
+		case "Query", "ID", "String", "Boolean", "Int", "Float":
+			return fmt.Errorf("class name of table '%s' is reserved: '%s'", table.Name, class.Name)
+		}
+		if err := classNames.Add(class.Name, table.Name); err != nil {
+			return err
+		}
 		classes = append(classes, class)
 
 		lowerClassName := strcase.ToLowerCamel(class.Name)
-		appendLine(1, fmt.Sprintf("%s: [%s]", client.Plural(lowerClassName), class.Name))
+		queryName := client.Plural(lowerClassName)
+		for queryNames.Contains(queryName) {
+			queryName += "_"
+		}
+		queryNames.Add(queryName)
+		appendLine(1, fmt.Sprintf("%s: [%s]", queryName, class.Name))
 	}
 	appendLine(0, "}")
 	appendLine(0, "")
diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 123fc4b..a3211e1 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -299,6 +299,19 @@ func (c *KtGenerator) getClassByTableName(tableName string) *KotlinClass {
 }
 
 func (c *KtGenerator) Generate(outputPath string) error {
+	// classes with the same name would be written to the same file
+	classNames := common.ClassNames{}
+	for _, class := range c.classes {
+		if err := classNames.Add(class.Name, class.table.Name); err != nil {
+			return err
+		}
+		if len(class.PKFields) > 1 {
+			if err := classNames.Add(class.Name+"PK", class.table.Name); err != nil {
+				return err
+			}
+		}
+	}
+
 	if err := c.generateEntities(outputPath); err != nil {
 		return err
 	}
diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index aea16d5..b47b383 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -80,11 +80,16 @@ func (t *Generator) Generate(wr io.Writer) error {
 	goPkg := option.GoPackage
 
 	var pbMessages []*PbMessage
+	messageNames := common.ClassNames{}
 	for _, table := range t.schema.Tables {
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
-		pbMessages = append(pbMessages, t.newPbMessage(table))
+		message := t.newPbMessage(table)
+		if err := messageNames.Add(message.Name, table.Name); err != nil {
+			return err
+		}
+		pbMessages = append(pbMessages, message)
 	}
 
 	return t.generateProto(wr, pbMessages, pkg, goPkg)
diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 58de1f0..dd42b44 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -56,12 +56,17 @@ func (c *Generator) Generate(outputPath string) error {
 	indent := strings.Repeat(" ", 4)
 
 	var classes []*SaClass
+	classNames := common.ClassNames{}
 	for _, table := range c.schema.Tables {
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
-		classes = append(classes, NewSaClass(table, option))
+		class := NewSaClass(table, option)
+		if err := classNames.Add(class.Name, table.Name); err != nil && generateSingleFile {
+			return err
+		}
+		classes = append(classes, class)
 	}
 
 	// imports from sqlalchemy
-- 
2.43.0

