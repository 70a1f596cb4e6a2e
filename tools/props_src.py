T="The existing tests run one or two fixed schemas; "
p("C01","MySQL export then import restores the schema",
 "Exporting a valid octopus schema to MySQL DDL and importing that DDL again yields the same tables and columns: names, types, sizes and scales where the DDL can carry them, primary and unique keys, not-null, auto-increment, defaults, on-update, enum/set members, column comments and indices. What MySQL has no form for is normalised the same way every time: bit(1) and tinyint(1) are boolean, an auto-increment column is not null; only time-stamp functions are on-update values; groups, class names, table descriptions and references are not carried. The DDL is accepted by the tool's own MySQL importer for every such schema, whatever characters its texts contain.",
 ["inputs"],"every schema with valid MySQL identifiers, every type, flag combination, size/scale and text",
 T+"a fixed table exports to a fixed text and is never read back, so texts with quotes or backslashes, type/size combinations and key combinations are not reached.",
 ["format/mysql/exporter.go","format/mysql/importer.go","format/octopus/column.go"],[("DDL writer","format/mysql/exporter.go"),("DDL reader","format/mysql/importer.go")],["oct export mysql, then oct import mysql"])
p("C02","MySQL import records every column and constraint of the DDL",
 "Importing MySQL DDL yields one table per CREATE TABLE statement that is not excluded, with every column in order and with the type, size, scale, members, default, on-update, comment, not-null, auto-increment, primary key and unique flag that the DDL states, whether a key is declared on the column or as a table constraint, and with every plain index. The excludes option removes exactly the named tables and nothing else.",
 ["inputs","configurations"],"every supported MySQL column type, option combination and constraint placement; every exclude list",
 T+"each construct appears once, with one spelling; combinations of column options, constraint forms and exclude lists are not sampled.",
 ["format/mysql/importer.go","format/mysql/cli.go"],[("column option reader","format/mysql/importer.go"),("table filter","format/mysql/cli.go")],["oct import mysql"])
p("C03","Excel export then import restores the schema",
 "Exporting a schema to an xlsx workbook and importing it with the same option yields the same schema: author, name, version, every table with group, description and class name, every column with its type, size, scale, keys, nullability, auto-increment, default, on-update, description and reference, and every index. This holds in both the not-null-column and the nullable-column layout. A table without a group reads back in the group Common.",
 ["inputs","configurations"],"every schema within the documented sheet syntax, every flag combination, every reference relationship, both layouts",
 T+"one schema with one reference and one attribute value round-trips; flag/attribute combinations, groups spanning several sheets and other relationships do not.",
 ["format/xlsx/exporter.go","format/xlsx/importer.go"],[("sheet writer","format/xlsx/exporter.go"),("sheet reader","format/xlsx/importer.go")],["oct export xlsx, then oct import xlsx"])
p("C04","Legacy ojson import loses nothing",
 "Importing an octopus v1 file yields a schema with the same author, name, version, tables (name, group, description, class name), columns (name, type, description, size, scale, nullability, primary and unique keys, auto-increment, default) and references. A v1 type name becomes the v2 name of the type. A column that is nullable in v1 is nullable after import and one that is not is not.",
 ["inputs"],"every v1 schema, every flag combination, every text",
 "No test imports a v1 file at all.",
 ["format/ojson/importer.go","format/ojson/table.go","format/ojson/column.go"],[("field by field conversion","format/ojson/importer.go")],["oct import ojson"])
p("C05","StarUML import is faithful",
 "Importing a StarUML ER model yields one table per entity and one column per entity column, with type, length (including precision and scale), primary key, unique, nullability, description and foreign reference as drawn. A model with a dangling reference is imported without that reference, not with a crash.",
 ["inputs"],"every ER model: any column flags, lengths, reference targets",
 "No stable test imports a StarUML file.",
 ["format/staruml/importer.go","format/staruml/staruml.go"],[("model walk","format/staruml/importer.go")],["oct import staruml"])
p("C06","Diff of equal schemas is empty",
 "Comparing a schema with itself, or with a copy that differs only in table order, reports no change in any diff format (Markdown, Flyway, Liquibase). No drop, add or modify statement is ever produced for a table or column that is the same on both sides.",
 ["inputs","configurations"],"every schema, every format, with and without a table group selection",
 "No stable test runs a diff command.",
 ["format/diff/diff.go","format/liquibase/diff.go"],[("table and column matching","format/diff/diff.go"),("change set construction","format/liquibase/diff.go")],["oct diff md|flyway|liquibase"])
p("C07","A Liquibase diff migrates the old schema into the new one",
 "Applying the change sets of a Liquibase diff, in order, to the old schema yields the new schema: same tables, columns, types, nullability, defaults, auto-increment, primary keys and unique constraints (as sets of columns), and remarks when comments are requested; indices and on-update values are no part of a change set. This holds as well with a Liquibase before 4.0, where renaming a column drops its not-null constraint. Every change set refers only to tables, columns and constraints that exist at that point, contains at least one change, and has a unique id.",
 ["inputs","histories"],"every pair of schemas: added, dropped, renamed and modified tables and columns in any combination",
 "No stable test runs a diff; the property relates two arbitrary schemas.",
 ["format/liquibase/diff.go","format/liquibase/generator.go","format/diff/cli.go"],[("change set construction","format/liquibase/diff.go")],["oct diff liquibase"])
p("C08","A Markdown diff reports exactly the differences",
 "The Markdown diff lists every added, dropped and renamed table, every added, dropped and renamed column, and every changed type, default, on-update value, nullability, auto-increment, primary key and unique key, and with the comments option every changed comment, between the two schemas, each with the right old and new values. It lists nothing that did not change.",
 ["inputs"],"every pair of schemas",
 "No stable test runs a diff.",
 ["format/diff/diff.go","format/diff/markdown.go","format/diff/changeset.go"],[("difference detection","format/diff/diff.go"),("report","format/diff/markdown.go")],["oct diff md"])
p("C09","A Flyway diff migrates the old schema into the new one",
 "The SQL of a Flyway diff, executed statement by statement on the old schema, is valid MySQL and yields the new schema: added, dropped and renamed tables and columns, changed types, nullability, defaults, on-update values, auto-increment, primary keys and unique keys, and with the comments option comments; indices are left alone. No other difference is silently left out.",
 ["inputs","histories"],"every pair of schemas",
 "No stable test runs a diff.",
 ["format/diff/diff.go","format/diff/flyway.go","format/diff/mysql.go"],[("SQL writer","format/diff/mysql.go"),("difference detection","format/diff/diff.go")],["oct diff flyway"])
p("C10","A generated Liquibase changelog creates exactly the schema",
 "The generated changelog creates every selected table once, each with every column once and with its type, default, nullability, auto-increment, primary key and unique constraint, with remarks exactly when comments are requested, and nothing else. Change set ids are unique and ascending.",
 ["inputs","configurations"],"every schema, every option combination",
 "One fixed schema at most is compared; flags, types and default kinds are not combined.",
 ["format/liquibase/generator.go","format/liquibase/cli.go"],[("change set construction","format/liquibase/generator.go")],["oct generate liquibase"])
p("C11","Equal inputs give byte-identical output",
 "Every command is a function of its input files and options: running it twice on the same input gives byte-identical files. The order of declarations, imports, change sets and attributes never depends on hash-map iteration order.",
 ["schedules","inputs"],"every order in which each map may be iterated, on every schema",
 "Map iteration order is random at run time; a test sees one order and passes when the lucky one occurs.",
 ["util/set.go","format/diff/diff.go","format/liquibase/diff.go","format/gorm/gorm_model.go","format/jpa/kotlin-gen.go","format/sqlalchemy/generator.go"],[("sorted emission","util/set.go")],["every oct command"])
p("C12","Group selection selects exactly the chosen groups",
 "With a group list, every export, generate and diff command that offers the option processes exactly the tables whose group is in the list: all of them, and no other table appears, is created, changed or dropped in the output. Without it every table is processed.",
 ["inputs","configurations"],"every assignment of groups to tables and every group list",
 T+"group selection is exercised for at most one format with fixed groups.",
 ["format/octopus/filter.go","format/mysql/exporter.go","format/dbml/exporter.go","format/diff/diff.go","format/liquibase/diff.go"],[("group filter","format/octopus/filter.go")],["every oct export/generate/diff command with --groups"])
p("C13","Prefix rules name classes consistently",
 "Generated class names are the table name with each removable prefix stripped in the order given, put in camel case, with the prefix configured for the table's group (or the one prefix for all groups) in front; an explicit class name of the table takes the place of the derived one, except in Protobuf, which always names messages after the table. GraphQL has no prefix options. Every reference from one generated class to another uses exactly the name under which the other is declared. Tables that would give two classes of the same name, or a class without a name, are reported as an error instead of being written.",
 ["inputs","configurations"],"every table name, group, prefix option and removable-prefix option",
 T+"at most one prefix and one removable prefix are tried and no reference crosses groups.",
 ["format/common/prefix.go","format/gorm/gorm.go","format/jpa/kotlin.go","format/protobuf/generator.go","format/sqlalchemy/sqlalchemy.go","format/graphql/generator.go"],[("prefix mapping","format/common/prefix.go")],["oct generate gorm|kt|sqlalchemy|pb|graphql"])
p("C14","GORM models mirror the schema",
 "The GORM output is valid Go that declares one struct per selected table with one field per column, in order, with the Go type for the column type (pointer or nullable exactly when the column is nullable), and tags that state the column, primary key, auto-increment, unique and not-null attributes and, where given, the size and scale; several unique columns form one unique index. Columns covered by an embedded struct are left to it. References to other tables become one association field each, a list for 1:n. Struct and field names are distinct identifiers and exactly the used packages are imported. The table name method returns the schema's table name.",
 ["inputs","configurations"],"every column type, flag combination, name and option set",
 T+"one table is compared with fixed text.",
 ["format/gorm/generator.go","format/gorm/gorm.go","format/gorm/gorm_model.go"],[("struct generator","format/gorm/generator.go")],["oct generate gorm"])
p("C15","Kotlin entities mirror the schema",
 "The Kotlin output declares one entity per selected table, mapped to the schema's table name and annotated for its group as requested, with one property per column mapped to that column's name, with the Kotlin type for the column type, nullable exactly when the column is nullable and otherwise with the initial value of its type, and with primary-key (a key class for composite keys), generated-value, length, precision and unique-constraint annotations exactly as in the schema. Column types without a Kotlin counterpart are Any. Repositories, on request, have the key type of their entity. Exactly the annotations and types used are imported.",
 ["inputs","configurations"],"every column type, flag combination, name and option set",
 T+"one table is compared with fixed text.",
 ["format/jpa/kotlin-gen.go","format/jpa/kotlin.go","format/jpa/cli.go"],[("entity generator","format/jpa/kotlin-gen.go")],["oct generate kt"])
p("C16","SQLAlchemy models mirror the schema",
 "The Python output declares one class per selected table with the schema's table name and one attribute per column, mapped to that column's name even when the attribute must be renamed, with the SQLAlchemy type, size, primary key, auto-increment, nullability and unique constraints of the schema (several unique columns form one constraint); types without a counterpart are left out. Names are distinct Python identifiers, and created_at and updated_at columns get the audit defaults. Every SQLAlchemy name used in a file is imported in that file.",
 ["inputs","configurations"],"every column type, flag combination, name and option set, single and multiple files",
 "The only test of this generator is skipped.",
 ["format/sqlalchemy/generator.go","format/sqlalchemy/sqlalchemy.go"],[("class generator","format/sqlalchemy/generator.go")],["oct generate sqlalchemy"])
p("C17","GraphQL types mirror the schema",
 "The GraphQL output declares one object type per table with one field per column, a non-null marker exactly on the not-null columns, ID! for a primary key of one column and otherwise the built-in scalar matching the column type, and one query per type that returns a list of it. Type, field and query names are distinct GraphQL names, and a type name is none of GraphQL itself (such a table is reported).",
 ["inputs"],"every column type and flag combination",
 "No stable test covers the generator beyond one fixed schema.",
 ["format/graphql/generator.go","format/graphql/cli.go"],[("type generator","format/graphql/generator.go")],["oct generate graphql"])
p("C18","Protobuf messages are valid and complete",
 "The Protobuf output declares one message per selected table with one field per column of the matching scalar or imported type, and one relation field per reference to a selected table, repeated for 1:n, numbered from the relation start (or after the columns), upwards or downwards. Within a message all field numbers are positive and distinct, whatever the relation numbering options, and all field names are distinct.",
 ["inputs","configurations"],"every table shape, number of columns and references, relation tag start and direction",
 T+"one table with fixed numbering is compared.",
 ["format/protobuf/generator.go","format/protobuf/cli.go"],[("tag assignment","format/protobuf/generator.go")],["oct generate pb"])
p("C19","Diagrams show every table, column and reference once",
 "DBML, QuickDBD and PlantUML outputs list every selected table once, with every column once and in order with its type and key, null, default and auto-increment markers, and every reference between listed tables exactly once with the direction and multiplicity of its relationship.",
 ["inputs","configurations"],"every schema: column flags, relationships, forward, backward and self references",
 "No stable test covers DBML, QuickDBD or PlantUML.",
 ["format/dbml/exporter.go","format/quickdbd/exporter.go","format/plantuml/generator.go"],[("table writer","format/dbml/exporter.go"),("reference writer","format/plantuml/generator.go")],["oct export dbml|quickdbd, oct generate plantuml"])
p("C20","No input crashes the tool",
 "For every schema file that loads, every command either writes its output and succeeds or ends with an error message; it never panics. This includes tables without columns, without primary key, with dangling references, with unknown types and with empty or odd names, and any text given to an option. No import crashes on an input file either.",
 ["inputs","configurations"],"every loadable schema and every command",
 T+"none of them has an empty table, a missing key, a dangling reference or an unusual name.",
 ["main.go","format/jpa/kotlin-gen.go","format/protobuf/generator.go","format/staruml/importer.go"],[("error returns","main.go")],["every oct command"])
p("C21","Column types are normalised and validated",
 "Every command sees column types in normal form: a type spelled in any letter case or with a documented alias behaves exactly as its canonical name, for every column of the file. Imported files are written with normal-form types only, auto-increment is kept on integer columns and dropped from others, and a schema with an unknown type, an empty column name, or an enum or set without members is never written.",
 ["inputs"],"every spelling of every type, in every position of the file",
 T+"all of them use canonical names.",
 ["format/octopus/column.go","format/octopus/table.go","format/octopus/io.go"],[("type normalisation","format/octopus/column.go"),("validation","format/octopus/column.go")],["every oct command"])
p("C22","Commands write what was asked, where it was asked",
 "Each command writes exactly the files its output option names (one file, or one file per class under the package directory), leaves its input files untouched, and honours each documented option under its long name, its short alias and its environment variable alike. Init writes a schema that every other command accepts.",
 ["inputs","configurations"],"every command and option spelling; every package name and table set",
 "No test runs the command line at all.",
 ["main.go","format/octopus/cli.go","util/io.go"],[("command table","main.go"),("option lookup","format/*/cli.go")],["the oct command line"])
p("C23","A command succeeds only when its output is complete",
 "A command ends with exit status 0 only when it has read all of its input and written all of its output. When an input is not named, missing, unreadable or not of its format, or when an output is not named or any file or directory of it cannot be made or written (a missing directory, a directory or file in the way, no space left), the command ends with an error message and a status other than 0.",
 ["inputs","configurations","fault_sequences"],"every command, every file it reads or writes, and every such fault",
 "No test lets a file operation fail.",
 ["util/io.go","format/octopus/io.go","main.go"],[("file writing","util/io.go"),("error returns","format/*/cli.go")],["scripts and CI jobs that check the exit status of oct"])
