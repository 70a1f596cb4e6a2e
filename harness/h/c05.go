package h

import "github.com/lechuckroh/octopus-db-tools/zz_verif/vk"

// StarUML model elements
type suRef struct {
	Ref string `json:"$ref"`
}

type suElem struct {
	Type   string    `json:"_type"`
	ID     string    `json:"_id"`
	Parent *suRef    `json:"_parent,omitempty"`
	Name   string    `json:"name"`
	Owned  []*suElem `json:"ownedElements,omitempty"`
	Cols   []*suCol  `json:"columns,omitempty"`
}

type suCol struct {
	Kind    string      `json:"_type"`
	ID      string      `json:"_id"`
	Parent  *suRef      `json:"_parent,omitempty"`
	Name    string      `json:"name"`
	Type    string      `json:"type,omitempty"`
	Length  interface{} `json:"length,omitempty"`
	PK      bool        `json:"primaryKey,omitempty"`
	Unique  bool        `json:"unique,omitempty"`
	Null    bool        `json:"nullable,omitempty"`
	Doc     string      `json:"documentation,omitempty"`
	Referee *suRef      `json:"referenceTo,omitempty"`
}

func suProject(models ...[]*suElem) *suElem {
	p := &suElem{Type: "Project", ID: "P", Name: "proj"}
	p.Owned = append(p.Owned, &suElem{Type: "UMLModel", ID: "U", Name: "m", Owned: []*suElem{{Type: "UMLClass", ID: "K", Name: "k"}}})
	for i, es := range models {
		id := "M" + itoa(i)
		m := &suElem{Type: "ERDDataModel", ID: id, Parent: &suRef{"P"}, Name: "dm", Owned: []*suElem{{Type: "ERDDiagram", ID: "D" + itoa(i), Name: "diagram"}}}
		m.Owned = append(m.Owned, es...)
		p.Owned = append(p.Owned, m)
	}
	return p
}

func c05Import(p *suElem) *Schema {
	vk.WriteJSON("in.mdj", p)
	run("import succeeds", "import", "staruml", "-i", "in.mdj", "-o", "out.json")
	return readSchema("out.json")
}

func entity(id, name string, cols ...*suCol) *suElem {
	for i, c := range cols {
		c.Kind = "ERDColumn"
		c.ID = id + "c" + itoa(i)
		c.Parent = &suRef{id}
	}
	return &suElem{Type: "ERDEntity", ID: id, Parent: &suRef{"M0"}, Name: name, Cols: cols}
}

func C05_columns() {
	tys := [][2]string{{"VARCHAR", "varchar"}, {"INTEGER", "int32"}, {"BIGINT", "int64"}, {"DATETIME", "datetime"}, {"TEXT", "text16"}, {"BOOLEAN", "boolean"}, {"varchar", "varchar"}, {"Tinyint", "int8"}, {"BLOB", "blob16"}, {"double", "double"}, {"CHAR", "char"}, {"int64", "int64"}}
	ty := tys[vk.Choice("type", len(tys))]
	c := &suCol{Name: vk.Str("col", 2, "print"), Type: ty[0], PK: vk.Bool("pk"), Unique: vk.Bool("unique"), Null: vk.Bool("nullable"), Doc: inner("doc", vk.Choice("doclen", 5), "any")}
	w := &Col{Name: c.Name, Type: ty[1], PK: c.PK, Unique: c.Unique, NotNull: vk.Not(c.Null), Desc: c.Doc}
	tab := vk.Str("tab", 2, "print")
	b := c05Import(suProject([]*suElem{entity("E", tab, &suCol{Name: "first", Type: "DATE", Null: true}, c)}))
	sameTables([]*Table{{Name: tab, Columns: []*Col{{Name: "first", Type: "date"}, w}}}, b)
}

// length, precision and scale wherever the modeller put them
func C05_length() {
	n := vk.Str("n", 1+vk.Choice("digits", 2), "digit")
	vk.Assume(n[0] != '0')
	m := vk.Str("m", 1, "digit")
	v, mv := 0, int(m[0]-'0')
	for i := range n {
		v = v*10 + int(n[i]-'0')
	}
	c := &suCol{Name: "c", Type: "DECIMAL", Null: true}
	w := &Col{Name: "c", Type: "decimal", Size: v, Scale: mv}
	switch vk.Choice("where", 9) {
	case 0:
		c.Length = cat(n, ",", m)
	case 1:
		c.Type = cat("DECIMAL(", n, ",", m, ")")
	case 2:
		c.Type = cat("decimal(", n, ", ", m, ")")
		c.Length = "0"
	case 3:
		c.Type = cat("VARCHAR(", n, ")")
		w.Type, w.Scale = "varchar", 0
	case 4:
		c.Type, c.Length = "VARCHAR", n
		w.Type, w.Scale = "varchar", 0
	case 5:
		c.Type, c.Length = "VARCHAR", 40
		w.Type, w.Size, w.Scale = "varchar", 40, 0
	case 6:
		c.Type, c.Length = "INTEGER", 0
		w.Type, w.Size, w.Scale = "int32", 0, 0
	case 7:
		c.Type, c.Length = "INTEGER", ""
		w.Type, w.Size, w.Scale = "int32", 0, 0
	case 8:
		c.Type, c.Length = "DECIMAL(40,1)", cat(n, ",", m)
	}
	sameTables([]*Table{{Name: "t", Columns: []*Col{w}}}, c05Import(suProject([]*suElem{entity("E", "t", c)})))
}

// numbers as lengths
func C05_number() {
	n := []int{1, 10, 255, 256, 1000, 65535}[vk.Choice("n", 6)]
	c := &suCol{Name: "c", Type: vk.Pick("type", "VARCHAR", "CHAR", "BIGINT"), Length: n, Null: vk.Bool("nullable")}
	w := &Col{Name: "c", Type: map[string]string{"VARCHAR": "varchar", "CHAR": "char", "BIGINT": "int64"}[c.Type], Size: n, NotNull: vk.Not(c.Null)}
	if vk.Choice("text", 2) == 1 {
		c.Length = itoa(n)
	}
	sameTables([]*Table{{Name: "t", Columns: []*Col{w}}}, c05Import(suProject([]*suElem{entity("E", "t", c)})))
}

// drawn entities own relationships, and may have no columns yet
func C05_entities() {
	var es []*suElem
	var want []*Table
	for i := 0; i < 3; i++ {
		n := cat("t", itoa(i), vk.Str("tab"+itoa(i), 1, "Ident"))
		var cols []*suCol
		t := &Table{Name: n}
		for k := vk.Choice("cols"+itoa(i), 3); k > 0; k-- {
			c := &suCol{Name: cat("c", itoa(k)), Type: "DATE", Null: vk.Bool("null"), PK: vk.Bool("pk"), Unique: vk.Bool("unique")}
			cols = append(cols, c)
			t.Columns = append(t.Columns, &Col{Name: c.Name, Type: "date", PK: c.PK, Unique: c.Unique, NotNull: vk.Not(c.Null)})
		}
		e := entity("E"+itoa(i), n, cols...)
		switch vk.Choice("owned"+itoa(i), 3) {
		case 1:
			e.Owned = []*suElem{{Type: "ERDRelationship", ID: "R" + itoa(i), Parent: &suRef{e.ID}, Name: "r"}}
		case 2:
			e.Owned = []*suElem{{Type: "Tag", ID: "T" + itoa(i), Name: "tag"}, {Type: "ERDRelationship", ID: "R" + itoa(i), Parent: &suRef{e.ID}}}
		}
		es, want = append(es, e), append(want, t)
	}
	sameTables(want, c05Import(suProject(es)))
}

// entities of all data models; references to columns before, after and in the same entity, and dangling ones
func C05_refs() {
	x, y := vk.Str("tx", 2, "Ident"), vk.Str("ty", 2, "Ident")
	vk.Assume(x < y)
	ca, cb := vk.Str("ca", 2, "Ident"), vk.Str("cb", 2, "Ident")
	a, b := &suCol{Name: ca, Type: "INTEGER", PK: true}, &suCol{Name: cb, Type: "INTEGER", Null: true}
	wa, wb := &Col{Name: ca, Type: "int32", PK: true, NotNull: true}, &Col{Name: cb, Type: "int32"}
	// keys of every kind may refer and be referred to
	for i, c := range []*suCol{a, b} {
		w := []*Col{wa, wb}[i]
		c.PK, c.Unique, c.Null = vk.Bool(cat("pk", itoa(i))), vk.Bool(cat("unique", itoa(i))), vk.Bool(cat("null", itoa(i)))
		w.PK, w.Unique, w.NotNull = c.PK, c.Unique, vk.Not(c.Null)
	}
	switch vk.Choice("ref", 7) {
	case 1:
		b.Referee, wb.Ref = &suRef{"E0c0"}, &Ref{Table: x, Column: ca}
	case 2:
		a.Referee, wa.Ref = &suRef{"E1c0"}, &Ref{Table: y, Column: cb}
	case 3:
		b.Referee, wb.Ref = &suRef{"E1c0"}, &Ref{Table: y, Column: cb}
	case 4:
		b.Referee = &suRef{"nosuch"}
	case 5:
		b.Referee = &suRef{"P"} // not a column: the project has no parent
	case 6:
		b.Referee = &suRef{""}
	}
	ex, ey := entity("E0", x, a), entity("E1", y, b)
	var p *suElem
	if vk.Choice("models", 2) == 0 {
		p = suProject([]*suElem{ex, ey})
	} else {
		p = suProject([]*suElem{ex}, []*suElem{ey})
	}
	sameTables([]*Table{{Name: x, Columns: []*Col{wa}}, {Name: y, Columns: []*Col{wb}}}, c05Import(p))
}

// a reference to a column whose entity is gone
func C05_orphan() {
	a := &suCol{Name: "a", Type: "INTEGER", Referee: &suRef{"E1c0"}}
	b := &suCol{Name: "b", Type: "INTEGER", Null: true}
	e0, e1 := entity("E0", "t", a), entity("E1", "u", b)
	b.Parent = &suRef{"gone"}
	if vk.Choice("noparent", 2) == 1 {
		b.Parent = nil
	}
	s := c05Import(suProject([]*suElem{e0, e1}))
	sameTables([]*Table{{Name: "t", Columns: []*Col{{Name: "a", Type: "int32", NotNull: true}}}, {Name: "u", Columns: []*Col{{Name: "b", Type: "int32"}}}}, s)
}
