// Package h holds the property harnesses. Everything is stated against the files the
// tool reads and writes; no internals of the tool are used.
package h

// Ref, Col, Index, Table, Schema mirror the octopus v2 file format.
type Ref struct {
	Table        string `json:"table,omitempty"`
	Column       string `json:"column,omitempty"`
	Relationship string `json:"relationship,omitempty"`
}

type Col struct {
	Name     string   `json:"name"`
	Type     string   `json:"type"`
	Desc     string   `json:"desc,omitempty"`
	Size     int      `json:"size,omitempty"`
	Scale    int      `json:"scale,omitempty"`
	NotNull  bool     `json:"notnull,omitempty"`
	PK       bool     `json:"pk,omitempty"`
	Unique   bool     `json:"unique,omitempty"`
	AutoInc  bool     `json:"autoinc,omitempty"`
	Default  string   `json:"default,omitempty"`
	OnUpdate string   `json:"onupdate,omitempty"`
	Values   []string `json:"values,omitempty"`
	Ref      *Ref     `json:"ref,omitempty"`
}

type Index struct {
	Name    string   `json:"name"`
	Columns []string `json:"columns"`
}

type Table struct {
	Name      string   `json:"name,omitempty"`
	Columns   []*Col   `json:"columns,omitempty"`
	Desc      string   `json:"desc,omitempty"`
	Group     string   `json:"group,omitempty"`
	ClassName string   `json:"className,omitempty"`
	Indices   []*Index `json:"indices,omitempty"`
}

type Schema struct {
	Author  string   `json:"author,omitempty"`
	Name    string   `json:"name,omitempty"`
	Version string   `json:"version,omitempty"`
	Tables  []*Table `json:"tables,omitempty"`
}
