// Command helper answers the engine's questions about third party libraries (the MySQL
// parser, the pluraliser) on concrete text: one JSON request per line, one reply per line.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/gertd/go-pluralize"
	"github.com/pingcap/parser"
	_ "github.com/pingcap/parser/test_driver"
)

type enc struct{ ids map[uintptr]int }

func typeName(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		return "*" + typeName(t.Elem())
	}
	if t.PkgPath() != "" {
		return t.PkgPath() + "." + t.Name()
	}
	return t.String()
}

func (e *enc) val(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		p := v.Pointer()
		if id, ok := e.ids[p]; ok {
			return []interface{}{id}
		}
		id := len(e.ids)
		e.ids[p] = id
		return []interface{}{id, e.val(v.Elem())}
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		x := v.Elem()
		return []interface{}{typeName(x.Type()), e.val(x)}
	case reflect.Struct:
		if !v.CanAddr() {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		out := []interface{}{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			out = append(out, e.val(f))
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return base64.StdEncoding.EncodeToString(v.Bytes())
		}
		fallthrough
	case reflect.Array:
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, e.val(v.Index(i)))
		}
		return out
	case reflect.String:
		return base64.StdEncoding.EncodeToString([]byte(v.String()))
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	return nil
}

func main() {
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	pl := pluralize.NewClient()
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			return
		}
		var q map[string]string
		rep := map[string]interface{}{}
		if err := json.Unmarshal(line, &q); err != nil {
			rep["err"] = err.Error()
		}
		switch q["op"] {
		case "pluralize":
			switch q["method"] {
			case "Plural":
				rep["str"] = pl.Plural(q["word"])
			case "Singular":
				rep["str"] = pl.Singular(q["word"])
			case "IsPlural":
				rep["bool"] = pl.IsPlural(q["word"])
			case "IsSingular":
				rep["bool"] = pl.IsSingular(q["word"])
			}
		case "parse":
			func() {
				defer func() {
					if x := recover(); x != nil {
						rep["panic"] = fmt.Sprint(x)
					}
				}()
				sql, _ := base64.StdEncoding.DecodeString(q["sql"])
				nodes, _, err := parser.New().Parse(string(sql), q["charset"], q["collation"])
				if err != nil {
					rep["err"] = err.Error()
					return
				}
				e := &enc{ids: map[uintptr]int{}}
				rep["nodes"] = e.val(reflect.ValueOf(&nodes).Elem())
			}()
		}
		b, err := json.Marshal(rep)
		if err != nil {
			b = []byte(`{"err":"helper: cannot encode"}`)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
