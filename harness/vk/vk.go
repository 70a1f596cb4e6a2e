// Package vk is the interface between the property harnesses and their two executions:
// the symbolic engine replaces every function here by its own, and this file is what
// runs when a counterexample (or a sampled path) is replayed against the real oct binary.
package vk

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/tealeg/xlsx"
	"gopkg.in/yaml.v2"
)

var (
	Witness  = map[string]uint64{}
	OctBin   = "oct"
	counters = map[string]int{}
	env      = map[string]string{}
	Deep     = false
	Dead     = false
)

type stop struct{}

func Main(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				fmt.Println("END")
				return
			}
			panic(r)
		}
		fmt.Println("END")
	}()
	f()
}

func val(name string, def uint64) uint64 {
	k := fmt.Sprintf("%s#%d", name, counters[name])
	counters[name]++
	if v, ok := Witness[k]; ok {
		return v
	}
	return def
}

// InClass tells whether byte c belongs to a text class.
func InClass(class string, i int, c byte) bool {
	lower := c >= 'a' && c <= 'z'
	upper := c >= 'A' && c <= 'Z'
	digit := c >= '0' && c <= '9'
	switch class {
	case "lower":
		return lower
	case "upper":
		return upper
	case "digit":
		return digit
	case "ident": // letter, then letters, digits, underscore (lower case)
		return lower || i > 0 && (digit || c == '_')
	case "Ident":
		return lower || upper || i > 0 && (digit || c == '_')
	case "alnum":
		return lower || upper || digit
	case "letter":
		return lower || upper
	case "word":
		return lower || upper || digit || c == '_'
	case "lower_":
		return lower || c == '_'
	case "print":
		return c >= 0x20 && c < 0x7f
	case "text": // printable without space
		return c > 0x20 && c < 0x7f
	case "plain": // printable, no quotes or backslash
		return c > 0x20 && c < 0x7f && c != '"' && c != '\'' && c != '\\' && c != '`'
	case "any":
		return c != 0 && c < 0x7f
	}
	panic("unknown class " + class)
}

// DefByte is the default member of a class for the k-th byte created.
func DefByte(class string, i, k int) byte {
	c := byte('a' + k%26)
	if InClass(class, i, c) {
		return c
	}
	for c := 1; c < 127; c++ {
		if c >= '0' && InClass(class, i, byte(c)) {
			return byte(c)
		}
	}
	for c := 1; c < 127; c++ {
		if InClass(class, i, byte(c)) {
			return byte(c)
		}
	}
	panic("empty class")
}

func Bool(name string) bool { return val(name, 0) != 0 }

var strCount int

// Str is any text of n bytes of a class.
func Str(name string, n int, class string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s.%d", name, i), uint64(DefByte(class, i, strCount))))
		strCount++
	}
	return string(b)
}

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int { return lo + int(val(name, 0)) }

// Choice is any of 0..n-1, explored one by one.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name, 0))
}

// Pick is any of the given texts, explored one by one.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAIL")
		panic(stop{})
	}
}

// Stop ends the path.
func Stop() { panic(stop{}) }

// Assert states an obligation.
func Assert(c bool, label string) {
	fmt.Printf("ASSERT %s=%v\n", label, c)
}

// Tag names a class of inputs, for the list of known findings.
func Tag(name string, c bool) { fmt.Printf("TAG %s=%v\n", name, c) }

// Cover marks a situation that must be reached by some path.
func Cover(label string) {}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool    { return !c }
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

// IteStr selects a text without a path split when both have equal length.
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// IteInt selects a number without a path split.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Split forces a case split on c.
func Split(c bool) bool { return c }

// MapOrder selects how maps of the tool are iterated: 0 insertion, 1 reversed, 2 any order,
// 3 any rotation at any one iteration (two in the thorough tier).
func MapOrder(mode int) {}

// Thorough tells the tier.
func Thorough() bool { return Deep }

func Setenv(k, v string) { env[k] = v }

func Unsetenv(k string) { delete(env, k) }

var stderr string

// Run executes the tool: 0 success, 1 error message, 2 crash.
func Run(args ...string) int {
	cmd := exec.Command(OctBin, args...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	var ks []string
	for k := range env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cmd.Env = append(cmd.Env, k+"="+env[k])
	}
	out, err := cmd.CombinedOutput()
	stderr = string(out)
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); !ok {
			fmt.Println("EXEC-ERROR", err)
		} else if ee.ExitCode() == 2 && (strings.Contains(stderr, "goroutine ") || strings.Contains(stderr, "panic:")) {
			code = 2
		}
	}
	fmt.Printf("RUN %d\n", code)
	if code != 0 && os.Getenv("VK_TRACE") != "" {
		fmt.Fprintln(os.Stderr, args, stderr)
	}
	return code
}

func WriteFile(path, content string) {
	if err := ioutil.WriteFile(path, []byte(content), 0644); err != nil {
		panic(err)
	}
}

func WriteJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	WriteFile(path, string(b))
}

func ReadFile(path string) (string, bool) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fmt.Printf("READ %s none\n", path)
		return "", false
	}
	fmt.Printf("READ %s %x\n", path, sha256.Sum256(b))
	if os.Getenv("VK_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "---- %s\n%s\n----\n", path, b)
	}
	return string(b), true
}

func trace(path string) {
	if os.Getenv("VK_TRACE") != "" {
		b, _ := ioutil.ReadFile(path)
		fmt.Fprintf(os.Stderr, "---- %s\n%s\n----\n", path, b)
	}
}

func ReadJSON(path string, v interface{}) bool {
	trace(path)
	b, err := ioutil.ReadFile(path)
	return err == nil && json.Unmarshal(b, v) == nil
}

func ReadYAML(path string, v interface{}) bool {
	trace(path)
	b, err := ioutil.ReadFile(path)
	return err == nil && yaml.Unmarshal(b, v) == nil
}

type Sheet struct {
	Name string
	Rows [][]string
}

func ReadXLSX(path string) ([]Sheet, bool) {
	f, err := xlsx.OpenFile(path)
	if err != nil {
		return nil, false
	}
	var out []Sheet
	for _, s := range f.Sheets {
		sh := Sheet{Name: s.Name}
		for _, r := range s.Rows {
			var row []string
			for _, c := range r.Cells {
				row = append(row, c.Value)
			}
			sh.Rows = append(sh.Rows, row)
		}
		out = append(out, sh)
	}
	if os.Getenv("VK_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "---- %s\n%q\n", path, out)
	}
	return out, true
}

func WriteXLSX(path string, sheets []Sheet) {
	f := xlsx.NewFile()
	for _, s := range sheets {
		sh, err := f.AddSheet(s.Name)
		if err != nil {
			panic(err)
		}
		for _, r := range s.Rows {
			row := sh.AddRow()
			for _, c := range r {
				row.AddCell().Value = c
			}
		}
	}
	if err := f.Save(path); err != nil {
		panic(err)
	}
}

// SameFile compares two output files (workbooks by sheets and cells).
func SameFile(a, b string) bool {
	trace(a)
	trace(b)
	x, e1 := ioutil.ReadFile(a)
	y, e2 := ioutil.ReadFile(b)
	if e1 != nil || e2 != nil {
		return (e1 != nil) == (e2 != nil)
	}
	if strings.HasPrefix(string(x), "PK\x03\x04") && strings.HasPrefix(string(y), "PK\x03\x04") {
		p, ok1 := ReadXLSX(a)
		q, ok2 := ReadXLSX(b)
		return ok1 && ok2 && fmt.Sprintf("%q", p) == fmt.Sprintf("%q", q)
	}
	return string(x) == string(y)
}

// Files lists the regular files below the working directory, sorted.
func Files() []string {
	var out []string
	filepath.Walk(".", func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// Mkdir creates a directory.
func Mkdir(path string) { os.MkdirAll(path, 0777) }

// Later lets the clock go on by more than a second.
func Later() { time.Sleep(1100 * time.Millisecond) }

// Full makes a file that cannot be written to: there is no space left.
func Full(path string) {
	if err := os.Symlink("/dev/full", path); err != nil {
		panic(err)
	}
}

// Note shows a value in a replay.
func Note(name, v string) { fmt.Printf("NOTE %s %q\n", name, v) }
