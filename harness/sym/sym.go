// Package sym is how a harness talks to the symbolic engine. The engine
// replaces every function here; the bodies below are what a native replay of a
// counterexample runs, reading the solver's assignment instead.
package sym

import (
	"fmt"
	"go/token"
	"os"
	"reflect"
	"testing/synctest"
	"time"
)

// Replay state.
var (
	Assign   = map[string]uint64{}
	used     = map[string]int{}
	Failed   []string
	Covered  = map[string]bool{}
	Rejected bool
	PropName string
	TierNum  int
	CLI      string
	start    = time.Now()
)

// Start is the beginning of virtual time.
func Start() { start = time.Now() }

type Rejection struct{}

func Reset() {
	used = map[string]int{}
	Failed = nil
	Rejected = false
	start = time.Now()
}

func uniq(name string) string {
	n := used[name]
	used[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// Bool is an unconstrained boolean.
func Bool(name string) bool { return Assign[uniq(name)] != 0 }

// Int is an unconstrained integer in [0, n), n <= 256.
func Int(name string, n int) int { return int(Assign[uniq(name)]) }

// Int64 is an unconstrained integer in [lo, hi].
func Int64(name string, lo, hi int64) int64 {
	v, ok := Assign[uniq(name)]
	if !ok {
		return lo
	}
	return int64(v)
}

// Choice is like Int, but the engine splits the path at once.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(Assign[uniq(name)])
}

// Byte is an unconstrained byte out of charset.
func Byte(name string, charset string) byte {
	v, ok := Assign[uniq(name)]
	if !ok {
		return charset[0]
	}
	return byte(v)
}

// String is an unconstrained string of n bytes out of charset.
func String(name string, n int, charset string) string {
	name = uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i), charset)
	}
	return string(b)
}

func Assume(cond bool) {
	if !cond {
		Rejected = true
		panic(Rejection{})
	}
}

// Undecided gives up on this path: the harness cannot tell whether the property holds.
func Undecided(why string) {
	Rejected = true
	panic(Rejection{})
}

// Assert states the property; label is "<property>:<what>".
func Assert(cond bool, label string) {
	if !cond {
		Failed = append(Failed, label)
	}
}

func Cover(name string)              { Covered[name] = true }
func CoverIf(cond bool, name string) {}
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool          { return !c }
func Implies(a, b bool) bool   { return !a || b }
func Iff(a, b bool) bool       { return a == b }
func EqStr(a, b string) bool   { return a == b }
func EqInt(a, b int64) bool    { return a == b }
func MapOrders(mode, dev int)  {}
func Preempt(n int)            {}
func Point()                   {}
func Yield()                   { synctest.Wait() }
func Now() int64               { return int64(time.Since(start)) }
func Native() bool             { return true }
func Tier() int                { return TierNum }
func Prop() string             { return PropName }
func IsSymbolic(v any) bool    { return false }
func Concrete(s string) string { return s }
func ConcreteInt(n int) int    { return n }
func KillOthers()              {}
func Log(a ...any)             { fmt.Fprintln(os.Stderr, a...) }
func CatchExit(f func()) int   { f(); return -1 }
func CallMain()                {}

// Advance lets time pass and everything that becomes due run.
func Advance(d time.Duration) {
	if CLI != "" { // the command is a process of its own, in real time
		time.Sleep(d)
		return
	}
	synctest.Wait()
	time.Sleep(d)
	synctest.Wait()
}

// Field describes a field of an import object; Type is a pointer to a variable of the field's type.
type Field struct {
	Name      string
	Tag       string
	Anonymous bool
	Type      any
}

// ImportObj makes a pointer to a fresh struct with the given fields.
func ImportObj(fields []Field) any {
	var fs []reflect.StructField
	for _, f := range fields {
		sf := reflect.StructField{Name: f.Name, Tag: reflect.StructTag(f.Tag), Anonymous: f.Anonymous, Type: reflect.TypeOf(f.Type).Elem()}
		if !token.IsExported(f.Name) {
			sf.PkgPath = "p"
		}
		fs = append(fs, sf)
	}
	return reflect.New(reflect.StructOf(fs)).Interface()
}

// FieldOf reads field i of an import object.
func FieldOf(obj any, i int) any {
	v := reflect.ValueOf(obj).Elem().Field(i)
	if !v.CanInterface() {
		// unexported: go through the printed form's pointerless copy
		if v.IsZero() {
			return reflect.Zero(v.Type()).Interface()
		}
		return "nonzero"
	}
	return v.Interface()
}

// Races reports data races of the code under test from here on under label.
func Races(label string) {}
