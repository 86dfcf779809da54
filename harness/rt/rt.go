// Package rt is the harness runtime. Under the symbolic engine every function
// marked "intrinsic" is replaced by the engine (fresh solver variables,
// assumptions, assertions); the bodies here are what runs when a solver model is
// replayed natively against the real code.
package rt

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

var (
	tier    int
	vars    map[string]uint64
	names   map[string]int
	Obs     []string
	scratch string
	frozen  []any
	frozenH uint64
)

// AssertFail and AssumeFail are the panics by which a native replay ends.
type AssertFail struct{ Msg string }
type AssumeFail struct{}

// Begin prepares a native replay; End cleans up after it.
func Begin(t string, m map[string]uint64) {
	tier = 0
	if t == "thorough" {
		tier = 1
	}
	vars, names, Obs = m, map[string]int{}, []string{}
	frozen, Label = nil, ""
}

func End() {
	setLimit(-1)
	if scratch != "" {
		os.RemoveAll(scratch)
		os.Setenv("TMPDIR", oldTmp)
		scratch = ""
	}
}

func fresh(name string) string {
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// Byte: intrinsic. An arbitrary byte.
func Byte(name string) byte { return byte(vars[fresh(name)]) }

// Bool: intrinsic. An arbitrary boolean (a solver variable, not a fork).
func Bool(name string) bool { return vars[fresh(name)] == 1 }

// Int64: intrinsic. An arbitrary 64-bit integer.
func Int64(name string) int64 { return int64(vars[fresh(name)]) }

// Int: intrinsic. An arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(int64(vars[fresh(name)]))
	if v < lo || v > hi {
		panic(AssumeFail{})
	}
	return v
}

// Choose: intrinsic. A case split over 0..n-1.
func Choose(name string, n int) int {
	v := int(vars[fresh(name)])
	if v >= n {
		panic(AssumeFail{})
	}
	return v
}

// Str: intrinsic. A string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bytes: intrinsic. A slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	name = fresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vars[name+"."+strconv.Itoa(i)])
	}
	return b
}

// Alpha: intrinsic. A string of n bytes, each any byte of the alphabet.
func Alpha(name string, n int, alphabet string) string {
	b := Bytes(name, n)
	for _, c := range b {
		if strings.IndexByte(alphabet, c) < 0 {
			panic(AssumeFail{})
		}
	}
	return string(b)
}

// Assume: intrinsic.
func Assume(b bool) {
	if !b {
		panic(AssumeFail{})
	}
}

// Assert: intrinsic. The property.
func Assert(b bool, msg string) {
	if !b {
		panic(AssertFail{msg})
	}
}

// Tier: intrinsic. 0 quick, 1 thorough.
func Tier() int { return tier }

// Globals are the package-level variables of the code under test, in a native replay.
var Globals []interface{}

// Freeze: intrinsic. From here on, until CheckFrozen, nothing that existed before
// may be written by the code under test. Natively the reachable state of objs is
// hashed instead.
func Freeze(objs ...any) {
	if os.Getenv("VERIF_FROZEN") != "" { // only to confirm a write the solver found
		frozen = append(append([]any(nil), objs...), Globals...)
		frozenH = deepHash(frozen)
	}
}

// CheckFrozen: intrinsic.
func CheckFrozen() {
	if frozen != nil && deepHash(frozen) != frozenH {
		panic(AssertFail{"shared state was written"})
	}
	frozen = nil
}

// MapOrder: intrinsic. Whether the iteration order of maps ranged over by the code
// under test is a solver choice (otherwise insertion order).
func MapOrder(bool) {}

// Steps: intrinsic. The path may take that many million steps.
func Steps(millions int) {}

// Finding: intrinsic. Labels violations from here on as instances of one finding.
func Finding(id string) { Label = id }

// Label is the finding named last.
var Label string

// Reach: intrinsic. A reachability witness.
func Reach(label string) {}

// Native: intrinsic. True in a native replay.
func Native() bool { return true }

// TempDir: intrinsic. An existing scratch directory.
func TempDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			panic(err)
		}
		scratch = d
		// what the code under test puts in the system's temporary directory
		oldTmp = os.Getenv("TMPDIR")
		os.MkdirAll(filepath.Join(d, "tmp"), 0o700)
		os.Setenv("TMPDIR", filepath.Join(d, "tmp"))
	}
	d := filepath.Join(scratch, "buf")
	os.MkdirAll(d, 0o700)
	return d
}

var oldTmp string

// FSLimit: intrinsic. No file may grow beyond n bytes (writes come up short).
func FSLimit(n int) { setLimit(n) }

// MakeFile: intrinsic. Makes a file in the scratch directory and names it.
func MakeFile() string {
	name := filepath.Join(TempDir(), "file")
	os.WriteFile(name, nil, 0o600)
	return name
}

// BreakTempDir: intrinsic. Removes the scratch directory.
func BreakTempDir() { os.RemoveAll(filepath.Join(scratch, "buf")) }

// FixTempDir: intrinsic. Restores it.
func FixTempDir() { os.MkdirAll(filepath.Join(scratch, "buf"), 0o700) }

// FileCount: intrinsic. The number of files in the scratch directory and the
// system's temporary directory.
func FileCount() int {
	l, _ := os.ReadDir(filepath.Join(scratch, "buf"))
	m, _ := os.ReadDir(filepath.Join(scratch, "tmp"))
	return len(l) + len(m)
}

// FilesIn: intrinsic. The number of files in a directory.
func FilesIn(dir string) int {
	n := 0
	l, _ := os.ReadDir(dir)
	for _, f := range l {
		if !f.IsDir() {
			n++
		}
	}
	return n
}

var limited bool

func setLimit(n int) {
	var r syscall.Rlimit
	if n < 0 {
		if !limited {
			return
		}
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
		r.Cur = r.Max
		limited = false
	} else {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
		r.Cur = uint64(n)
		limited = true
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r)
}

// Observe: intrinsic. Records a value for comparing the encoding with the native run.
func Observe(label string, v any) { Obs = append(Obs, label+"="+obs(reflect.ValueOf(v))) }

func obs(v reflect.Value) string {
	if !v.IsValid() {
		return "<nil>"
	}
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, obs(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return v.Type().String()
}

// deepHash hashes everything reachable from objs.
func deepHash(objs []any) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if !v.IsValid() || d > 40 {
			fmt.Fprint(h, "!")
			return
		}
		fmt.Fprint(h, v.Type().String(), ":")
		if v.Type().String() == "regexp.Regexp" {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				fmt.Fprint(h, v.IsNil())
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), d+1)
		case reflect.Interface:
			if v.IsNil() {
				fmt.Fprint(h, "nil")
				return
			}
			walk(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		case reflect.Slice:
			fmt.Fprint(h, v.Len(), v.Cap())
			// the spare capacity too: appending to a shared slice is a write
			full := v.Slice(0, v.Len())
			if v.CanInterface() || true {
				full = v.Slice3(0, v.Cap(), v.Cap())
			}
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i), d+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
			}
		case reflect.Map:
			var ks []string
			sub := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k)
				ks = append(ks, s)
				sub[s] = v.MapIndex(k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprint(h, k, "=")
				walk(sub[k], d+1)
			}
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprint(h, v.Pointer())
		case reflect.String:
			fmt.Fprintf(h, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(h, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(h, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(h, v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(h, v.Float())
		}
	}
	for _, o := range objs {
		walk(reflect.ValueOf(o), 0)
	}
	return h.Sum64()
}

// ---- helpers that run from source under the engine too ----

// Bound picks a bound per tier.
func Bound(quick, thorough int) int {
	if Tier() == 1 {
		return thorough
	}
	return quick
}

// StrUpTo is a string of 0..n arbitrary bytes.
func StrUpTo(name string, n int) string { return Str(name, Choose(name+".len", n+1)) }

// AlphaUpTo is a string of 0..n bytes of the alphabet.
func AlphaUpTo(name string, n int, alphabet string) string {
	return Alpha(name, Choose(name+".len", n+1), alphabet)
}
