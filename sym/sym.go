//go:build go1.22

// Package verifsym is the harness interface. The engine interprets these functions
// symbolically; this file is the native version, used to replay concrete inputs
// against the real code.
package verifsym

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type input struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
}

type spec struct {
	Harness string  `json:"harness"`
	Inputs  []input `json:"inputs"`
	Tier    string  `json:"tier"`
	Repeat  int     `json:"repeat"`
}

type result struct {
	Outcome string   `json:"outcome"`
	Label   string   `json:"label"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
}

type stop struct{ outcome, label string }

var (
	cur        *spec
	pos        int
	res        result
	covers     map[string]bool
	allocLimit uint64
	allocStart uint64
)

func next(kind string) uint64 {
	if pos >= len(cur.Inputs) {
		panic(stop{"diverge", "no more inputs, wanted " + kind})
	}
	in := cur.Inputs[pos]
	pos++
	if in.Kind != kind {
		panic(stop{"diverge", "wanted " + kind + " got " + in.Kind})
	}
	return in.V
}

func Bool() bool     { return next("bool") != 0 }
func Byte() byte     { return byte(next("u8")) }
func Uint16() uint16 { return uint16(next("u16")) }
func Uint32() uint32 { return uint32(next("u32")) }
func Uint64() uint64 { return next("u64") }

// Int is any integer in [lo,hi].
func Int(lo, hi int) int {
	v := int(next("int"))
	if v < lo || v > hi {
		panic(stop{"diverge", "Int out of range"})
	}
	return v
}

// Float32 is any finite float32.
func Float32() float32 { return math.Float32frombits(uint32(next("f32"))) }

// AnyFloat32 is any float32, including NaN and infinities.
func AnyFloat32() float32 { return math.Float32frombits(uint32(next("f32"))) }

// IntFloat is any integral float32 in [lo,hi]; arithmetic on it is exact.
func IntFloat(lo, hi int) float32 { return math.Float32frombits(uint32(next("if32"))) }

// String is any string of n bytes.
func String(n int) string { return string(Bytes(n)) }

// StringOf is any string of n bytes drawn from the alphabet.
func StringOf(n int, alphabet string) string { return string(Bytes(n)) }

func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("u8"))
	}
	return b
}

// Choice is any of 0..n-1, explored one by one.
func Choice(n int) int {
	if n <= 1 {
		next("choice")
		return 0
	}
	return int(next("choice"))
}

// Concrete makes a symbolic integer concrete on each path.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(stop{"assert", label})
	}
}

func Cover(label string) { covers[label] = true }

func ObserveInt(label string, v int)    { res.Obs = append(res.Obs, label+"="+strconv.Itoa(v)) }
func ObserveStr(label string, v string) { res.Obs = append(res.Obs, label+"="+v) }

// Tier is 0 for quick and 1 for thorough.
func Tier() int {
	if cur.Tier == "thorough" {
		return 1
	}
	return 0
}

func Bound(quick, thorough int) int {
	if Tier() == 1 {
		return thorough
	}
	return quick
}

// QuantizeTo is what a float becomes when written with prec decimals and read back.
func QuantizeTo(f float32, prec int) float32 {
	v, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'f', prec, 32), 32)
	return float32(v)
}

// MustTerminate makes exceeding n interpreted instructions from here a violation.
func MustTerminate(n int) {}

// AllocLimit makes single allocations of more than n elements a violation.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	allocLimit, allocStart = uint64(n)*512+1<<22, ms.TotalAlloc
}

// MapOrder explores every iteration order of maps with up to n entries.
func MapOrder(n int) {}

func Symbolic() bool { return false }

// Equal is deep equality, treating nil and empty slices and maps alike.
func Equal(a, b any) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

func eq(a, b reflect.Value, depth int) bool {
	if depth > 200 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return eq(a.Elem(), b.Elem(), depth+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return eq(a.Elem(), b.Elem(), depth+1)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !eq(a.MapIndex(k), v, depth+1) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}

func runOne(f func()) (r result) {
	pos, covers = 0, map[string]bool{}
	allocLimit = 0
	res = result{Outcome: "ok"}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				res.Outcome, res.Label = s.outcome, s.label
			} else {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				var at []string
				for _, l := range strings.Split(string(buf), "\n") {
					if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "verifsym") {
						at = append(at, strings.TrimSpace(l))
					}
				}
				if len(at) > 3 {
					at = at[:3]
				}
				res.Outcome, res.Label = "panic", fmt.Sprint(x)+" @ "+strings.Join(at, " ")
			}
		}
		if allocLimit > 0 && res.Outcome != "diverge" {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.TotalAlloc-allocStart > allocLimit {
				res.Outcome, res.Label = "alloc", fmt.Sprintf("%d bytes allocated", ms.TotalAlloc-allocStart)
			}
		}
		for c := range covers {
			res.Covers = append(res.Covers, c)
		}
		sort.Strings(res.Covers)
		r = res
	}()
	f()
	return
}

// Main replays the inputs given on stdin.
func Main(hs map[string]func()) {
	b, _ := io.ReadAll(os.Stdin)
	var specs []spec
	if err := json.Unmarshal(b, &specs); err != nil {
		panic(err)
	}
	for i := range specs {
		cur = &specs[i]
		f := hs[cur.Harness]
		var r result
		start := time.Now()
		for k := 0; k < max(1, cur.Repeat) && (k == 0 || time.Since(start) < 8*time.Second); k++ {
			r = runOne(f)
			if r.Outcome != "ok" {
				break
			}
		}
		out, _ := json.Marshal(r)
		os.Stdout.Write(append(append([]byte("@@"), out...), '\n'))
	}
}

// Jitter is called before the statements of concurrent functions when what
// depends on a schedule is replayed.
func Jitter() {
	switch n := rand.Uint32(); {
	case n&3 == 0:
		runtime.Gosched()
	case n&0x3c == 0:
		time.Sleep(time.Duration(n>>16) % 50 * time.Microsecond)
	}
}

// Unsupported, Basic and TypeName only exist for the engine's stubs.
func Unsupported(msg string) { panic(stop{"diverge", msg}) }
func Basic(v any) any        { return nil }
func TypeName(v any) string  { return "" }
