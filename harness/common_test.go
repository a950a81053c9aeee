package verifharness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// statistics: what a run really generated

type statsT struct {
	mu          sync.Mutex
	Evaluations int64            `json:"evaluations"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []string         `json:"samples"`
	hashes      map[uint64]struct{}
	saturated   bool
	nontrivial  int64
	shrinking   bool
}

var stats = &statsT{Classes: map[string]int64{}, hashes: map[uint64]struct{}{}}

const maxHashes = 500_000

// note records one evaluated case. key describes the whole case.
func note(nontrivial bool, key string, classes ...string) {
	s := stats
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evaluations++
	for _, c := range classes {
		if c != "" {
			s.Classes[c]++
		}
	}
	if !nontrivial {
		return
	}
	s.nontrivial++
	h := fnv.New64a()
	io.WriteString(h, key)
	sum := h.Sum64()
	if _, ok := s.hashes[sum]; !ok {
		if len(s.hashes) < maxHashes {
			s.hashes[sum] = struct{}{}
		} else {
			s.saturated = true
		}
	}
	n := s.nontrivial
	if len(s.Samples) < 12 && (n <= 2 || n&(n-1) == 0) && len(key) < 3000 {
		s.Samples = append(s.Samples, key)
	}
}

func class(c string) {
	stats.mu.Lock()
	stats.Classes[c]++
	stats.mu.Unlock()
}

func (s *statsT) write(path string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]any{
		"evaluations": s.Evaluations,
		"nontrivial":  s.nontrivial,
		"distinct":    len(s.hashes),
		"saturated":   s.saturated,
		"classes":     s.Classes,
		"samples":     s.Samples,
	}
	data, err := json.Marshal(out)
	if err != nil {
		return err
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		return err
	}
	buf := make([]byte, 0, 8*len(s.hashes))
	for h := range s.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	return os.WriteFile(path+".hashes", buf, 0o644)
}

// ---------------------------------------------------------------------------
// watchdog: a tiny case that burns seconds of CPU or gigabytes does not end

var (
	curCase     atomic.Pointer[string]
	curCaseSeq  atomic.Int64
	curCaseOpen atomic.Bool
)

const (
	hangCPU  = 30 * time.Second
	hangHeap = 5 << 29
)

func procCPU() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog() {
	var seq int64 = -1
	var since time.Duration
	ticks := 0
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		if !curCaseOpen.Load() {
			seq = -1
			continue
		}
		now := procCPU()
		if s := curCaseSeq.Load(); s != seq {
			seq, since, ticks = s, now, 0
		}
		ticks++
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		// no CPU used in two minutes it was scheduled in: a deadlock
		stuck := ticks > 2400 && now-since < 10*time.Second
		if now-since > hangCPU || heap > hangHeap || stuck {
			desc := "?"
			if p := curCase.Load(); p != nil {
				desc = *p
			}
			fmt.Printf("\nVERIF-HANG: a call of the code under test used %v of CPU and %d MB of heap and has not returned\ncase: %s\n",
				(now - since).Round(time.Second), heap>>20, desc)
			os.Exit(67)
		}
	}
}

// guard tells the watchdog about the code under test being run on one case.
func guard(desc func() string, fn func()) {
	s := desc()
	before, open := curCase.Swap(&s), curCaseOpen.Load()
	curCaseSeq.Add(1)
	curCaseOpen.Store(true)
	defer func() {
		curCase.Store(before)
		curCaseSeq.Add(1)
		curCaseOpen.Store(open)
	}()
	fn()
}

// ---------------------------------------------------------------------------

var baseChecks int

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetMaxStack(128 << 20)
	if f := flag.Lookup("rapid.checks"); f != nil {
		baseChecks, _ = strconv.Atoi(f.Value.String())
	}
	go watchdog()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS_OUT"); p != "" {
		if err := stats.write(p); err != nil {
			fmt.Println("VERIF-ERROR: writing stats:", err)
			code = 3
		}
	}
	os.Exit(code)
}

// check runs prop weight*base times.
func check(t *testing.T, weight float64, prop func(t *rapid.T)) {
	if capture != nil {
		*capture = append(*capture, prop)
		return
	}
	t.Helper()
	n := int(float64(baseChecks) * weight)
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	defer flag.Set("rapid.checks", strconv.Itoa(baseChecks))
	name := t.Name() + ", outside of what is guarded more closely"
	rapid.Check(t, func(t *rapid.T) { guard(func() string { return name }, func() { prop(t) }) })
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// shard returns the number of this process and the number of processes.
func shard() (i, n int) {
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &i, &n)
	if n < 1 {
		n = 1
	}
	return
}

// ---------------------------------------------------------------------------
// values

// identical reports whether a and b are the very same value: same dynamic type,
// same bits, same backing memory for slices, maps and so on.
func identical(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	return identicalV(va, vb)
}

func identicalV(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || (a.Float() != a.Float() && b.Float() != b.Float())
	case reflect.Complex64, reflect.Complex128:
		ca, cb := a.Complex(), b.Complex()
		return ca == cb || (ca != ca && cb != cb)
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Pointer() == b.Pointer()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && identicalV(a.Elem(), b.Elem())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !identicalV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !identicalV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return false
}

func identicalLists(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !identical(a[i], b[i]) {
			return false
		}
	}
	return true
}

// goEqual reports whether a and b have the same type and are ==, values that
// can't be compared are not.
func goEqual(a, b any) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

func show(v any) string {
	s := fmt.Sprintf("%T(%#v)", v, v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func showList(l []any) string {
	parts := make([]string, len(l))
	for i, v := range l {
		parts[i] = show(v)
	}
	return "[" + strings.Join(parts, " ") + "]"
}

func styleName(s syntax.BindVarStyle) string {
	if s == syntax.Dollar {
		return "dollar"
	}
	return "question"
}

var bothStyles = []syntax.BindVarStyle{syntax.Dollar, syntax.Question}

// noPanic runs fn and returns what it panicked with.
func noPanic(fn func()) (r any, stack string) {
	defer func() {
		if r = recover(); r != nil {
			buf := make([]byte, 4096)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	fn()
	return nil, ""
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func itoa(i int) string { return strconv.Itoa(i) }

func cond(b bool, s string) string {
	if b {
		return s
	}
	return ""
}
