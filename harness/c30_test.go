package verifharness

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C30: the text of a query never depends on the values bound in it.

// spied counts calls of methods of values.
var spied int64

func spy(name string) string { atomic.AddInt64(&spied, 1); return "spied " + name }

type (
	spyVal struct{ n int }
	spyPtr struct{ l []int }
	spyInt int
	spyStr string
	spyLst []int
	spyMap map[string]int
)

func (spyVal) String() string                               { return spy("String") }
func (spyVal) Error() string                                { return spy("Error") }
func (spyVal) Value() (driver.Value, error)                 { return spy("Value"), nil }
func (spyVal) MarshalText() ([]byte, error)                 { return []byte(spy("MarshalText")), nil }
func (spyVal) MarshalJSON() ([]byte, error)                 { return []byte(spy("MarshalJSON")), nil }
func (spyVal) Format(f fmt.State, verb rune)                { fmt.Fprint(f, spy("Format")) }
func (spyVal) GoString() string                             { return spy("GoString") }
func (spyVal) Equal(spyVal) bool                            { spy("Equal"); return true }
func (spyVal) IsZero() bool                                 { spy("IsZero"); return true }
func (spyVal) Unwrap() error                                { spy("Unwrap"); return nil }
func (*spyPtr) String() string                              { return spy("String") }
func (*spyPtr) Value() (driver.Value, error)                { return spy("Value"), nil }
func (*spyPtr) Scan(any) error                              { spy("Scan"); return nil }
func (*spyPtr) BuildFragment(*sqlf.Context) (string, error) { return spy("BuildFragment"), nil }
func (spyInt) String() string                               { return spy("String") }
func (spyInt) Value() (driver.Value, error)                 { return spy("Value"), nil }
func (spyStr) BuildFragment(*sqlf.Context) (string, error)  { return spy("BuildFragment"), nil }
func (spyStr) BuildQuery(syntax.BindVarStyle) (string, []any, error) {
	return spy("BuildQuery"), nil, nil
}
func (spyStr) Error() string                { return spy("Error") }
func (spyLst) Value() (driver.Value, error) { return spy("Value"), nil }
func (spyLst) Len() int                     { spy("Len"); return 0 }
func (spyLst) String() string               { return spy("String") }
func (spyMap) MarshalJSON() ([]byte, error) { return []byte(spy("MarshalJSON")), nil }
func (spyMap) Value() (driver.Value, error) { return spy("Value"), nil }

// comparable values, of which no two are equal
var distinctValues = []any{
	nil, 0, 1, int64(0), int64(1), uint8(1), 1.5, float64(0), "0", "", "a", true, false, "NULL", "'; DROP TABLE t; --", "?", "$1", "#f1", "#join('#f', '')", "it's", "\x00", strings.Repeat("long", 500), strings.Repeat("long", 2000), strings.Repeat("l", 70000),
	spyVal{1}, spyVal{2}, &spyPtr{}, &spyPtr{}, spyInt(0), spyInt(1), spyStr("a"), spyStr("#f1"), (*spyPtr)(nil), sqlb.Table("t"), sqlb.NewTableAliased("t", "x"), sqlf.F("SELECT 1"), (*sqlf.Fragment)(nil),
	sqlb.NewQueryBuilder(), (*sqlb.QueryBuilder)(nil), sqlb.Table("t").Column("id"), sql.NullString{}, sql.NullInt64{Int64: 1, Valid: true}, &sql.NullInt64{}, [2]int{1, 2}, [0]int{}, struct{}{}, cmpStruct{1, "a"},
	time.Time{}, time.Unix(0, 0).UTC(), time.Hour, -time.Hour, time.Duration(0), -1, -1.5, int64(-1), math.MinInt64, math.MaxInt64, uint64(math.MaxUint64), 1e300, time.March, time.Unix(-1<<40, 0), errors.New("e"), new(int), (*int)(nil), make(chan int), complex(1, 2), anyStruct{1}, syntax.Dollar, sqlb.Asc, 'x', math.Inf(1),
	// the same time in other words
	time.Unix(0, 0).In(time.FixedZone("", 3600)), time.Unix(0, 0).In(time.FixedZone("CET", 3600)), time.Unix(0, 0).Local(), time.Now(), time.Now().Round(0).UTC(), sql.NullTime{Time: time.Unix(5, 0).In(time.FixedZone("X", -7200)), Valid: true},
	json.Number("1"), json.Number("1.0"), big.NewInt(1), &url.URL{Host: "h"}, (*url.URL)(nil), (*time.Time)(nil), sql.Named("n", 1), sql.Out{Dest: sharedDest}, driver.NotNull{Converter: driver.Int32}, float32(0), int8(0), uintptr(0), "1", "1.5", "true",
	// strings with a meaning somewhere
	"5%", "%x%", "a*", "_", "x?", "null", "1,2", "(1)", "(SELECT 1)", "{}", "[1]", "{1,2}", " x ", "A", "2020-01-01", "0x10", "\\", "\"", "`x`", "users.id", "u.id", "*", "DEFAULT", "b'1'", "E'x'", "now()", "--", "/*", ";", ")", "x'; --",
}

var sharedDest = new(string)

// values Go can not compare, or which are not equal to themselves
var aloneValues = []any{
	[]byte("bytes"), []byte{}, []byte(nil), []any{1, "a"}, []int(nil), map[string]int{"a": 1}, map[string]any(nil), spyLst{1}, spyLst(nil), spyMap{"a": 1}, func() {}, (func())(nil),
	anyStruct{[]int{1}}, spyPtr{}, [1]any{[]int{}}, [][]byte{[]byte("x")}, math.NaN(), anyStruct{math.NaN()}, []string{"a", "b"}, []sqlf.FragmentBuilder{sqlf.F("x")},
}

// hole stands for a value in a query. A pointer is equal to itself only.
type hole struct{ class int }

// plug tells the values of all occurrences, which are counted in the order they are copied.
type plug struct {
	classes []int // of the occurrences; -1 is one that is equal to none
	vals    []any
	next    int
}

func (p *plug) fn() func(any) any {
	p.next = 0
	return func(any) any {
		p.next++
		return p.vals[p.next-1]
	}
}

// values30 builds what make makes of different values, and tells if it fails.
func values30(t *rapid.T, key string, make func(c cloner) sqlf.QueryBuilder) (failed bool, occurrences int) {
	count := 0
	make(cloner{valuesKey{}: func(v any) any { count++; return v }})
	build := func(style syntax.BindVarStyle, p *plug) (q string, args []any, err error) {
		b := make(cloner{valuesKey{}: p.fn()})
		if p.next != count {
			t.Fatalf("VERIF-ERROR: %d of %d values given", p.next, count)
		}
		before := atomic.LoadInt64(&spied)
		guard(func() string { return key }, func() { q, args, err = b.BuildQuery(style) })
		if err == nil && atomic.LoadInt64(&spied) != before {
			t.Fatalf("%s\nbuilding calls methods of the values", key)
		}
		return
	}
	for _, style := range bothStyles {
		// once with holes, then with values
		a, b := new(plug), new(plug)
		for i := 0; i < count; i++ {
			if style == syntax.Question {
				a.vals = append(a.vals, &hole{i})
				if rapid.IntRange(0, 3).Draw(t, "alone") == 0 {
					b.vals = append(b.vals, rapid.SampledFrom(aloneValues).Draw(t, "value"))
				} else {
					b.vals = append(b.vals, rapid.SampledFrom(distinctValues).Draw(t, "value"))
				}
			}
		}
		if style == syntax.Dollar {
			// values are equal if and only if those they replace are
			values := rapid.Permutation(distinctValues).Draw(t, "values")
			n := rapid.IntRange(1, len(values)).Draw(t, "classes")
			holes := map[int]*hole{}
			for i := 0; i < count; i++ {
				k := rapid.IntRange(-n/4-1, n-1).Draw(t, "class")
				if k < 0 {
					a.vals = append(a.vals, []*hole{{i}})
					b.vals = append(b.vals, rapid.SampledFrom(aloneValues).Draw(t, "value"))
					continue
				}
				if holes[k] == nil {
					holes[k] = &hole{k}
				}
				a.vals = append(a.vals, holes[k])
				b.vals = append(b.vals, values[k])
			}
		}
		qa, argsA, errA := build(style, a)
		qb, argsB, errB := build(style, b)
		if (errA != nil) != (errB != nil) {
			t.Fatalf("%s\nvalues %s: %v\nvalues %s: %v", key, showList(a.vals), errA, showList(b.vals), errB)
		}
		if errA != nil {
			failed = true
			continue
		}
		if qa != qb {
			t.Fatalf("%s\nvalues %s\nbuilt %q\nvalues %s\nbuilt %q", key, showList(a.vals), qa, showList(b.vals), qb)
		}
		if len(argsA) != len(argsB) {
			t.Fatalf("%s\nvalues %s\nargs %s\nvalues %s\nargs %s", key, showList(a.vals), showList(argsA), showList(b.vals), showList(argsB))
		}
		for i, v := range argsA {
			ok := false
			for k, w := range a.vals {
				if identical(v, w) {
					ok = identical(argsB[i], b.vals[k])
					break
				}
			}
			if !ok {
				t.Fatalf("%s\nvalues %s\nargs %s\nvalues %s\nargs %s\ndiffer in arg %d", key, showList(a.vals), showList(argsA), showList(b.vals), showList(argsB), i+1)
			}
		}
	}
	return failed, count
}

func TestC30_Fragments(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{wild: rapid.IntRange(0, 9).Draw(t, "wild") == 0, maxNodes: 5})
		key := root.String()
		failed, n := values30(t, key, func(c cloner) sqlf.QueryBuilder { return cloneNode(c, root).(*fragN).frag() })
		note(n > 0 && !failed, key, bucket("values", n), cond(failed, "fragment failed"))
	})
}

func TestC30_Builders(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		q := genBQ(t, bopts{maxJoins: 3, ctes: 2, cteNeeded: rapid.Bool().Draw(t, "needed"), unions: true, nested: true, optional: true, distinct: 5, orders: true, emptyParts: true, depth: 1})
		key := q.String()
		failed, n := values30(t, key, func(c cloner) sqlf.QueryBuilder { return q.copy(c).b })
		if failed {
			t.Fatalf("%s fails", key)
		}
		note(n > 0, key, append(q.classes(), bucket("values", n))...)
	})
}

// The same for lists of all types, shared property lists and functions.
func TestC30_Lists(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		id := sqlb.Table("t").Column("id")
		lists := func(label string) any {
			order := rapid.Permutation(indexes[:n]).Draw(t, label+"Order")
			switch rapid.IntRange(0, 9).Draw(t, label+"Type") {
			case 0:
				return mapList(order, func(i int) int { return i * 1000003 })
			case 1:
				return mapList(order, func(i int) string { return fmt.Sprintf("'%d", i) })
			case 2:
				return mapList(order, func(i int) any { return []byte{byte(i)} })
			case 3:
				return mapList(order, func(i int) spyVal { return spyVal{i} })
			case 4:
				return mapList(order, func(i int) *spyPtr { return &spyPtr{} })
			case 5:
				return mapList(order, func(i int) float64 { return -float64(i) - 1.5 })
			case 6:
				return mapList(order, func(i int) time.Time { return time.Unix(int64(i), 0).In(time.FixedZone("", 60*i)) })
			case 7:
				return mapList(order, func(i int) sqlb.Table { return sqlb.Table(fmt.Sprint("#f", i)) })
			case 8:
				return mapList(order, func(i int) any { return distinctValues[i] })
			default:
				return mapList(order, func(i int) spyStr { return spyStr(fmt.Sprint("#arg", i)) })
			}
		}
		a, b := lists("a"), lists("b")
		how := rapid.IntRange(0, 2).Draw(t, "how")
		make := func(list any) sqlf.QueryBuilder {
			q := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(id)
			switch how {
			case 0:
				q.WhereIn(id, list)
			case 1:
				q.WhereNotIn(id, list)
			case 2:
				q.Where2(id, "=", list)
			}
			return q
		}
		// elems are what is to be bound
		elems := func(list any) []any {
			if how == 2 {
				return []any{list}
			}
			var out []any
			for v, i := reflect.ValueOf(list), 0; i < v.Len(); i++ {
				out = append(out, v.Index(i).Interface())
			}
			return out
		}
		key := fmt.Sprintf("%d: %T and %T of %d", how, a, b, n)
		note(true, key, "lists")
		for _, style := range bothStyles {
			before := atomic.LoadInt64(&spied)
			qa, argsA, errA := make(a).BuildQuery(style)
			qb, argsB, errB := make(b).BuildQuery(style)
			if atomic.LoadInt64(&spied) != before {
				t.Fatalf("%s: building calls methods of the values", key)
			}
			if errA != nil || errB != nil || qa != qb || len(argsA) != len(argsB) {
				t.Fatalf("%s:\n%q %d args (%v)\n%q %d args (%v)", key, qa, len(argsA), errA, qb, len(argsB), errB)
			}
			if !identicalLists(argsA, elems(a)) || !identicalLists(argsB, elems(b)) {
				t.Fatalf("%s: args %s of %s\nargs %s of %s", key, showList(argsA), show(a), showList(argsB), show(b))
			}
		}
	})
}

var indexes = []int{0, 1, 2, 3, 4, 5, 6, 7}

func mapList[T any](order []int, fn func(i int) T) []T {
	var out []T
	for _, i := range order {
		out = append(out, fn(i))
	}
	return out
}
