package verifharness

import (
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C21: flattening args keeps every value, in order, one level deep.

type (
	namedInts  []int
	namedArr   [2]string
	namedBytes []byte
)

// elemTypes are what lists and values are made of.
var elemTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(""), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
	reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf(myInt(0)), reflect.TypeOf(myStr("")), reflect.TypeOf(cmpStruct{}), reflect.TypeOf(anyStruct{}), reflect.TypeOf(time.Time{}),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(namedInts{}), reflect.TypeOf(namedArr{}), reflect.TypeOf(namedBytes{}),
	// lists that are types of their own, and can do more than others
	reflect.TypeOf(sort.IntSlice{}), reflect.TypeOf(sort.StringSlice{}), reflect.TypeOf(net.IP{}), reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(valuerList{}), reflect.TypeOf(stringerArr{}), reflect.TypeOf(errorList{}),
	reflect.TypeOf(valuerStruct{}),
}

type (
	valuerList   []string
	stringerArr  [2]int
	errorList    []error
	valuerStruct struct{ S string }
)

func (v valuerList) Value() (driver.Value, error)   { return strings.Join(v, ","), nil }
func (v *valuerList) Scan(any) error                { return nil }
func (v stringerArr) String() string                { return "arr" }
func (v stringerArr) Value() (driver.Value, error)  { return "arr", nil }
func (v errorList) Error() string                   { return "errors" }
func (v errorList) Unwrap() []error                 { return v }
func (v valuerStruct) Value() (driver.Value, error) { return v.S, nil }
func (v valuerStruct) MarshalText() ([]byte, error) { return []byte(v.S), nil }

func genType(t *rapid.T, depth int) reflect.Type {
	k := rapid.IntRange(0, 9).Draw(t, "type")
	if depth <= 0 && k >= 4 {
		k = 0
	}
	switch k {
	case 4, 5, 6, 7:
		return reflect.SliceOf(genType(t, depth-1))
	case 8:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "n"), genType(t, depth-1))
	case 9:
		return reflect.PointerTo(genType(t, depth-1))
	}
	return rapid.SampledFrom(elemTypes).Draw(t, "elem")
}

func genValueOf(t *rapid.T, typ reflect.Type, depth int) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(rapid.IntRange(-128, 127).Draw(t, "i")))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(rapid.IntRange(0, 255).Draw(t, "u")))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(rapid.IntRange(-64, 64).Draw(t, "f")) / 4)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(rapid.IntRange(-4, 4).Draw(t, "c")), 1))
	case reflect.String:
		v.SetString(rapid.SampledFrom([]string{"", "a", "b", "c'", "#f1"}).Draw(t, "s"))
	case reflect.Slice:
		n := rapid.SampledFrom([]int{-1, 0, 1, 2, 2, 3, 5, 12}).Draw(t, "len")
		if n < 0 {
			return v // nil
		}
		if depth < 0 && n > 1 {
			n = 1
		}
		v.Set(reflect.MakeSlice(typ, n, n+rapid.SampledFrom([]int{0, 0, 4, 16}).Draw(t, "spare")))
		for i := 0; i < n; i++ {
			v.Index(i).Set(genValueOf(t, typ.Elem(), depth-1))
		}
	case reflect.Array:
		for i := 0; i < typ.Len(); i++ {
			v.Index(i).Set(genValueOf(t, typ.Elem(), depth-1))
		}
	case reflect.Pointer:
		if rapid.IntRange(0, 4).Draw(t, "nil") > 0 {
			p := reflect.New(typ.Elem())
			p.Elem().Set(genValueOf(t, typ.Elem(), depth-1))
			v.Set(p)
		}
	case reflect.Interface:
		k := rapid.IntRange(0, 4).Draw(t, "iface")
		if k == 0 {
			return v // nil
		}
		switch typ {
		case reflect.TypeOf((*error)(nil)).Elem():
			v.Set(reflect.ValueOf(errors.New("e")))
		case reflect.TypeOf((*fmt.Stringer)(nil)).Elem():
			v.Set(reflect.ValueOf(time.Duration(k)))
		default:
			v.Set(genValueOf(t, genType(t, depth-1), depth-1))
		}
	case reflect.Map:
		if rapid.Bool().Draw(t, "map") {
			v.Set(reflect.ValueOf(map[string]int{"a": 1}))
		}
	case reflect.Func:
		if rapid.Bool().Draw(t, "func") {
			v.Set(reflect.ValueOf(sharedFunc))
		}
	case reflect.Chan:
		if rapid.Bool().Draw(t, "chan") {
			v.Set(reflect.ValueOf(sharedChan))
		}
	case reflect.Struct:
		switch typ {
		case reflect.TypeOf(cmpStruct{}):
			v.Set(reflect.ValueOf(cmpStruct{rapid.IntRange(0, 2).Draw(t, "x"), "a"}))
		case reflect.TypeOf(anyStruct{}):
			v.Set(reflect.ValueOf(anyStruct{[]int{1}}))
		}
	}
	return v
}

// genFlatInput is a value, list or pointer to one.
func genFlatInput(t *rapid.T) any {
	if rapid.IntRange(0, 9).Draw(t, "nilvalue") == 0 {
		return nil
	}
	typ := genType(t, 2)
	v := genValueOf(t, typ, 2)
	return v.Interface()
}

// flatten is the model.
func flatten(v any) (out []any, isList bool) {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
		return []any{v}, false
	}
	for i := 0; i < rv.Len(); i++ {
		out = append(out, rv.Index(i).Interface())
	}
	return out, true
}

func noteFlat(name string, in []any) {
	lists, ptrs, nils, reflective := 0, 0, 0, 0
	desc := []string{}
	for _, v := range in {
		_, l := flatten(v)
		rv := reflect.ValueOf(v)
		if l {
			lists++
			if rv.Kind() == reflect.Pointer {
				ptrs++
			}
			if !strings.HasPrefix(rv.Type().String(), "[]") && !strings.HasPrefix(rv.Type().String(), "*[]") {
				reflective++
			}
		}
		if v == nil || rv.Kind() == reflect.Pointer && rv.IsNil() {
			nils++
		}
		desc = append(desc, clipStr(fmt.Sprintf("%T %+v", v, v), 200))
	}
	note(lists > 0, name+" "+strings.Join(desc, " | "), cond(lists > 0, "lists"), cond(ptrs > 0, "pointers to lists"), cond(nils > 0, "nils"), cond(reflective > 0, "arrays and named lists"))
}

// deepCopy copies lists, so that changes of what is in them show.
func snapshotList(v any) func() bool {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
		return func() bool { return true }
	}
	if rv.Kind() == reflect.Slice {
		rv = rv.Slice(0, rv.Cap()) // what is behind the list, too
	}
	var was []any
	for i := 0; i < rv.Len(); i++ {
		was = append(was, rv.Index(i).Interface())
	}
	return func() bool {
		for i := range was {
			if !identical(was[i], rv.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
}

func TestC21_Flatten(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		var in []any
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
			in = append(in, genFlatInput(t))
		}
		noteFlat("flatten", in)
		var want []any
		var snaps []func() bool
		for _, v := range in {
			f, _ := flatten(v)
			want = append(want, f...)
			snaps = append(snaps, snapshotList(v))
		}
		inCopy := append([]any(nil), in...)
		var got []any
		r, stack := noPanic(func() { got = util.ArgsFlatted(in...) })
		if r != nil {
			t.Fatalf("%s: panic %v\n%s", showList(in), r, stack)
		}
		if !identicalLists(got, want) {
			t.Fatalf("flattened %s\nto   %s\nwant %s", showList(in), showList(got), showList(want))
		}
		// what is done to the result is not done to the lists
		got = append(got, "more")
		for i := range got {
			got[i] = "overwritten"
		}
		if !identicalLists(in, inCopy) {
			t.Fatalf("%s: changed", showList(inCopy))
		}
		for i, unchanged := range snaps {
			if !unchanged() {
				t.Fatalf("flattening changed item %d of %s", i, showList(in))
			}
		}
	})
}

// The types with a branch of their own, as slices and pointers to them, one element
// after the other.
func TestC21_EveryType(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		if rapid.IntRange(0, 9).Draw(t, "all") == 0 { // zero values of all types
			n := rapid.IntRange(1, 3).Draw(t, "n")
			for _, typ := range elemTypes {
				zeros := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
				var want []any
				for i := 0; i < n; i++ {
					want = append(want, zeros.Index(i).Interface())
				}
				p := reflect.New(zeros.Type())
				p.Elem().Set(zeros)
				for _, in := range []any{zeros.Interface(), p.Interface()} {
					noteFlat("all types", []any{in})
					if got := util.ArgsFlatted(in, "a"); !identicalLists(got, append(want[:n:n], "a")) {
						t.Fatalf("flattened %s\nto   %s\nwant %s", show(in), showList(got), showList(want))
					}
				}
			}
			return
		}
		typ := rapid.SampledFrom(elemTypes).Draw(t, "elem")
		n := rapid.IntRange(0, 20).Draw(t, "n")
		if n == 20 {
			n = rapid.SampledFrom([]int{20, 31, 33, 64, 65, 130, 260}).Draw(t, "n")
		}
		s := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
		var want []any
		for i := 0; i < n; i++ {
			s.Index(i).Set(genValueOf(t, typ, 1))
			want = append(want, s.Index(i).Interface())
		}
		p := reflect.New(s.Type())
		p.Elem().Set(s)
		arr := reflect.New(reflect.ArrayOf(n, typ))
		reflect.Copy(arr.Elem(), s)
		for _, in := range []any{s.Interface(), p.Interface(), arr.Elem().Interface(), arr.Interface()} {
			noteFlat("one", []any{in})
			if got := util.ArgsFlatted(in); !identicalLists(got, want) {
				t.Fatalf("flattened %s\nto   %s\nwant %s", show(in), showList(got), showList(want))
			}
		}
		np := reflect.Zero(p.Type()).Interface()
		if got := util.ArgsFlatted("a", np, "b"); !identicalLists(got, []any{"a", np, "b"}) {
			t.Fatalf("flattened 'a', nil %T, 'b' to %s", np, showList(got))
		}
	})
}

func TestC21_WhereIn(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		in := genFlatInput(t)
		noteFlat("where in", []any{in})
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		tbl := sqlb.NewTableAliased("users", "u")
		b := sqlb.NewQueryBuilder().Select(tbl.Column("id")).From(tbl)
		not := rapid.Bool().Draw(t, "not")
		snap := snapshotList(in)
		op := " IN ("
		var (
			q    string
			args []any
			err  error
		)
		r, stack := noPanic(func() {
			if not {
				op = " NOT IN ("
				b.WhereNotIn(tbl.Column("x"), in)
			} else {
				b.WhereIn(tbl.Column("x"), in)
			}
			q, args, err = b.BuildQuery(style)
		})
		if r != nil {
			t.Fatalf("%s: panic %v\n%s", show(in), r, stack)
		}
		want, _ := flatten(in)
		root := &ctxRoot{style: style}
		var phs []string
		for _, v := range want {
			phs = append(phs, root.commit(v))
		}
		wantQ := "SELECT u.id FROM users AS u WHERE u.x" + op + strings.Join(phs, ", ") + ")"
		if err != nil || q != wantQ || !identicalLists(args, root.args) {
			t.Fatalf("%s (%s): built %q %s (%v)\nwant %q %s", show(in), styleName(style), q, showList(args), err, wantQ, showList(root.args))
		}
		if !snap() {
			t.Fatalf("list changed: %s", show(in))
		}
	})
}

func checkTtoa[T any](t *rapid.T, list []T) {
	want := make([]any, 0, len(list))
	for _, v := range list {
		want = append(want, v)
	}
	before := append([]T(nil), list...)
	got := util.Ttoa(list)
	if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) || !reflect.DeepEqual(before, append([]T(nil), list...)) {
		t.Fatalf("Ttoa(%#v) = %#v", list, got)
	}
}

func TestC21_Ttoa(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 40}).Draw(t, "max")
		ints := rapid.SliceOfN(rapid.Int(), 0, n).Draw(t, "ints")
		note(len(ints) > 0, fmt.Sprint("Ttoa", ints), "Ttoa")
		checkTtoa(t, ints)
		checkTtoa(t, rapid.SliceOfN(rapid.String(), 0, n).Draw(t, "strings"))
		checkTtoa(t, rapid.SliceOfN(rapid.SliceOfN(rapid.Int8(), 0, 3), 0, n).Draw(t, "lists"))
		checkTtoa(t, rapid.SliceOfN(rapid.SampledFrom([]any{nil, 1, "a", []int{1}, []any{nil}, (*int)(nil)}), 0, n).Draw(t, "any"))
		checkTtoa(t, rapid.SliceOfN(rapid.SampledFrom([]error{nil, errSentinel}), 0, n).Draw(t, "errors"))
		checkTtoa[bool](t, nil)
	})
}

// Lists of any length keep all their values.
func TestC21_Long(t *testing.T) {
	check(t, 0.01, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(300, 1100), rapid.IntRange(1000, 1100), rapid.IntRange(4000, 9000), rapid.IntRange(65500, 66000)).Draw(t, "n")
		list := make([]int, n)
		want := make([]any, n)
		for i := range list {
			list[i], want[i] = i+7, i+7
		}
		note(true, fmt.Sprintf("%d values", n), "long list")
		got := util.ArgsFlatted("a", list, "b")
		if len(got) != n+2 || got[0] != "a" || got[n+1] != "b" || !identicalLists(got[1:n+1], want) {
			t.Fatalf("%d values: flattened to %d", n+2, len(got))
		}
		if got := util.ArgsFlatted(util.Ttoa(list)...); !identicalLists(got, want) {
			t.Fatalf("%d values, one by one: flattened to %d", n, len(got))
		}
		if n > 2000 && quadratic() {
			n, list, want = 2000, list[:2000], want[:2000]
		}
		tb := sqlb.NewTableAliased("users", "u")
		for _, style := range bothStyles {
			for _, not := range []bool{false, true} {
				b := sqlb.NewQueryBuilder().Select(tb.Column("id")).From(tb)
				if not {
					b.WhereNotIn(tb.Column("x"), list)
				} else {
					b.WhereIn(tb.Column("x"), &list)
				}
				q, args, err := b.BuildQuery(style)
				if err != nil {
					t.Fatalf("%d values: %v", n, err)
				}
				if !identicalLists(args, want) {
					t.Fatalf("%d values (%s, not=%v): %d args", n, styleName(style), not, len(args))
				}
				if toks, err := resolve(q, args, style); err != nil || !identicalLists(phValues(toks), want) {
					t.Fatalf("%d values (%s, not=%v): %d placeholders (%v)", n, styleName(style), not, len(phValues(toks)), err)
				}
			}
		}
	})
}
