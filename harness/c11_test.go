package verifharness

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C11: argument merging keeps every value at a stable number.

func genCommitValue() *rapid.Generator[any] {
	// values that are equal in some sense, but not in that of Go
	lookalikes := []any{
		0, int8(0), int16(0), int64(0), uint(0), uint64(0), float32(0), float64(0), "0", false, nil, "", []byte(nil), []byte{}, (*int)(nil), (*string)(nil), struct{}{}, [0]int{},
		1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), float64(1), complex64(1), complex128(1), "1", '1', true, myInt(1), [1]int{1}, [1]any{1}, [1]any{int64(1)},
		"a", myStr("a"), byte('a'), 'a', "A", "a ", " a", "a\x00", "$1", "?", "true", "<nil>", "1.0",
		math.NaN(), float32(math.NaN()), math.Inf(1), math.Inf(-1), math.MaxInt64, uint64(math.MaxInt64), float64(math.MaxInt64), math.MaxUint32,
		cmpStruct{1, "a"}, cmpStruct{1, "b"}, &cmpStruct{1, "a"}, sharedPtrA, sharedPtrB, anyStruct{1}, anyStruct{int64(1)}, anyStruct{nil}, anyStruct{sharedBytes}, anyStruct{math.NaN()},
		sharedBytes, sharedBytes2, sharedInts, sharedMap, sharedFunc, [1]any{sharedBytes}, &sharedBytes, sharedChan, error(errSentinel), sharedTime, sharedTime.UTC(), sharedTime.Local(),
		struct{ A, B int }{1, 2}, struct{ B, A int }{1, 2},
	}
	return rapid.Custom(func(t *rapid.T) any {
		switch rapid.IntRange(0, 10).Draw(t, "kind") {
		case 10:
			// two of a kind that hold the same
			return rapid.SampledFrom(rapid.SampledFrom(twins).Draw(t, "twins")).Draw(t, "twin")
		case 0:
			return rapid.IntRange(0, 1<<20).Draw(t, "int")
		case 1:
			return rapid.StringN(0, 3, -1).Draw(t, "str")
		case 2:
			switch rapid.IntRange(0, 3).Draw(t, "kind2") {
			case 0:
				// long, and different at one place only
				n := rapid.SampledFrom([]int{7, 8, 15, 16, 31, 32, 63, 64, 100, 255, 256, 300, 1024, 5000}).Draw(t, "len")
				b := []byte(strings.Repeat("x", n))
				if k := rapid.SampledFrom([]int{-1, 0, n / 2, n - 1}).Draw(t, "at"); k >= 0 {
					b[k] = 'y'
				}
				return string(b)
			case 1:
				// far apart for an int, the same for narrower types
				return rapid.SampledFrom([]int64{0, 1, 1 << 8, 1<<8 + 1, 1 << 16, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, -1}).Draw(t, "wide")
			}
			return []any{rapid.IntRange(0, 3).Draw(t, "elem")}
		default:
			return rapid.SampledFrom(lookalikes).Draw(t, "val")
		}
	})
}

func ptrTo[T any](v T) *T { return &v }

// twins are lists of values that hold the same, some of which are equal.
var twins = [][]any{
	{ptrTo("x"), ptrTo("x"), "x", ptrTo(myStr("x"))},
	{ptrTo(1), ptrTo(1), 1, ptrTo(int64(1)), ptrTo(ptrTo(1))},
	{ptrTo(true), ptrTo(true), true},
	{ptrTo(1.5), ptrTo(1.5), 1.5},
	{ptrTo(sharedTime), ptrTo(sharedTime), sharedTime, sharedTime.UTC(), sharedTime.Round(0)},
	{ptrTo([]byte("x")), ptrTo([]byte("x")), []byte("x"), [1]byte{'x'}, "x"},
	{errors.New("x"), errors.New("x"), errSentinel, errSentinel},
	{make(chan int), make(chan int)},
	{sql.NullString{String: "x", Valid: true}, sql.NullString{String: "x", Valid: true}, sql.NullString{String: "x"}, sql.NullString{}, ptrTo(sql.NullString{String: "x", Valid: true}), sql.Null[string]{V: "x", Valid: true}},
	{sql.NullInt64{Int64: 1, Valid: true}, sql.NullInt64{Int64: 1, Valid: true}, sql.NullInt32{Int32: 1, Valid: true}, int64(1)},
	{sql.Named("a", 1), sql.Named("a", 1), sql.Named("b", 1), sql.Named("a", int64(1)), sql.Named("a", []int{1}), sql.Named("a", []int{1})},
	{json.Number("1"), json.Number("1"), "1", json.Number("1.0")},
	{json.RawMessage("1"), json.RawMessage("1"), []byte("1")},
	{[]string{"a"}, []string{"a"}, [1]string{"a"}, [1]string{"a"}, &[1]string{"a"}, &[1]string{"a"}},
	{map[string]int{}, map[string]int{}, map[string]int(nil), map[string]int(nil)},
	{reflect.ValueOf(1), reflect.ValueOf(1), reflect.TypeOf(1), reflect.TypeOf(1), reflect.TypeOf(int64(1))},
	{[2]any{1, "a"}, [2]any{1, "a"}, [2]any{1, []int{}}, [2]any{1, []int{}}, [2]any{2, []int{}}},
	{big.NewInt(1), big.NewInt(1), *big.NewInt(1), *big.NewInt(1)},
	{complex(1, 0), complex(1, 0), complex64(complex(1, 0)), complex(math.NaN(), 0), complex(math.NaN(), 0)},
}

var (
	sharedPtrA = &cmpStruct{1, "a"}
	sharedPtrB = &cmpStruct{1, "a"}
	sharedFunc = func() {}
	sharedChan = make(chan int)
)

func noteCommits(name string, style syntax.BindVarStyle, vals []any) {
	merged, uncomparable := 0, 0
	for i, v := range vals {
		if !goEqual(v, v) {
			uncomparable++
			continue
		}
		for _, w := range vals[:i] {
			if goEqual(v, w) {
				merged++
				break
			}
		}
	}
	note(len(vals) > 1, name+" "+styleName(style)+" "+showList(vals), styleName(style), bucket("commits", len(vals)),
		cond(merged > 0, "repeated values"), cond(uncomparable > 0, "uncomparable values or NaN"))
}

// A sequence of commits, with the list of args looked at in between.
func TestC11_Commits(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		ctx := sqlf.NewContext(style)
		root := &ctxRoot{style: style}
		pool := rapid.SliceOfN(genCommitValue(), 1, 8).Draw(t, "pool")
		n := rapid.IntRange(1, 30).Draw(t, "n")
		var vals []any
		for i := 0; i < n; i++ {
			v := rapid.SampledFrom(pool).Draw(t, "v")
			vals = append(vals, v)
		}
		noteCommits("commit", style, vals)
		var snaps [][]any
		for i, v := range vals {
			want := root.commit(v)
			if got := ctx.CommitArg(v); got != want {
				t.Fatalf("commit %d of %s: %q, want %q", i, showList(vals[:i+1]), got, want)
			}
			args := ctx.Args()
			if !identicalLists(args, root.args) {
				t.Fatalf("after %s: args %s, want %s", showList(vals[:i+1]), showList(args), showList(root.args))
			}
			snaps = append(snaps, args)
		}
		// lists handed out earlier still hold what they held
		for i, s := range snaps {
			if !identicalLists(s, root.args[:len(s)]) {
				t.Fatalf("the list after commit %d changed to %s", i, showList(s))
			}
		}
	})
}

// The same by building: one fragment per chunk of values, all in one query.
func TestC11_Build(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		root := &ctxRoot{style: style}
		pool := rapid.SliceOfN(genCommitValue(), 1, 8).Draw(t, "pool")
		var (
			vals  []any
			want  []string
			frags []sqlf.FragmentBuilder
		)
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "frags"); i < n; i++ {
			args := rapid.SliceOfN(rapid.SampledFrom(pool), 1, 5).Draw(t, "args")
			var refs []string
			how := rapid.SampledFrom([]string{"?", "$", "#arg", "#join", "$ twice", "#join ended"}).Draw(t, "how")
			if how == "#join ended" {
				// the items end before the args do: the last attempt commits an arg and takes it back
				refer := func() {
					k := rapid.IntRange(0, len(args)-1).Draw(t, "k")
					refs = append(refs, fmt.Sprintf("#arg%d", k+1))
					vals = append(vals, args[k])
					want = append(want, root.commit(args[k]))
				}
				for i, n := 0, rapid.IntRange(0, 2).Draw(t, "before"); i < n; i++ {
					refer()
				}
				m := rapid.IntRange(1, len(args)).Draw(t, "m")
				refs = append(refs, "#join('#arg|#f', '|')")
				for _, v := range args[:m] {
					vals = append(vals, v)
					want = append(want, root.commit(v), "x")
				}
				for i, n := 0, rapid.IntRange(0, 4).Draw(t, "behind"); i < n; i++ {
					refer()
				}
				for k, v := range args {
					refs = append(refs, fmt.Sprintf("#arg%d", k+1))
					vals = append(vals, v)
					want = append(want, root.commit(v))
				}
				f := sqlf.Fa(strings.Join(refs, "|"), args...)
				for range args[:m] {
					f.AppendFragments(sqlf.F("x"))
				}
				frags = append(frags, f)
				continue
			}
			for k, v := range args {
				switch how {
				case "?":
					refs = append(refs, "?")
				case "$":
					refs = append(refs, fmt.Sprintf("$%d", k+1))
				case "$ twice":
					refs = append(refs, fmt.Sprintf("$%d|$%d", k+1, k+1))
					vals = append(vals, v)
					want = append(want, root.commit(v))
				case "#arg":
					refs = append(refs, fmt.Sprintf("#arg%d", k+1))
				}
				vals = append(vals, v)
				want = append(want, root.commit(v))
			}
			if how == "#join" {
				refs = []string{"#join('#arg', '|')"}
			}
			frags = append(frags, sqlf.Fa(strings.Join(refs, "|"), args...))
		}
		noteCommits("build", style, vals)
		q, args, err := sqlf.Ff("#join('#f', '|')", frags...).BuildQuery(style)
		if err != nil {
			t.Fatalf("%s: %v", showList(vals), err)
		}
		if q != strings.Join(want, "|") || !identicalLists(args, root.args) {
			t.Fatalf("%s\nbuilt %s with %s\nwant  %s with %s", showList(vals), q, showList(args), strings.Join(want, "|"), showList(root.args))
		}
	})
}

// Many different args: numbers of several digits.
func TestC11_Many(t *testing.T) {
	check(t, 0.02, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		n := rapid.IntRange(50, 3000).Draw(t, "n")
		mod := rapid.IntRange(1, 3000).Draw(t, "mod")
		ctx := sqlf.NewContext(style)
		note(true, fmt.Sprintf("many %s %d mod %d", styleName(style), n, mod), "many args")
		for i := 0; i < n; i++ {
			want := "?"
			if style == syntax.Dollar {
				want = "$" + itoa(i%mod+1)
			}
			if got := ctx.CommitArg(i % mod); got != want {
				t.Fatalf("commit %d (value %d): %q, want %q", i, i%mod, got, want)
			}
		}
		args := ctx.Args()
		wantN := n
		if style == syntax.Dollar && mod < n {
			wantN = mod
		}
		if len(args) != wantN {
			t.Fatalf("%d args, want %d", len(args), wantN)
		}
		for i, a := range args {
			if a != i%mod {
				t.Fatalf("arg %d is %v", i, a)
			}
		}
	})
}
