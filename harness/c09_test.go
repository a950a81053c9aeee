package verifharness

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"pgregory.net/rapid"
)

// C09: building never panics.

type (
	keyStruct struct{ A, B any }
	nilIface  interface{ X() }
)

var oddValues = []any{
	(*time.Time)(nil), (*url.URL)(nil), (*big.Int)(nil), (*customErr)(nil), (*spyVal)(nil), (*spyPtr)(nil), (*sql.NullString)(nil), (*sqlb.TableAliased)(nil), (fmt.Stringer)((*time.Location)(nil)), (*bytes.Buffer)(nil), (*strings.Builder)(nil), panickyValue{}, (*panickyValue)(nil),
	nil, []byte(nil), []byte("x"), []any{1, nil}, map[string]any{"a": []int{1}}, map[any]any(nil), struct{}{}, struct{ X any }{[]int{1}}, keyStruct{1, map[int]int{}}, keyStruct{[]int{1}, 1},
	[1]any{[]int{1}}, [2]any{1, "a"}, [0]int{}, func() {}, (func())(nil), make(chan int), (chan int)(nil), math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1),
	keyStruct{math.NaN(), 1}, [1]float64{math.NaN()}, complex(math.NaN(), 1), (*int)(nil), (*[]int)(nil), (*sqlf.Fragment)(nil), (*sqlb.Column)(nil), error(nil), errors.New("e"), nilIface(nil),
	time.Time{}, time.Now(), reflect.ValueOf(1), reflect.Value{}, reflect.TypeOf(1), new(any), 0, "", "s", true, uint64(1 << 63), int8(-128), 'x', float32(1.5), complex64(1),
	sqlf.F("as an arg"), sqlb.Table("as_an_arg"), sqlb.TableAliased{}, struct{ p *int }{}, struct{ f func() }{}, []any{[]any{}}, &[]any{1}, &map[string]int{}, strings.Repeat("long", 1000),
}

// panickyValue has all methods one could call, of which only Value can be.
type panickyValue struct{ _ int }

func (p panickyValue) String() string               { panic("String") }
func (p panickyValue) GoString() string             { panic("GoString") }
func (p panickyValue) Error() string                { panic("Error") }
func (p panickyValue) Value() (driver.Value, error) { return nil, errSentinel } // debug output calls it
func (p panickyValue) MarshalText() ([]byte, error) { panic("MarshalText") }
func (p panickyValue) Format(fmt.State, rune)       { panic("Format") }

// hashing it panics half-way
type panickyBuilder struct{ v any }

func (p *panickyBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	ctx.CommitArg(p.v)
	panic(p.v)
}

type ctxLover struct{ how int }

// BuildFragment uses the context as a third-party builder may.
func (p ctxLover) BuildFragment(ctx *sqlf.Context) (string, error) {
	switch p.how {
	case 0:
		return ctx.CommitArg([]int{1}), nil
	case 1:
		inner, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"inner": func(i int) string { return "i" }})
		if err != nil {
			return "", err
		}
		return sqlf.F("#inner1 ?").WithArgs(map[string]int{}).BuildFragment(inner)
	case 2:
		return (*sqlf.Fragment)(nil).BuildFragment(ctx)
	case 3:
		return sqlb.NewQueryBuilder().BuildFragment(ctx)
	case 4:
		return fmt.Sprint(ctx.Args()), nil
	}
	return "\xff#f?$1'", nil
}

var panicValues = []any{"text", errors.New("error"), 1, nil, []int{1}, map[string]int{}, error(nil), (*customErr)(nil), struct{}{}, fmt.Errorf("wrapped: %w", errSentinel)}

func oddFuncs() sqlf.FuncMap {
	return sqlf.FuncMap{
		"p":    func(i int) string { panic(panicValues[((i%10)+10)%10]) },
		"ps":   func(ctx *sqlf.Context, s ...string) (string, error) { panic(fmt.Sprintf("%v", s)) },
		"e":    func(s string) (string, error) { return "x", errors.New(s) },
		"none": func() {},
		"deref": func(ctx *sqlf.Context) string {
			var p *sqlf.Fragment
			return p.Raw
		},
		"idx":    func(i int) (string, error) { var a [3]string; return a[i], nil },
		"b":      func(b bool) string { return fmt.Sprint(b) },
		"u":      func(u uint8) string { return fmt.Sprint(u) },
		"i":      func(i int8, f float32) string { return fmt.Sprint(i, f) },
		"v":      func(n ...int) string { return fmt.Sprint(n) },
		"s":      func(s ...string) string { return strings.Join(s, "") },
		"commit": func(ctx *sqlf.Context, i int) (string, error) { return ctx.CommitArg(oddValues[i]), nil },
		"q": func(ctx *sqlf.Context, i int) (string, error) {
			return sqlf.F(fmt.Sprintf("#p(%d)", i)).BuildFragment(ctx)
		},
	}
}

func genOddItem(t *rapid.T, prev []sqlf.FragmentBuilder, depth int) sqlf.FragmentBuilder {
	switch rapid.IntRange(0, 15).Draw(t, "item") {
	case 0:
		return nil
	case 1:
		return (*sqlf.Fragment)(nil)
	case 2:
		return (*sqlb.Column)(nil)
	case 3:
		return (*sqlb.QueryBuilder)(nil)
	case 4:
		return new(sqlf.Fragment)
	case 5:
		return new(sqlb.Column)
	case 6:
		return sqlb.ExprColumn(nil)
	case 7:
		return sqlb.Table(rapid.SampledFrom([]string{"", "t", "?", "#f1"}).Draw(t, "table"))
	case 8:
		return sqlb.TableAliased{}
	case 9:
		return &panickyBuilder{rapid.SampledFrom(panicValues).Draw(t, "panic")}
	case 10:
		return ctxLover{rapid.IntRange(0, 5).Draw(t, "how")}
	case 11:
		return sqlb.NewQueryBuilder()
	case 12:
		if depth > 0 {
			return genOddBuilder(t, depth-1).b
		}
		return new(sqlb.QueryBuilder)
	case 13:
		var p *panickyBuilder // its method dereferences the receiver
		return p
	default:
		if len(prev) > 0 {
			return rapid.SampledFrom(prev).Draw(t, "earlier")
		}
		return sqlf.F("x")
	}
}

var hugeNumber = regexp.MustCompile(`[0-9]{5}|[0-9.][eExX]`)

func genOddTemplate() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		if rapid.IntRange(0, 3).Draw(t, "how") == 0 {
			s = genTemplate().Draw(t, "template")
			if rapid.IntRange(0, 2).Draw(t, "cut") == 0 && s != "" {
				// broken anywhere
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "break") {
				case 0:
					s = s[:i]
				case 1:
					s = s[:i] + rapid.SampledFrom([]string{"'", "\"", "(", ")", "#", ",", "\x00", "\xff", "#f('", "#join('", "#f(1,"}).Draw(t, "what") + s[i:]
				case 2:
					s = s[i:]
				}
			}
		} else {
			b := new(strings.Builder)
			for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
				switch rapid.IntRange(0, 7).Draw(t, "kind") {
				case 0:
					b.WriteString(rapid.SampledFrom([]string{"?", "$1", "$2", "$9", "$0", "$01", "$9223372036854775807", "$9223372036854775808", "$18446744073709551615", "$18446744073709551617", "$4294967297", "$99999999999999999999999"}).Draw(t, "bind"))
				case 1, 2:
					b.WriteString("#" + rapid.SampledFrom([]string{"f", "fragment", "arg", "p", "idx", "commit", "q", "u", "v", "b", "s", "none"}).Draw(t, "fn") + rapid.SampledFrom([]string{"1", "2", "0", "3", "50", "(-1)", "(1)", "", "()"}).Draw(t, "idx"))
				case 3, 4:
					b.WriteString("#" + rapid.SampledFrom([]string{"f", "fragment", "arg", "join", "p", "ps", "e", "none", "deref", "idx", "b", "u", "i", "v", "s", "commit", "q", "nope"}).Draw(t, "fn") + "(")
					for k, m := 0, rapid.IntRange(0, 4).Draw(t, "args"); k < m; k++ {
						if k > 0 {
							b.WriteString(", ")
						}
						b.WriteString(rapid.SampledFrom([]string{"1", "-1", "0", "256", "1.5", "9999", "true", "false", "nil", "null", "''", "'a'", "'#f'", "'#join(''#f'', '''')'", "'?'", "'#p'", "','"}).Draw(t, "arg"))
					}
					b.WriteString(")")
				case 5:
					b.WriteString("#join('" + rapid.SampledFrom([]string{"#f", "#arg", "#f #arg", "#f1", "?", "$1", "$9223372036854775808", "#p", "#f#p", "#commit", "#idx", "#none", "#v #f", "#s", "#b", "#i", "#deref", "", "x", "#e", "#", "'", "#join", "#join(''#f'','''')", "#fragment2"}).Draw(t, "tmpl") + "', '" +
						rapid.SampledFrom([]string{"", ",", "#f1", "?", "#p"}).Draw(t, "sep") + "'" + rapid.SampledFrom([]string{"", ",1", ",1,2", ",2,1", ",0,3", ",-1,1", ",0", ",1,1", ",1,2,3", ",true", ",nil", ",'a'", ",1.5", ",-5,-1"}).Draw(t, "range") + ")")
				default:
					b.WriteString(rapid.SampledFrom([]string{"a", " ", "'x'", "\"y\"", "é", "", "#", "(", "'", "\x00"}).Draw(t, "text"))
				}
			}
			s = b.String()
		}
		if hugeNumber.MatchString(s) && strings.Contains(s, "#join") {
			return "#join(" // a range of millions takes its time, and that's fine
		}
		return s
	})
}

func genOddValue(t *rapid.T) any {
	return rapid.SampledFrom(oddValues).Draw(t, "value")
}

func genOddFragment(t *rapid.T, prev []sqlf.FragmentBuilder, depth int) *sqlf.Fragment {
	f := new(sqlf.Fragment)
	plausible := rapid.IntRange(0, 2).Draw(t, "plausible") > 0
	if !plausible || rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		f.Raw = genOddTemplate().Draw(t, "raw")
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "args"); i < n; i++ {
		f.Args = append(f.Args, genOddValue(t))
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "frags"); i < n; i++ {
		if plausible && rapid.Bool().Draw(t, "plain") {
			f.Fragments = append(f.Fragments, sqlf.Fa("p=?", genOddValue(t)))
			continue
		}
		f.Fragments = append(f.Fragments, genOddItem(t, prev, depth))
	}
	if plausible {
		// everything is used
		dollar := rapid.Bool().Draw(t, "dollar")
		for i := range f.Args {
			if dollar {
				f.Raw += fmt.Sprintf(" $%d", i+1)
			} else {
				f.Raw += " ?"
			}
		}
		if rapid.Bool().Draw(t, "join") {
			f.Raw += " #join('(#f)', ', ')"
		} else {
			for i := range f.Fragments {
				f.Raw += fmt.Sprintf(" #f%d", i+1)
			}
		}
	}
	f.Prefix = rapid.SampledFrom([]string{"", "", "p", "#f1", "\x00"}).Draw(t, "prefix")
	f.Suffix = rapid.SampledFrom([]string{"", "", "s"}).Draw(t, "suffix")
	return f
}

func describeItem(b sqlf.FragmentBuilder) string {
	switch f := b.(type) {
	case *sqlf.Fragment:
		if f == nil {
			return "nil"
		}
		var parts []string
		for _, x := range f.Fragments {
			parts = append(parts, describeItem(x))
		}
		args := make([]string, len(f.Args))
		for i, a := range f.Args {
			args[i] = fmt.Sprintf("%T", a)
		}
		return fmt.Sprintf("{%q args=%v frags=[%s]}", f.Raw, args, strings.Join(parts, " "))
	case *panickyBuilder:
		return "panicky"
	case ctxLover:
		return fmt.Sprintf("ctx%d", f.how)
	}
	return fmt.Sprintf("%T", b)
}

// succeeds builds with both styles, in both ways.
func neverPanics(t *rapid.T, desc string, item sqlf.FragmentBuilder) (ok bool) {
	for _, style := range bothStyles {
		var err error
		try := func(how string, fn func()) {
			var r any
			var stack string
			guard(func() string { return desc }, func() { r, stack = noPanic(fn) })
			if r != nil {
				t.Fatalf("%s\n%s with %s style panicked: %v\n%s", desc, how, styleName(style), r, stack)
			}
			ok = ok || err == nil
		}
		if q, is := item.(sqlf.QueryBuilder); is {
			try("BuildQuery", func() { _, _, err = q.BuildQuery(style) })
		}
		try("BuildFragment", func() {
			ctx, err2 := sqlf.ContextWithFuncs(sqlf.NewContext(style), oddFuncs())
			if err2 != nil {
				panic(err2)
			}
			_, err = item.BuildFragment(ctx)
		})
	}
	return
}

func TestC09_Fragments(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		var prev []sqlf.FragmentBuilder
		var f *sqlf.Fragment
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
			f = genOddFragment(t, prev, 1)
			prev = append(prev, f)
			if rapid.IntRange(0, 3).Draw(t, "column") == 0 {
				prev = append(prev, sqlb.ExprColumn(f))
			}
		}
		desc := describeItem(f)
		ok := neverPanics(t, desc, f)
		note(len(f.Fragments)+len(f.Args) > 0 || strings.Contains(f.Raw, "#"), desc, cond(ok, "fragment built"), cond(!ok, "fragment failed"), cond(strings.Contains(f.Raw, "#join"), "#join"))
		// what needs no function to get at it
		for _, item := range f.Fragments {
			switch item.(type) {
			case nil, *panickyBuilder, ctxLover:
			default:
				neverPanics(t, "of "+desc, item)
			}
		}
	})
}

type oddBuilder struct {
	b    *sqlb.QueryBuilder
	hist []string
}

func genOddTable(t *rapid.T) sqlb.TableAliased {
	return sqlb.NewTableAliased(
		sqlb.Table(rapid.SampledFrom([]string{"a", "b", "c", "a", "b", "", "#f1", "?", "a b", "'"}).Draw(t, "name")),
		sqlb.Table(rapid.SampledFrom([]string{"", "", "a", "b", "x", "#nope"}).Draw(t, "alias")),
	)
}

func genOddBuilder(t *rapid.T, depth int) *oddBuilder {
	o := &oddBuilder{b: sqlb.NewQueryBuilder()}
	b := o.b
	log := func(f string, a ...any) { o.hist = append(o.hist, fmt.Sprintf(f, a...)) }
	frag := func() *sqlf.Fragment {
		switch rapid.IntRange(0, 5).Draw(t, "frag") {
		case 0:
			return nil
		case 1:
			return genOddFragment(t, nil, depth)
		case 2:
			return sqlf.Ff("#f1 = #f2", genOddItem(t, nil, depth), sqlb.Table(rapid.SampledFrom([]string{"a", "b", "x"}).Draw(t, "t")).Column("id"))
		case 3:
			return sqlf.F("")
		default:
			return sqlf.Fa("x=?", genOddValue(t))
		}
	}
	col := func() *sqlb.Column {
		switch rapid.IntRange(0, 7).Draw(t, "col") {
		case 0:
			return nil
		case 1:
			return new(sqlb.Column)
		case 2:
			return sqlb.ExprColumn(frag())
		case 3:
			return genOddTable(t).Column(rapid.SampledFrom([]string{"id", "*", "", "#f1", "?"}).Draw(t, "name"))
		case 4:
			return genOddTable(t).AnonymousColumn("id")
		default:
			return sqlb.Table(rapid.SampledFrom([]string{"a", "b", "x"}).Draw(t, "t")).Column("id")
		}
	}
	item := func() sqlf.FragmentBuilder {
		switch rapid.IntRange(0, 6).Draw(t, "item") {
		case 0:
			return nil
		case 1:
			return (*sqlf.Fragment)(nil)
		case 2:
			return (*sqlb.QueryBuilder)(nil)
		case 3:
			if depth > 0 {
				n := genOddBuilder(t, depth-1)
				log("{%s}", strings.Join(n.hist, "; "))
				return n.b
			}
			return new(sqlb.QueryBuilder)
		case 4:
			return ctxLover{rapid.IntRange(0, 5).Draw(t, "how")}
		case 5:
			return (*sqlb.Column)(nil)
		default:
			return frag()
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "plausible") > 0 {
		// what else happens matters more then
		b.From(sqlb.NewTableAliased("a", "")).InnerJoin(sqlb.NewTableAliased("b", "x"), sqlf.F("1=1")).Select(sqlb.Table("a").Column("id"))
		log("From(a).InnerJoin(b AS x).Select(a.id)")
	}
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "calls"); i < n; i++ {
		switch k := rapid.IntRange(0, 19).Draw(t, "call"); k {
		case 0:
			tb := genOddTable(t)
			log("From(%q)", tb)
			b.From(tb)
		case 1, 2, 3:
			tb, f := genOddTable(t), frag()
			how := rapid.IntRange(0, 5).Draw(t, "kind")
			log("Join%d(%q, %s)", how, tb, describeItem(f))
			switch how {
			case 0:
				b.InnerJoin(tb, f)
			case 1:
				b.LeftJoin(tb, f)
			case 2:
				b.RightJoin(tb, f)
			case 3:
				b.FullJoin(tb, f)
			case 4:
				b.LeftJoinOptional(tb, f)
			case 5:
				b.CrossJoin(tb)
			}
		case 4, 5:
			var cols []*sqlb.Column
			for k, m := 0, rapid.IntRange(0, 3).Draw(t, "cols"); k < m; k++ {
				cols = append(cols, col())
			}
			log("Select(%d)", len(cols))
			b.Select(cols...)
		case 6, 7:
			f := frag()
			log("Where(%s)", describeItem(f))
			b.Where(f)
		case 8:
			v := genOddValue(t)
			log("Where2(%T)", v)
			b.Where2(col(), rapid.SampledFrom([]string{"=", "", "#f1", "?", " IN "}).Draw(t, "op"), v)
		case 9:
			v := genOddValue(t)
			log("WhereIn(%T)", v)
			b.WhereIn(col(), v)
		case 10:
			v := genOddValue(t)
			log("WhereNotIn(%T)", v)
			b.WhereNotIn(col(), v)
		case 11:
			log("GroupBy")
			b.GroupBy(col(), col())
		case 12, 13:
			log("OrderBy")
			b.OrderBy(col(), sqlb.Order(rapid.SampledFrom([]uint{0, 1, 5, 6, 1 << 62}).Draw(t, "order")))
		case 14:
			log("Distinct")
			b.Distinct()
		case 15:
			n := rapid.Int64().Draw(t, "limit")
			log("Limit(%d)", n)
			b.Limit(n).Offset(-n)
		case 16, 17:
			name := rapid.SampledFrom([]string{"a", "b", "c", ""}).Draw(t, "cte")
			dep := rapid.SampledFrom([]string{"a", "b", "c", "x", ""}).Draw(t, "dep")
			it := item()
			log("With(%q, %s, %q)", name, describeItem(it), dep)
			b.With(sqlb.Table(name), it, sqlb.Table(dep))
		case 18:
			it := item()
			log("Union(%s)", describeItem(it))
			b.Union(it, item())
		case 19:
			log("Debug")
			b.Debug()
		}
	}
	return o
}

func TestC09_Builders(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		o := genOddBuilder(t, 2) // a panic fails the case
		desc := strings.Join(o.hist, "; ")
		ok := neverPanics(t, desc, o.b)
		note(len(o.hist) > 1, desc, cond(ok, "builder built"), cond(!ok, "builder failed"), cond(strings.Contains(desc, "Debug"), "with debug output"))
		if rapid.Bool().Draw(t, "again") {
			neverPanics(t, desc, o.b)
		}
		neverPanics(t, "as a fragment: "+desc, sqlf.Ff("(#f1)", o.b))
	})
}
