package verifharness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C29: the error of a failed build matches what it failed of.

type causeError struct{ id int }

func (e *causeError) Error() string {
	if e.id%4 == 0 {
		return fmt.Sprintf("cause %d\nof several\n\nlines", e.id)
	}
	return fmt.Sprintf("cause %d, 'quoted' ? $1 #f1 %%s", e.id)
}

// silentError says nothing.
type silentError struct{ error }

func (silentError) Error() string   { return "" }
func (e silentError) Unwrap() error { return e.error }

// failsWith is an item that fails, by an error or by a panic.
type failsWith struct {
	err    error
	panics bool
	text   string
}

func (f failsWith) BuildFragment(*sqlf.Context) (string, error) {
	if f.panics {
		panic(f.err)
	}
	return f.text, f.err
}

// passesOn is an item that builds another one.
type passesOn struct {
	in   sqlf.FragmentBuilder
	wrap bool
}

func (p passesOn) BuildFragment(ctx *sqlf.Context) (string, error) {
	s, err := p.in.BuildFragment(ctx)
	if err != nil && p.wrap {
		return "", fmt.Errorf("passed on: %w", err)
	}
	return s, err
}

// causeLayer puts in into something larger that builds it.
func causeLayer(t *rapid.T, in sqlf.FragmentBuilder) (sqlf.FragmentBuilder, string) {
	layers := []string{"#f", "#fragment()", "#join", "#join range", "#join of #f=#arg", "#join at the end", "passed on", "column", "expr column", "select", "where", "on", "group", "order", "#join of three", "cte", "cte dependency", "union", "from's cte", "optional on"}
	how := rapid.SampledFrom(layers).Draw(t, "layer")
	ok := func() sqlf.FragmentBuilder { return sqlf.F("ok") }
	frag := func() *sqlf.Fragment { return sqlf.Ff("(#f1)", in) }
	tb := sqlb.NewTableAliased("outer_t", "ot")
	q := sqlb.NewQueryBuilder().From(tb).Select(tb.Column("id"))
	switch how {
	case "#f":
		return sqlf.Ff("a #f1 b", in), how
	case "#fragment()":
		return sqlf.Ff("a #f2 #fragment(1) b", in, ok()).WithPrefix("(").WithSuffix(")"), how
	case "#join":
		items := []sqlf.FragmentBuilder{ok(), ok(), ok()}
		at := rapid.IntRange(0, 2).Draw(t, "at")
		items[at] = in
		return sqlf.Ff("#join('#f', ', ')", items...), how
	case "#join range":
		items := []sqlf.FragmentBuilder{ok(), ok(), ok()}
		at := rapid.IntRange(0, 2).Draw(t, "at")
		items[at] = in
		return sqlf.Ff("#f1#f2 #join('<#fragment>', ', ', 2, 3)", items...), how
	case "#join of #f=#arg":
		return sqlf.Ff("#join('#f=#arg', ', ')", ok(), in).WithArgs(1, 2), how
	case "#join at the end":
		// the item is the last there is
		return sqlf.Ff("#join('#f=#arg', ', ', 2)", ok(), ok(), in).WithArgs(0, 1, 2).WithPrefix("#f"), how + ", first arg"
	case "#join of three":
		items := []sqlf.FragmentBuilder{ok(), ok(), ok(), ok(), ok()}
		at := rapid.IntRange(0, 4).Draw(t, "at")
		items[at] = in
		return sqlf.Ff(rapid.SampledFrom([]string{"#join('#f', ', ', 1, 5)", "#join('#f', ', ', 1)", "#f1 #join('#f', '', 2, 4) #f5"}).Draw(t, "tmpl"), items...), how
	case "passed on":
		return passesOn{in, rapid.Bool().Draw(t, "wrap")}, how
	case "column":
		return sqlb.ExprColumn(frag()), how
	case "expr column":
		return sqlf.Ff("#f1 AS x", sqlb.ExprColumn(frag())), how
	case "select":
		return q.Select(tb.Column("id"), sqlb.ExprColumn(frag())), how
	case "where":
		return q.Where(sqlf.Fa("a=?", 1)).Where(frag()), how
	case "on":
		return q.LeftJoin(sqlb.NewTableAliased("u", "u1"), frag()), how
	case "optional on":
		ju := sqlb.NewTableAliased("u", "u1")
		q.Distinct().LeftJoinOptional(ju, frag()).Select(ju.Column("x"))
		return q, how
	case "group":
		return q.GroupBy(tb.Column("id"), sqlb.ExprColumn(frag())), how
	case "order":
		if rapid.Bool().Draw(t, "distinct") {
			q.Distinct()
		}
		return q.OrderBy(sqlb.ExprColumn(frag()), sqlb.DescNullsLast), how
	case "cte":
		return q.InnerJoin(sqlb.NewTableAliased("c", "c1"), nil).With("c", in), how
	case "cte dependency":
		return q.With("d", in).With("outer_t", sqlf.F("SELECT 1"), "d"), how
	case "from's cte":
		return q.With("other", sqlf.F("SELECT 2")).With("outer_t", sqlf.Ff("#f1", in)), how
	default:
		return q.Union(sqlf.F("SELECT 1"), in), how
	}
}

func TestC29_Cause(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		cause := error(&causeError{rapid.IntRange(0, 99).Draw(t, "id")})
		given := cause
		if rapid.Bool().Draw(t, "wrapped") {
			given = fmt.Errorf(rapid.SampledFrom([]string{"wrapped: %w", "%w", "first\nsecond: %w", "%w: behind", ""}).Draw(t, "text"), cause)
			if !errors.Is(given, cause) {
				given = silentError{cause}
			}
		}
		ctxFuncs := sqlf.FuncMap{
			"fails":  func() (string, error) { return "partial", given },
			"failsn": func(i int) (string, error) { return "", given },
			"panics": func() { panic(given) },
			"item": func(i int) (string, error) {
				if i == 0 {
					return "", sqlf.ErrInvalidIndex
				}
				if i < 3 {
					return "ok", nil
				}
				return "", given
			},
		}
		var b sqlf.FragmentBuilder
		index := false // it's about an index that doesn't exist
		other := false // it's about something else
		what := rapid.SampledFrom([]string{"item", "item with text", "panicking item", "function", "function of index", "panicking function", "joined function", "#f", "#arg", "#fragment(n)", "#join range of #f", "#join range of #arg", "#join from", "shared list", "other", "other", "other", "other"}).Draw(t, "what")
		n := rapid.SampledFrom([]int{2, 3, 10, 1000000}).Draw(t, "n")
		one := sqlf.F("one")
		switch what {
		case "item":
			b = failsWith{err: given}
		case "item with text":
			b = failsWith{err: given, text: "SELECT 1"}
		case "panicking item":
			b = sqlf.Ff("#f1", failsWith{err: given, panics: true})
		case "function":
			b = sqlf.F("a #fails() b")
		case "function of index":
			b = sqlf.F("a #failsn7 b")
		case "panicking function":
			b = sqlf.F("#panics()")
		case "joined function":
			b = sqlf.F(rapid.SampledFrom([]string{"#join('#item', ',')", "#join('#item', ',', 2)", "#join('#item', ',', 1, 4)", "#join('#item', ',', 1, 3)", "#join('#item', ',', 3, 3)"}).Draw(t, "tmpl"))
		case "#f":
			b, index = sqlf.Ff(fmt.Sprintf("#f1 #f%d", n), one), true
		case "#arg":
			b, index = sqlf.Fa(fmt.Sprintf("#arg1 #arg(%d)", n), 5), true
		case "#fragment(n)":
			b, index = sqlf.Ff(fmt.Sprintf("#f1 #fragment(%d)", n), one), true
		case "#join range of #f":
			b, index = sqlf.Ff(fmt.Sprintf("#join('#f', ',', 1, %d)", n), one), true
		case "#join range of #arg":
			b, index = sqlf.Fa(fmt.Sprintf("#join('#arg', ',', 1, %d)", n), 5), true
		case "#join from":
			b, index = sqlf.Fa("#arg1 #arg0", 5), true
		case "shared list":
			list := sqlf.NewArgsProperties(1, 2)
			ctxFuncs["shared"] = func(ctx *sqlf.Context, i int) (string, error) { return list.Build(ctx, i) }
			b, index = sqlf.F("#join('#shared', ',') #shared3"), true
		}
		if what == "other" {
			// failures of the template or of the builder that have nothing to do with indexes
			other = true
			if rapid.Bool().Draw(t, "of template") {
				raw := rapid.SampledFrom([]string{"#nope()", "#nope1", "#nope(1, 'a')", "#join('#nope', ',')", "#join('#f #nope', ',')", "#f(", "#f(1", "#f('1')", "#f(1, 2)", "#f(true)", "#f()", "#arg()", "#arg('x')", "#f(nil)", "? $1", "$1 ?", "#join('? $1 #f', ',')",
					"# 1", "#", "$0", "$", "#join()", "#join('#f')", "#join(1, ',')", "#join('#f', 1)", "#join('', ',')", "#join('x', ',')", "#join('#f(', ',')", "#join('#join', ',')", "#join('#f', ',', 'a')", "#join('#f', ',', 1, 2, 3)", "#f('abc", "#f(,)", "#f(1 2)", "unused arg", "unused fragment", "#noerr", "#join('#noerr', ',')", "#join('#nonumber', ',')"}).Draw(t, "raw")
				f := sqlf.F(raw)
				switch raw {
				case "unused arg":
					f.Args = []any{1}
				case "unused fragment":
					f.Fragments = []sqlf.FragmentBuilder{one}
				default:
					f.Raw = "#f1 #arg1 " + raw
					f.Args, f.Fragments = []any{1}, []sqlf.FragmentBuilder{one}
				}
				b, what = f, what+": "+raw
			} else {
				tb := sqlb.NewTableAliased("users", "u")
				q := sqlb.NewQueryBuilder().From(tb)
				id := tb.Column("id")
				how := rapid.SampledFrom([]string{"no columns", "no from", "empty table", "undeclared", "undeclared in on", "order", "join of empty table", "CTE of nothing", "union of nothing", "same name", "nil column"}).Draw(t, "how")
				if how != "no columns" {
					q.Select(id)
				}
				switch how {
				case "no from":
					q = sqlb.NewQueryBuilder().Select(id)
				case "empty table":
					q.From(sqlb.TableAliased{})
				case "undeclared":
					q.Where(sqlf.Ff("#f1=1", sqlb.Table("nope").Column("x")))
				case "undeclared in on":
					q.InnerJoin(sqlb.NewTableAliased("v", ""), sqlf.Ff("#f1=1", sqlb.Table("nope").Column("x")))
					q.Where(sqlf.Ff("#f1=1", sqlb.Table("v").Column("x")))
				case "order":
					q.OrderBy(id, sqlb.Order(rapid.SampledFrom([]int{9, 99, -3}).Draw(t, "order")))
				case "join of empty table":
					q.InnerJoin(sqlb.TableAliased{}, one)
				case "CTE of nothing":
					q.With("users", nil)
				case "union of nothing":
					q.Union(nil)
				case "same name":
					q.InnerJoin(sqlb.NewTableAliased("w", "u"), one)
				case "nil column":
					q.Select(id, nil)
				}
				b, what = q, what+": "+how
			}
			ctxFuncs["noerr"] = func(i int) string { return "x" }
			ctxFuncs["nonumber"] = func(s string) (string, error) { return s, nil }
		}
		if index {
			cause = sqlf.ErrInvalidIndex
		}
		layers := 0
		path := []string{what}
		for n := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 3, 5, 5, 11, 24}).Draw(t, "layers"); layers < n; layers++ {
			var how string
			b, how = causeLayer(t, b)
			path = append(path, how)
		}
		key := strings.Join(path, " in ")
		note(layers > 0, key, strings.SplitN(what, ":", 2)[0], bucket("layers", layers))
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		judge := func(how string, s string, err error) {
			switch {
			case err == nil:
				t.Fatalf("%s: %s: built %q", key, how, s)
			case other:
				if errors.Is(err, sqlf.ErrInvalidIndex) {
					t.Fatalf("%s: %s: the error %q is not about an index", key, how, err)
				}
				return
			case !errors.Is(err, cause):
				t.Fatalf("%s: %s: the error %q doesn't match the cause", key, how, err)
			case !index && errors.Is(err, sqlf.ErrInvalidIndex):
				t.Fatalf("%s: %s: the error %q is not about an index", key, how, err)
			}
			if e := (*causeError)(nil); !index && (!errors.As(err, &e) || e != cause) {
				t.Fatalf("%s: %s: the error %q has lost its cause", key, how, err)
			}
		}
		for i := 0; i < 2; i++ {
			ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), ctxFuncs)
			if err != nil {
				t.Fatalf("functions: %v", err)
			}
			s, err := sqlf.Ff("#f1", b).BuildFragment(ctx)
			judge("in a context", s, err)
		}
		if strings.Contains(what, "function") || what == "shared list" || strings.Contains(what, "#no") {
			return // needs a context
		}
		var qb sqlf.QueryBuilder
		switch v := b.(type) {
		case sqlf.QueryBuilder:
			qb = v
		default:
			qb = sqlf.Ff("#f1", b)
		}
		s, _, err := qb.BuildQuery(style)
		judge("BuildQuery", s, err)
		d := &fakeDB{}
		db := d.open()
		defer db.Close()
		_, err = util.CountBuilder(db, qb, style)
		judge("CountBuilder", "", err)
		_, err = util.ScanBuilder(db, qb, style, func() (int, []any) { return 0, nil })
		judge("ScanBuilder", "", err)
		if got := d.statements(); len(got) > 0 {
			t.Fatalf("%s: %v was sent to the database", key, got)
		}
	})
}
