package verifharness

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

// The inputs that failed before the fix: commits in the repository, as a fixed part of
// the checks of their properties.

func quest(t *testing.T, b sqlf.QueryBuilder, want string, args ...any) {
	t.Helper()
	builds(t, b, syntax.Question, want, args...)
}

func builds(t *testing.T, b sqlf.QueryBuilder, style syntax.BindVarStyle, want string, args ...any) {
	t.Helper()
	note(true, want, "fixed defect")
	s, got, err := b.BuildQuery(style)
	if err != nil || s != want || !identicalLists(got, args) {
		t.Errorf("built %q %v (%v), want %q %v", s, got, err, want, args)
	}
}

func fails(t *testing.T, what string, b sqlf.QueryBuilder) {
	t.Helper()
	note(true, what, "fixed defect")
	for i := 0; i < 2; i++ {
		for _, style := range bothStyles {
			s, args, err := b.BuildQuery(style)
			if err == nil || s != "" || len(args) != 0 {
				t.Errorf("%s: built %q %v (%v), want an error", what, s, args, err)
			}
		}
	}
}

var (
	rFoo = sqlb.NewTableAliased("foo", "f")
	rBar = sqlb.NewTableAliased("bar", "b")
	rBaz = sqlb.NewTableAliased("baz", "")
)

func rq() *sqlb.QueryBuilder { return sqlb.NewQueryBuilder().From(rFoo).Select(rFoo.Column("id")) }

func TestC02_Fixed(t *testing.T) {
	quest(t, sqlf.Fa("#join('?=#arg', ',')", 1), "?=?", 1, 1)
}

func TestC03_Fixed(t *testing.T) {
	fails(t, "a missing item inside of a joined fragment", sqlf.Ff("#join('#f', ',')", sqlf.F("a"), sqlf.F("#arg1"), sqlf.F("c")))
	fails(t, "a missing fragment in a #join template", sqlf.Ff("#join('#f#f9', ',')", sqlf.F("a"), sqlf.F("b")))
	fails(t, "more fragments than args", sqlf.Ff("#join('#fragment=#arg', ',')", sqlf.F("a"), sqlf.F("b")).WithArgs(1))
}

func TestC04_Fixed(t *testing.T) {
	quest(t, sqlf.Fa("#join('?=#arg', ',')", 1), "?=?", 1, 1)
	builds(t, sqlf.Ff("#join('#f#arg', ',')", sqlf.F("a"), sqlf.F("b")).WithArgs(1, 2), syntax.Dollar, "a$1,b$2", 1, 2)
	fails(t, "a list that ends in a missing item", sqlf.Ff("#join('#f', ',')", sqlf.F("a"), sqlf.F("#f3")))
	fails(t, "a fragment without counterpart", sqlf.Ff("#join('#fragment=#arg', ',')", sqlf.F("a"), sqlf.F("b")).WithArgs(1))
}

func TestC05_Fixed(t *testing.T) {
	for _, s := range []string{"$1, ?", "?, $1", "$1?"} {
		note(true, s, "fixed defect")
		if _, err := syntax.Parse(s); err == nil {
			t.Errorf("%q parsed", s)
		}
	}
	note(true, "NUL, function values", "fixed defect")
	c, err := syntax.Parse("a\x00b#f#g?c")
	if err != nil {
		t.Fatal(err)
	}
	var got []string
	for _, e := range c.ExprList {
		got = append(got, fmt.Sprintf("%T", e))
	}
	if s := strings.Join(got, " "); s != "*syntax.PlainExpr *syntax.FuncExpr *syntax.FuncExpr *syntax.BindVarExpr *syntax.PlainExpr" {
		t.Errorf("parsed as %s", s)
	}
}

func TestC06_Fixed(t *testing.T) {
	quest(t, sqlf.F("a\x00b'c\x00'"), "a\x00b'c\x00'")
}

func TestC07_Fixed(t *testing.T) {
	fails(t, "number for a string", sqlf.F("#join(1, ',')"))
	for _, name := range []string{"é", "fñ", "函数"} {
		note(true, name, "fixed defect")
		if _, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{name: func() string { return "" }}); err == nil {
			t.Errorf("function %s accepted", name)
		}
	}
	note(true, "named types", "fixed defect")
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"f_n": func(s namedString, b namedBool) string { return fmt.Sprint(s, b) }})
	if err != nil {
		t.Fatal(err)
	}
	if s, err := sqlf.F("#f_n('a', true)").BuildFragment(ctx); s != "a true" && s != "atrue" {
		t.Errorf("built %q (%v)", s, err)
	}
}

func TestC09_Fixed(t *testing.T) {
	for name, b := range map[string]sqlf.QueryBuilder{
		"no table":            sqlb.NewQueryBuilder(),
		"no table, selecting": sqlb.NewQueryBuilder().Select(sqlb.ExprColumn(sqlf.F("1"))),
		"nil fragment":        rq().Where(sqlf.Ff("#f1", (*sqlf.Fragment)(nil))).Where(sqlf.Ff("#f1", nil)),
		"nil condition":       rq().InnerJoin(rBar, nil).LeftJoinOptional(rBaz, nil),
		"cross join":          rq().CrossJoin(rBar),
		"nil CTE":             rq().With("foo", nil),
		"nil union":           rq().Union(nil),
		"nil column":          rq().OrderBy(nil, sqlb.Asc).GroupBy(nil).Where2(nil, "=", 1).Select(nil, nil),
		"column of nil":       rq().GroupBy(sqlb.ExprColumn(nil)),
		"bytes":               sqlf.Fa("? ?", []byte("x"), map[string]int{}),
		"number for a string": sqlf.F("#join(1, ',')"),
	} {
		note(true, name, "fixed defect")
		for _, style := range bothStyles {
			if r, stack := noPanic(func() { b.BuildQuery(style) }); r != nil {
				t.Errorf("%s: panic %v\n%s", name, r, stack)
			}
		}
	}
	note(true, "property of a nil fragment", "fixed defect")
	if r, stack := noPanic(func() {
		p := sqlf.NewFragmentProperties(nil, sqlf.F("x"))
		ctx := sqlf.NewContext(syntax.Question)
		p.Build(ctx, 1)
		p[0].BuildFragment(ctx)
	}); r != nil {
		t.Errorf("property of a nil fragment: panic %v\n%s", r, stack)
	}
	for name, b := range map[string]sqlf.FragmentBuilder{"fragment": sqlf.F("x"), "fragment with an arg": sqlf.Fa("?", 1), "builder": rq(), "column": rFoo.Column("a"), "nil column": (*sqlb.Column)(nil), "nil fragment": (*sqlf.Fragment)(nil)} {
		note(true, name+" without context", "no context")
		if r, stack := noPanic(func() { b.BuildFragment(nil) }); r != nil {
			t.Errorf("%s without context: panic %v\n%s", name, r, stack)
		}
	}
	fails(t, "nil CTE", rq().With("foo", nil))
	fails(t, "nil union", rq().Union(nil))
}

func TestC10_Fixed(t *testing.T) {
	on := sqlf.F("1=1")
	q := rq().InnerJoin(rBar, on).Distinct().OrderBy(rBar.Column("x"), sqlb.Desc)
	first, _, err := q.BuildQuery(syntax.Dollar)
	if err != nil {
		t.Fatal(err)
	}
	builds(t, q, syntax.Dollar, first)
	quest(t, q, first)
	quest(t, on, "1=1")
}

func TestC11_Fixed(t *testing.T) {
	b := []byte("x")
	builds(t, sqlf.Fa("$1 $2 $1 $3", b, 1, b), syntax.Dollar, "$1 $2 $3 $4", b, 1, b, b)
}

func TestC12_Fixed(t *testing.T) {
	quest(t, rq().CrossJoin(rBar).InnerJoin(rBaz, nil), "SELECT f.id FROM foo AS f CROSS JOIN bar AS b INNER JOIN baz")
	quest(t, rq().Union(sqlf.F(""), sqlf.F(" ")), "SELECT f.id FROM foo AS f")
}

func TestC13_Fixed(t *testing.T) {
	q := rq().Select(sqlb.ExprColumn(sqlf.Fa("a+?", 1))).InnerJoin(rBar, sqlf.Fa("b=?", 2)).Where(sqlf.Fa("c=?", 3)).GroupBy(sqlb.ExprColumn(sqlf.Fa("d+?", 4))).OrderBy(sqlb.ExprColumn(sqlf.Fa("e+?", 5)), sqlb.Asc)
	quest(t, q, "SELECT a+? FROM foo AS f INNER JOIN bar AS b ON b=? WHERE c=? GROUP BY d+? ORDER BY e+? ASC", 1, 2, 3, 4, 5)
}

func TestC14_Fixed(t *testing.T) {
	q := rq().Distinct().LeftJoinOptional(rBar, sqlf.F("1=1")).InnerJoin(rBaz, sqlf.Ff("#f1=1", rBar.Column("id")))
	quest(t, q, "SELECT DISTINCT f.id FROM foo AS f LEFT JOIN bar AS b ON 1=1 INNER JOIN baz ON b.id=1")
	q = sqlb.NewQueryBuilder().With("c", sqlf.F("SELECT 1"), "d").With("d", sqlf.F("SELECT 2")).From(sqlb.NewTableAliased("c", "x")).
		LeftJoinOptional(sqlb.NewTableAliased("d", ""), sqlf.F("1=1")).Distinct().Select(sqlb.Table("x").Column("id"))
	quest(t, q, "With c AS (SELECT 1), d AS (SELECT 2) SELECT DISTINCT x.id FROM c AS x")
}

func TestC15_Fixed(t *testing.T) {
	q := sqlb.NewQueryBuilder().With("d", sqlf.F("SELECT 2")).With("c", sqlf.F("SELECT 1"), "d").From(sqlb.NewTableAliased("c", "")).Select(sqlb.Table("c").Column("id"))
	quest(t, q, "With d AS (SELECT 2), c AS (SELECT 1) SELECT c.id FROM c")
}

func TestC16_Fixed(t *testing.T) {
	q := sqlb.NewQueryBuilder().From(rFoo).From(rBar).InnerJoin(rFoo, sqlf.F("1=1")).Select(rBar.Column("id"))
	quest(t, q, "SELECT b.id FROM bar AS b INNER JOIN foo AS f ON 1=1")
}

func TestC17_Fixed(t *testing.T) {
	fails(t, "no from table", sqlb.NewQueryBuilder().InnerJoin(rBar, sqlf.F("1=1")).Select(rBar.Column("id")))
	fails(t, "joining the name of the from table", rq().LeftJoin(sqlb.NewTableAliased("other", "f"), sqlf.F("1=1")))
	fails(t, "from a joined name", sqlb.NewQueryBuilder().LeftJoin(sqlb.NewTableAliased("other", "f"), sqlf.F("1=1")).From(rFoo).Select(rFoo.Column("id")))
	fails(t, "invalid order", rq().OrderBy(rFoo.Column("id"), 6))
}

func TestC18_Fixed(t *testing.T) {
	for _, c := range []struct {
		q    string
		arg  any
		want string
	}{
		{"?", (*time.Time)(nil), "NULL"},
		{"?", (*valuerPtr)(nil), ""},
		{"?", (*stringerPtr)(nil), "NULL"},
		{"?", (*valuerVal)(nil), "NULL"},
		{"?", 0.0000001, "0.0000001"},
		{"?", float32(0.1), "0.1"},
		{"$1", 1234567.12345678, "1234567.12345678"},
		{"5-?", -3, "5- -3"},
		{"5-$1", -0.5, "5- -0.5"},
	} {
		note(true, fmt.Sprintf("%s %T %v", c.q, c.arg, c.want), "fixed defect")
		r, stack := noPanic(func() {
			s, err := util.Interpolate(c.q, []any{c.arg})
			if c.want != "" && (err != nil || s != c.want) {
				t.Errorf("%s: %q (%v), want %q", show(c.arg), s, err, c.want)
			}
		})
		if r != nil && c.want != "" { // a method called on nil may panic
			t.Errorf("%s: panic %v\n%s", show(c.arg), r, stack)
		}
	}
	day := time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)
	note(true, "a time format with quotes", "fixed defect")
	if s, err := util.Interpolate("?", []any{day}, util.WithTimeFormat("02 Jan '06")); err != nil || s != "'06 May ''24'" {
		t.Errorf("time with a quote interpolated to %q (%v)", s, err)
	}
	for _, q := range []string{"?", "a ? ?", "$1", "$2"} {
		note(true, q, "fixed defect")
		var args []any
		if q != "?" && q != "$1" {
			args = []any{1}
		}
		if s, err := util.Interpolate(q, args); err == nil {
			t.Errorf("%q interpolated to %q", q, s)
		}
	}
}

func TestC19_Fixed(t *testing.T) {
	note(true, "rows that end in an error", "fixed defect")
	boom := errors.New("boom")
	d := &fakeDB{answer: fakeAnswer{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}, {int64(2)}}, nextErr: boom, nextAt: 1}}
	db := d.open()
	defer db.Close()
	got, err := util.Scan(db, "q", nil, func() (int64, []any) { var v int64; return v, []any{&v} })
	if !errors.Is(err, boom) {
		t.Errorf("scanned %v (%v)", got, err)
	}
	note(true, "fields with spare capacity", "fixed defect")
	d.answer = fakeAnswer{cols: []string{"a", "b"}, rows: [][]driver.Value{{int64(1), int64(2)}}}
	rows, err := db.Query("q")
	if err != nil {
		t.Fatal(err)
	}
	defer rows.Close()
	rows.Next()
	var v int64
	all := []any{&v, "mine"}
	if err := util.ScanRow(rows, all[:1]...); err != nil || v != 1 || all[1] != "mine" {
		t.Errorf("scanned %v, %v behind it (%v)", v, all[1], err)
	}
	// closed rows
	if rows, err := db.Query("q"); err == nil {
		rows.Close()
		var v any
		r, stack := noPanic(func() { err = util.ScanRow(rows, &v) })
		if r != nil || err == nil {
			t.Errorf("a row of closed rows: %v, panic %v %s", err, r, stack)
		}
	}
}

func TestC20_Fixed(t *testing.T) {
	note(true, "a query with missing args", "fixed defect")
	d := &fakeDB{answer: fakeAnswer{queryErr: errors.New("boom")}}
	db := d.open()
	defer db.Close()
	if r, stack := noPanic(func() {
		if n, err := util.Count(db, "SELECT ?", nil); err == nil {
			t.Errorf("counted %d", n)
		}
	}); r != nil {
		t.Errorf("panic %v\n%s", r, stack)
	}
}

func TestC21_Fixed(t *testing.T) {
	note(true, "nil pointers to slices", "fixed defect")
	var p *[]int
	if r, stack := noPanic(func() {
		if got := util.ArgsFlatted(p, 1); len(got) != 2 || got[0] != any(p) || got[1] != 1 {
			t.Errorf("flattened to %v", got)
		}
	}); r != nil {
		t.Errorf("panic %v\n%s", r, stack)
	}
}

func TestC23_Fixed(t *testing.T) {
	q := rq().Distinct().OrderBy(rFoo.Column("x"), sqlb.Desc)
	for i := 0; i < 3; i++ {
		s, _, err := q.BuildQuery(syntax.Question)
		note(true, "distinct query built again", "fixed defect")
		if err != nil || strings.Count(s, "f.x") != 1 {
			t.Errorf("built %q (%v)", s, err)
		}
	}
}

func TestC25_Fixed(t *testing.T) {
	note(true, "shared lists", "fixed defect")
	args := make([]any, 1, 4)
	args[0] = 1
	a, b := sqlf.F("?, ?").WithArgs(args...), sqlf.F("?, ?").WithArgs(args...)
	a.AppendArgs(2)
	b.AppendArgs(3)
	quest(t, a, "?, ?", 1, 2)
	quest(t, b, "?, ?", 1, 3)
}
