package verifharness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C26: run on a database, a built query returns what its declaration means.

// SQLite knows no parentheses around the members of a union.
func forEngine(s string) string {
	return strings.NewReplacer("UNION (", "UNION SELECT * FROM (", "UNION ALL (", "UNION ALL SELECT * FROM (").Replace(s)
}

// engineDB is the engine as a database/sql driver.
type engineDB struct {
	setup []string
	named bool
	sent  int
}

func (d *engineDB) Connect(context.Context) (driver.Conn, error) { return engineConn{d}, nil }
func (d *engineDB) Driver() driver.Driver                        { return fakeDriver{} }

type engineConn struct{ d *engineDB }

func (c engineConn) Prepare(q string) (driver.Stmt, error)       { return nil, errors.New("not used") }
func (c engineConn) Close() error                                { return nil }
func (c engineConn) Begin() (driver.Tx, error)                   { return fakeTx{}, nil }
func (c engineConn) CheckNamedValue(nv *driver.NamedValue) error { return nil }
func (c engineConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.d.sent++
	var vals []any
	for _, a := range args {
		vals = append(vals, a.Value)
	}
	r := sqlEngine().run(c.d.setup, engineQuery{SQL: forEngine(q), Args: vals, Named: c.d.named})[0]
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return &engineRows{r: r}, nil
}

type engineRows struct {
	r  engineResult
	at int
}

func (r *engineRows) Columns() []string { return make([]string, r.r.Cols) }
func (r *engineRows) Close() error      { return nil }
func (r *engineRows) Next(dest []driver.Value) error {
	if r.at >= len(r.r.Rows) {
		return io.EOF
	}
	for i, v := range r.r.Rows[r.at] {
		dest[i] = v
	}
	r.at++
	return nil
}

func showRows(rows []rrow) string {
	var out []string
	for _, r := range rows {
		out = append(out, fmt.Sprint(r.vals))
	}
	return strings.Join(out, " ")
}

func rqClasses(q *rquery, w *relWorld, rows []rrow) []string {
	in := 0
	for _, r := range w.tables {
		in += len(r)
	}
	opt := false
	for _, j := range q.joins {
		opt = opt || j.optional
	}
	return []string{bucket("joins", len(q.joins)), cond(len(rows) > 0, "has rows"), cond(len(rows) == 0 && in > 0, "no rows"), cond(q.distinct, "distinct"), cond(len(q.group) > 0, "grouped"),
		cond(len(q.orders) > 0, "ordered"), cond(q.limit > 0, "limited"), cond(len(q.ctes) > 0, "ctes"), cond(len(q.unions) > 0, "unions"), cond(opt && q.distinct, "optional joins under distinct")}
}

func TestC26_Meaning(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		w := genWorld(t)
		q := genRQuery(t, ropts{depth: 2, joins: 3, optional: rapid.IntRange(0, 2).Draw(t, "optional") == 0, distinct: 4}, []string{"ta", "tb", "tc"})
		want, ok := q.result(w)
		if !ok {
			return
		}
		key := q.String() + "\non " + w.String()
		note(len(want) > 0 && (len(q.joins) > 0 || len(q.conds) > 0), key, rqClasses(q, w, want)...)
		b := q.builder()
		var queries []engineQuery
		var what []string
		add := func(name, s string, args []any, err error, named bool) {
			if err != nil {
				t.Fatalf("%s\n%s: %v", key, name, err)
			}
			what = append(what, fmt.Sprintf("%s, %q %s", name, s, showList(args)))
			queries = append(queries, engineQuery{SQL: forEngine(s), Args: args, Named: named})
		}
		v1, v2 := any(rapid.SampledFrom(relStrings).Draw(t, "v1")), genInt(t)
		around := func() *sqlf.Fragment {
			return sqlf.F("SELECT z.*, ? AS p FROM (#f1) AS z WHERE ? = ?").WithArgs(v1, v2, v2).WithFragments(b)
		}
		for _, style := range bothStyles {
			name := styleName(style)
			s, args, err := b.BuildQuery(style)
			add(name, s, args, err, style == syntax.Dollar)
			i, err := util.Interpolate(s, args)
			add(name+" interpolated", i, nil, err, false)
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		s, args, err := around().BuildQuery(style)
		add("in a fragment", s, args, err, style == syntax.Dollar)
		for i, r := range sqlEngine().run(w.setup(), queries...) {
			if r.Err != "" {
				t.Fatalf("%s\n%s\nfails: %s", key, what[i], r.Err)
			}
			rows, qq := want, q
			if i == len(queries)-1 {
				rows, qq = nil, &rquery{}
				for _, row := range want {
					rows = append(rows, rrow{vals: append(append([]any(nil), row.vals...), v1)})
				}
			}
			if err := qq.matches(rows, r.Rows, -1); err != nil {
				t.Fatalf("%s\n%s\nreturns %v\nwant %s\n%v", key, what[i], r.Rows, showRows(rows), err)
			}
		}
		// through database/sql
		d := &engineDB{setup: w.setup(), named: style == syntax.Dollar}
		db := sql.OpenDB(d)
		defer db.Close()
		got, err := util.ScanBuilder(db, sqlf.QueryBuilder(b), style, func() ([]any, []any) {
			row := make([]any, len(q.sel))
			dest := make([]any, len(row))
			for i := range row {
				dest[i] = &row[i]
			}
			return row, dest
		})
		if err != nil {
			t.Fatalf("%s\nscanning: %v", key, err)
		}
		if err := q.matches(want, got, len(q.sel)); err != nil {
			t.Fatalf("%s\nscanned %v\nwant %s\n%v", key, got, showRows(want), err)
		}
		n, err := util.CountBuilder(db, b, style)
		if err != nil || n != int64(len(want)) {
			t.Fatalf("%s\ncounted %d (%v), want %d", key, n, err, len(want))
		}
	})
}

// C27: leaving out optional joins never changes what a query returns.

func TestC27_SameRows(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		w := genWorld(t)
		q := genRQuery(t, ropts{depth: 1, joins: rapid.SampledFrom([]int{1, 3, 5}).Draw(t, "max"), optional: true, distinct: 8}, []string{"ta", "tb", "tc"})
		plain := *q
		plain.joins = nil
		optional := 0
		for _, j := range q.joins {
			p := *j
			if j.optional {
				optional++
			}
			p.optional = false
			plain.joins = append(plain.joins, &p)
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		key := q.String() + "\non " + w.String()
		want, ok := q.result(w)
		if !ok {
			return
		}
		var queries []engineQuery
		for _, q := range []*rquery{q, &plain} {
			s, args, err := q.builder().BuildQuery(style)
			if err != nil {
				t.Fatalf("%s\n%v", key, err)
			}
			queries = append(queries, engineQuery{SQL: forEngine(s), Args: args, Named: style == syntax.Dollar})
		}
		out := sqlEngine().run(w.setup(), queries...)
		left := strings.Count(queries[1].SQL, " JOIN ") - strings.Count(queries[0].SQL, " JOIN ")
		note(left > 0 && len(out[0].Rows) > 0, key, append(rqClasses(q, w, want), bucket("joins left out", left))...)
		for i, r := range out {
			if r.Err != "" {
				t.Fatalf("%s\n%q\nfails: %s", key, queries[i].SQL, r.Err)
			}
		}
		// the rows of the plain query, with the orders they are sorted by behind the columns
		var rows []rrow
		for _, r := range out[1].Rows {
			row := rrow{vals: r}
			if len(q.orders) > 0 {
				row.keys = r[len(q.sel):]
			}
			rows = append(rows, row)
		}
		if !q.distinct && len(q.orders) > 0 {
			// what they are sorted by isn't returned
		} else if err := q.matches(rows, out[0].Rows, -1); err != nil {
			t.Fatalf("%s\n%q returns %v\n%q returns %v\n%v", key, queries[0].SQL, out[0].Rows, queries[1].SQL, out[1].Rows, err)
		}
		if err := q.matches(want, out[0].Rows, -1); err != nil {
			t.Fatalf("%s\n%q returns %v\nwant %s\n%v", key, queries[0].SQL, out[0].Rows, showRows(want), err)
		}
	})
}
