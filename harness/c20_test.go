package verifharness

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C20: counting wraps the very query and reports failures.

var subselectAlias = regexp.MustCompile(`^\s*((?i:AS)\s+)?[A-Za-z_"][A-Za-z0-9_"]*\s*;?\s*$`)

func checkCountStatement(log []fakeStatement, q string, args []any) error {
	if len(log) != 1 {
		return fmt.Errorf("%d statements", len(log))
	}
	st := log[0].query
	const head = "SELECT COUNT(1) FROM ("
	if !strings.HasPrefix(st, head+q+")") {
		return fmt.Errorf("statement %q doesn't count %q", st, q)
	}
	if rest := st[len(head)+len(q)+1:]; !subselectAlias.MatchString(rest) {
		return fmt.Errorf("statement %q goes on with %q", st, rest)
	}
	if !identicalLists(log[0].args, args) {
		return fmt.Errorf("args %s, want %s", showList(log[0].args), showList(args))
	}
	return nil
}

type wrapErr struct{ err error }

func (w *wrapErr) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapErr) Unwrap() error { return w.err }

func genCountQuery(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "query") {
	case 4, 5:
		// a query as it is written by people
		q := rapid.SampledFrom([]string{"SELECT id FROM users", "select * from users u", "SELECT DISTINCT a, b FROM t", "SELECT 1", "WITH c AS (SELECT 1) SELECT * FROM c", "SELECT COUNT(1) FROM t", "SELECT count(*) FROM (SELECT 1) AS list", "(SELECT 1)", "INSERT INTO t VALUES (1) RETURNING id", "VALUES (1), (2)"}).Draw(t, "select")
		sep := rapid.SampledFrom([]string{" ", "\n", "  ", "\n\t"}).Draw(t, "sep")
		for _, part := range [][]string{{"WHERE a = 1", "where x in (1, 2)", "WHERE a = ?", "WHERE a = $1"}, {"GROUP BY a", "group by a having count(1) > 1"}, {"UNION (SELECT 2)", "UNION ALL SELECT 3"},
			{"ORDER BY a", "order by a, b desc", "ORDER BY a NULLS LAST", "ORDER BY (SELECT 1)", "Order  By 1"}, {"LIMIT 3", "limit 3", "LIMIT 0", "LIMIT ALL"}, {"OFFSET 2", "offset 2"}, {"FOR UPDATE", ";", " ", "-- comment", "/* all */", " ; "}} {
			if rapid.IntRange(0, 2).Draw(t, "with") == 0 {
				q += sep + rapid.SampledFrom(part).Draw(t, "part")
			}
		}
		return q
	case 0:
		return genTemplate().Draw(t, "q")
	case 1:
		return genLiteral().Draw(t, "q")
	case 2:
		return rapid.SampledFrom([]string{"SELECT ?", "SELECT $1, $2", "SELECT $9", "SELECT ??", "SELECT #f1", "SELECT 100%d %s %v %", "SELECT '?' || ?", "SELECT $0", "SELECT ? $1", "SELECT '"}).Draw(t, "q")
	}
	return rapid.String().Draw(t, "q")
}

func TestC20_Count(t *testing.T) {
	check(t, 0.7, func(t *rapid.T) {
		q := genCountQuery(t)
		var args []any
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "args"); i < n; i++ {
			args = append(args, genCommitValue().Draw(t, "arg"))
		}
		// database/sql takes these apart itself
		for i, a := range args {
			if _, ok := a.(driver.Valuer); ok || a == nil {
				args[i] = "x"
			}
			if _, ok := a.(sql.NamedArg); ok {
				args[i] = "x"
			}
		}
		answer := fakeAnswer{cols: []string{"count"}}
		n := rapid.Int64().Draw(t, "n")
		if rapid.Bool().Draw(t, "small") {
			n = rapid.Int64Range(0, 20).Draw(t, "n")
		}
		wantErr, anyErr := error(nil), false
		what := rapid.SampledFrom([]string{"count", "count", "text", "bytes", "no row", "query fails", "row fails", "not a number", "NULL", "float", "wrapped failure", "overflow"}).Draw(t, "answer")
		switch what {
		case "count":
			answer.rows = [][]driver.Value{{n}}
		case "text":
			answer.rows = [][]driver.Value{{fmt.Sprint(n)}}
		case "bytes":
			answer.rows = [][]driver.Value{{[]byte(fmt.Sprint(n))}}
		case "no row":
			n = 0
		case "query fails":
			answer.queryErr, wantErr = errDriver, errDriver
		case "row fails":
			answer.nextErr, wantErr = errDriver, errDriver
			answer.rows = [][]driver.Value{{n}}
		case "wrapped failure":
			answer.queryErr, wantErr = &wrapErr{errDriver}, errDriver
		case "not a number":
			answer.rows, anyErr = [][]driver.Value{{rapid.SampledFrom([]string{"many", "", "1x", "1 2"}).Draw(t, "text")}}, true
		case "NULL":
			answer.rows, anyErr = [][]driver.Value{{nil}}, true
		case "float":
			answer.rows, anyErr = [][]driver.Value{{1.5}}, true
		case "overflow":
			answer.rows, anyErr = [][]driver.Value{{"9223372036854775808"}}, true
		}
		key := fmt.Sprintf("%q %s answer %s", q, showList(args), what)
		note(true, key, "answer: "+what)
		fdb := &fakeDB{answer: answer}
		sdb := fdb.open()
		defer sdb.Close()
		var db util.QueryAble = sdb
		if rapid.Bool().Draw(t, "tx") {
			tx, err := sdb.Begin()
			if err != nil {
				t.Fatal(err)
			}
			defer tx.Rollback()
			db = tx
		}
		viaBuilder := rapid.Bool().Draw(t, "builder")
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		stub := &stubBuilder{q: q, args: args}
		var got int64
		var err error
		r, stack := noPanic(func() {
			if viaBuilder {
				got, err = util.CountBuilder(db, stub, style)
			} else {
				got, err = util.Count(db, q, args)
			}
		})
		if r != nil {
			t.Fatalf("%s: panic %v\n%s", key, r, stack)
		}
		if viaBuilder && (len(stub.styles) == 0 || stub.styles[0] != style) {
			t.Fatalf("%s: built in styles %v, want %v", key, stub.styles, style)
		}
		if e := checkCountStatement(fdb.statements(), q, args); e != nil {
			t.Fatalf("%s: %v", key, e)
		}
		switch {
		case wantErr != nil || anyErr:
			if err == nil {
				t.Fatalf("%s: no error, counted %d", key, got)
			}
			if wantErr != nil && !errors.Is(err, wantErr) {
				t.Fatalf("%s: error is not that of the database: %v", key, err)
			}
		default:
			if err != nil || got != n {
				t.Fatalf("%s: counted %d (%v), want %d", key, got, err, n)
			}
		}
	})
}

func TestC20_Builders(t *testing.T) {
	check(t, 0.4, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		fail := rapid.IntRange(0, 2).Draw(t, "fail") == 0
		v, w := genArg().Draw(t, "v"), genArg().Draw(t, "w")
		var b sqlf.QueryBuilder
		tbl := sqlb.NewTableAliased("users", "u")
		kind := rapid.IntRange(0, 4).Draw(t, "kind")
		switch kind {
		case 4:
			qb := sqlb.NewQueryBuilder().Select(tbl.Column("id")).From(tbl)
			for _, clause := range []func(){
				func() { qb.Distinct() }, func() { qb.Where(sqlf.F("u.a = 1")) }, func() { qb.GroupBy(tbl.Column("g")) }, func() { qb.OrderBy(tbl.Column("o"), sqlb.Desc) },
				func() { qb.Limit(10) }, func() { qb.Offset(20) }, func() { qb.Union(sqlf.F("SELECT 2")) }, func() { qb.With("w", sqlf.F("SELECT 3")) }} {
				if rapid.Bool().Draw(t, "with") {
					clause()
				}
			}
			if fail {
				qb.OrderBy(tbl.Column("c"), sqlb.Order(99))
			}
			b = qb
		case 0:
			b = sqlf.Fa("SELECT $1, $2, $1", v, w)
			if fail {
				b = sqlf.Fa("SELECT $1, $3", v, w)
			}
		case 1:
			qb := sqlb.NewQueryBuilder().Select(tbl.Columns("id", "x")...).From(tbl).Where2(tbl.Column("a"), "=", v).WhereIn(tbl.Column("b"), []any{w, v})
			if fail {
				qb.OrderBy(tbl.Column("c"), sqlb.Order(99))
			}
			b = qb
		case 2:
			qb := sqlb.NewQueryBuilder().Select(tbl.Column("id")).From(tbl).With("c", sqlf.Fa("SELECT ?", w)).LeftJoin(sqlb.NewTableAliased("c", ""), sqlf.Fa("x = ?", v)).OrderBy(tbl.Column("y"), sqlb.Desc).Limit(3)
			if fail {
				qb.Select(sqlb.ExprColumn(sqlf.F("#f1")))
			}
			b = qb
		case 3:
			stub := &stubBuilder{q: "SELECT 1", args: []any{v}}
			if fail {
				stub.err = errSentinel
			}
			b = stub
		}
		q, args, err := b.BuildQuery(style)
		if fail != (err != nil) {
			t.Fatalf("building: %v", err)
		}
		n := rapid.Int64Range(0, 1000).Draw(t, "n")
		fdb := &fakeDB{answer: fakeAnswer{cols: []string{"c"}, rows: [][]driver.Value{{n}}}}
		sdb := fdb.open()
		defer sdb.Close()
		note(true, fmt.Sprintf("%q %s %s fail=%v", q, showList(args), styleName(style), fail), cond(fail, "build fails"), "real builders")
		got, err := util.CountBuilder(sdb, b, style)
		if fail {
			if err == nil || len(fdb.statements()) > 0 {
				t.Fatalf("building fails, but count is %d (%v), statements %v", got, err, fdb.statements())
			}
			return
		}
		if err != nil || got != n {
			t.Fatalf("count of %q is %d (%v), want %d", q, got, err, n)
		}
		if e := checkCountStatement(fdb.statements(), q, args); e != nil {
			t.Fatal(e)
		}
	})
}
