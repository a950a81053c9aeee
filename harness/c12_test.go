package verifharness

import (
	"reflect"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C12: a query builder renders exactly its declared parts, in SQL order.

func TestC12_Render(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		o := bopts{maxJoins: 3, ctes: 2, cteNeeded: true, unions: true, nested: true, distinct: 3, orders: true, emptyParts: true, depth: 2, oddNames: rapid.Bool().Draw(t, "odd names")}
		if rapid.Bool().Draw(t, "distinct only") {
			o.orders, o.distinct = false, 10
		} else {
			o.distinct = 0
		}
		q := genBQ(t, o)
		// the style with placeholders that don't depend on what came before
		want, _ := render(q.toks(), syntax.Question)
		note(q.size() > 1, q.String(), q.classes()...)
		got, _, err := q.build(syntax.Question)
		if err != nil || got != want {
			t.Fatalf("%s\nbuilt %q (%v)\nwant  %q", q, got, err, want)
		}
		if len(q.emittedCTEs()) < len(q.ctes) {
			class("empty CTEs")
		}
	})
}

// One part of each kind or none, all combinations over time.
func TestC12_Presence(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		q := genBQ(t, bopts{maxJoins: 1, unions: true, orders: true, emptyParts: true, noValues: true, depth: 1, oddNames: true})
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		want, _ := render(q.toks(), style)
		note(q.size() > 0, q.String(), "presence")
		got, args, err := q.build(style)
		if err != nil || got != want || len(args) > 0 {
			t.Fatalf("%s\nbuilt %q %v (%v)\nwant  %q", q, got, args, err, want)
		}
	})
}

// Columns made in all the ways there are show the table by its applied name, and count as its.
func TestC12_Columns(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		name := rapid.SampledFrom([]string{"foo", "public.foo", `"a?b"`, "T", "é"}).Draw(t, "name")
		alias := rapid.SampledFrom([]string{"", "f", "foo", `"x$1"`}).Draw(t, "alias")
		tb := sqlb.NewTableAliased(sqlb.Table(name), sqlb.Table(alias))
		if rapid.Bool().Draw(t, "realias") {
			tb = sqlb.NewTableAliased(sqlb.Table(name), "other").WithAlias(sqlb.Table(alias))
		}
		applied := alias
		if alias == "" {
			applied = name
		}
		var cols []*sqlb.Column
		var want []string
		for i, n := 0, rapid.SampledFrom([]int{1, 2, 3, 12}).Draw(t, "calls"); i < n; i++ {
			names := rapid.SliceOfN(rapid.SampledFrom([]string{"id", "name", "*", `"q?"`, "x::text", "userId", "iD_x", "ID", "order", "first name"}), 1, 4).Draw(t, "names")
			prefix := applied + "."
			switch how := rapid.IntRange(0, 9).Draw(t, "how"); how {
			case 0:
				cols = append(cols, tb.Columns(names...)...)
			case 1:
				cols = append(cols, sqlb.Table(applied).Columns(names...)...)
			case 2:
				cols, prefix = append(cols, tb.AnonymousColumns(names...)...), ""
			case 3:
				cols, prefix = append(cols, sqlb.Table(applied).AnonymousColumns(names...)...), ""
			case 4:
				cols, names = append(cols, tb.Column(names[0])), names[:1]
			case 5:
				cols, names = append(cols, sqlb.Table(applied).Column(names[0])), names[:1]
			case 6:
				cols, names, prefix = append(cols, tb.AnonymousColumn(names[0])), names[:1], ""
			case 7:
				cols, names, prefix = append(cols, sqlb.Table(applied).AnonymousColumn(names[0])), names[:1], ""
			default:
				var frs []*sqlf.Fragment
				for k, n := range names {
					if how == 8 {
						frs = append(frs, sqlf.Ff("max(#f1) AS m"+itoa(k), tb.Column(n)))
						names[k] = "max(" + prefix + n + ") AS m" + itoa(k)
					} else {
						frs = append(frs, sqlf.Ff("#f1."+n, tb))
						names[k] = prefix + n
					}
				}
				cols, prefix = append(cols, sqlb.ExprColumns(frs...)...), ""
			}
			for _, n := range names {
				want = append(want, prefix+n)
			}
		}
		main := sqlb.NewTableAliased("main_t", "")
		list := strings.Join(want, ", ")
		shown := name
		if alias != "" {
			shown += " AS " + alias
		}
		note(len(want) > 1, list, bucket("columns", len(want)))
		if tb.Name != sqlb.Table(name) || tb.Alias != sqlb.Table(alias) || tb.AppliedName() != sqlb.Table(applied) || !reflect.DeepEqual(tb.Names(), []sqlb.Table{sqlb.Table(name), sqlb.Table(alias)}) {
			t.Fatalf("table %q alias %q: %#v, applied name %q, names %q", name, alias, tb, tb.AppliedName(), tb.Names())
		}
		for _, c := range []struct {
			b    *sqlb.QueryBuilder
			want string
		}{
			{sqlb.NewQueryBuilder().Select(cols...).From(tb), "SELECT " + list + " FROM " + shown},
			{sqlb.NewQueryBuilder().Distinct().From(main).LeftJoinOptional(tb, sqlf.F("1=1")).Select(cols...), "SELECT DISTINCT " + list + " FROM main_t LEFT JOIN " + shown + " ON 1=1"},
			{sqlb.NewQueryBuilder().Distinct().From(main).LeftJoinOptional(tb, sqlf.F("1=1")).Select(main.Columns("a", "b")...), "SELECT DISTINCT main_t.a, main_t.b FROM main_t"},
		} {
			got, args, err := c.b.BuildQuery(rapid.SampledFrom(bothStyles).Draw(t, "style"))
			if err != nil || got != c.want || len(args) > 0 {
				t.Fatalf("built %q %v (%v)\nwant  %q", got, args, err, c.want)
			}
		}
	})
}

// Conditions are what they are given as, whatever they may mean.
func TestC12_Conditions(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		tb := sqlb.NewTableAliased("users", "u")
		b := sqlb.NewQueryBuilder().Select(tb.Column("id")).From(tb)
		var want []string
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
			c := rapid.SampledFrom([]string{"1=1", "TRUE", "true", "1", "0", "FALSE", "NULL", "1 = 0", "AND x", "OR x", "and y=1", "x OR y", "x AND y", "x = 1", "x = 1", "NOT x", "(x)", "((x))", "WHERE x", "ON x", "x;", "-- x", "/**/", "x,", ",", "u.id = u.id", "EXISTS (SELECT 1)", "x IN ()", "'' = ''", "x BETWEEN 1 AND 2", "''"}).Draw(t, "condition")
			prefix := rapid.SampledFrom([]string{"", "", "", "NOT ", "AND ", "("}).Draw(t, "prefix")
			suffix := rapid.SampledFrom([]string{"", "", "", ")", " OR 1=1", " AND"}).Draw(t, "suffix")
			f := sqlf.F(c).WithPrefix(prefix).WithSuffix(suffix)
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				f = sqlf.Ff("#f1", f)
			case 1:
				f = sqlf.Ff("#join('#f', ' AND ')", f)
			}
			b.Where(f)
			if prefix != "" {
				c = prefix + " " + c
			}
			if suffix != "" {
				c += " " + suffix
			}
			want = append(want, c)
		}
		got, args, err := b.BuildQuery(rapid.SampledFrom(bothStyles).Draw(t, "style"))
		w := "SELECT u.id FROM users AS u WHERE " + strings.Join(want, " AND ")
		note(true, w, bucket("conditions", len(want)))
		if err != nil || got != w || len(args) > 0 {
			t.Fatalf("built %q %v (%v)\nwant  %q", got, args, err, w)
		}
	})
}

// So are all other texts, at every place.
func TestC12_Texts(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		tb := sqlb.NewTableAliased("users", "u")
		text := func(label string) string {
			return rapid.SampledFrom([]string{"SELECT 1", "(SELECT 1)", "((SELECT 1))", "(SELECT 1) UNION (SELECT 2)", "SELECT 1 UNION ALL SELECT 2", "VALUES (1), (2)", "TABLE x", "WITH c AS (SELECT 1) SELECT 1", "With c AS (SELECT 1) SELECT 1",
				"SELECT 1;", "-- SELECT", "()", "(", ")", "* FROM x", "DISTINCT x", "ALL x", "x AS y", "x y", "x DESC", "x ASC NULLS FIRST", "1", "-1", "x, y", ",", "NULL", "''", "ORDER BY x", "UNION (SELECT 1)", "ALL (SELECT 1)",
				"LIMIT 1", "u.id", "users.id", "u.*", "*", "count(*)", "U.ID", "RECURSIVE", "SELECT 1 FROM users JOIN c_a ON 1=1", "SELECT * FROM c_a", "MATERIALIZED", "x = 1 OR y = 2", "ON x", "USING (id)", "AS"}).Draw(t, label)
		}
		n := func(label string, max int) int { return rapid.IntRange(0, max).Draw(t, label) }
		wrap := func(s string) *sqlf.Fragment {
			switch n("wrap", 5) {
			case 0:
				return sqlf.Ff("#f1", sqlf.F(s))
			case 1:
				return sqlf.Ff("#join('#f', '; ')", sqlf.F(""), sqlf.F(s))
			case 2:
				return sqlf.Ff("#fragment1", sqlb.ExprColumn(sqlf.F(s)))
			}
			return sqlf.F(s)
		}
		b := sqlb.NewQueryBuilder()
		want, parts := "", 0
		var list []string
		add := func(head, sep, tail string) {
			if len(list) > 0 {
				want += head + strings.Join(list, sep) + tail
				parts += len(list)
			}
			list = nil
		}
		for i, k := 0, n("ctes", 2); i < k; i++ {
			name, s := "c_"+string(rune('a'+i)), text("cte")
			b.With(sqlb.Table(name), wrap(s))
			b.InnerJoin(sqlb.NewTableAliased(sqlb.Table(name), ""), nil)
			list = append(list, name+" AS ("+s+")")
		}
		ctes := len(list)
		add("With ", ", ", " ")
		var cols []*sqlb.Column
		for i, k := 0, 1+n("selects", 2); i < k; i++ {
			s := text("select")
			cols, list = append(cols, sqlb.ExprColumn(wrap(s))), append(list, s)
		}
		b.Select(cols...)
		distinct := rapid.IntRange(0, 3).Draw(t, "distinct") == 0
		if distinct {
			b.Distinct()
			add("SELECT DISTINCT ", ", ", "")
		} else {
			add("SELECT ", ", ", "")
		}
		b.From(tb)
		want += " FROM users AS u"
		for i := 0; i < ctes; i++ {
			want += " INNER JOIN c_" + string(rune('a'+i))
		}
		for i, k := 0, n("joins", 2); i < k; i++ {
			s, name := text("on"), "j"+itoa(i)
			b.LeftJoin(sqlb.NewTableAliased("foo", sqlb.Table(name)), wrap(s))
			list = append(list, " LEFT JOIN foo AS "+name+" ON "+s)
		}
		add("", "", "")
		for i, k := 0, n("conditions", 2); i < k; i++ {
			s := text("condition")
			b.Where(wrap(s))
			list = append(list, s)
		}
		add(" WHERE ", " AND ", "")
		for i, k := 0, n("groups", 2); i < k; i++ {
			s := text("group")
			b.GroupBy(sqlb.ExprColumn(wrap(s)))
			list = append(list, s)
		}
		add(" GROUP BY ", ", ", "")
		if !distinct {
			for i, k := 0, n("orders", 2); i < k; i++ {
				s := text("order")
				o := rapid.IntRange(0, 5).Draw(t, "direction")
				b.OrderBy(sqlb.ExprColumn(wrap(s)), sqlb.Order(o))
				list = append(list, s+" "+orderNames[o])
			}
			add(" ORDER BY ", ", ", "")
		}
		for i, k := 0, n("unions", 3); i < k; i++ {
			s := text("union")
			b.Union(wrap(s))
			list = append(list, s)
		}
		add(" UNION (", ") UNION (", ")")
		note(parts > 2, want, bucket("texts", parts))
		got, args, err := b.BuildQuery(rapid.SampledFrom(bothStyles).Draw(t, "style"))
		if err != nil || got != want || len(args) > 0 {
			t.Fatalf("built %q %v (%v)\nwant  %q", got, args, err, want)
		}
	})
}

// DISTINCT if and only if it was set, whatever else was declared.
func TestC12_Distinct(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		q := genBQ(t, bopts{maxJoins: 2, ctes: 1, unions: true, optional: true, distinct: 6, orders: true, emptyParts: true, noValues: true})
		note(q.distinct && len(q.orders) > 0, q.String(), cond(q.distinct, "distinct"), cond(!q.distinct, "not distinct"), cond(len(q.orders) > 0, "sorted"))
		s, _, err := q.build(rapid.SampledFrom(bothStyles).Draw(t, "style"))
		if err != nil {
			t.Fatalf("%s\n%v", q, err)
		}
		top := topLevel(s)
		want := 0
		if q.distinct {
			want = 1
		}
		if strings.Count(top, "SELECT DISTINCT ") != want {
			t.Fatalf("%s\nbuilt %q\nwant %d DISTINCT", q, s, want)
		}
	})
}
