package verifharness

import (
	"fmt"
	"regexp"
	"strconv"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C13: query builder args follow the placeholders of the final SQL.
// Each value says in which place it belongs: "m17.0" is the value written behind k17,
// "m17.1" the second one behind it.

func markerOpts(o bopts) (bopts, *int) {
	n := new(int)
	next := func(t *rapid.T) int {
		if *n > 0 && rapid.IntRange(0, 9).Draw(t, "again") == 0 {
			return rapid.IntRange(1, *n).Draw(t, "marker")
		}
		*n++
		return *n
	}
	o.val = func(t *rapid.T) (string, any) {
		k := next(t)
		return fmt.Sprintf("k%d=", k), fmt.Sprintf("m%d.0", k)
	}
	o.inVals = func(t *rapid.T) (string, []any) {
		k := next(t)
		var vals []any
		n := rapid.IntRange(1, 3).Draw(t, "vals")
		if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
			n = rapid.IntRange(9, 13).Draw(t, "vals")
		}
		for i := 0; i < n; i++ {
			vals = append(vals, fmt.Sprintf("m%d.%d", k, i))
		}
		return fmt.Sprintf("k%d", k), vals
	}
	return o, n
}

var markerOrPlaceholder = regexp.MustCompile(`k([0-9]+)\b|\?|\$([0-9]+)`)

// checkMarkers checks that the placeholders of s denote what is written before them.
func checkMarkers(s string, args []any, style syntax.BindVarStyle) (placeholders int, err error) {
	marker, nth := "", 0
	mentioned := make([]bool, len(args))
	for _, m := range markerOrPlaceholder.FindAllStringSubmatch(s, -1) {
		if m[1] != "" {
			marker, nth = m[1], 0
			continue
		}
		i := placeholders
		if style == syntax.Dollar {
			if m[2] == "" {
				return 0, fmt.Errorf("%s in dollar style", m[0])
			}
			i, _ = strconv.Atoi(m[2])
			i--
		} else if m[2] != "" {
			return 0, fmt.Errorf("%s in question style", m[0])
		}
		placeholders++
		if i < 0 || i >= len(args) {
			return 0, fmt.Errorf("placeholder %d (%s) with %d args", placeholders, m[0], len(args))
		}
		mentioned[i] = true
		if want := fmt.Sprintf("m%s.%d", marker, nth); args[i] != want {
			return 0, fmt.Errorf("placeholder %d (%s) behind k%s denotes %v, not %s", placeholders, m[0], marker, args[i], want)
		}
		nth++
	}
	for i, ok := range mentioned {
		if !ok {
			return 0, fmt.Errorf("arg %d (%v) is not mentioned", i+1, args[i])
		}
	}
	if style == syntax.Question && placeholders != len(args) {
		return 0, fmt.Errorf("%d placeholders, %d args", placeholders, len(args))
	}
	return placeholders, nil
}

func TestC13_Markers(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		o, _ := markerOpts(bopts{maxJoins: 3, ctes: 2, unions: true, nested: true, optional: true, distinct: 5, orders: true, depth: 2})
		o.cteNeeded = rapid.Bool().Draw(t, "needed")
		q := genBQ(t, o)
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		where := rapid.SampledFrom([]string{"alone", "alone", "fragment", "builder"}).Draw(t, "where")
		var (
			s    string
			args []any
			err  error
		)
		guard(q.String, func() {
			switch where {
			case "alone":
				s, args, err = q.b.BuildQuery(style)
			case "fragment":
				k, l := rapid.IntRange(500, 510).Draw(t, "before"), rapid.IntRange(500, 510).Draw(t, "behind")
				s, args, err = sqlf.Ff(fmt.Sprintf("k%d=? (#f1) k%d=? (#f1)", k, l), q.b).WithArgs(fmt.Sprintf("m%d.0", k), fmt.Sprintf("m%d.0", l)).BuildQuery(style)
			case "builder":
				outer := newBQ()
				outer.doFrom(btable{"users", "u"})
				outer.doWhere2(&bcol{tbl: btable{"users", "u"}, name: "k600"}, "=", "m600.0")
				outer.doWhere(&bfrag{pieces: []bpiece{{text: "x IN ("}, {is: 2, node: &bquery{q}}, {text: ") AND k601="}, {is: 1, val: "m601.0"}}})
				outer.doSelect([]bcolumn{&bexpr{f: &bfrag{pieces: []bpiece{{text: "("}, {is: 2, node: &bquery{q}}, {text: "), k602="}, {is: 1, val: "m602.0"}}}}})
				outer.doUnion(&bquery{q})
				outer.doOrderBy(&bexpr{f: &bfrag{pieces: []bpiece{{text: "k603="}, {is: 1, val: "m603.0"}}}}, 0)
				s, args, err = outer.b.BuildQuery(style)
			}
		})
		if err != nil {
			note(false, "")
			class("not judged: building fails")
			return
		}
		n, err := checkMarkers(s, args, style)
		note(n > 1, styleName(style)+" "+where+" "+q.String(), append(q.classes(), where, bucket("placeholders", n))...)
		if err != nil {
			t.Fatalf("%s\n%s, %s: %v\nbuilt %q\nargs %v", q, where, styleName(style), err, s, args)
		}
		// as many of them as values were bound in what is emitted
		if where == "alone" {
			if want := len(phValues(q.toks())); n != want {
				class("other number of placeholders than in the model")
			}
		}
	})
}

// Builders nested in builders, at any depth, in any place.
func TestC13_Deep(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		depth := rapid.SampledFrom([]int{3, 6, 9, 12, 18, 35}).Draw(t, "depth")
		places := []string{"select", "where", "on", "cte", "union", "group", "order", "in a #join", "from's cte", "column"}
		if rapid.Bool().Draw(t, "all alike") {
			places = []string{rapid.SampledFrom(places).Draw(t, "place")}
		}
		tb := sqlb.NewTableAliased("users", "u")
		n := 0
		mark := func() *sqlf.Fragment {
			n++
			return sqlf.F(fmt.Sprintf("k%d=?", n)).WithArgs(fmt.Sprintf("m%d.0", n))
		}
		text := func(f *sqlf.Fragment) string { return f.Raw }
		w := mark()
		b := sqlb.NewQueryBuilder().From(tb).Select(tb.Column("id")).Where(w)
		want := "SELECT u.id FROM users AS u WHERE " + text(w)
		var key []string
		for i := 0; i < depth; i++ {
			in, inner := b, want
			place := rapid.SampledFrom(places).Draw(t, "at")
			key = append(key, place)
			m1, m2, m3 := mark(), mark(), mark()
			b = sqlb.NewQueryBuilder().From(tb)
			sub := sqlf.Ff("(#f1)", in)
			sel, from, rest, with := text(m1), " FROM users AS u", " WHERE "+text(m2), ""
			b.Select(sqlb.ExprColumn(m1)).Where(m2)
			switch place {
			case "select":
				b.Select(sqlb.ExprColumn(m1), sqlb.ExprColumn(sub))
				sel += ", (" + inner + ")"
			case "where":
				b.Where(sqlf.Ff("x IN #f1", sub)).Where(m3)
				rest += " AND x IN (" + inner + ") AND " + text(m3)
			case "on":
				b.LeftJoin(sqlb.NewTableAliased("foo", "f"), sqlf.Ff("#f1 = #f2", m3, sub))
				from += " LEFT JOIN foo AS f ON " + text(m3) + " = (" + inner + ")"
			case "cte":
				b.With("c_x", in).LeftJoin(sqlb.NewTableAliased("c_x", "c"), m3)
				with = "With c_x AS (" + inner + ") "
				from += " LEFT JOIN c_x AS c ON " + text(m3)
			case "from's cte":
				b.With("c_x", in).From(sqlb.NewTableAliased("c_x", "u"))
				with, from = "With c_x AS ("+inner+") ", " FROM c_x AS u"
			case "union":
				b.Union(in, m3)
				rest += " UNION (" + inner + ") UNION (" + text(m3) + ")"
			case "group":
				b.GroupBy(sqlb.ExprColumn(sub), sqlb.ExprColumn(m3))
				rest += " GROUP BY (" + inner + "), " + text(m3)
			case "order":
				b.OrderBy(sqlb.ExprColumn(m3), sqlb.Desc).OrderBy(sqlb.ExprColumn(sub), sqlb.Asc)
				rest += " ORDER BY " + text(m3) + " DESC, (" + inner + ") ASC"
			case "in a #join":
				b.Where(sqlf.Ff("#join('#f', ' = ')", m3, sub))
				rest += " AND " + text(m3) + " = (" + inner + ")"
			case "column":
				b.Select(sqlb.ExprColumn(sqlf.Ff("#fragment(1)", sqlb.ExprColumn(sub))))
				sel = "(" + inner + ")"
			}
			want = with + "SELECT " + sel + from + rest
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		s, args, err := b.BuildQuery(style)
		if err != nil {
			t.Fatalf("%q: %v", key, err)
		}
		k, err := checkMarkers(s, args, style)
		note(true, fmt.Sprintf("%q", key), bucket("placeholders", k), fmt.Sprintf("nested %d deep", depth))
		if err != nil {
			t.Fatalf("%q: %v\nbuilt %q\nargs %v", key, err, s, args)
		}
		if got := regexp.MustCompile(`\$[0-9]+`).ReplaceAllString(s, "?"); got != want {
			t.Fatalf("%q: built %q\nwant %q", key, got, want)
		}
	})
}
