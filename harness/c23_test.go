package verifharness

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C23: ORDER BY under DISTINCT selects what it sorts by.

var aliased = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*)$`)

func sqlText(toks []tok) string {
	s, _ := render(toks, syntax.Question)
	return s
}

// checkOrders checks the select list and the ORDER BY clause of a query q built to.
func checkOrders(q *bq, s string) error {
	parts := splitSQL(s)
	list := parts["select"]
	if q.distinct {
		if !strings.HasPrefix(list, "DISTINCT ") {
			return fmt.Errorf("not distinct")
		}
		list = list[len("DISTINCT "):]
	} else if strings.HasPrefix(list, "DISTINCT ") {
		return fmt.Errorf("distinct")
	}
	items := splitTop(list, ", ")
	var want []string
	for _, c := range q.selects {
		if x := sqlText(c.toks()); x != "" {
			want = append(want, x)
		}
	}
	if len(items) < len(want) {
		return fmt.Errorf("selects %q, want %q first", items, want)
	}
	for i, w := range want {
		if items[i] != w {
			return fmt.Errorf("selects %q, want %q first", items, want)
		}
	}
	extra := items[len(want):]
	orders := splitTop(parts["order"], ", ")
	if len(orders) != len(q.orders) {
		return fmt.Errorf("orders by %q, want %d items", orders, len(q.orders))
	}
	if !q.distinct {
		if len(extra) > 0 {
			return fmt.Errorf("selects %q in addition", extra)
		}
		for i, o := range q.orders {
			if w := sqlText(o.col.toks()) + " " + orderNames[o.order]; orders[i] != w {
				return fmt.Errorf("orders by %q, want %q", orders[i], w)
			}
		}
		return nil
	}
	if len(extra) != len(q.orders) {
		return fmt.Errorf("selects %q for %d orders", extra, len(q.orders))
	}
	seen := map[string]bool{}
	for i, o := range q.orders {
		x := sqlText(o.col.toks()) + " AS "
		if !strings.HasPrefix(extra[i], x) {
			return fmt.Errorf("selects %q for an order, want %q", extra[i], x)
		}
		alias := extra[i][len(x):]
		if !aliased.MatchString(alias) || seen[alias] {
			return fmt.Errorf("the alias %q of %q is none or used twice", alias, extra[i])
		}
		seen[alias] = true
		if w := alias + " " + orderNames[o.order]; orders[i] != w {
			return fmt.Errorf("orders by %q, want %q", orders[i], w)
		}
	}
	return nil
}

func TestC23_Orders(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := newBQ()
		o := bopts{maxJoins: 2, ctes: 1, unions: true, nested: true, optional: true, distinct: 8, orders: true, emptyParts: true, depth: 1}
		ops, tables := genOps(t, o, q)
		for _, op := range ops {
			op()
		}
		verify := func(n int) {
			var first string
			for i := 0; i < n; i++ {
				s, _, err := q.build(syntax.Question)
				q.log("build")
				if err != nil {
					t.Fatalf("%s\nbuilding: %v", q, err)
				}
				if err := checkOrders(q, s); err != nil {
					t.Fatalf("%s\nbuilt %q\n%v", q, s, err)
				}
				if i > 0 && s != first {
					t.Fatalf("%s\nbuilt %q\nat first %q", q, s, first)
				}
				first = s
				if rapid.Bool().Draw(t, "other style") {
					q.b.BuildQuery(syntax.Dollar)
				}
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			for i, n := 0, rapid.IntRange(7, 13).Draw(t, "orders"); i < n; i++ {
				q.doOrderBy(genBColumnOf(t, o, q, tables), sqlb.Order(rapid.IntRange(0, 5).Draw(t, "dir")))
			}
		}
		verify(rapid.IntRange(0, 2).Draw(t, "builds"))
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "more"); i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "call") {
			case 0, 1:
				q.doOrderBy(genBColumnOf(t, o, q, tables), sqlb.Order(rapid.IntRange(0, 5).Draw(t, "dir")))
			case 2:
				q.doSelect(genBColumns(t, o, q, tables, 1, 3))
			case 3:
				q.doDistinct()
			case 4:
				verify(1)
			}
		}
		note(len(q.orders) > 0, q.String(), append(q.classes(), bucket("orders", len(q.orders)), cond(q.distinct && len(q.orders) > 1, "distinct with several orders"))...)
		verify(2)
	})
}
