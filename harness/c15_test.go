package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C15: exactly the needed CTEs are emitted.

func checkCTEs(t *rapid.T, q *bq) {
	var want []string
	for _, c := range q.emittedCTEs() {
		want = append(want, c.name)
	}
	empties := 0
	for _, c := range q.ctes {
		if len(mergeToks(c.body.toks())) == 0 {
			empties++
		}
	}
	note(len(q.ctes) > 0, q.String(), append(q.classes(), bucket("CTEs declared", len(q.ctes)), bucket("CTEs emitted", len(want)), cond(empties > 0, "empty CTEs"))...)
	s, _, err := q.build(syntax.Question)
	if err != nil {
		t.Fatalf("%s\nbuilding: %v", q, err)
	}
	var got []string
	parts := splitSQL(s)
	for _, d := range splitTop(parts["with"], ", ") {
		name, _, ok := strings.Cut(d, " AS (")
		if !ok {
			t.Fatalf("%s\nbuilt %q\nwhere %q is no CTE", q, s, d)
		}
		got = append(got, name)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s\nbuilt %q\nCTEs %v, want %v", q, s, got, want)
	}
	if _, with := parts["with"]; with != (len(want) > 0) {
		t.Fatalf("%s\nbuilt %q\nWITH without CTEs", q, s)
	}
}

func TestC15_CTEs(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		checkCTEs(t, genBQ(t, bopts{maxJoins: 3, ctes: 5, optional: true, distinct: 7, orders: true, noValues: true, emptyParts: true, depth: 1}))
	})
}

// Graphs of dependencies between CTEs, cycles included, with tables that use some.
func TestC15_Graphs(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := newBQ()
		n := rapid.IntRange(1, 8).Draw(t, "n")
		var names []string
		web := rapid.IntRange(0, 99).Draw(t, "web") == 0
		if web {
			// each of many CTEs depends on most of the others
			n = rapid.IntRange(24, 40).Draw(t, "n")
		}
		for i := 0; i < n; i++ {
			names = append(names, "c"+strings.Repeat("c", i/20)+string(rune('a'+i%20)))
		}
		if !web && rapid.IntRange(0, 3).Draw(t, "case") == 0 {
			// names that differ by case only are different names
			for i, k := 0, len(names); i < k; i++ {
				if rapid.Bool().Draw(t, "upper") {
					names = append(names, strings.ToUpper(names[i]))
				}
			}
			if rapid.Bool().Draw(t, "parts") {
				// so are names that contain others
				for i, k := 0, len(names); i < k; i++ {
					names = append(names, rapid.SampledFrom([]string{"s.%s", "%s_2", `"%s"`, "%s.x", "a.b.%s", "_%s"}).Draw(t, "part"))
					names[len(names)-1] = strings.ReplaceAll(names[len(names)-1], "%s", names[i])
				}
			}
			names = rapid.Permutation(dedup(names)).Draw(t, "names")
			n = rapid.IntRange(1, len(names)).Draw(t, "declared")
		}
		taken := map[string]bool{"m": true}
		table := func() btable {
			for i := 0; ; i++ {
				tb := btable{name: rapid.SampledFrom(append([]string{"real", "other"}, names...)).Draw(t, "table")}
				switch rapid.IntRange(0, 2).Draw(t, "aliased") {
				case 0:
					tb.alias = rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "alias")
				case 1:
					// the alias is the name of another CTE
					tb.alias = rapid.SampledFrom(names).Draw(t, "alias")
				}
				if i > 10 {
					tb.alias = fmt.Sprintf("t_%d", len(taken))
				}
				if !taken[tb.applied()] {
					taken[tb.applied()] = true
					return tb
				}
			}
		}
		from := table()
		var ops []func()
		if rapid.IntRange(0, 5).Draw(t, "other from") == 0 {
			// the last From counts, under whatever name
			first := btable{name: rapid.SampledFrom(names).Draw(t, "table"), alias: from.applied()}
			q.doFrom(first)
		}
		ops = append(ops, func() { q.doFrom(from) })
		for i := 0; i < n; i++ {
			c := &bcte{name: names[i], body: &bfrag{pieces: []bpiece{{text: "SELECT 1"}}}}
			if rapid.IntRange(0, 7).Draw(t, "empty") == 0 {
				c.body = emptyFrag(t)
			}
			for k, m := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "deps"); k < m; k++ {
				c.deps = append(c.deps, rapid.SampledFrom(append([]string{"undeclared", "real", "x"}, names...)).Draw(t, "dep"))
			}
			if web {
				skip := rapid.IntRange(0, n-1).Draw(t, "depends not")
				for k := n - 1; k >= 0; k-- {
					if k != skip {
						c.deps = append(c.deps, names[k])
					}
				}
			}
			ops = append(ops, func() { q.doWith(c) })
		}
		used := []btable{from}
		for i, k := 0, rapid.IntRange(0, 3).Draw(t, "joins"); i < k; i++ {
			j := &bjoin{kind: "LEFT", tbl: table(), optional: rapid.Bool().Draw(t, "optional")}
			j.on = &bfrag{pieces: []bpiece{{is: 2, node: &bcol{tbl: j.tbl, name: "id"}}, {text: "="}, {is: 2, node: &bcol{tbl: rapid.SampledFrom(used).Draw(t, "on"), name: "id"}}}}
			used = append(used, j.tbl)
			ops = append(ops, func() { q.doJoin(j) })
			if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				// the applied name for another table, whichever is declared last counts
				again := *j
				again.tbl = btable{name: rapid.SampledFrom(append([]string{"real"}, names...)).Draw(t, "table"), alias: j.tbl.applied()}
				again.optional = rapid.Bool().Draw(t, "optional")
				ops = append(ops, func() { q.doJoin(&again) })
			}
		}
		cols := []bcolumn{&bcol{tbl: rapid.SampledFrom(used).Draw(t, "selected"), name: "id"}}
		ops = append(ops, func() { q.doSelect(cols) })
		if rapid.IntRange(0, 3).Draw(t, "distinct") > 0 {
			ops = append(ops, func() { q.doDistinct() })
		}
		for _, op := range rapid.Permutation(ops).Draw(t, "order") {
			op()
		}
		checkCTEs(t, q)
	})
}

func dedup(list []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range list {
		if !seen[s] {
			out = append(out, s)
		}
		seen[s] = true
	}
	return out
}
