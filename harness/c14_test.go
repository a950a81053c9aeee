package verifharness

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C14: join elimination drops only joins nothing needs.

var qualifier = regexp.MustCompile(`\b([a-z_]+)\.`)

func TestC14_Elimination(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := genBQ(t, bopts{maxJoins: rapid.SampledFrom([]int{2, 3, 5, 7}).Draw(t, "max"), optional: true, distinct: 8, orders: true, noValues: true, emptyParts: true})
		checkElimination(t, q)
	})
}

func checkElimination(t *rapid.T, q *bq) {
	kept := q.kept()
	note(len(q.joins) > 1 && q.distinct, q.String(), append(q.classes(), bucket("kept", len(kept)))...)
	var want []string
	want = append(want, q.from.applied())
	for _, j := range kept {
		want = append(want, j.tbl.applied())
	}
	s, _, err := q.build(syntax.Question)
	if err != nil {
		t.Fatalf("%s\nbuilding: %v", q, err)
	}
	from := splitSQL(s)["from"]
	items := splitFrom(from)
	if got := appliedNames(items); fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s\nbuilt %q\nfrom tables %v, want %v", q, s, got, want)
	}
	declared := map[string]bool{}
	for _, i := range items {
		declared[i.applied()] = true
	}
	for _, m := range qualifier.FindAllStringSubmatch(s, -1) {
		if !declared[m[1]] {
			t.Fatalf("%s\nbuilt %q\nwhere %s is used and not declared", q, s, m[1])
		}
	}
	// what is kept is kept as declared
	for i, j := range kept {
		wantOn := ""
		if j.on != nil && j.kind != "CROSS" {
			wantOn, _ = render(j.on.toks(), syntax.Question)
		}
		it := items[i+1]
		if it.kind != j.kind || it.name != j.tbl.name || it.alias != j.tbl.alias || it.on != wantOn {
			t.Fatalf("%s\nbuilt %q\nwhere a join is %+v", q, s, it)
		}
	}
}

// Chains and webs of ON conditions: each join uses others, one of them is used.
func TestC14_Graphs(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		n := rapid.IntRange(2, 7).Draw(t, "n")
		web := rapid.IntRange(0, 99).Draw(t, "web") == 0
		if web {
			// each of many joins uses most of the others
			n = rapid.IntRange(24, 40).Draw(t, "n")
		}
		q := newBQ()
		tables := []btable{{"main", "m"}}
		for i := 0; i < n; i++ {
			tb := btable{name: string(rune('p' + i))}
			if web {
				tb.name = "w" + string(rune('a'+i/7)) + string(rune('p'+i%7))
			}
			if rapid.Bool().Draw(t, "aliased") {
				tb.alias = "t_" + tb.name
			}
			if i > 0 && rapid.IntRange(0, 4).Draw(t, "same") == 0 {
				tb = btable{tables[i].name, "u_" + tb.name}
			}
			tables = append(tables, tb)
		}
		var joins []func()
		for i := 1; i <= n; i++ {
			j := &bjoin{kind: "LEFT", tbl: tables[i], optional: rapid.IntRange(0, 5).Draw(t, "optional") > 0}
			if !j.optional {
				j.kind = rapid.SampledFrom([]string{"LEFT", "INNER", "RIGHT", "FULL"}).Draw(t, "kind")
			}
			f := &bfrag{}
			add := func(tb btable) {
				var nd bnode = &bcol{tbl: tb, name: "id", how: rapid.IntRange(0, 2).Draw(t, "how"), anon: rapid.IntRange(0, 9).Draw(t, "anon") == 0}
				switch rapid.IntRange(0, 4).Draw(t, "as") {
				case 0:
					nd = &btab{tb, rapid.IntRange(0, 1).Draw(t, "how")}
				case 1:
					nd = &bexpr{f: &bfrag{pieces: []bpiece{{text: "("}, {is: 2, node: nd}, {text: ")"}}}}
				case 2:
					nd = &bfrag{pieces: []bpiece{{text: "f("}, {is: 2, node: &bfrag{pieces: []bpiece{{is: 2, node: nd}}}}, {text: ")"}}}
				}
				f.pieces = append(f.pieces, bpiece{is: 2, node: nd}, bpiece{text: "="})
			}
			if rapid.IntRange(0, 9).Draw(t, "self") > 0 {
				add(tables[i])
			}
			if web {
				skip := rapid.IntRange(1, n).Draw(t, "uses not")
				for k := n; k > 0; k-- {
					if k != skip && k != i {
						f.pieces = append(f.pieces, bpiece{is: 2, node: &bcol{tbl: tables[k], name: "id"}}, bpiece{text: "="})
					}
				}
			}
			for k, m := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "uses"); k < m; k++ {
				add(tables[rapid.IntRange(0, n).Draw(t, "uses table")])
			}
			f.pieces = append(f.pieces, bpiece{text: "1"})
			j.on = f
			joins = append(joins, func() { q.doJoin(j) })
		}
		if rapid.Bool().Draw(t, "shuffle") {
			joins = rapid.Permutation(joins).Draw(t, "order")
		}
		q.doFrom(tables[0])
		for _, j := range joins {
			j()
		}
		q.doSelect([]bcolumn{&bcol{tbl: tables[0], name: "id"}})
		for i, k := 0, rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "used"); i < k; i++ {
			c := &bcol{tbl: tables[rapid.IntRange(0, n).Draw(t, "uses")], name: "x"}
			switch rapid.IntRange(0, 3).Draw(t, "in") {
			case 0:
				q.doSelect([]bcolumn{c})
			case 1:
				q.doWhere(&bfrag{pieces: []bpiece{{text: "NOT "}, {is: 2, node: c}}})
			case 2:
				q.doGroupBy(c)
			case 3:
				q.doOrderBy(c, 0)
			}
		}
		if rapid.IntRange(0, 7).Draw(t, "distinct") > 0 {
			q.doDistinct()
		}
		checkElimination(t, q)
		if strings.Contains(q.String(), "~") {
			class("anonymous columns")
		}
	})
}
