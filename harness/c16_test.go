package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C16: table declarations end up in FROM whatever the call history.

func (q *bq) joinOf(applied string) *bjoin {
	for _, j := range q.joins {
		if j.tbl.applied() == applied {
			return j
		}
	}
	return nil
}

// genAnyTable generates a table of a small space, so that names are met again.
func genAnyTable(t *rapid.T) btable {
	tb := btable{name: rapid.SampledFrom([]string{"users", "foo", "bar", "baz"}).Draw(t, "table")}
	if rapid.Bool().Draw(t, "aliased") {
		tb.alias = rapid.SampledFrom([]string{"a", "b", "foo", "bar", "users", "A", "Foo"}).Draw(t, "alias")
	} else if rapid.IntRange(0, 5).Draw(t, "case") == 0 {
		tb.name = strings.ToUpper(tb.name) // names are what they are
	}
	return tb
}

func TestC16_From(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := newBQ()
		froms, redeclared, swapped, builds := 0, 0, 0, 0
		var sel btable
		verify := func() {
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			q.log("build")
			builds++
			s, _, err := q.build(style)
			if q.from == nil || (sel != *q.from && q.joinOf(sel.applied()) == nil) {
				// not a valid query yet, and what a build returns is another matter
				class("builds in an incomplete state")
				return
			}
			want, _ := render(q.fromToks(), syntax.Question)
			if err != nil {
				t.Fatalf("%s\nbuilding: %v\nwant %q", q, err, want)
			}
			parts := splitSQL(s)
			if got := "FROM " + parts["from"]; got != want {
				t.Fatalf("%s\nbuilt %q\n from %q\nwant  %q", q, s, got, want)
			}
			// the tables are the ones the CTEs are for
			var ctes []string
			for _, c := range q.emittedCTEs() {
				ctes = append(ctes, c.name+" AS (SELECT 1)")
			}
			if got := splitTop(parts["with"], ", "); fmt.Sprint(got) != fmt.Sprint(ctes) {
				t.Fatalf("%s\nbuilt %q\nCTEs %q\nwant %q", q, s, got, ctes)
			}
		}
		sets := func(tb btable) {
			sel = tb
			q.doSelect([]bcolumn{&bcol{tbl: tb, name: "id", how: rapid.IntRange(0, 2).Draw(t, "how")}})
		}
		ctes := rapid.Permutation([]string{"users", "foo", "bar", "baz"}).Draw(t, "ctes")[rapid.IntRange(0, 4).Draw(t, "from"):]
		for i, n := 0, rapid.IntRange(2, 14).Draw(t, "calls"); i < n; i++ {
			switch rapid.IntRange(0, 10).Draw(t, "call") {
			case 10:
				if len(ctes) > 0 {
					q.doWith(&bcte{name: ctes[0], body: &bfrag{pieces: []bpiece{{text: "SELECT 1"}}}})
					ctes = ctes[1:]
				}
			case 0, 1, 2:
				tb := genAnyTable(t)
				if q.joinOf(tb.applied()) != nil {
					continue // a name for both is an error for good, see C17
				}
				froms++
				if q.from != nil {
					swapped++
				}
				q.doFrom(tb)
			case 3, 4, 5, 6:
				tb := genAnyTable(t)
				if q.from != nil && q.from.applied() == tb.applied() {
					continue
				}
				old := q.joinOf(tb.applied())
				if old != nil {
					redeclared++
				}
				j := &bjoin{tbl: tb, kind: rapid.SampledFrom([]string{"INNER", "LEFT", "LEFT", "RIGHT", "FULL", "CROSS"}).Draw(t, "kind")}
				if j.kind == "LEFT" && rapid.Bool().Draw(t, "optional") {
					j.optional = true
				}
				if j.kind != "CROSS" && rapid.IntRange(0, 4).Draw(t, "on") > 0 {
					j.on = &bfrag{pieces: []bpiece{
						{is: 2, node: &bcol{tbl: tb, name: rapid.SampledFrom(colNames[:4]).Draw(t, "col")}},
						{text: rapid.SampledFrom([]string{"=1", "=2", " IS NULL", ">f(x)"}).Draw(t, "is")}}}
					if len(q.joins) > 0 && rapid.IntRange(0, 2).Draw(t, "uses") == 0 {
						other := rapid.SampledFrom(q.joins).Draw(t, "other")
						j.on.pieces = append(j.on.pieces, bpiece{text: " AND "}, bpiece{is: 2, node: &bcol{tbl: btable{name: other.tbl.applied()}, name: "x"}})
					}
				}
				q.doJoin(j)
			case 7:
				if len(q.joins) > 0 && rapid.Bool().Draw(t, "joined") {
					sets(rapid.SampledFrom(q.joins).Draw(t, "of").tbl)
				} else if q.from != nil {
					sets(*q.from)
				}
			case 8:
				verify()
			case 9:
				if rapid.IntRange(0, 2).Draw(t, "distinct") == 0 {
					q.doDistinct()
				}
			}
		}
		if q.from == nil {
			tb := btable{name: "main"}
			froms++
			q.doFrom(tb)
		}
		sets(*q.from)
		note(len(q.joins) > 0 && froms+redeclared > 1, q.String(), bucket("joins", len(q.joins)), cond(redeclared > 0, "joins redeclared"),
			cond(swapped > 0, "From called again"), cond(builds > 0, "builds in between"), cond(q.distinct, "distinct"))
		verify()
		verify()
	})
}

// A builder built in between is the same as one built once.
func TestC16_History(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := newBQ()
		ops, tables := genOps(t, bopts{maxJoins: 3, ctes: 2, unions: true, nested: true, optional: true, distinct: 5, orders: true, emptyParts: true, depth: 1}, q)
		// declarations that are replaced by later ones
		for _, tb := range tables[1:] {
			if rapid.Bool().Draw(t, "redeclare") {
				again := tb
				if tb.alias != "" {
					again.name = rapid.SampledFrom(tableNames).Draw(t, "another")
				}
				j := genJoinDecl(t, bopts{optional: true, noValues: true}, again, []btable{again})
				at := rapid.IntRange(0, len(ops)).Draw(t, "at")
				ops = append(ops[:at:at], append([]func(){func() { q.doJoin(j) }}, ops[at:]...)...)
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "other from") == 0 {
			ops = append([]func(){func() { q.doFrom(btable{name: "tmp"}) }}, ops...)
		}
		type build struct {
			after int
			style syntax.BindVarStyle
			s     string
			args  []any
			err   error
		}
		var builds []build
		do := func(after int) {
			b := build{after: after, style: rapid.SampledFrom(bothStyles).Draw(t, "style")}
			b.s, b.args, b.err = q.build(b.style)
			q.log("build")
			builds = append(builds, b)
		}
		inBetween := 0
		for i, op := range ops {
			op()
			if rapid.IntRange(0, 2).Draw(t, "build") == 0 && i < len(ops)-1 {
				inBetween++
				do(i + 1)
			}
		}
		do(len(ops))
		hist := q.String()
		note(inBetween > 0, hist, append(q.classes(), "history")...)
		for _, b := range builds {
			*q = *newBQ()
			for _, op := range ops[:b.after] {
				op()
			}
			s, args, err := q.build(b.style)
			if s != b.s || (err != nil) != (b.err != nil) || !identicalLists(args, b.args) {
				t.Fatalf("%s\nafter %d calls built %q %s (%v)\nthe same calls without builds in between give %q %s (%v)",
					hist, b.after, b.s, showList(b.args), b.err, s, showList(args), err)
			}
			if b.after == len(ops) && err != nil {
				t.Fatalf("%s\nbuilding: %v", hist, fmt.Sprint(err))
			}
		}
	})
}
