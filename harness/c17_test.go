package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C17: builder misuse is reported by the build, never papered over.

// failing is a fragment builder that fails.
type failing struct{}

func (failing) BuildFragment(*sqlf.Context) (string, error) { return "partial", fmt.Errorf("failing") }

func insertOp(t *rapid.T, ops []func(), op func()) []func() {
	at := rapid.IntRange(0, len(ops)).Draw(t, "at")
	return append(ops[:at:at], append([]func(){op}, ops[at:]...)...)
}

// brokenFrag generates an expression that can't be built.
func brokenFrag(t *rapid.T, depth int) (f *sqlf.Fragment, what string) {
	switch rapid.IntRange(0, 9).Draw(t, "broken") {
	case 0:
		return sqlf.F("x #nofunc(1)"), "unknown function"
	case 1:
		return sqlf.F("x=?"), "bindvar without arg"
	case 2:
		return sqlf.F("x=$2").WithArgs(1), "bindvar without arg"
	case 3:
		return sqlf.F("x=1").WithArgs(1), "arg not used"
	case 4:
		return sqlf.Ff("#f1 #f2", sqlf.F("x")), "reference without fragment"
	case 5:
		return sqlf.Ff("x", sqlf.F("y")), "fragment not used"
	case 6:
		return sqlf.F("#join('x', ', '"), "template not parsed"
	case 7:
		return sqlf.F("x=$1 and y=?").WithArgs(1, 2), "mixed bindvar styles"
	case 8:
		return sqlf.Ff("#f1", failing{}), "custom builder that fails"
	default:
		q := newBQ()
		q.doFrom(btable{name: "foo"})
		return sqlf.Ff("(#f1)", q.b), "builder that selects nothing"
	}
}

// wrap puts f into expressions.
func wrapFrag(t *rapid.T, f *sqlf.Fragment) *sqlf.Fragment {
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 2, 4, 9, 20}).Draw(t, "wraps"); i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "wrap") {
		case 0:
			f = sqlf.Ff("(#f1)", f)
		case 1:
			f = sqlf.Ff("coalesce(#fragment1, 0)", sqlb.ExprColumn(f))
		case 2:
			f = sqlf.Ff("#join('#f', ' OR ')", sqlf.F("a"), f)
		case 3:
			f = sqlf.Ff("#join('#f', ', ', 1, 2)", f, sqlf.F("b")).WithPrefix("(").WithSuffix(")")
		case 4:
			f = sqlf.Ff("#f1 and #f2", f, sqlf.Fa("n=?", 1))
		}
	}
	return f
}

// inQuery uses the query builder b in another one.
func inQuery(t *rapid.T, b *sqlb.QueryBuilder) (*sqlb.QueryBuilder, string) {
	how := rapid.SampledFrom([]string{"cte", "union", "select", "where", "on", "group", "order", "dep cte"}).Draw(t, "in")
	outer := sqlb.NewQueryBuilder()
	tb := sqlb.NewTableAliased("outer_t", "ot")
	outer.From(tb).Select(tb.Column("id"))
	switch how {
	case "cte":
		outer.With("outer_t", b)
	case "dep cte":
		if rapid.Bool().Draw(t, "with deps") {
			outer.With("third", sqlf.F("SELECT 3"))
			outer.With("dep", b, "third")
		} else {
			outer.With("dep", b)
		}
		outer.With("outer_t", sqlf.F("SELECT 1"), "dep")
	case "union":
		if rapid.Bool().Draw(t, "more") {
			outer.Union(sqlf.F("SELECT 1"), b)
		} else {
			outer.Union(b)
		}
	case "select":
		outer.Select(tb.Column("id"), sqlb.ExprColumn(sqlf.Ff("(#f1)", b)))
	case "where":
		outer.Where(sqlf.Ff("x IN (#f1)", b))
	case "on":
		outer.InnerJoin(sqlb.NewTableAliased("outer_u", ""), sqlf.Ff("EXISTS (#f1)", b))
	case "group":
		outer.GroupBy(sqlb.ExprColumn(sqlf.Ff("(#f1)", b)))
	case "order":
		outer.OrderBy(sqlb.ExprColumn(sqlf.Ff("(#f1)", b)), sqlb.Asc)
	}
	return outer, how
}

func TestC17_Misuse(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := newBQ()
		q.chain = rapid.Bool().Draw(t, "chain")
		o := bopts{maxJoins: 3, ctes: 2, unions: true, nested: true, distinct: 4, orders: true, emptyParts: true, depth: 1}
		kinds := []string{"nothing", "empty from", "empty from", "empty join", "no from", "no from", "no from", "same name", "same name", "no select", "order", "undeclared", "undeclared", "undeclared", "undeclared in on",
			"undeclared in on", "broken", "broken", "broken"}
		kind := rapid.SampledFrom(kinds).Draw(t, "misuse")
		o.noSelect = kind == "no select"
		ops, tables := genOps(t, o, q)
		detail := ""
		// the mistake may be the last call, after builds without it
		atEnd := rapid.IntRange(0, 2).Draw(t, "at the end") == 0
		insertOp := func(t *rapid.T, ops []func(), op func()) []func() {
			if atEnd {
				return append(ops, op)
			}
			return insertOp(t, ops, op)
		}
		// mistakes are made more than once, too
		twice := func(op func()) {
			for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "times"); i < n; i++ {
				ops = insertOp(t, ops, op)
			}
		}
		emptyTable := func() btable {
			return btable{"", rapid.SampledFrom([]string{"", "", "a", "foo"}).Draw(t, "alias")}
		}
		randKind := func() string {
			return rapid.SampledFrom([]string{"INNER", "LEFT", "RIGHT", "FULL", "CROSS"}).Draw(t, "kind")
		}
		switch kind {
		case "empty from":
			tb := emptyTable()
			twice(func() { q.log("From(%q AS %q)", tb.name, tb.alias); q.use(q.b.From(tb.real())) })
		case "empty join":
			tb := emptyTable()
			j := &bjoin{tbl: tb, kind: randKind()}
			if j.kind != "CROSS" && rapid.Bool().Draw(t, "on") {
				j.on = &bfrag{pieces: []bpiece{{text: "1=1"}}}
			}
			if j.kind == "LEFT" {
				j.optional = rapid.Bool().Draw(t, "optional")
			}
			twice(func() { q.doJoin(j) })
		case "no from":
			// the calls of another program, without From
			taken := map[string]bool{}
			joined := genTables(t, o, rapid.IntRange(0, 3).Draw(t, "joins"), taken)
			o.ctes, o.unions = 0, false
			ops = nil
			for _, tb := range joined {
				j := genJoinDecl(t, o, tb, joined)
				ops = append(ops, func() { q.doJoin(j) })
			}
			cols := genBColumns(t, o, newBQ(), joined2(joined), 1, 2)
			if len(joined) == 0 {
				cols = []bcolumn{&bexpr{f: genBFrag(t, o, nil, 1)}}
			}
			ops = insertOp(t, ops, func() { q.doSelect(cols) })
			if rapid.Bool().Draw(t, "where") {
				f := genBFrag(t, o, joined, 1)
				ops = insertOp(t, ops, func() { q.doWhere(f) })
			}
			if rapid.Bool().Draw(t, "distinct") {
				ops = insertOp(t, ops, func() { q.doDistinct() })
			}
			if rapid.IntRange(0, 2).Draw(t, "empty") == 0 {
				f := emptyFrag(t)
				ops = insertOp(t, ops, func() { q.doUnion(f) })
			}
		case "same name":
			tb := tables[0]
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				tb = btable{name: tb.applied()}
			case 1:
				tb = btable{rapid.SampledFrom(tableNames).Draw(t, "other"), tb.applied()}
			}
			j := genJoinDecl(t, o, tb, nil)
			twice(func() { q.doJoin(j) })
		case "no select":
			if rapid.Bool().Draw(t, "empty select") {
				ops = insertOp(t, ops, func() { q.doSelect(nil) })
			}
		case "order":
			dir := sqlb.Order(rapid.SampledFrom([]uint{6, 7, 8, 100, 1 << 31, 1<<64 - 1}).Draw(t, "dir"))
			c := genBColumn(t, o, tables)
			ops = insertOp(t, ops, func() { q.doOrderBy(c, dir) })
		case "undeclared":
			var tb btable
			declared := map[string]bool{}
			for _, x := range tables {
				declared[x.applied()] = true
			}
			x := rapid.SampledFrom(tables).Draw(t, "table")
			tb = btable{name: "nowhere", alias: rapid.SampledFrom([]string{"", "nw"}).Draw(t, "alias")}
			switch rapid.IntRange(0, 3).Draw(t, "which") {
			case 3:
				// a name like that of a declared one
				name := rapid.SampledFrom([]string{strings.ToUpper(x.applied()), strings.ToTitle(x.applied()[:1]) + x.applied()[1:], x.applied() + "_2", "public." + x.applied(), `"` + x.applied() + `"`, x.applied() + " ", " " + x.applied(), x.applied()[:1], x.applied() + "." + x.applied(), x.decl()}).Draw(t, "like")
				if !declared[name] {
					tb = btable{name: name}
					class("name like a declared one")
				}
			case 0:
				if !declared[x.name] {
					tb = btable{name: x.name} // the name of an aliased table
					class("real name of an aliased table")
				}
			case 1:
				if q.distinct {
					tb = btable{x.name, "nw"}
				}
			}
			node := genUse(t, tb)
			where := rapid.SampledFrom([]string{"select", "where", "where2", "group", "order"}).Draw(t, "where")
			detail = where
			switch where {
			case "select":
				c := asColumn(node)
				cols := genBColumns(t, o, newBQ(), tables, 0, 2)
				at := rapid.IntRange(0, len(cols)).Draw(t, "pos")
				cols = append(cols[:at:at], append([]bcolumn{c}, cols[at:]...)...)
				ops = append(ops, func() { q.doSelect(cols) })
			case "where":
				f := &bfrag{pieces: []bpiece{{text: "NOT "}, {is: 2, node: node}}}
				ops = insertOp(t, ops, func() { q.doWhere(f) })
			case "where2":
				c := asColumn(node)
				switch rapid.IntRange(0, 2).Draw(t, "in") {
				case 0:
					ops = insertOp(t, ops, func() { q.doWhere2(c, "=", 1) })
				default:
					ops = insertOp(t, ops, func() { q.doWhereIn(c, []any{1, 2}, rapid.Bool().Draw(t, "not")) })
				}
			case "group":
				c := asColumn(node)
				ops = insertOp(t, ops, func() { q.doGroupBy(c) })
			case "order":
				c := asColumn(node)
				ops = insertOp(t, ops, func() { q.doOrderBy(c, sqlb.Desc) })
			}
		case "undeclared in on":
			// an expression uses a join, maybe by way of others, whose condition uses
			// what is not declared
			taken := map[string]bool{}
			for _, x := range tables {
				taken[x.applied()] = true
			}
			n := rapid.IntRange(1, 3).Draw(t, "chain")
			chain := []btable{{name: "nowhere", alias: rapid.SampledFrom([]string{"", "nw"}).Draw(t, "alias")}}
			for i := 0; i < n; i++ {
				tb := btable{name: "chain", alias: "ch_" + string(rune('a'+i))}
				j := &bjoin{tbl: tb, kind: rapid.SampledFrom([]string{"INNER", "LEFT", "RIGHT", "FULL"}).Draw(t, "kind"), on: &bfrag{pieces: []bpiece{
					{is: 2, node: &bcol{tbl: tb, name: "id"}}, {text: "="}, {is: 2, node: genUse(t, chain[i])}}}}
				if rapid.Bool().Draw(t, "optional") {
					j.kind, j.optional = "LEFT", true
				}
				ops = insertOp(t, ops, func() { q.doJoin(j) })
				chain = append(chain, tb)
			}
			node := genUse(t, chain[n])
			switch rapid.IntRange(0, 3).Draw(t, "used") {
			case 0:
				cols := append(genBColumns(t, o, newBQ(), tables, 0, 2), asColumn(node))
				ops = append(ops, func() { q.doSelect(cols) })
			case 1:
				f := &bfrag{pieces: []bpiece{{text: "NOT "}, {is: 2, node: node}}}
				ops = insertOp(t, ops, func() { q.doWhere(f) })
			case 2:
				c := asColumn(node)
				ops = insertOp(t, ops, func() { q.doGroupBy(c) })
			case 3:
				c := asColumn(node)
				ops = insertOp(t, ops, func() { q.doOrderBy(c, sqlb.Asc) })
			}
		case "broken":
			f, what := brokenFrag(t, 1)
			f = wrapFrag(t, f)
			where := rapid.SampledFrom([]string{"select", "where", "on", "group", "order", "cte", "cte", "dep cte", "union"}).Draw(t, "where")
			detail = what + " in " + where
			var op func()
			late := false
			switch where {
			case "select":
				cols := []*sqlb.Column{tables[0].real().Column("id"), sqlb.ExprColumn(f)}
				if rapid.Bool().Draw(t, "alone") {
					cols = cols[1:]
				}
				late = true
				op = func() { q.use(q.b.Select(cols...)) }
			case "where":
				if rapid.Bool().Draw(t, "where2") {
					op = func() { q.use(q.b.Where2(sqlb.ExprColumn(f), "=", 1)) }
				} else {
					op = func() { q.use(q.b.Where(f)) }
				}
			case "on":
				k := rapid.IntRange(0, 3).Draw(t, "join")
				op = func() {
					tb := sqlb.NewTableAliased("joined", "jd")
					switch k {
					case 0:
						q.use(q.b.InnerJoin(tb, f))
					case 1:
						q.use(q.b.LeftJoin(tb, f))
					case 2:
						q.use(q.b.RightJoin(tb, f))
					case 3:
						q.use(q.b.FullJoin(tb, f))
					}
				}
			case "group":
				op = func() { q.use(q.b.GroupBy(sqlb.ExprColumn(f))) }
			case "order":
				op = func() { q.use(q.b.OrderBy(sqlb.ExprColumn(f), sqlb.Asc)) }
			case "cte":
				op = func() {
					q.use(q.b.With("broken_cte", f))
					q.use(q.b.InnerJoin(sqlb.NewTableAliased("broken_cte", "bc"), nil))
				}
			case "dep cte":
				deps := []sqlb.Table{"third_cte", "fourth_cte"}[:rapid.IntRange(0, 2).Draw(t, "deps")]
				op = func() {
					for _, d := range deps {
						q.use(q.b.With(d, sqlf.F("SELECT 3")))
					}
					q.use(q.b.With("broken_cte", f, deps...))
					q.use(q.b.With("good_cte", sqlf.F("SELECT 1"), "broken_cte"))
					q.use(q.b.InnerJoin(sqlb.NewTableAliased("good_cte", ""), nil))
				}
			case "union":
				op = func() { q.use(q.b.Union(f)) }
			}
			op2 := func() { q.log("%s: %s %q", where, what, f.Raw); op() }
			if late {
				ops = append(ops, op2)
			} else {
				ops = insertOp(t, ops, op2)
			}
		}
		earlyBuild := rapid.IntRange(0, 3).Draw(t, "early build") == 0 || atEnd && rapid.Bool().Draw(t, "early build")
		for _, op := range ops {
			op()
			if earlyBuild {
				q.b.BuildQuery(syntax.Question)
			}
		}
		b := q.b
		desc := q.String()
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nest"); i < n; i++ {
			var how string
			b, how = inQuery(t, b)
			desc += "; used in " + how + " of another builder"
		}
		note(kind != "nothing", kind+" "+detail+": "+desc, "misuse: "+kind, cond(earlyBuild, "built while being declared"))
		for i := 0; i < rapid.IntRange(1, 3).Draw(t, "builds"); i++ {
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			var s string
			var args []any
			var err error
			guard(func() string { return desc }, func() { s, args, err = b.BuildQuery(style) })
			if kind == "nothing" {
				if err != nil {
					t.Fatalf("%s\nbuilding: %v", desc, err)
				}
				continue
			}
			if err == nil || s != "" || len(args) > 0 {
				t.Fatalf("%s (%s)\n%s\nbuild %d: %q %v (%v), want an error only", kind, detail, desc, i+1, s, args, err)
			}
		}
	})
}

func joined2(l []btable) []btable {
	if len(l) == 0 {
		return []btable{{name: "x"}}
	}
	return l
}

func asColumn(n bnode) bcolumn {
	if c, ok := n.(bcolumn); ok {
		return c
	}
	if f, ok := n.(*bfrag); ok {
		return &bexpr{f: f}
	}
	return &bexpr{f: &bfrag{pieces: []bpiece{{text: "("}, {is: 2, node: n}, {text: ")"}}}}
}

// genUse generates an expression that uses tb.
func genUse(t *rapid.T, tb btable) bnode {
	var n bnode
	if rapid.IntRange(0, 3).Draw(t, "as table") == 0 {
		n = &bfrag{pieces: []bpiece{{is: 2, node: &btab{tb, rapid.IntRange(0, 1).Draw(t, "how")}}, {text: ".x"}}}
	} else {
		n = &bcol{tbl: tb, name: rapid.SampledFrom(colNames).Draw(t, "col"), anon: rapid.IntRange(0, 5).Draw(t, "anon") == 0, how: rapid.IntRange(0, 2).Draw(t, "how")}
	}
	for i, k := 0, rapid.IntRange(0, 3).Draw(t, "deep"); i < k; i++ {
		f := &bfrag{pieces: []bpiece{{text: "f("}, {is: 2, node: n}, {text: ")"}}}
		if rapid.Bool().Draw(t, "first") {
			f.pieces = append([]bpiece{{text: "(a + "}, {is: 1, val: 1}, {text: ") * "}}, f.pieces...)
		}
		n = f
		if rapid.Bool().Draw(t, "expr") {
			n = &bexpr{f: f}
		}
	}
	return n
}
