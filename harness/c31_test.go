package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C31: equivalent ways to write a query build the same query.

// respell makes d the query of q, by other calls in another order.
func (q *bq) respell(d *bq, c cloner) {
	parts := map[string][]func(){}
	var names []string
	add := func(part string, fn func()) {
		if parts[part] == nil {
			names = append(names, part)
		}
		parts[part] = append(parts[part], fn)
	}
	yes := func(n int) bool { return c.choose(0, n) == 1 }
	d.chain = yes(2)
	if first := d.b; d.chain && yes(2) {
		// in the end all are the same
		defer func() { d.b = first }()
	}
	// groups calls fn for consecutive items
	groups := func(n int, fn func(from, to int)) {
		for i := 0; i < n; {
			k := i + 1 + c.choose(0, n-i)
			fn(i, k)
			i = k
		}
	}
	again := func(part string) {
		for _, call := range q.redo {
			if call := call; call.part == part {
				add(part, func() { call.do(d, c) })
			}
		}
	}
	for _, part := range []string{"distinct", "order", "with"} {
		again(part)
	}
	if q.from != nil {
		if yes(4) {
			add("from", func() { d.doFrom(btable{"zz_other", ""}) })
		}
		add("from", func() { d.doFrom(*q.from) })
		if yes(4) {
			add("from", func() { d.doFrom(*q.from) })
		}
	}
	for _, j := range q.joins {
		n := *j
		if yes(6) {
			tb := btable{"zz_name", j.tbl.applied()}
			switch c.choose(0, 3) {
			case 0:
				add("join", func() { d.doJoin(&bjoin{kind: "CROSS", tbl: tb}) })
			case 1:
				add("join", func() {
					d.doJoin(&bjoin{kind: "LEFT", tbl: tb, optional: true, on: &bfrag{pieces: []bpiece{{text: "zz = "}, {is: 1, val: "zz"}}}})
				})
			case 2:
				add("join", func() { d.doJoin(&n) })
			}
		}
		add("join", func() {
			n.on = n.on.copy(c)
			if n.on != nil && yes(4) {
				n.on = &bfrag{pieces: []bpiece{{is: 2, node: n.on}}, how: c.choose(0, 6)}
			}
			if n.on == nil && n.kind != "CROSS" && yes(2) {
				n.on = &bfrag{pieces: []bpiece{{text: " "}}, prefix: "zz"}
			}
			d.doJoin(&n)
		})
	}
	if len(q.selects) > 0 {
		if yes(4) {
			add("select", func() { d.doSelect([]bcolumn{&bexpr{f: &bfrag{pieces: []bpiece{{text: "zz"}}}}}) })
		}
		add("select", func() { d.doSelect(cloneCols(c, q.selects)) })
		if yes(4) {
			add("select", func() { d.doSelect(nil) })
		}
	}
	if yes(2) {
		again("where")
	} else {
		groups(len(q.conds), func(from, to int) {
			if from+1 == to {
				add("where", func() {
					n := q.conds[from].clone(c)
					if f, ok := n.(*bfrag); ok && yes(2) {
						d.doWhere(f)
						return
					}
					d.doWhere(&bfrag{pieces: []bpiece{{is: 2, node: n}}, how: c.choose(0, 6)})
				})
				return
			}
			add("where", func() {
				l := &blist{sep: " AND "}
				for _, n := range q.conds[from:to] {
					l.items = append(l.items, n.clone(c))
				}
				d.doWhere(&bfrag{pieces: []bpiece{{is: 2, node: l}}, how: c.choose(0, 6)})
			})
		})
	}
	groups(len(q.groupbys), func(from, to int) {
		add("group", func() { d.doGroupBy(cloneCols(c, q.groupbys[from:to])...) })
	})
	groups(len(q.unions), func(from, to int) {
		add("union", func() {
			var nodes []bnode
			for _, n := range q.unions[from:to] {
				n = n.clone(c)
				if yes(4) {
					n = &bfrag{pieces: []bpiece{{is: 2, node: n}}, how: c.choose(0, 6)}
				}
				nodes = append(nodes, n)
			}
			d.doUnion(nodes...)
		})
	})
	if q.limit > 0 {
		if yes(3) {
			add("limit", func() { d.doLimit(77) })
		}
		add("limit", func() { d.doLimit(q.limit) })
	}
	if q.offset > 0 {
		if yes(3) {
			add("offset", func() { d.doOffset(77) })
		}
		add("offset", func() { d.doOffset(q.offset) })
	}
	// calls without effect
	if yes(3) {
		if q.distinct {
			add("void", func() { d.doDistinct() })
		}
		add("void", func() { d.doWhere(nil) })
		add("void", func() { d.doLimit(-1) })
		add("void", func() { d.doOffset(0) })
		add("void", func() { d.doGroupBy() })
		add("void", func() { d.doUnion() })
	}
	if yes(3) {
		add("void", func() { d.use(d.b.GroupBy([]*sqlb.Column{}...)) })
		add("void", func() { d.use(d.b.Select([]*sqlb.Column{}...)) })
		add("void", func() { d.use(d.b.Union([]sqlf.FragmentBuilder{}...)) })
	}
	if yes(3) {
		add("void", func() { d.use(d.b.Where(sqlf.F(" ").WithPrefix("zz"))) })
		add("void", func() { d.use(d.b.GroupBy(sqlb.ExprColumn(sqlf.F("").WithSuffix("zz")))) })
		add("void", func() { d.use(d.b.Union(nil2, (*sqlb.QueryBuilder)(nil), sqlf.Ff("#f1", nil2), sqlb.Table(""))) })
	}
	for len(names) > 0 {
		i := c.choose(0, len(names))
		n := names[i]
		parts[n][0]()
		if parts[n] = parts[n][1:]; len(parts[n]) == 0 {
			names = append(names[:i:i], names[i+1:]...)
		}
	}
}

// waysToBuild tells other ways to get the query and the args of b.
var waysToBuild = []struct {
	name string
	do   func(b interface {
		sqlf.FragmentBuilder
		sqlf.QueryBuilder
	}, style syntax.BindVarStyle) (string, []any, error)
}{
	{"BuildQuery", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) { return b.BuildQuery(style) }},
	{"BuildFragment", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) { return inContext(b, style) }},
	{"#f1", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) {
		return sqlf.Ff("#f1", b).BuildQuery(style)
	}},
	{"#join", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) {
		return sqlf.Ff(" #join('#fragment', ', ')\n", nil2, b, nil2).BuildQuery(style)
	}},
	{"ExprColumn", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) {
		return inContext(sqlb.ExprColumn(sqlf.Ff("#fragment1", b)), style)
	}},
	{"function", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"b": func(ctx *sqlf.Context) (string, error) { return b.BuildFragment(ctx) }})
		if err != nil {
			return "", nil, err
		}
		s, err := sqlf.F("#b()").BuildFragment(ctx)
		return s, ctx.Args(), err
	}},
	{"list", func(b fullBuilder, style syntax.BindVarStyle) (string, []any, error) {
		ctx := sqlf.NewContext(style)
		s, err := sqlf.NewFragmentProperties(nil2, b).Build(ctx, 2)
		return s, ctx.Args(), err
	}},
}

var nil2 = (*sqlf.Fragment)(nil)

type fullBuilder = interface {
	sqlf.FragmentBuilder
	sqlf.QueryBuilder
}

func inContext(b sqlf.FragmentBuilder, style syntax.BindVarStyle) (string, []any, error) {
	ctx := sqlf.NewContext(style)
	s, err := b.BuildFragment(ctx)
	return s, ctx.Args(), err
}

func sameQuery(t *rapid.T, key func() string, a, b fullBuilder) (failed bool) {
	way := rapid.SampledFrom(waysToBuild).Draw(t, "way")
	for _, style := range bothStyles {
		var (
			qa, qb       string
			argsA, argsB []any
			errA, errB   error
		)
		guard(key, func() { qa, argsA, errA = a.BuildQuery(style) })
		guard(key, func() { qb, argsB, errB = way.do(b, style) })
		if (errA != nil) != (errB != nil) {
			t.Fatalf("%s\n%v\n%s: %v", key(), errA, way.name, errB)
		}
		if errA != nil {
			failed = true
			continue
		}
		if qa != qb || !identicalLists(argsA, argsB) {
			t.Fatalf("%s\nbuilt %q %s\n%s: %q %s", key(), qa, showList(argsA), way.name, qb, showList(argsB))
		}
	}
	return
}

func TestC31_Builders(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		q := genBQ(t, bopts{maxJoins: 3, ctes: 2, cteNeeded: rapid.Bool().Draw(t, "needed"), unions: true, nested: true, optional: true, distinct: 5, orders: true, emptyParts: true, depth: 1, oddNames: rapid.Bool().Draw(t, "odd names")})
		d := q.copy(cloner{spellKey{}: func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "spell") }})
		key := func() string { return q.String() + "\nas " + d.String() }
		if sameQuery(t, key, q.b, d.b) {
			t.Fatalf("%s fails", key())
		}
		note(q.size() > 1, key(), q.classes()...)
	})
}

// respellSegs writes a template in another way.
func respellSegs(c cloner, segs []seg) []seg {
	var out []seg
	question, dollar := true, 0
	for _, s := range segs {
		if s.kind == sBind {
			question = question && s.style == syntax.Question
			if dollar++; s.style == syntax.Dollar && s.idx != dollar {
				dollar = -1 << 20
			}
		}
	}
	swap := c.choose(0, 2) == 1
	asArg := c.choose(0, 3) == 1 // some or all bind variables as #arg
	n := 0
	for _, s := range segs {
		switch s.kind {
		case sBind:
			n++
			if asArg {
				if s.style == syntax.Question {
					s.style, s.idx = syntax.Dollar, n
				}
				if c.choose(0, 3) > 0 {
					s = seg{kind: sCall, fn: "arg", idx: s.idx, spell: c.choose(0, 5)}
				}
			} else if swap && question {
				s.style, s.idx = syntax.Dollar, n
			} else if swap && dollar > 0 {
				s.style, s.idx = syntax.Question, 0
			}
		case sCall:
			s.spell = c.choose(0, 5)
		case sJoin:
			j := *s.join
			j.spell = c.choose(0, 3)
			j.segs = respellSegs(c, j.segs)
			s.join = &j
		}
		if (s.kind == sCall || s.kind == sFunc) && (s.fn == "f" || s.fn == "fragment") {
			s.fn = []string{"f", "fragment"}[c.choose(0, 2)]
		}
		out = append(out, s)
	}
	if len(fixAdjacency(out)) != len(out) {
		return segs // it would read differently
	}
	return out
}

// respellTree is a copy of f written in another way.
func respellTree(c cloner, n node) node {
	switch n := n.(type) {
	case *fragN:
		return cloneOnce(c, n, func() *fragN {
			d := *n
			d.f = nil
			d.how = c.choose(0, 5)
			d.segs = respellSegs(c, n.segs)
			d.frs = append([]node(nil), n.frs...)
			for i, x := range d.frs {
				d.frs[i] = respellTree(c, x)
				if _, ok := x.(*textN); ok {
					continue // blanks around it count
				}
				for c.choose(0, 6) == 1 {
					d.frs[i] = &fragN{segs: []seg{{kind: sCall, fn: "f", idx: 1, spell: c.choose(0, 5)}}, frs: []node{d.frs[i]}, how: c.choose(0, 5)}
				}
			}
			return &d
		})
	case *exprN:
		return &exprN{respellTree(c, n.f).(*fragN)}
	case *queryN:
		return &queryN{sel: respellTree(c, n.sel).(*fragN), where: respellTree(c, n.where).(*fragN)}
	}
	return n
}

func TestC31_Fragments(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		root, all := genTree(t, treeOpts{wild: rapid.IntRange(0, 4).Draw(t, "wild") == 0, maxNodes: 5})
		for _, f := range all {
			// blanks around it do not count in a fragment
			f.prefix, f.suffix, f.f = strings.TrimSpace(f.prefix), strings.TrimSpace(f.suffix), nil
		}
		d := respellTree(cloner{spellKey{}: func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "spell") }}, root).(*fragN)
		key := func() string { return root.String() + "\nas " + d.String() }
		failed := sameQuery(t, key, root.frag(), d.frag())
		note(len(root.segs) > 0 && !failed, fmt.Sprint(root, " as ", d), cond(failed, "fragment failed"))
	})
}

// Conditions, columns and members given in one fragment or call, in lists of any kind, or one by one.
func TestC31_Groupings(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		tb := sqlb.NewTableAliased("users", "u")
		n := rapid.IntRange(1, 6).Draw(t, "n")
		texts, vals := make([]string, n), make([]any, n)
		for i := range texts {
			texts[i] = rapid.SampledFrom([]string{"a=?", "b", "u.x = ? OR y", "(c)", "d IN (?)", "NOT e", "", " ", "f=f"}).Draw(t, "item")
			vals[i] = rapid.SampledFrom([]any{1, 2, "a", nil}).Draw(t, "val")
		}
		item := func(i int) *sqlf.Fragment {
			if strings.Contains(texts[i], "?") {
				return sqlf.Fa(texts[i], vals[i])
			}
			return sqlf.F(texts[i])
		}
		sep := map[string]string{"where": " AND ", "group": ", ", "select": ", "}
		part := rapid.SampledFrom([]string{"where", "where", "group", "select"}).Draw(t, "part")
		// list makes one fragment of the items
		list := func(items []int) *sqlf.Fragment {
			how := rapid.IntRange(0, 3).Draw(t, "list")
			var frs []sqlf.FragmentBuilder
			var refs []string
			for _, i := range items {
				for rapid.IntRange(0, 9).Draw(t, "nil") == 0 && how < 3 {
					frs = append(frs, nil2)
				}
				frs = append(frs, item(i))
				refs = append(refs, fmt.Sprintf("#f%d", len(frs)))
			}
			switch how {
			case 0:
				return sqlf.Ff("#join('#f', '"+sep[part]+"')", frs...)
			case 1:
				return sqlf.Ff("#join('#fragment', '" + sep[part] + "')").WithFragments(frs...)
			case 2:
				return sqlf.Ff("#f1", sqlf.Ff(" #join('#f', '"+sep[part]+"') ", frs...))
			}
			for _, i := range items {
				if strings.TrimSpace(texts[i]) == "" {
					return sqlf.Ff("#join('#f', '"+sep[part]+"', 1)", frs...)
				}
			}
			return sqlf.Ff(strings.Join(refs, sep[part]), frs...)
		}
		make := func(grouped bool) *sqlb.QueryBuilder {
			b := sqlb.NewQueryBuilder().From(tb)
			if part != "select" {
				b.Select(tb.Column("id"))
			}
			cols := []*sqlb.Column{tb.Column("id")}
			for i := 0; i < n; {
				k := i + 1
				if grouped {
					k = rapid.IntRange(i+1, n).Draw(t, "to")
				}
				var f *sqlf.Fragment
				if k == i+1 {
					f = item(i)
				} else {
					var items []int
					for x := i; x < k; x++ {
						items = append(items, x)
					}
					f = list(items)
				}
				switch part {
				case "where":
					b.Where(f)
				case "group":
					b.GroupBy(sqlb.ExprColumn(f))
				case "select":
					cols = append(cols, sqlb.ExprColumn(f))
				}
				i = k
			}
			if part == "select" {
				b.Select(cols...)
			}
			return b
		}
		key := func() string { return fmt.Sprintf("%s %q %s", part, texts, showList(vals)) }
		note(n > 1, key(), "groupings of "+part, bucket("items", n))
		if sameQuery(t, key, make(false), make(true)) {
			t.Fatalf("%s fails", key())
		}
	})
}
