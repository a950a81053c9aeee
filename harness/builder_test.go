package verifharness

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// The reference model of the query builder, and generators of builder programs.

type btable struct{ name, alias string }

func (t btable) applied() string {
	if t.alias != "" {
		return t.alias
	}
	return t.name
}

func (t btable) real() sqlb.TableAliased {
	return sqlb.NewTableAliased(sqlb.Table(t.name), sqlb.Table(t.alias))
}

func (t btable) decl() string {
	if t.alias != "" {
		return t.name + " AS " + t.alias
	}
	return t.name
}

// bnode is an expression or query inside of a query builder.
type bnode interface {
	real() sqlf.FragmentBuilder
	clone(c cloner) bnode
	toks() []tok
	tables() []string // applied names of the tables it's known to use
	String() string
}

// cloner makes copies of nodes and query builders which have nothing in common with
// the originals but the values.
type cloner map[any]any

func cloneOnce[T any](c cloner, of T, make func() T) T {
	if have, ok := c[of]; ok {
		return have.(T)
	}
	n := make()
	c[of] = n
	return n
}

// valuesKey is the key in a cloner of what tells the values of the copies.
type valuesKey struct{}

func (c cloner) val(v any) any {
	if fn, ok := c[valuesKey{}]; ok {
		return fn.(func(any) any)(v)
	}
	return v
}

func (c cloner) vals(list []any) []any {
	var out []any
	for _, v := range list {
		out = append(out, c.val(v))
	}
	return out
}

// spellKey is the key in a cloner of what chooses how the copies are written.
type spellKey struct{}

func (c cloner) respells() bool { _, ok := c[spellKey{}]; return ok }

// choose returns a number below n, or as is if the copy is to be written like the original.
func (c cloner) choose(as, n int) int {
	if fn, ok := c[spellKey{}]; ok {
		return fn.(func(int) int)(n)
	}
	return as
}

func (c *bcol) clone(k cloner) bnode {
	return cloneOnce(k, c, func() *bcol {
		n := *c
		n.c = nil
		n.how = k.choose(n.how, 6)
		return &n
	})
}
func (c *btab) clone(k cloner) bnode  { return &btab{c.tbl, k.choose(c.how, 2)} }
func (f *bfrag) clone(c cloner) bnode { return f.copy(c) }
func (f *bfrag) copy(c cloner) *bfrag {
	if f == nil {
		return nil
	}
	return cloneOnce(c, f, func() *bfrag {
		n := *f
		n.f = nil
		n.pieces = append([]bpiece(nil), f.pieces...)
		n.how = c.choose(n.how, 6)
		n.args = c.choose(n.args, 3)
		if c.choose(0, 2) == 1 {
			n.dollar = !n.dollar
		}
		for i, p := range n.pieces {
			switch p.is {
			case 1:
				n.pieces[i].val = c.val(p.val)
			case 2:
				n.pieces[i].node = p.node.clone(c)
				for c.choose(0, 8) == 1 {
					n.pieces[i].node = &bfrag{pieces: []bpiece{{is: 2, node: n.pieces[i].node}}, how: c.choose(0, 6)}
				}
			}
		}
		return &n
	})
}
func (e *bexpr) clone(c cloner) bnode {
	return cloneOnce(c, e, func() *bexpr { return &bexpr{f: e.f.copy(c)} })
}
func (n *bquery) clone(c cloner) bnode { return &bquery{n.q.copy(c)} }

func cloneCols(c cloner, cols []bcolumn) []bcolumn {
	var out []bcolumn
	for _, x := range cols {
		out = append(out, x.clone(c).(bcolumn))
	}
	return out
}

func (q *bq) copy(c cloner) *bq {
	return cloneOnce(c, q, func() *bq {
		n := newBQ()
		if c.respells() {
			q.respell(n, c)
			return n
		}
		for _, call := range q.redo {
			call.do(n, c)
		}
		return n
	})
}

// bcol is a column of a table.
type bcol struct {
	tbl  btable
	name string
	anon bool
	how  int
	c    *sqlb.Column
}

// col returns the same column whenever it's asked for.
func (c *bcol) col() *sqlb.Column {
	if c.c == nil {
		c.c = c.make()
	}
	return c.c
}

func (c *bcol) make() *sqlb.Column {
	switch {
	case c.how >= 3:
		// one of an expression which is the column
		n := *c
		n.how -= 3
		if n.how == 0 {
			return sqlb.ExprColumns(sqlf.Ff("#f1", n.make()))[0]
		}
		return sqlb.ExprColumn(sqlf.Ff("#fragment(1)", n.make()))
	case c.anon && c.how%2 == 0:
		return c.tbl.real().AnonymousColumn(c.name)
	case c.anon:
		return sqlb.Table(c.tbl.applied()).AnonymousColumns(c.name)[0]
	case c.how%3 == 0:
		return c.tbl.real().Column(c.name)
	case c.how%3 == 1:
		return c.tbl.real().Columns("zz", c.name)[1]
	default:
		return sqlb.Table(c.tbl.applied()).Column(c.name)
	}
}
func (c *bcol) real() sqlf.FragmentBuilder { return c.col() }
func (c *bcol) text() string {
	if c.anon {
		return c.name
	}
	return c.tbl.applied() + "." + c.name
}
func (c *bcol) toks() []tok      { return text(c.text()) }
func (c *bcol) tables() []string { return []string{c.tbl.applied()} }
func (c *bcol) String() string {
	if c.anon {
		return c.tbl.applied() + "~" + c.name
	}
	return c.text()
}

// btab is a table used as a fragment.
type btab struct {
	tbl btable
	how int
}

func (c *btab) real() sqlf.FragmentBuilder {
	if c.how%2 == 0 {
		return c.tbl.real()
	}
	return sqlb.Table(c.tbl.applied())
}
func (c *btab) toks() []tok      { return text(c.tbl.applied()) }
func (c *btab) tables() []string { return []string{c.tbl.applied()} }
func (c *btab) String() string   { return "table " + c.tbl.applied() }

// bfrag is a fragment of text, values and nodes.
type bpiece struct {
	text string
	val  any
	is   int // 0 text, 1 value, 2 node
	node bnode
}

type bfrag struct {
	pieces []bpiece
	dollar bool
	how    int
	args   int // how args are written: ? or $n, or #arg
	prefix string
	f      *sqlf.Fragment
}

func (f *bfrag) frag() *sqlf.Fragment {
	if f.f != nil {
		return f.f
	}
	b := new(strings.Builder)
	var args []any
	var frs []sqlf.FragmentBuilder
	for _, p := range f.pieces {
		switch p.is {
		case 0:
			b.WriteString(p.text)
		case 1:
			args = append(args, p.val)
			switch n := itoa(len(args)); {
			case f.args == 1:
				b.WriteString("#arg" + n)
			case f.args == 2:
				b.WriteString("#arg(" + n + ")")
			case f.dollar:
				b.WriteString("$" + n)
			default:
				b.WriteString("?")
			}
		case 2:
			frs = append(frs, p.node.real())
			switch n := itoa(len(frs)); f.how {
			case 0:
				b.WriteString("#f" + n)
			case 1:
				b.WriteString("#fragment(" + n + ")")
			case 2:
				b.WriteString("#f( " + n + ")")
			case 3:
				b.WriteString("#fragment" + n)
			case 4:
				b.WriteString("#join('#f', ', ', " + n + ", " + n + ")")
			case 5:
				b.WriteString("#join('#fragment', '', " + n + ", " + n + ")")
			default:
				panic(f.how)
			}
		}
	}
	f.f = sqlf.F(b.String()).WithArgs(args...).WithFragments(frs...).WithPrefix(f.prefix)
	return f.f
}
func (f *bfrag) real() sqlf.FragmentBuilder { return f.frag() }
func (f *bfrag) toks() []tok {
	var out []tok
	for _, p := range f.pieces {
		switch p.is {
		case 0:
			out = append(out, tok{text: p.text})
		case 1:
			out = append(out, tok{ph: true, v: p.val})
		case 2:
			out = append(out, p.node.toks()...)
		}
	}
	return decorate(out, f.prefix, "")
}
func (f *bfrag) tables() (out []string) {
	for _, p := range f.pieces {
		if p.is == 2 {
			out = append(out, p.node.tables()...)
		}
	}
	return
}
func (f *bfrag) String() string {
	b := new(strings.Builder)
	if f.prefix != "" {
		b.WriteString(f.prefix + "+")
	}
	b.WriteString("`")
	for _, p := range f.pieces {
		switch p.is {
		case 0:
			b.WriteString(p.text)
		case 1:
			fmt.Fprintf(b, "{%v}", p.val)
		case 2:
			b.WriteString("[" + p.node.String() + "]")
		}
	}
	b.WriteString("`")
	return b.String()
}

// bnil is a nil fragment.
type bnil struct{}

func (bnil) real() sqlf.FragmentBuilder { return (*sqlf.Fragment)(nil) }
func (bnil) clone(cloner) bnode         { return bnil{} }
func (bnil) toks() []tok                { return nil }
func (bnil) tables() []string           { return nil }
func (bnil) String() string             { return "nil" }

// blist is a list of nodes that #join writes.
type blist struct {
	items []bnode
	sep   string
	f     *sqlf.Fragment
}

func (l *blist) real() sqlf.FragmentBuilder {
	if l.f == nil {
		l.f = sqlf.F("#join('#f', '" + l.sep + "')")
		for _, n := range l.items {
			l.f.Fragments = append(l.f.Fragments, n.real())
		}
	}
	return l.f
}
func (l *blist) clone(c cloner) bnode {
	return cloneOnce(c, l, func() *blist {
		n := &blist{sep: l.sep}
		for _, i := range l.items {
			n.items = append(n.items, i.clone(c))
		}
		return n
	})
}
func (l *blist) toks() (out []tok) {
	for _, n := range l.items {
		toks := n.toks()
		if len(toks) == 0 {
			continue
		}
		if len(out) > 0 {
			out = append(out, tok{text: l.sep})
		}
		out = append(out, toks...)
	}
	return
}
func (l *blist) tables() (out []string) {
	for _, n := range l.items {
		out = append(out, n.tables()...)
	}
	return
}
func (l *blist) String() string {
	var parts []string
	for _, n := range l.items {
		parts = append(parts, n.String())
	}
	return "join(" + strings.Join(parts, l.sep) + ")"
}

// bexpr is a column of an expression.
type bexpr struct {
	f *bfrag
	c *sqlb.Column
}

func (e *bexpr) col() *sqlb.Column {
	if e.c == nil {
		if len(e.f.pieces)%2 == 0 {
			e.c = sqlb.ExprColumns(sqlf.F("zz"), e.f.frag())[1]
		} else {
			e.c = sqlb.ExprColumn(e.f.frag())
		}
	}
	return e.c
}
func (e *bexpr) real() sqlf.FragmentBuilder { return e.col() }
func (e *bexpr) toks() []tok                { return e.f.toks() }
func (e *bexpr) tables() []string           { return e.f.tables() }
func (e *bexpr) String() string             { return "expr" + e.f.String() }

// bcolumn is what is given where a *sqlb.Column is wanted.
type bcolumn interface {
	bnode
	col() *sqlb.Column
}

type bjoin struct {
	kind     string
	tbl      btable
	on       *bfrag // nil if there is none
	optional bool
}

type bcte struct {
	name string
	body bnode
	deps []string
}

type border struct {
	col   bcolumn
	order sqlb.Order
}

var orderNames = []string{"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST"}

// bq is a query builder and the model of it.
type bq struct {
	b        *sqlb.QueryBuilder
	from     *btable
	joins    []*bjoin
	selects  []bcolumn
	conds    []bnode
	groupbys []bcolumn
	orders   []border
	distinct bool
	limit    int64
	offset   int64
	ctes     []*bcte
	unions   []bnode
	hist     []string
	pool     []bnode // not empty ones that were generated for it, for use again
	redo     []bcall // makes the same calls to another one
	chain    bool    // calls are made to what the one before returned
}

// use is called with what a method of q.b returned.
func (q *bq) use(b *sqlb.QueryBuilder) {
	if q.chain {
		q.b = b
	}
}

type bcall struct {
	part string // calls for different parts can be made in any order
	do   func(*bq, cloner)
}

func (q *bq) called(part string, f func(*bq, cloner)) { q.redo = append(q.redo, bcall{part, f}) }

func newBQ() *bq { return &bq{b: sqlb.NewQueryBuilder()} }

func (q *bq) log(f string, a ...any) { q.hist = append(q.hist, fmt.Sprintf(f, a...)) }

func (q *bq) String() string { return strings.Join(q.hist, "; ") }

func (q *bq) doFrom(t btable) {
	q.called("from", func(d *bq, c cloner) { d.doFrom(t) })
	q.log("From(%s)", t.decl())
	q.from = &t
	q.use(q.b.From(t.real()))
}

func (q *bq) doJoin(j *bjoin) {
	q.called("join", func(d *bq, c cloner) { n := *j; n.on = j.on.copy(c); d.doJoin(&n) })
	on := "-"
	var f *sqlf.Fragment
	if j.on != nil {
		on, f = j.on.String(), j.on.frag()
	}
	q.log("%s(%s, %s, optional=%v)", j.kind, j.tbl.decl(), on, j.optional)
	replaced := false
	for i, o := range q.joins {
		if o.tbl.applied() == j.tbl.applied() {
			q.joins[i], replaced = j, true
		}
	}
	if !replaced {
		q.joins = append(q.joins, j)
	}
	t := j.tbl.real()
	switch j.kind {
	case "INNER":
		q.use(q.b.InnerJoin(t, f))
	case "LEFT":
		if j.optional {
			q.use(q.b.LeftJoinOptional(t, f))
		} else {
			q.use(q.b.LeftJoin(t, f))
		}
	case "RIGHT":
		q.use(q.b.RightJoin(t, f))
	case "FULL":
		q.use(q.b.FullJoin(t, f))
	case "CROSS":
		q.use(q.b.CrossJoin(t))
	default:
		panic(j.kind)
	}
}

func (q *bq) doSelect(cols []bcolumn) {
	q.called("select", func(d *bq, c cloner) { d.doSelect(cloneCols(c, cols)) })
	var real []*sqlb.Column
	var desc []string
	for _, c := range cols {
		real = append(real, c.col())
		desc = append(desc, c.String())
	}
	q.log("Select(%s)", strings.Join(desc, ", "))
	if len(cols) > 0 {
		q.selects = cols
	}
	q.use(q.b.Select(real...))
}

func (q *bq) doWhere(f *bfrag) {
	q.called("where", func(d *bq, c cloner) { d.doWhere(f.copy(c)) })
	if f == nil {
		q.log("Where(nil)")
		q.use(q.b.Where(nil))
		return
	}
	q.log("Where(%s)", f)
	q.conds = append(q.conds, f)
	q.use(q.b.Where(f.frag()))
}

func (q *bq) doWhere2(c bcolumn, op string, v any) {
	q.called("where", func(d *bq, k cloner) { d.doWhere2(c.clone(k).(bcolumn), op, k.val(v)) })
	q.log("Where2(%s %q %v)", c, op, v)
	q.conds = append(q.conds, &bfrag{pieces: []bpiece{{is: 2, node: c}, {text: op}, {is: 1, val: v}}})
	q.use(q.b.Where2(c.col(), op, v))
}

func (q *bq) doWhereIn(c bcolumn, vals []any, not bool) {
	q.called("where", func(d *bq, k cloner) { d.doWhereIn(c.clone(k).(bcolumn), k.vals(vals), not) })
	op := " IN ("
	if not {
		op = " NOT IN ("
		q.use(q.b.WhereNotIn(c.col(), vals))
	} else {
		q.use(q.b.WhereIn(c.col(), vals))
	}
	q.log("Where%s%s%v)", c, op, vals)
	f := &bfrag{pieces: []bpiece{{is: 2, node: c}, {text: op}}}
	for i, v := range vals {
		if i > 0 {
			f.pieces = append(f.pieces, bpiece{text: ", "})
		}
		f.pieces = append(f.pieces, bpiece{is: 1, val: v})
	}
	f.pieces = append(f.pieces, bpiece{text: ")"})
	q.conds = append(q.conds, f)
}

func (q *bq) doGroupBy(cols ...bcolumn) {
	q.called("group", func(d *bq, c cloner) { d.doGroupBy(cloneCols(c, cols)...) })
	var real []*sqlb.Column
	for _, c := range cols {
		q.log("GroupBy(%s)", c)
		real = append(real, c.col())
	}
	q.groupbys = append(q.groupbys, cols...)
	q.use(q.b.GroupBy(real...))
}

func (q *bq) doOrderBy(c bcolumn, o sqlb.Order) {
	q.called("order", func(d *bq, k cloner) { d.doOrderBy(c.clone(k).(bcolumn), o) })
	q.log("OrderBy(%s, %d)", c, o)
	q.orders = append(q.orders, border{c, o})
	q.use(q.b.OrderBy(c.col(), o))
}

func (q *bq) doDistinct() {
	q.called("distinct", func(d *bq, c cloner) { d.doDistinct() })
	q.log("Distinct()")
	q.distinct = true
	q.use(q.b.Distinct())
}

func (q *bq) doLimit(n int64) {
	q.called("limit", func(d *bq, c cloner) { d.doLimit(n) })
	q.log("Limit(%d)", n)
	if n > 0 {
		q.limit = n
	}
	q.use(q.b.Limit(n))
}

func (q *bq) doOffset(n int64) {
	q.called("offset", func(d *bq, c cloner) { d.doOffset(n) })
	q.log("Offset(%d)", n)
	if n > 0 {
		q.offset = n
	}
	q.use(q.b.Offset(n))
}

func (q *bq) doWith(c *bcte) {
	q.called("with", func(d *bq, k cloner) { d.doWith(&bcte{c.name, c.body.clone(k), append([]string(nil), c.deps...)}) })
	q.log("With(%s, %s, %v)", c.name, c.body, c.deps)
	q.ctes = append(q.ctes, c)
	var deps []sqlb.Table
	for _, d := range c.deps {
		deps = append(deps, sqlb.Table(d))
	}
	q.use(q.b.With(sqlb.Table(c.name), c.body.real(), deps...))
}

func (q *bq) doUnion(nodes ...bnode) {
	q.called("union", func(d *bq, c cloner) {
		var out []bnode
		for _, n := range nodes {
			out = append(out, n.clone(c))
		}
		d.doUnion(out...)
	})
	var real []sqlf.FragmentBuilder
	for _, n := range nodes {
		q.log("Union(%s)", n)
		real = append(real, n.real())
	}
	q.unions = append(q.unions, nodes...)
	q.use(q.b.Union(real...))
}

// embeddedQB is a builder extended the documented way.
type embeddedQB struct{ *sqlb.QueryBuilder }

// bquery is a query builder used inside of another one.
type bquery struct{ q *bq }

func (n *bquery) real() sqlf.FragmentBuilder {
	if len(n.q.hist)%3 == 1 {
		return embeddedQB{n.q.b}
	}
	return n.q.b
}
func (n *bquery) toks() []tok      { return n.q.toks() }
func (n *bquery) tables() []string { return nil }
func (n *bquery) String() string   { return "query{" + n.q.String() + "}" }

// needed returns the applied names of the tables that are needed if the optional joins
// nothing needs are left out.
func (q *bq) needed() map[string]bool {
	need := map[string]bool{}
	on := map[string]*bfrag{}
	for _, j := range q.joins {
		on[j.tbl.applied()] = j.on
	}
	var add func(names []string)
	add = func(names []string) {
		for _, n := range names {
			if need[n] {
				continue
			}
			need[n] = true
			if f := on[n]; f != nil {
				add(f.tables())
			}
		}
	}
	for _, c := range q.selects {
		add(c.tables())
	}
	for _, c := range q.conds {
		add(c.tables())
	}
	for _, c := range q.groupbys {
		add(c.tables())
	}
	for _, o := range q.orders {
		add(o.col.tables())
	}
	for _, j := range q.joins {
		if !j.optional {
			add([]string{j.tbl.applied()})
		}
	}
	return need
}

// kept returns the joins that are not left out.
func (q *bq) kept() []*bjoin {
	if !q.distinct {
		return q.joins
	}
	need := q.needed()
	var out []*bjoin
	for _, j := range q.joins {
		if !j.optional || need[j.tbl.applied()] {
			out = append(out, j)
		}
	}
	return out
}

// emittedCTEs returns the CTEs that are needed and not empty.
func (q *bq) emittedCTEs() []*bcte {
	need := map[string]bool{}
	byName := map[string]*bcte{}
	for _, c := range q.ctes {
		byName[c.name] = c
	}
	var add func(name string)
	add = func(name string) {
		c, ok := byName[name]
		if !ok || need[name] {
			return
		}
		need[name] = true
		for _, d := range c.deps {
			add(d)
		}
	}
	if q.from != nil {
		add(q.from.name)
	}
	for _, j := range q.kept() {
		add(j.tbl.name)
	}
	var out []*bcte
	for _, c := range q.ctes {
		if need[c.name] && len(mergeToks(c.body.toks())) > 0 {
			out = append(out, c)
		}
	}
	return out
}

func joinToks(list [][]tok, sep string) []tok {
	var out []tok
	for _, t := range list {
		t = mergeToks(t)
		if len(t) == 0 {
			continue
		}
		if len(out) > 0 {
			out = append(out, tok{text: sep})
		}
		out = append(out, t...)
	}
	return out
}

func (q *bq) fromToks() []tok {
	out := text("FROM " + q.from.decl())
	for _, j := range q.kept() {
		out = append(out, tok{text: " " + j.kind + " JOIN " + j.tbl.decl()})
		if j.on == nil || j.kind == "CROSS" {
			continue
		}
		if on := mergeToks(j.on.toks()); len(on) > 0 {
			out = append(out, tok{text: " ON "})
			out = append(out, on...)
		}
	}
	return out
}

// toks is what q builds to, in its parts.
func (q *bq) toks() []tok {
	var parts [][]tok
	var ctes [][]tok
	for _, c := range q.emittedCTEs() {
		t := append(text(c.name+" AS ("), c.body.toks()...)
		ctes = append(ctes, append(t, tok{text: ")"}))
	}
	if len(ctes) > 0 {
		parts = append(parts, append(text("With "), joinToks(ctes, ", ")...))
	}
	var sel [][]tok
	for _, c := range q.selects {
		sel = append(sel, c.toks())
	}
	var orders [][]tok
	for i, o := range q.orders {
		if q.distinct {
			alias := fmt.Sprintf("_order_%d", i+1)
			sel = append(sel, append(mergeToks(o.col.toks()), tok{text: " AS " + alias}))
			orders = append(orders, text(alias+" "+orderNames[o.order]))
			continue
		}
		orders = append(orders, append(mergeToks(o.col.toks()), tok{text: " " + orderNames[o.order]}))
	}
	head := "SELECT "
	if q.distinct {
		head = "SELECT DISTINCT "
	}
	parts = append(parts, append(text(head), joinToks(sel, ", ")...))
	parts = append(parts, q.fromToks())
	clause := func(head, sep string, items [][]tok) {
		if t := joinToks(items, sep); len(t) > 0 {
			parts = append(parts, append(text(head), t...))
		}
	}
	var conds, groups [][]tok
	for _, c := range q.conds {
		conds = append(conds, c.toks())
	}
	for _, c := range q.groupbys {
		groups = append(groups, c.toks())
	}
	clause("WHERE ", " AND ", conds)
	clause("GROUP BY ", ", ", groups)
	clause("ORDER BY ", ", ", orders)
	if q.limit > 0 {
		parts = append(parts, text(fmt.Sprintf("LIMIT %d", q.limit)))
	}
	if q.offset > 0 {
		parts = append(parts, text(fmt.Sprintf("OFFSET %d", q.offset)))
	}
	for _, u := range q.unions {
		if t := mergeToks(u.toks()); len(t) > 0 {
			parts = append(parts, append(append(text("UNION ("), t...), tok{text: ")"}))
		}
	}
	return mergeToks(joinToks(parts, " "))
}

// render writes tokens with placeholders of a style, and returns the args.
func render(toks []tok, style syntax.BindVarStyle) (string, []any) {
	root := &ctxRoot{style: style}
	b := new(strings.Builder)
	for _, t := range toks {
		if t.ph {
			b.WriteString(root.commit(t.v))
		} else {
			b.WriteString(t.text)
		}
	}
	return b.String(), root.args
}

// ---------------------------------------------------------------------------
// generators

// bopts tells what builder programs to generate.
type bopts struct {
	maxJoins   int
	ctes       int // at most
	cteNeeded  bool
	unions     bool
	nested     bool // query builders in expressions
	optional   bool // optional joins
	distinct   int  // in 10
	orders     bool
	emptyParts bool // expressions that build to nothing
	noValues   bool
	val        func(t *rapid.T) (pre string, v any)
	inVals     func(t *rapid.T) (col string, vals []any)
	depth      int
	noSelect   bool   // of the outermost builder
	oddNames   bool   // of tables and columns
	inside     bool   // of another builder
	many       string // the part there are many of
}

// n draws how many there are of a part of a builder.
func (o bopts) n(t *rapid.T, part string, min, max int) int {
	if o.many == part {
		if rapid.IntRange(0, 5).Draw(t, "very many") == 0 {
			return rapid.SampledFrom([]int{17, 33, 65, 101, 140}).Draw(t, "many "+part)
		}
		return rapid.IntRange(8, 13).Draw(t, "many "+part)
	}
	return rapid.IntRange(min, max).Draw(t, part)
}

func (o bopts) value(t *rapid.T) (string, any) {
	if o.val != nil {
		return o.val(t)
	}
	return rapid.SampledFrom([]string{"", "x=", "n > "}).Draw(t, "pre"), genArg().Draw(t, "val")
}

var tableNames = []string{"users", "foo", "bar", "baz", "qux"}
var colNames = []string{"id", "name", "x", "y", "*"}

// names that are not plain ones
var oddTableNames = []string{"public.users", `"Order"`, "a.b.c", "`t`", "été", "users_2", "Users", "userGroups", "order", "public.foo"}
var oddColNames = []string{"a.b", `"Mixed Case"`, "x::text", "data->'k'", "été", "count(*)", "f(a, b)", "users.id", "1", "id_2", "a.*", "userId", "iD_x", "UserID", "ID", "order", "select", "ALL"}

// genTables generates tables of different applied names.
func genTables(t *rapid.T, o bopts, n int, taken map[string]bool) []btable {
	var out []btable
	for i := 0; len(out) < n && i < 50+2*n; i++ {
		tb := btable{name: rapid.SampledFrom(tableNames).Draw(t, "table")}
		if o.oddNames && rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
			tb.name = rapid.SampledFrom(oddTableNames).Draw(t, "table")
		}
		switch rapid.IntRange(0, 3).Draw(t, "aliased") {
		case 0:
		case 1:
			tb.alias = rapid.SampledFrom(tableNames).Draw(t, "alias") // a name that is also a table's
		default:
			tb.alias = rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f"}).Draw(t, "alias")
			if n > 8 {
				tb.alias += itoa(i)
			}
		}
		if !taken[tb.applied()] {
			taken[tb.applied()] = true
			out = append(out, tb)
		}
	}
	return out
}

func genBCol(t *rapid.T, o bopts, tables []btable) *bcol {
	c := &bcol{
		tbl:  rapid.SampledFrom(tables).Draw(t, "of"),
		name: rapid.SampledFrom(colNames).Draw(t, "col"),
		anon: rapid.IntRange(0, 5).Draw(t, "anon") == 0,
		how:  rapid.IntRange(0, 2).Draw(t, "how"),
	}
	if o.oddNames && rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
		c.name = rapid.SampledFrom(oddColNames).Draw(t, "col")
	}
	return c
}

// genBFrag generates an expression, which is never empty.
func genBFrag(t *rapid.T, o bopts, tables []btable, depth int) *bfrag {
	f := &bfrag{dollar: rapid.Bool().Draw(t, "dollar"), how: rapid.IntRange(0, 1).Draw(t, "how")}
	add := func(p bpiece) { f.pieces = append(f.pieces, p) }
	n := rapid.IntRange(1, 3).Draw(t, "pieces")
	add(bpiece{text: rapid.SampledFrom([]string{"(", "f(", "1+", "("}).Draw(t, "open")})
	opened := strings.HasSuffix(f.pieces[0].text, "(")
	for i := 0; i < n; i++ {
		if i > 0 {
			add(bpiece{text: rapid.SampledFrom([]string{" + ", " = ", "||", " OR "}).Draw(t, "op")})
		}
		k := rapid.IntRange(0, 9).Draw(t, "piece")
		switch {
		case k < 3 && len(tables) > 0:
			more := rapid.IntRange(0, 11).Draw(t, "more")
			switch more {
			case 0:
				add(bpiece{is: 2, node: bnil{}})
			case 1:
				add(bpiece{is: 2, node: emptyFrag(t)})
			case 2:
				l := &blist{sep: rapid.SampledFrom([]string{", ", " AND ", "-"}).Draw(t, "sep")}
				for j, m := 0, rapid.IntRange(0, 3).Draw(t, "listed"); j < m; j++ {
					l.items = append(l.items, rapid.SampledFrom([]bnode{bnil{}, emptyFrag(t), genBCol(t, o, tables), genBCol(t, o, tables)}).Draw(t, "item"))
				}
				// in parentheses, for those who tell items of a list by the separator
				add(bpiece{text: "("})
				add(bpiece{is: 2, node: l})
				add(bpiece{text: ")"})
			}
			if more < 3 {
				add(bpiece{text: " * "})
			}
			add(bpiece{is: 2, node: genBCol(t, o, tables)})
		case k < 6 && !o.noValues:
			pre, v := o.value(t)
			add(bpiece{text: pre})
			add(bpiece{is: 1, val: v})
		case k == 6 && len(tables) > 0:
			add(bpiece{is: 2, node: &btab{rapid.SampledFrom(tables).Draw(t, "tab"), rapid.IntRange(0, 1).Draw(t, "how")}})
			add(bpiece{text: ".z"})
		case k == 7 && depth > 0:
			add(bpiece{is: 2, node: genBFrag(t, o, tables, depth-1)})
		case k == 8 && depth > 0 && len(tables) > 0:
			add(bpiece{is: 2, node: &bexpr{f: genBFrag(t, o, tables, depth-1)}})
		case k == 9 && depth > 0 && o.nested && o.depth > 0:
			add(bpiece{text: "("})
			add(bpiece{is: 2, node: &bquery{genBQ(t, o.inner())}})
			add(bpiece{text: ")"})
		default:
			add(bpiece{text: "lit"})
		}
	}
	if opened {
		add(bpiece{text: ")"})
	}
	return f
}

// inner are the options for a builder inside of one.
func (o bopts) inner() bopts {
	o.depth--
	o.inside, o.many = true, ""
	o.noSelect = false
	if o.maxJoins > 1 {
		o.maxJoins = 1
	}
	if o.ctes > 1 {
		o.ctes = 1
	}
	o.unions = o.unions && o.depth > 0
	return o
}

// again returns a node generated for q before, of the type wanted.
func again[T bnode](t *rapid.T, q *bq) (n T, ok bool) {
	var have []T
	for _, p := range q.pool {
		if p, is := p.(T); is {
			have = append(have, p)
		}
	}
	if len(have) == 0 || rapid.IntRange(0, 5).Draw(t, "again") > 0 {
		return
	}
	return rapid.SampledFrom(have).Draw(t, "one"), true
}

// genBColumnOf generates a column, which may be one that was generated for q before.
func genBColumnOf(t *rapid.T, o bopts, q *bq, tables []btable) bcolumn {
	if c, ok := again[bcolumn](t, q); ok {
		return c
	}
	if f, ok := again[*bfrag](t, q); ok {
		return &bexpr{f: f}
	}
	c := genBColumn(t, o, tables)
	q.pool = append(q.pool, c)
	return c
}

func genBColumn(t *rapid.T, o bopts, tables []btable) bcolumn {
	if rapid.IntRange(0, 2).Draw(t, "expr") == 0 {
		return &bexpr{f: genBFrag(t, o, tables, 1)}
	}
	return genBCol(t, o, tables)
}

func emptyFrag(t *rapid.T) *bfrag {
	return &bfrag{pieces: []bpiece{{text: rapid.SampledFrom([]string{"", " ", "\n"}).Draw(t, "blank")}}, prefix: rapid.SampledFrom([]string{"", "p"}).Draw(t, "prefix")}
}

func genBColumns(t *rapid.T, o bopts, q *bq, tables []btable, min, max int) []bcolumn {
	var out []bcolumn
	for i, n := 0, rapid.IntRange(min, max).Draw(t, "cols"); i < n; i++ {
		if o.emptyParts && i > 0 && rapid.IntRange(0, 9).Draw(t, "empty") == 0 {
			out = append(out, &bexpr{f: emptyFrag(t)})
			continue
		}
		out = append(out, genBColumnOf(t, o, q, tables))
	}
	return out
}

// genOn generates the condition of a join of t. It uses tables of the list only.
func genOn(t *rapid.T, o bopts, tb btable, tables []btable) *bfrag {
	switch rapid.IntRange(0, 9).Draw(t, "on") {
	case 0:
		return nil
	case 1:
		if o.emptyParts {
			return emptyFrag(t)
		}
		return nil
	}
	f := &bfrag{how: rapid.IntRange(0, 1).Draw(t, "how")}
	f.pieces = append(f.pieces, bpiece{is: 2, node: genBCol(t, o, []btable{tb})}, bpiece{text: "="})
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "refs"); i < n && len(tables) > 0; i++ {
		f.pieces = append(f.pieces, bpiece{is: 2, node: genBCol(t, o, tables)}, bpiece{text: rapid.SampledFrom([]string{"+", " AND "}).Draw(t, "op")})
	}
	f.pieces = append(f.pieces, bpiece{is: 2, node: genBFrag(t, o, tables, 1)})
	return f
}

func genJoinDecl(t *rapid.T, o bopts, tb btable, tables []btable) *bjoin {
	j := &bjoin{tbl: tb, kind: rapid.SampledFrom([]string{"INNER", "LEFT", "LEFT", "LEFT", "RIGHT", "FULL", "CROSS"}).Draw(t, "kind")}
	if j.kind != "CROSS" {
		j.on = genOn(t, o, tb, tables)
	}
	if o.optional && rapid.IntRange(0, 2).Draw(t, "optional") > 0 {
		j.kind, j.optional = "LEFT", true
		if j.on == nil {
			j.on = genOn(t, o, tb, tables)
		}
	}
	return j
}

// genOps generates the calls that make a valid builder, in an order where
// they can be reordered as wanted.
func genOps(t *rapid.T, o bopts, q *bq) (ops []func(), tables []btable) {
	if !o.inside && rapid.IntRange(0, 24).Draw(t, "large") == 0 {
		parts := []string{"selects", "conds", "groupbys"}
		if o.maxJoins > 0 {
			parts = append(parts, "joins")
		}
		if !o.noValues {
			parts = append(parts, "in")
		}
		if o.orders {
			parts = append(parts, "orders", "orders")
		}
		if o.ctes > 0 && !o.cteNeeded {
			parts = append(parts, "ctes")
		}
		if o.unions {
			parts = append(parts, "unions")
		}
		o.many = rapid.SampledFrom(parts).Draw(t, "part")
		o.depth, o.nested = 0, false
	}
	taken := map[string]bool{}
	tables = genTables(t, o, 1+o.n(t, "joins", 0, o.maxJoins), taken)
	from, joined := tables[0], tables[1:]
	do := func(fn func()) { ops = append(ops, fn) }
	do(func() { q.doFrom(from) })
	for _, tb := range joined {
		j := genJoinDecl(t, o, tb, tables)
		do(func() { q.doJoin(j) })
	}
	used := tables
	if o.optional && len(tables) > 1 {
		// leave some to be dropped
		used = tables[:rapid.IntRange(1, len(tables)).Draw(t, "used")]
	}
	if !o.noSelect && rapid.IntRange(0, 3).Draw(t, "reselect") == 0 {
		cols := genBColumns(t, o, newBQ(), tables, 0, 2)
		do(func() { q.doSelect(cols) })
	}
	nsel := o.n(t, "selects", 1, 3)
	cols := genBColumns(t, o, q, used, nsel, nsel)
	final := func() { q.doSelect(cols) }
	for i, n := 0, o.n(t, "conds", 0, 3); i < n; i++ {
		switch k := rapid.IntRange(0, 6).Draw(t, "cond"); {
		case k == 0 && o.emptyParts:
			f := emptyFrag(t)
			do(func() { q.doWhere(f) })
		case k == 1 && o.emptyParts:
			do(func() { q.doWhere(nil) })
		case k == 2 && !o.noValues:
			c := genBCol(t, o, used)
			op := rapid.SampledFrom([]string{"=", " > ", " LIKE ", " IS DISTINCT FROM ", "->>", " = '?' || ", " ?? ", " = -"}).Draw(t, "op")
			var v any
			if o.val != nil {
				var pre string
				pre, v = o.val(t)
				c.name, op = strings.TrimSuffix(pre, "="), "="
			} else {
				v = genArg().Draw(t, "val")
			}
			do(func() { q.doWhere2(c, op, v) })
		case k == 3 && !o.noValues:
			c := genBCol(t, o, used)
			var vals []any
			if o.inVals != nil {
				c.name, vals = o.inVals(t)
			} else {
				n := o.n(t, "in", 1, 3)
				vals = rapid.SliceOfN(genArg(), n, n).Draw(t, "vals")
			}
			not := rapid.Bool().Draw(t, "not")
			do(func() { q.doWhereIn(c, vals, not) })
		default:
			f, ok := again[*bfrag](t, q)
			if !ok {
				f = genBFrag(t, o, used, 2)
				q.pool = append(q.pool, f)
			}
			do(func() { q.doWhere(f) })
		}
	}
	if o.many == "groupbys" || rapid.IntRange(0, 2).Draw(t, "grouped") == 0 {
		n := o.n(t, "groupbys", 1, 2)
		cols := genBColumns(t, o, q, used, n, n)
		do(func() { q.doGroupBy(cols...) })
	}
	distinct := rapid.IntRange(1, 10).Draw(t, "distinct") <= o.distinct
	if distinct {
		do(func() { q.doDistinct() })
		if rapid.Bool().Draw(t, "distinct again") {
			do(func() { q.doDistinct() })
		}
	}
	if o.orders {
		for i, n := 0, o.n(t, "orders", 0, 3); i < n; i++ {
			c := genBColumnOf(t, o, q, used)
			dir := sqlb.Order(rapid.IntRange(0, 5).Draw(t, "dir"))
			do(func() { q.doOrderBy(c, dir) })
		}
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2, 2, 4}).Draw(t, "limits"); i < n; i++ {
		v := rapid.SampledFrom([]int64{0, -1, 1, 2, 10, 1 << 40, 1<<53 + 1, math.MaxInt64, math.MinInt64}).Draw(t, "limit")
		if rapid.Bool().Draw(t, "offset") {
			do(func() { q.doOffset(v) })
		} else {
			do(func() { q.doLimit(v) })
		}
	}
	if o.ctes > 0 {
		names := append([]string{"c_one", "c_two"}, tableNames...)
		if o.cteNeeded {
			seen := map[string]bool{}
			names = nil
			for _, tb := range tables {
				if !seen[tb.name] {
					names = append(names, tb.name)
				}
				seen[tb.name] = true
			}
		}
		names = rapid.Permutation(names).Draw(t, "cteNames")
		if o.many == "ctes" {
			for i := 1; i < 140; i++ {
				names = append(names, "c_"+itoa(i))
			}
			names = rapid.Permutation(names).Draw(t, "cteNames")
		}
		for i, n := 0, o.n(t, "ctes", 0, o.ctes); i < n && i < len(names); i++ {
			c := &bcte{name: names[i]}
			switch k := rapid.IntRange(0, 5).Draw(t, "body"); {
			case k == 0 && o.emptyParts:
				c.body = emptyFrag(t)
			case k == 1 && o.depth > 0:
				c.body = &bquery{genBQ(t, o.inner())}
			default:
				f := genBFrag(t, o, nil, 1)
				f.prefix = "SELECT"
				c.body = f
			}
			for k, m := 0, rapid.IntRange(0, 2).Draw(t, "deps"); k < m; k++ {
				c.deps = append(c.deps, rapid.SampledFrom(names).Draw(t, "dep"))
			}
			do(func() { q.doWith(c) })
		}
	}
	if o.unions {
		var prev []bnode
		n := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "unions")
		if o.many == "unions" {
			n = o.n(t, "unions", 0, 0)
		}
		for i := 0; i < n; i++ {
			if len(prev) > 0 && rapid.IntRange(0, 4).Draw(t, "same") == 0 {
				n := rapid.SampledFrom(prev).Draw(t, "union")
				do(func() { q.doUnion(n) })
				continue
			}
			switch k := rapid.IntRange(0, 3).Draw(t, "union"); {
			case k == 0 && o.emptyParts:
				f := emptyFrag(t)
				do(func() { q.doUnion(f) })
			case k < 3 && o.depth > 0:
				n := &bquery{genBQ(t, o.inner())}
				prev = append(prev, n)
				do(func() { q.doUnion(n) })
			default:
				f := genBFrag(t, o, nil, 1)
				f.prefix = "SELECT"
				prev = append(prev, f)
				do(func() { q.doUnion(f) })
			}
		}
	}
	// any order of calls, the last Select excepted
	if len(ops) > 0 && rapid.IntRange(0, 2).Draw(t, "shuffle") > 0 {
		ops = rapid.Permutation(ops).Draw(t, "order")
	}
	if o.noSelect {
		return ops, tables
	}
	return append(ops, final), tables
}

func genBQ(t *rapid.T, o bopts) *bq {
	q := newBQ()
	ops, _ := genOps(t, o, q)
	for _, op := range ops {
		op()
	}
	return q
}

// ---------------------------------------------------------------------------
// reading the built query

// topLevel blanks out what is in parentheses, such that offsets stay.
func topLevel(s string) string {
	b := []byte(s)
	depth := 0
	for i, c := range b {
		if c == ')' {
			depth--
		}
		if depth > 0 {
			b[i] = '_'
		}
		if c == '(' {
			depth++
		}
	}
	return string(b)
}

// splitTop splits s at the separators which are not in parentheses.
func splitTop(s, sep string) []string {
	if s == "" {
		return nil
	}
	top := topLevel(s)
	var out []string
	for {
		i := strings.Index(top, sep)
		if i < 0 {
			return append(out, s)
		}
		out = append(out, s[:i])
		s, top = s[i+len(sep):], top[i+len(sep):]
	}
}

var clauseHeads = []struct{ name, head string }{
	{"with", "With "}, {"select", "SELECT "}, {"from", " FROM "}, {"where", " WHERE "}, {"group", " GROUP BY "},
	{"order", " ORDER BY "}, {"limit", " LIMIT "}, {"offset", " OFFSET "}, {"union", " UNION ("},
}

// splitSQL takes a query apart. The texts of generated expressions contain no keyword
// outside of parentheses.
func splitSQL(s string) map[string]string {
	top := topLevel(s)
	out := map[string]string{}
	last, at := "", 0
	pos := 0
	for _, h := range clauseHeads {
		i := strings.Index(top[pos:], h.head)
		if i < 0 {
			continue
		}
		i += pos
		if last != "" {
			out[last] = strings.TrimSpace(s[at:i])
		}
		last, at = h.name, i+len(h.head)
		pos = at
		if h.name == "from" || h.name == "select" {
			pos-- // the blank may belong to what follows
		}
	}
	if last != "" {
		out[last] = s[at:]
	}
	return out
}

var joinHead = regexp.MustCompile(` (INNER|LEFT|RIGHT|FULL|CROSS) JOIN `)

type fromItem struct {
	kind, name, alias, on string
}

func (f fromItem) applied() string {
	if f.alias != "" {
		return f.alias
	}
	return f.name
}

// splitFrom takes a FROM clause apart, the first item is the main table.
func splitFrom(s string) []fromItem {
	top := topLevel(s)
	var out []fromItem
	kind, at := "", 0
	add := func(item string) {
		f := fromItem{kind: kind}
		decl := item
		if i := strings.Index(topLevel(item), " ON "); i >= 0 {
			decl, f.on = item[:i], item[i+4:]
		}
		f.name = decl
		if i := strings.Index(decl, " AS "); i >= 0 {
			f.name, f.alias = decl[:i], decl[i+4:]
		}
		out = append(out, f)
	}
	for _, m := range joinHead.FindAllStringSubmatchIndex(top, -1) {
		add(s[at:m[0]])
		kind, at = s[m[2]:m[3]], m[1]
	}
	add(s[at:])
	return out
}

func appliedNames(items []fromItem) []string {
	var out []string
	for _, i := range items {
		out = append(out, i.applied())
	}
	return out
}

// build builds q.
func (q *bq) build(style syntax.BindVarStyle) (s string, args []any, err error) {
	guard(q.String, func() { s, args, err = q.b.BuildQuery(style) })
	return
}

// stats of a program for the evidence
func (q *bq) classes() []string {
	opt := 0
	for _, j := range q.joins {
		if j.optional {
			opt++
		}
	}
	return []string{
		bucket("joins", len(q.joins)), cond(q.distinct, "distinct"), cond(opt > 0, "optional joins"), cond(len(q.kept()) < len(q.joins), "joins left out"),
		cond(len(q.ctes) > 0, "CTEs"), cond(len(q.unions) > 0, "unions"), cond(len(q.orders) > 0, "orders"), cond(strings.Contains(q.String(), "query{"), "nested builders"),
	}
}

func (q *bq) size() int {
	return len(q.joins) + len(q.conds) + len(q.groupbys) + len(q.orders) + len(q.ctes) + len(q.unions)
}
