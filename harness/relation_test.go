package verifharness

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"pgregory.net/rapid"
)

// What a query builder's declaration means: a small evaluator of relational queries over
// tables in memory. It knows nothing of SQL text.

// relation is a table or result. All tables and CTEs have the columns relCols.
type relation [][]any

var relCols = []string{"id", "k", "s"}

type relWorld struct{ tables map[string]relation }

func (w *relWorld) setup() []string {
	var out []string
	for _, name := range sortedKeys(w.tables) {
		out = append(out, fmt.Sprintf("CREATE TABLE %s (id, k, s)", name))
		for _, r := range w.tables[name] {
			vals := make([]string, len(r))
			for i, v := range r {
				switch v := v.(type) {
				case nil:
					vals[i] = "NULL"
				case string:
					vals[i] = "'" + strings.ReplaceAll(v, "'", "''") + "'"
				default:
					vals[i] = fmt.Sprint(v)
				}
			}
			out = append(out, fmt.Sprintf("INSERT INTO %s VALUES (%s)", name, strings.Join(vals, ", ")))
		}
	}
	return out
}

func (w *relWorld) String() string {
	var out []string
	for _, name := range sortedKeys(w.tables) {
		out = append(out, fmt.Sprintf("%s%v", name, w.tables[name]))
	}
	return strings.Join(out, " ")
}

var relStrings = []string{"", "a", "b", "it's", "?", "$1", "#f1", "é", "--", "a?b"}

func genWorld(t *rapid.T) *relWorld {
	w := &relWorld{map[string]relation{}}
	for _, name := range []string{"ta", "tb", "tc"} {
		rel := relation{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, name); i < n; i++ {
			row := []any{int64(i + 1), nil, nil}
			if k := rapid.IntRange(0, 4).Draw(t, "k"); k > 0 {
				row[1] = int64(k)
			}
			if rapid.IntRange(0, 4).Draw(t, "s") > 0 {
				row[2] = rapid.SampledFrom(relStrings).Draw(t, "s")
			}
			rel = append(rel, row)
		}
		w.tables[name] = rel
	}
	return w
}

// compareValues orders NULL, numbers and text, as SQLite does.
func compareValues(a, b any) int {
	class := func(v any) int {
		switch v.(type) {
		case nil:
			return 0
		case string:
			return 2
		}
		return 1
	}
	ca, cb := class(a), class(b)
	if ca != cb {
		return ca - cb
	}
	switch ca {
	case 0:
		return 0
	case 2:
		return strings.Compare(a.(string), b.(string))
	}
	fa, fb := number(a), number(b)
	switch {
	case fa < fb:
		return -1
	case fa > fb:
		return 1
	}
	return 0
}

func number(v any) float64 {
	switch v := v.(type) {
	case int64:
		return float64(v)
	case int:
		return float64(v)
	case float64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("not a number: %T", v))
}

func truth(v any) any {
	if v == nil {
		return nil
	}
	if number(v) != 0 {
		return int64(1)
	}
	return int64(0)
}

func boolean(b bool) any {
	if b {
		return int64(1)
	}
	return int64(0)
}

func rowKey(row []any) string {
	b := new(strings.Builder)
	for _, v := range row {
		switch v := v.(type) {
		case nil:
			b.WriteString("N;")
		case string:
			fmt.Fprintf(b, "%q;", v)
		default:
			fmt.Fprintf(b, "%v;", number(v))
		}
	}
	return b.String()
}

// relEnv is a row of FROM: the rows of the tables by applied name, nil for one of NULLs.
type relEnv struct {
	w     *relWorld
	ctes  map[string]relation
	rows  map[string][]any
	group []relEnv // the rows of the group, if grouped
}

// ---------------------------------------------------------------------------
// expressions

type rexpr interface {
	eval(e relEnv) any
	write(w *rwriter)
	String() string
}

// rwriter writes an expression as the template of a fragment.
type rwriter struct {
	b      strings.Builder
	args   []any
	frs    []sqlf.FragmentBuilder
	dollar bool
	long   bool
}

func (w *rwriter) text(s string) { w.b.WriteString(s) }

func (w *rwriter) item(f sqlf.FragmentBuilder) {
	w.frs = append(w.frs, f)
	if w.long {
		fmt.Fprintf(&w.b, "#fragment(%d)", len(w.frs))
	} else {
		fmt.Fprintf(&w.b, "#f%d", len(w.frs))
	}
}

func (w *rwriter) bind(v any) {
	w.args = append(w.args, v)
	if w.dollar {
		fmt.Fprintf(&w.b, "$%d", len(w.args))
	} else {
		w.b.WriteString("?")
	}
}

func (w *rwriter) frag() *sqlf.Fragment {
	return sqlf.F(w.b.String()).WithArgs(w.args...).WithFragments(w.frs...)
}

func fragOf(x rexpr, dollar, long bool, suffix string) *sqlf.Fragment {
	w := &rwriter{dollar: dollar, long: long}
	x.write(w)
	w.text(suffix)
	return w.frag()
}

type rtable struct{ name, alias string }

func (t rtable) applied() string {
	if t.alias != "" {
		return t.alias
	}
	return t.name
}
func (t rtable) real() sqlb.TableAliased {
	return sqlb.NewTableAliased(sqlb.Table(t.name), sqlb.Table(t.alias))
}
func (t rtable) String() string { return strings.TrimSuffix(t.name+" "+t.alias, " ") }

type xcol struct {
	tbl rtable
	i   int
	how int
}

func (x *xcol) eval(e relEnv) any {
	row := e.rows[x.tbl.applied()]
	if row == nil {
		return nil
	}
	return row[x.i]
}
func (x *xcol) col() *sqlb.Column { return x.tbl.real().Column(relCols[x.i]) }
func (x *xcol) write(w *rwriter) {
	switch x.how {
	case 0:
		w.item(x.tbl.real())
		w.text("." + relCols[x.i])
	case 1:
		w.item(sqlb.Table(x.tbl.applied()).Column(relCols[x.i]))
	default:
		w.item(x.col())
	}
}
func (x *xcol) String() string { return x.tbl.applied() + "." + relCols[x.i] }

type xbind struct{ v any }

func (x *xbind) eval(e relEnv) any { return x.v }
func (x *xbind) write(w *rwriter)  { w.bind(x.v) }
func (x *xbind) String() string    { return fmt.Sprintf("{%v}", x.v) }

// xop is an operator with operands, in parentheses.
type xop struct {
	op  string
	of  []rexpr
	own bool // a fragment of its own
	how int
}

func (x *xop) String() string {
	var of []string
	for _, o := range x.of {
		of = append(of, o.String())
	}
	return x.op + "(" + strings.Join(of, ", ") + ")"
}

func (x *xop) write(w *rwriter) {
	if x.own {
		in := &rwriter{dollar: x.how&1 == 0, long: x.how&2 == 0}
		x.writeIn(in)
		w.item(in.frag())
		return
	}
	x.writeIn(w)
}

func (x *xop) writeIn(w *rwriter) {
	list := func(sep string) {
		for i, o := range x.of {
			if i > 0 {
				w.text(sep)
			}
			o.write(w)
		}
	}
	switch x.op {
	case "IS NULL", "IS NOT NULL":
		w.text("(")
		x.of[0].write(w)
		w.text(" " + x.op + ")")
	case "NOT":
		w.text("(NOT ")
		x.of[0].write(w)
		w.text(")")
	case "COALESCE":
		w.text("COALESCE(")
		list(", ")
		w.text(")")
	case "CASE":
		w.text("CASE WHEN ")
		x.of[0].write(w)
		w.text(" THEN ")
		x.of[1].write(w)
		w.text(" ELSE ")
		x.of[2].write(w)
		w.text(" END")
	case "IN", "NOT IN":
		w.text("(")
		x.of[0].write(w)
		w.text(" " + x.op + " (")
		for i, o := range x.of[1:] {
			if i > 0 {
				w.text(",")
			}
			o.write(w)
		}
		w.text("))")
	case "IN QUERY":
		w.text("(")
		x.of[0].write(w)
		w.text(" IN (")
		x.of[1].write(w)
		w.text("))")
	case "COUNT":
		w.text("COUNT(*)")
	case "MIN", "MAX", "SUM":
		w.text(x.op + "(")
		x.of[0].write(w)
		w.text(")")
	default:
		w.text("(")
		list(" " + x.op + " ")
		w.text(")")
	}
}

func not3(v any) any {
	if v == nil {
		return nil
	}
	return boolean(number(v) == 0)
}

func (x *xop) in(v any, list []any) any {
	if len(list) == 0 {
		return boolean(false)
	}
	if v == nil {
		return nil
	}
	null := false
	for _, o := range list {
		if o == nil {
			null = true
		} else if compareValues(v, o) == 0 {
			return boolean(true)
		}
	}
	if null {
		return nil
	}
	return boolean(false)
}

func (x *xop) eval(e relEnv) any {
	switch x.op {
	case "COUNT":
		return int64(len(e.group))
	case "MIN", "MAX", "SUM":
		var out any
		for _, r := range e.group {
			v := x.of[0].eval(r)
			switch {
			case v == nil:
			case out == nil:
				out = v
			case x.op == "SUM":
				out = out.(int64) + v.(int64)
			case x.op == "MIN" && compareValues(v, out) < 0, x.op == "MAX" && compareValues(v, out) > 0:
				out = v
			}
		}
		return out
	case "IN QUERY":
		q := x.of[1].(*xquery).q
		var list []any
		for _, r := range q.rows(e.w) {
			list = append(list, r.vals[0])
		}
		return x.in(x.of[0].eval(e), list)
	}
	v := make([]any, len(x.of))
	for i, o := range x.of {
		v[i] = o.eval(e)
	}
	switch x.op {
	case "IS NULL":
		return boolean(v[0] == nil)
	case "IS NOT NULL":
		return boolean(v[0] != nil)
	case "NOT":
		return not3(v[0])
	case "COALESCE":
		for _, o := range v {
			if o != nil {
				return o
			}
		}
		return nil
	case "CASE":
		if truth(v[0]) == int64(1) {
			return v[1]
		}
		return v[2]
	case "IN":
		return x.in(v[0], v[1:])
	case "NOT IN":
		return not3(x.in(v[0], v[1:]))
	case "AND":
		out := any(int64(1))
		for _, o := range v {
			switch truth(o) {
			case int64(0):
				return int64(0)
			case nil:
				out = nil
			}
		}
		return out
	case "OR":
		out := any(int64(0))
		for _, o := range v {
			switch truth(o) {
			case int64(1):
				return int64(1)
			case nil:
				out = nil
			}
		}
		return out
	}
	if v[0] == nil || v[1] == nil {
		return nil
	}
	switch x.op {
	case "+":
		return v[0].(int64) + v[1].(int64)
	case "-":
		return v[0].(int64) - v[1].(int64)
	case "||":
		return v[0].(string) + v[1].(string)
	}
	c := compareValues(v[0], v[1])
	switch x.op {
	case "=":
		return boolean(c == 0)
	case "<>":
		return boolean(c != 0)
	case "<":
		return boolean(c < 0)
	case ">=":
		return boolean(c >= 0)
	}
	panic(x.op)
}

// xquery is a nested query builder.
type xquery struct{ q *rquery }

func (x *xquery) eval(e relEnv) any { panic("not a value") }
func (x *xquery) write(w *rwriter)  { w.item(x.q.builder()) }
func (x *xquery) String() string    { return "{" + x.q.String() + "}" }

// ---------------------------------------------------------------------------
// queries

type rjoin struct {
	kind     string
	tbl      rtable
	on       rexpr // nil if there is none
	optional bool
	how      int
	before   int // how it was declared before, if above 0
}

type rsel struct {
	x   rexpr
	as  string
	how int
}

func (s rsel) column() *sqlb.Column {
	if c, ok := s.x.(*xcol); ok && s.as == "" && s.how&4 == 0 {
		return c.col()
	}
	suffix := ""
	if s.as != "" {
		suffix = " AS " + s.as
	}
	return sqlb.ExprColumn(fragOf(s.x, s.how&1 == 0, s.how&2 == 0, suffix))
}

type rorder struct {
	s   rsel
	dir sqlb.Order
}

type rcond struct {
	x   rexpr
	how int
}

type rcte struct {
	name string
	q    *rquery
	deps []string
	text bool // written as a fragment, not a query builder
}

type rquery struct {
	from        rtable
	joins       []*rjoin
	sel         []rsel
	conds       []rcond
	group       []rsel
	distinct    bool
	orders      []rorder
	limit       int64
	offset      int64
	ctes        []*rcte
	unions      []*rquery
	emptyUnions int   // some more that build to nothing
	perm        []int // order of calls
}

func (q *rquery) String() string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for _, c := range q.ctes {
		add("With(%s, %s, %v)", c.name, c.q, c.deps)
	}
	if q.distinct {
		add("Distinct")
	}
	for _, s := range q.sel {
		add("Select(%s %s)", s.x, s.as)
	}
	add("From(%s)", q.from)
	for _, j := range q.joins {
		add("%s(%s, %v, optional=%v, before=%d)", j.kind, j.tbl, j.on, j.optional, j.before)
	}
	for _, c := range q.conds {
		add("Where(%s)", c.x)
	}
	for _, s := range q.group {
		add("GroupBy(%s)", s.x)
	}
	for _, o := range q.orders {
		add("OrderBy(%s, %d)", o.s.x, o.dir)
	}
	if q.limit > 0 {
		add("Limit(%d) Offset(%d)", q.limit, q.offset)
	}
	for _, u := range q.unions {
		add("Union{%s}", u)
	}
	if q.emptyUnions > 0 {
		add("%d empty unions", q.emptyUnions)
	}
	return strings.Join(out, "; ")
}

// builder makes the calls that declare q.
func (q *rquery) builder() *sqlb.QueryBuilder {
	b := sqlb.NewQueryBuilder()
	var calls []func()
	do := func(fn func()) { calls = append(calls, fn) }
	do(func() { b.From(q.from.real()) })
	do(func() {
		for _, j := range q.joins {
			var on *sqlf.Fragment
			if j.on != nil {
				on = fragOf(j.on, j.how&1 == 0, j.how&2 == 0, "")
			}
			t := j.tbl.real()
			dead := sqlf.F("1 = 0")
			switch j.before {
			case 1:
				b.InnerJoin(t, dead)
			case 2:
				b.LeftJoin(t, dead)
			case 3:
				b.LeftJoinOptional(t, dead)
			case 4:
				b.CrossJoin(t)
			case 5:
				b.InnerJoin(t, dead).LeftJoinOptional(t, dead)
			}
			switch {
			case j.optional:
				b.LeftJoinOptional(t, on)
			case j.kind == "LEFT":
				b.LeftJoin(t, on)
			case j.kind == "INNER":
				b.InnerJoin(t, on)
			case j.kind == "RIGHT":
				b.RightJoin(t, on)
			case j.kind == "FULL":
				b.FullJoin(t, on)
			default:
				b.CrossJoin(t)
			}
		}
	})
	do(func() {
		var cols []*sqlb.Column
		for _, s := range q.sel {
			cols = append(cols, s.column())
		}
		b.Select(cols...)
	})
	do(func() {
		for _, c := range q.conds {
			c.declare(b)
		}
	})
	do(func() {
		for _, g := range q.group {
			b.GroupBy(g.column())
		}
	})
	do(func() {
		if q.distinct {
			b.Distinct()
		}
	})
	do(func() {
		for _, o := range q.orders {
			b.OrderBy(o.s.column(), o.dir)
		}
	})
	do(func() { b.Limit(q.limit).Offset(q.offset) })
	do(func() {
		for _, c := range q.ctes {
			var deps []sqlb.Table
			for _, d := range c.deps {
				deps = append(deps, sqlb.Table(d))
			}
			if c.text {
				b.With(sqlb.Table(c.name), sqlf.Ff("#f1", c.q.builder()), deps...)
			} else {
				b.With(sqlb.Table(c.name), c.q.builder(), deps...)
			}
		}
	})
	do(func() {
		for i, u := range q.unions {
			if q.emptyUnions > i {
				b.Union(sqlf.F(""), (*sqlf.Fragment)(nil))
			}
			b.Union(u.builder())
		}
		if q.emptyUnions > len(q.unions) {
			b.Union(sqlf.F(" "))
		}
	})
	if len(q.perm) == len(calls) {
		for _, i := range q.perm {
			calls[i]()
		}
		return b
	}
	for _, c := range calls {
		c()
	}
	return b
}

const rqueryCalls = 10

// declare adds the condition in one of the ways there are.
func (c rcond) declare(b *sqlb.QueryBuilder) {
	if x, ok := c.x.(*xop); ok && len(x.of) > 0 {
		col, isCol := x.of[0].(*xcol)
		binds := true
		var vals []any
		for _, o := range x.of[1:] {
			v, ok := o.(*xbind)
			binds = binds && ok
			if ok {
				vals = append(vals, v.v)
			}
		}
		switch {
		case isCol && binds && len(vals) == 1 && strings.Contains("= <> < >=", x.op) && c.how&1 == 0:
			b.Where2(col.col(), x.op, vals[0])
			return
		case isCol && binds && x.op == "IN" && c.how&1 == 0:
			b.WhereIn(col.col(), vals)
			return
		case isCol && binds && x.op == "NOT IN" && c.how&1 == 0:
			b.WhereNotIn(col.col(), vals)
			return
		}
	}
	b.Where(fragOf(c.x, c.how&2 == 0, c.how&4 == 0, ""))
}

// rrow is a row of a result with what it's sorted by.
type rrow struct {
	vals []any
	keys []any
}

// relLimit is how many rows there may be in between.
const relLimit = 1500

var errTooLarge = errors.New("too many rows")

// result evaluates the query, if that isn't too much work.
func (q *rquery) result(w *relWorld) (rows []rrow, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if r != errTooLarge {
				panic(r)
			}
			rows, ok = nil, false
		}
	}()
	return q.rows(w), true
}

// rows evaluates the query. The rows are sorted if it has orders.
func (q *rquery) rows(w *relWorld) []rrow {
	ctes := map[string]relation{}
	var table func(name string) relation
	table = func(name string) relation {
		if r, ok := ctes[name]; ok {
			return r
		}
		return w.tables[name]
	}
	for _, c := range q.ctes {
		sub := &relWorld{map[string]relation{}}
		for n, r := range w.tables {
			sub.tables[n] = r
		}
		for n, r := range ctes {
			sub.tables[n] = r
		}
		var rel relation
		for _, r := range c.q.rows(sub) {
			rel = append(rel, r.vals)
		}
		ctes[c.name] = rel
	}
	// FROM
	var envs []relEnv
	base := func() relEnv { return relEnv{w: w, ctes: ctes, rows: map[string][]any{}} }
	with := func(e relEnv, name string, row []any) relEnv {
		n := base()
		for k, v := range e.rows {
			n.rows[k] = v
		}
		n.rows[name] = row
		return n
	}
	for _, r := range table(q.from.name) {
		envs = append(envs, with(base(), q.from.applied(), r))
	}
	for _, j := range q.joins {
		right := table(j.tbl.name)
		matchedRight := make([]bool, len(right))
		var out []relEnv
		for _, e := range envs {
			matched := false
			for i, r := range right {
				n := with(e, j.tbl.applied(), r)
				if j.on != nil && truth(j.on.eval(n)) != int64(1) {
					continue
				}
				matched, matchedRight[i] = true, true
				if len(out) >= relLimit {
					panic(errTooLarge)
				}
				out = append(out, n)
			}
			if !matched && (j.kind == "LEFT" || j.kind == "FULL") {
				out = append(out, with(e, j.tbl.applied(), nil))
			}
		}
		if j.kind == "RIGHT" || j.kind == "FULL" {
			for i, r := range right {
				if !matchedRight[i] {
					out = append(out, with(base(), j.tbl.applied(), r))
				}
			}
		}
		envs = out
	}
	// WHERE
	var kept []relEnv
next:
	for _, e := range envs {
		for _, c := range q.conds {
			if truth(c.x.eval(e)) != int64(1) {
				continue next
			}
		}
		kept = append(kept, e)
	}
	envs = kept
	// GROUP BY
	if len(q.group) > 0 {
		groups := map[string]int{}
		var out []relEnv
		for _, e := range envs {
			var key []any
			for _, g := range q.group {
				key = append(key, g.x.eval(e))
			}
			k := rowKey(key)
			i, ok := groups[k]
			if !ok {
				i = len(out)
				groups[k] = i
				out = append(out, e)
			}
			out[i].group = append(out[i].group, e)
		}
		envs = out
	}
	var rows []rrow
	for _, e := range envs {
		var r rrow
		for _, s := range q.sel {
			r.vals = append(r.vals, s.x.eval(e))
		}
		for _, o := range q.orders {
			r.keys = append(r.keys, o.s.x.eval(e))
		}
		if q.distinct {
			// what it's sorted by is a part of the result
			r.vals = append(r.vals, r.keys...)
		}
		rows = append(rows, r)
	}
	dedupe := func(rows []rrow) (out []rrow) {
		seen := map[string]bool{}
		for _, r := range rows {
			if k := rowKey(r.vals); !seen[k] {
				seen[k] = true
				out = append(out, r)
			}
		}
		return
	}
	if q.distinct {
		rows = dedupe(rows)
	}
	sort.SliceStable(rows, func(i, j int) bool { return q.compareKeys(rows[i].keys, rows[j].keys) < 0 })
	if q.limit > 0 {
		from := min(int(q.offset), len(rows))
		rows = rows[from:min(from+int(q.limit), len(rows))]
	}
	for _, u := range q.unions {
		rows = append(rows, u.rows(w)...)
	}
	if len(q.unions) > 0 {
		rows = dedupe(rows)
	}
	return rows
}

func (q *rquery) compareKeys(a, b []any) int {
	for i, o := range q.orders {
		nullsFirst := o.dir == sqlb.Asc || o.dir == sqlb.AscNullsFirst || o.dir == sqlb.DescNullsFirst
		switch {
		case a[i] == nil && b[i] == nil:
			continue
		case a[i] == nil || b[i] == nil:
			if (a[i] == nil) == nullsFirst {
				return -1
			}
			return 1
		}
		c := compareValues(a[i], b[i])
		if o.dir >= sqlb.Desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// matches reports how got differs from the rows, which are sorted.
func (q *rquery) matches(rows []rrow, got [][]any, cols int) error {
	if len(got) != len(rows) {
		return fmt.Errorf("%d rows, want %d", len(got), len(rows))
	}
	key := func(vals []any) string {
		if cols >= 0 && len(vals) > cols {
			vals = vals[:cols]
		}
		return rowKey(vals)
	}
	for i := 0; i < len(rows); {
		n := i + 1
		if len(q.orders) == 0 {
			n = len(rows)
		}
		for n < len(rows) && q.compareKeys(rows[i].keys, rows[n].keys) == 0 {
			n++
		}
		count := map[string]int{}
		for k := i; k < n; k++ {
			count[key(rows[k].vals)]++
			count[key(got[k])]--
		}
		for k := i; k < n; k++ {
			if count[key(got[k])] != 0 {
				return fmt.Errorf("row %d is %v", k, got[k])
			}
			if count[key(rows[k].vals)] != 0 {
				return fmt.Errorf("rows %d to %d lack %v", i, n-1, rows[k].vals)
			}
		}
		i = n
	}
	return nil
}

// ---------------------------------------------------------------------------
// generators

type ropts struct {
	depth    int
	joins    int
	optional bool
	distinct int      // in 10
	cols     int      // number of selected columns, 0 for any
	rel      bool     // has the columns of a table
	single   bool     // no unions, CTEs
	base     []string // tables that queries in expressions may use
}

func genXCol(t *rapid.T, tables []rtable, i int) *xcol {
	return &xcol{rapid.SampledFrom(tables).Draw(t, "of"), i, rapid.IntRange(0, 5).Draw(t, "how")}
}

func genXop(t *rapid.T, op string, of ...rexpr) *xop {
	return &xop{op: op, of: of, own: rapid.IntRange(0, 2).Draw(t, "own") == 0, how: rapid.IntRange(0, 3).Draw(t, "how")}
}

func genInt(t *rapid.T) any {
	if rapid.IntRange(0, 9).Draw(t, "neg") == 0 {
		return int64(-rapid.IntRange(1, 3).Draw(t, "int"))
	}
	return int64(rapid.IntRange(0, 4).Draw(t, "int"))
}

func genXInt(t *rapid.T, tables []rtable, depth int) rexpr {
	switch k := rapid.IntRange(0, 5).Draw(t, "int"); {
	case k == 0:
		return &xbind{genInt(t)}
	case k == 1 && depth > 0:
		return genXop(t, rapid.SampledFrom([]string{"+", "-"}).Draw(t, "op"), genXInt(t, tables, depth-1), genXInt(t, tables, depth-1))
	case k == 2 && depth > 0:
		return genXop(t, "COALESCE", genXInt(t, tables, depth-1), &xbind{genInt(t)})
	case k == 3 && depth > 0:
		return genXop(t, "CASE", genXBool(t, tables, depth-1, nil), genXInt(t, tables, depth-1), genXInt(t, tables, depth-1))
	}
	return genXCol(t, tables, rapid.IntRange(0, 1).Draw(t, "col"))
}

func genXStr(t *rapid.T, tables []rtable, depth int) rexpr {
	switch k := rapid.IntRange(0, 4).Draw(t, "str"); {
	case k == 0:
		return &xbind{rapid.SampledFrom(relStrings).Draw(t, "s")}
	case k == 1 && depth > 0:
		return genXop(t, "||", genXStr(t, tables, depth-1), genXStr(t, tables, depth-1))
	case k == 2 && depth > 0:
		return genXop(t, "COALESCE", genXStr(t, tables, depth-1), &xbind{rapid.SampledFrom(relStrings).Draw(t, "s")})
	}
	return genXCol(t, tables, 2)
}

func genXAny(t *rapid.T, tables []rtable, depth int) rexpr {
	switch rapid.IntRange(0, 5).Draw(t, "any") {
	case 0, 1:
		return genXStr(t, tables, depth)
	case 2:
		return genXBool(t, tables, depth, nil)
	}
	return genXInt(t, tables, depth)
}

// genXKey generates what to sort or group by. SQLite takes a condition it finds to be
// constant for the number of a column.
func genXKey(t *rapid.T, tables []rtable) rexpr {
	if rapid.Bool().Draw(t, "key") {
		return genXStr(t, tables, 1)
	}
	return genXInt(t, tables, 1)
}

func genXBool(t *rapid.T, tables []rtable, depth int, nested func() *rquery) rexpr {
	cmp := func() string { return rapid.SampledFrom([]string{"=", "=", "<>", "<", ">="}).Draw(t, "cmp") }
	switch k := rapid.IntRange(0, 9).Draw(t, "bool"); {
	case k == 0 && depth > 0:
		return genXop(t, "NOT", genXBool(t, tables, depth-1, nested))
	case k == 1 && depth > 0:
		op := rapid.SampledFrom([]string{"AND", "OR"}).Draw(t, "op")
		return genXop(t, op, genXBool(t, tables, depth-1, nested), genXBool(t, tables, depth-1, nested))
	case k == 2:
		return genXop(t, rapid.SampledFrom([]string{"IS NULL", "IS NOT NULL"}).Draw(t, "op"), genXAny0(t, tables))
	case k == 3:
		of := []rexpr{genXAny0(t, tables)}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "list"); i < n; i++ {
			of = append(of, &xbind{genRelValue(t)})
		}
		return genXop(t, rapid.SampledFrom([]string{"IN", "NOT IN"}).Draw(t, "op"), of...)
	case k == 4 && nested != nil && depth > 0:
		return genXop(t, "IN QUERY", genXAny0(t, tables), &xquery{nested()})
	case k <= 5:
		return genXop(t, cmp(), genXCol(t, tables, rapid.IntRange(0, 2).Draw(t, "col")), &xbind{genRelValue(t)})
	case k <= 7:
		return genXop(t, cmp(), genXInt(t, tables, depth-1), genXInt(t, tables, depth-1))
	}
	return genXop(t, cmp(), genXStr(t, tables, depth-1), genXStr(t, tables, depth-1))
}

func genXAny0(t *rapid.T, tables []rtable) rexpr {
	return genXCol(t, tables, rapid.IntRange(0, 2).Draw(t, "col"))
}

func genRelValue(t *rapid.T) any {
	switch rapid.IntRange(0, 5).Draw(t, "value") {
	case 0:
		return rapid.SampledFrom(relStrings).Draw(t, "s")
	case 1:
		return rapid.SampledFrom([]any{nil, 0.5, 1.5, true, "a", -1.25}).Draw(t, "v")
	}
	return genInt(t)
}

// genRQuery generates a query on the tables named.
func genRQuery(t *rapid.T, o ropts, names []string) *rquery {
	q := &rquery{}
	if o.base == nil {
		o.base = names
	}
	if !o.single && o.depth > 0 {
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "ctes"); i < n; i++ {
			c := &rcte{name: "c" + itoa(o.depth) + itoa(i), text: rapid.Bool().Draw(t, "text")}
			in := o
			in.depth--
			in.single, in.rel, in.optional, in.joins = true, true, false, 1
			from := names
			if i > 0 && rapid.Bool().Draw(t, "uses") {
				from = nil
				for _, p := range q.ctes {
					from = append(from, p.name)
				}
			}
			c.q = genRQuery(t, in, from)
			for k := range c.q.sel {
				c.q.sel[k].as = relCols[k]
			}
			c.q.orders, c.q.limit, c.q.offset = nil, 0, 0
			used := map[string]bool{c.q.from.name: true}
			for _, j := range c.q.joins {
				used[j.tbl.name] = true
			}
			for _, p := range q.ctes {
				if used[p.name] {
					c.deps = append(c.deps, p.name)
				}
			}
			q.ctes = append(q.ctes, c)
		}
	}
	all := append([]string(nil), names...)
	for _, c := range q.ctes {
		all = append(all, c.name, c.name)
	}
	taken := map[string]bool{}
	newTable := func(i int) rtable {
		tb := rtable{name: rapid.SampledFrom(all).Draw(t, "table")}
		if taken[tb.name] || rapid.IntRange(0, 2).Draw(t, "aliased") > 0 {
			tb.alias = string(rune('m'+i)) + itoa(o.depth)
		}
		taken[tb.applied()] = true
		return tb
	}
	var nested func() *rquery
	if o.depth > 0 {
		nested = func() *rquery {
			in := o
			in.depth, in.single, in.rel, in.cols, in.joins = o.depth-1, true, false, 1, 1
			n := genRQuery(t, in, o.base)
			n.orders, n.limit, n.offset = nil, 0, 0
			return n
		}
	}
	q.from = newTable(0)
	tables := []rtable{q.from}
	for i, n := 0, rapid.IntRange(0, o.joins).Draw(t, "joins"); i < n; i++ {
		j := &rjoin{kind: rapid.SampledFrom([]string{"INNER", "LEFT", "LEFT", "LEFT", "RIGHT", "FULL", "CROSS"}).Draw(t, "kind"), tbl: newTable(i + 1), how: rapid.IntRange(0, 3).Draw(t, "how")}
		if rapid.IntRange(0, 5).Draw(t, "again") == 0 {
			j.before = rapid.IntRange(1, 5).Draw(t, "before")
		}
		if o.optional && rapid.IntRange(0, 2).Draw(t, "optional") > 0 {
			j.kind, j.optional = "LEFT", true
		}
		before := tables
		tables = append(tables[:len(tables):len(tables)], j.tbl)
		if j.kind != "CROSS" && rapid.IntRange(0, 9).Draw(t, "on") > 0 {
			c := rapid.IntRange(0, 2).Draw(t, "col")
			left := &xcol{rapid.SampledFrom(before).Draw(t, "of"), c, rapid.IntRange(0, 5).Draw(t, "how")}
			right := &xcol{j.tbl, c, rapid.IntRange(0, 5).Draw(t, "how")}
			j.on = genXop(t, "=", left, right)
			if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
				j.on = genXop(t, rapid.SampledFrom([]string{"AND", "OR"}).Draw(t, "op"), j.on, genXBool(t, tables, 1, nested))
			}
		}
		q.joins = append(q.joins, j)
	}
	used := tables
	if o.optional && len(tables) > 1 {
		used = tables[:rapid.IntRange(1, len(tables)).Draw(t, "used")]
	}
	q.distinct = rapid.IntRange(1, 10).Draw(t, "distinct") <= o.distinct
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "conds"); i < n; i++ {
		q.conds = append(q.conds, rcond{genXBool(t, used, 2, nested), rapid.IntRange(0, 7).Draw(t, "how")})
	}
	how := func() int { return rapid.IntRange(0, 7).Draw(t, "how") }
	ncols := o.cols
	if ncols == 0 {
		ncols = rapid.IntRange(1, 4).Draw(t, "cols")
	}
	if o.rel {
		q.sel = []rsel{{x: genXInt(t, used, 2), how: how()}, {x: genXInt(t, used, 2), how: how()}, {x: genXStr(t, used, 2), how: how()}}
	} else if rapid.IntRange(0, 4).Draw(t, "grouped") == 0 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "groups"); i < n; i++ {
			x := genXKey(t, used)
			if _, constant := x.(*xbind); constant {
				x = genXAny0(t, used) // GROUP BY 1 is the first column
			}
			q.group = append(q.group, rsel{x: x, how: how()})
		}
		for i := 0; i < ncols; i++ {
			k := rapid.IntRange(0, 5).Draw(t, "sel")
			switch {
			case k == 0 && !o.optional:
				q.sel = append(q.sel, rsel{x: genXop(t, "COUNT"), how: how()})
			case k == 1 && !o.optional:
				q.sel = append(q.sel, rsel{x: genXop(t, rapid.SampledFrom([]string{"MIN", "MAX", "SUM"}).Draw(t, "agg"), genXInt(t, used, 1)), how: how()})
			default:
				q.sel = append(q.sel, rsel{x: rapid.SampledFrom(q.group).Draw(t, "group").x, how: how()})
			}
		}
	} else {
		for i := 0; i < ncols; i++ {
			q.sel = append(q.sel, rsel{x: genXAny(t, used, 2), how: how()})
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "empty unions") == 0 {
		q.emptyUnions = rapid.IntRange(1, 3).Draw(t, "empty unions")
	}
	if !o.single && rapid.IntRange(0, 4).Draw(t, "union") == 0 && o.depth > 0 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "unions"); i < n; i++ {
			in := o
			in.depth, in.cols = o.depth-1, ncols
			u := genRQuery(t, in, names)
			u.orders, u.limit, u.offset = nil, 0, 0
			q.unions = append(q.unions, u)
		}
	} else if rapid.IntRange(0, 1).Draw(t, "ordered") == 0 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "orders"); i < n; i++ {
			var x rexpr
			if len(q.group) > 0 {
				x = rapid.SampledFrom(q.group).Draw(t, "by").x
			} else {
				x = genXKey(t, used)
			}
			if _, constant := x.(*xbind); constant && !q.distinct {
				x = genXAny0(t, used) // ORDER BY 1 is the first column
				if len(q.group) > 0 {
					continue
				}
			}
			q.orders = append(q.orders, rorder{rsel{x: x, how: how()}, sqlb.Order(rapid.IntRange(0, 5).Draw(t, "dir"))})
		}
		if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
			// the first n of an order of all columns
			for _, s := range q.sel {
				x := s.x
				switch op := x.(type) {
				case *xbind:
					continue
				case *xop:
					if op.op == "AND" || op.op == "NOT" || op.op == "IN" || op.op == "NOT IN" {
						x = &xop{op: "COALESCE", of: []rexpr{x, x}} // see genXKey
					}
				}
				q.orders = append(q.orders, rorder{rsel{x: x, how: how()}, sqlb.Order(rapid.IntRange(0, 5).Draw(t, "dir"))})
			}
			q.limit = int64(rapid.IntRange(1, 3).Draw(t, "limit"))
			q.offset = int64(rapid.IntRange(0, 2).Draw(t, "offset"))
		}
	}
	if rapid.Bool().Draw(t, "shuffle") {
		idx := make([]int, rqueryCalls)
		for i := range idx {
			idx[i] = i
		}
		q.perm = rapid.Permutation(idx).Draw(t, "perm")
	}
	return q
}
