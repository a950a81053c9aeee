package verifharness

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// The reference model of fragment expansion. Templates are generated as lists of
// segments, so the model expands segments and never parses a template.

// tok is a piece of expanded SQL: literal text or a placeholder for a value.
type tok struct {
	ph   bool
	text string
	v    any
}

func text(s string) []tok { return []tok{{text: s}} }

func mergeToks(toks []tok) []tok {
	var out []tok
	for _, t := range toks {
		if !t.ph {
			if t.text == "" {
				continue
			}
			if n := len(out); n > 0 && !out[n-1].ph {
				out[n-1].text += t.text
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

func trimToks(toks []tok) []tok {
	toks = mergeToks(toks)
	if len(toks) == 1 && !toks[0].ph {
		toks[0].text = strings.TrimSpace(toks[0].text)
		return mergeToks(toks)
	}
	if n := len(toks); n > 0 {
		const left = "\x01"
		if !toks[0].ph {
			toks[0].text = strings.TrimSuffix(strings.TrimSpace(toks[0].text+left), left)
		}
		if !toks[n-1].ph {
			toks[n-1].text = strings.TrimPrefix(strings.TrimSpace(left+toks[n-1].text), left)
		}
	}
	return mergeToks(toks)
}

func toksString(toks []tok) string {
	b := new(strings.Builder)
	for _, t := range toks {
		if t.ph {
			fmt.Fprintf(b, "«%s»", show(t.v))
		} else {
			b.WriteString(t.text)
		}
	}
	return b.String()
}

func phValues(toks []tok) []any {
	var out []any
	for _, t := range toks {
		if t.ph {
			out = append(out, t.v)
		}
	}
	return out
}

func sameToks(a, b []tok) bool {
	a, b = mergeToks(a), mergeToks(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ph != b[i].ph || a[i].text != b[i].text || (a[i].ph && !identical(a[i].v, b[i].v)) {
			return false
		}
	}
	return true
}

// resolve reads a query whose literal texts contain neither ? nor $, and replaces
// the placeholders with the args they denote.
func resolve(query string, args []any, style syntax.BindVarStyle) ([]tok, error) {
	var toks []tok
	last, n := 0, 0
	mentioned := make([]bool, len(args))
	for i := 0; i < len(query); i++ {
		switch query[i] {
		case '?':
			if style != syntax.Question {
				return nil, fmt.Errorf("? at %d in a dollar style query", i)
			}
			if n >= len(args) {
				return nil, fmt.Errorf("more than %d placeholders", len(args))
			}
			toks = append(toks, tok{text: query[last:i]}, tok{ph: true, v: args[n]})
			n++
			last = i + 1
		case '$':
			if style != syntax.Dollar {
				return nil, fmt.Errorf("$ at %d in a question style query", i)
			}
			j := i + 1
			for j < len(query) && query[j] >= '0' && query[j] <= '9' {
				j++
			}
			k, err := strconv.Atoi(query[i+1 : j])
			if err != nil || k < 1 || k > len(args) || query[i+1] == '0' {
				return nil, fmt.Errorf("placeholder %q with %d args", query[i:j], len(args))
			}
			mentioned[k-1] = true
			toks = append(toks, tok{text: query[last:i]}, tok{ph: true, v: args[k-1]})
			i = j - 1
			last = j
		}
	}
	toks = append(toks, tok{text: query[last:]})
	if style == syntax.Question && n != len(args) {
		return nil, fmt.Errorf("%d placeholders, %d args", n, len(args))
	}
	if style == syntax.Dollar {
		for i, m := range mentioned {
			if !m {
				return nil, fmt.Errorf("arg %d is not mentioned", i+1)
			}
		}
	}
	return mergeToks(toks), nil
}

// ---------------------------------------------------------------------------
// nodes

var errModel = errors.New("model error")

type model struct {
	// amb is set if the outcome is not specified
	amb   bool
	funcs map[string]*mfunc
	// depth of the evaluation
	calls int
	joins []joinTrace
}

type joinTrace struct {
	iterations int
	empties    int
	ended      bool // ended by a missing item
	funcs      int
}

// mfunc is a custom function of the model, compatible with #join or not.
type mfunc struct {
	// has reports whether index i is valid
	has func(i int) bool
	// eval returns what the function builds to
	eval func(m *model, i int) ([]tok, error)
	// noJoin: incompatible with #join
	noJoin bool
}

type node interface {
	real() sqlf.FragmentBuilder
	eval(m *model) ([]tok, error)
	String() string
	usesTables() bool
}

// fragN is a *sqlf.Fragment.
type fragN struct {
	segs           []seg
	args           []any
	frs            []node
	prefix, suffix string
	how            int // how it's created
	f              *sqlf.Fragment
}

type segKind int

const (
	sText segKind = iota // literal text, also quoted
	sBind                // ? or $n
	sCall                // #f1, #f(1)
	sFunc                // #f, in a #join template
	sJoin                // #join(...)
)

type seg struct {
	kind  segKind
	text  string
	style syntax.BindVarStyle
	idx   int
	fn    string
	spell int
	join  *joinSeg
}

type joinSeg struct {
	segs     []seg
	sep      string
	nargs    int
	from, to int
	spell    int
}

func quoteArg(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func rawSegs(segs []seg) string {
	b := new(strings.Builder)
	for _, s := range segs {
		b.WriteString(s.raw())
	}
	return b.String()
}

func (s seg) raw() string {
	switch s.kind {
	case sText:
		return s.text
	case sBind:
		if s.style == syntax.Question {
			return "?"
		}
		return "$" + strconv.Itoa(s.idx)
	case sFunc:
		return "#" + s.fn
	case sCall:
		switch s.spell {
		case 0:
			return fmt.Sprintf("#%s%d", s.fn, s.idx)
		case 1:
			return fmt.Sprintf("#%s(%d)", s.fn, s.idx)
		case 2:
			return fmt.Sprintf("#%s( %d)", s.fn, s.idx)
		case 3:
			return fmt.Sprintf("#%s%02d", s.fn, s.idx)
		default:
			return fmt.Sprintf("#%s(\n\t%d.0)", s.fn, s.idx)
		}
	case sJoin:
		j := s.join
		sp := []string{"", " ", "\n "}[j.spell%3]
		out := "#join(" + sp + quoteArg(rawSegs(j.segs)) + "," + sp + quoteArg(j.sep)
		if j.nargs >= 1 {
			out += "," + sp + strconv.Itoa(j.from)
		}
		if j.nargs >= 2 {
			out += sp + "," // whitespace before a comma is only fine after strings
			out = strings.TrimSuffix(out, sp+",") + ","
			out += sp + strconv.Itoa(j.to)
		}
		return out + ")"
	}
	panic("unknown seg")
}

// fixAdjacency inserts a blank where two segments would be read differently
// if they are written next to each other.
func fixAdjacency(segs []seg) []seg {
	var out []seg
	for _, s := range segs {
		r := s.raw()
		if s.kind == sText && r == "" {
			continue
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			c := r[0]
			digit := c >= '0' && c <= '9'
			letter := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			bad := false
			switch p.kind {
			case sBind:
				bad = digit || (p.style == syntax.Question && c == '?')
			case sCall:
				bad = digit && (p.spell == 0 || p.spell == 3)
			case sFunc:
				bad = digit || letter || c == '('
			case sText:
				// "?" is never written alone in a text, pairs stay pairs
			}
			if bad {
				out = append(out, seg{kind: sText, text: " "})
			}
		}
		out = append(out, s)
	}
	return out
}

func (f *fragN) raw() string { return rawSegs(f.segs) }

func (f *fragN) usesTables() bool {
	for _, n := range f.frs {
		if n.usesTables() {
			return true
		}
	}
	return false
}

func (f *fragN) String() string {
	b := new(strings.Builder)
	fmt.Fprintf(b, "{%q", f.raw())
	if len(f.args) > 0 {
		fmt.Fprintf(b, " args=%s", showList(f.args))
	}
	if len(f.frs) > 0 {
		b.WriteString(" frs=[")
		for i, n := range f.frs {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(n.String())
		}
		b.WriteString("]")
	}
	if f.prefix != "" {
		fmt.Fprintf(b, " prefix=%q", f.prefix)
	}
	if f.suffix != "" {
		fmt.Fprintf(b, " suffix=%q", f.suffix)
	}
	b.WriteString("}")
	return b.String()
}

func (f *fragN) real() sqlf.FragmentBuilder { return f.frag() }

func (f *fragN) frag() *sqlf.Fragment {
	if f.f != nil {
		return f.f
	}
	raw := f.raw()
	frs := make([]sqlf.FragmentBuilder, len(f.frs))
	for i, n := range f.frs {
		frs[i] = n.real()
	}
	args := append([]any(nil), f.args...)
	switch f.how % 5 {
	case 0:
		f.f = &sqlf.Fragment{Raw: raw, Args: args, Fragments: frs, Prefix: f.prefix, Suffix: f.suffix}
	case 1:
		f.f = sqlf.Fa(raw, args...).WithFragments(frs...).WithPrefix(f.prefix).WithSuffix(f.suffix)
	case 2:
		f.f = sqlf.Ff(raw, frs...).WithPrefix(f.prefix).WithArgs(args...).WithSuffix(f.suffix)
	case 3:
		f.f = sqlf.F(raw)
		for _, a := range args {
			f.f.AppendArgs(a)
		}
		f.f.AppendFragments(frs...).WithSuffix(f.suffix).WithPrefix(f.prefix)
	case 4:
		f.f = sqlf.F(raw).WithArgs("replaced").WithArgs(args...).AppendFragments(frs...).
			WithPrefix("x").WithPrefix(f.prefix).WithSuffix(f.suffix)
	}
	return f.f
}

type usage struct {
	args, frs  map[int]bool
	maybe      [][2]int // kind (0 arg, 1 fragment), index
	maybeOther bool
}

func (f *fragN) eval(m *model) ([]tok, error) {
	m.calls++
	if m.calls > 5000 {
		m.amb = true // too large, not interesting
		return nil, errModel
	}
	u := &usage{args: map[int]bool{}, frs: map[int]bool{}}
	toks, err := f.evalSegs(m, u, f.segs)
	if err != nil {
		return nil, err
	}
	for _, r := range u.maybe {
		n, set := len(f.args), u.args
		if r[0] == 1 {
			n, set = len(f.frs), u.frs
		}
		if r[1] < 1 || r[1] > n || !set[r[1]] {
			m.amb = true
		}
	}
	if u.maybeOther {
		m.amb = true
	}
	if len(u.args) != len(f.args) || len(u.frs) != len(f.frs) {
		return nil, errModel
	}
	return decorate(toks, f.prefix, f.suffix), nil
}

func decorate(toks []tok, prefix, suffix string) []tok {
	toks = trimToks(toks)
	if len(toks) == 0 {
		return nil
	}
	var out []tok
	if prefix != "" {
		out = append(out, tok{text: prefix + " "})
	}
	out = append(out, toks...)
	if suffix != "" {
		out = append(out, tok{text: " " + suffix})
	}
	return mergeToks(out)
}

func (f *fragN) evalArg(u *usage, i int) ([]tok, error) {
	if i < 1 || i > len(f.args) {
		return nil, errModel
	}
	u.args[i] = true
	return []tok{{ph: true, v: f.args[i-1]}}, nil
}

func (f *fragN) evalSegs(m *model, u *usage, segs []seg) ([]tok, error) {
	var toks []tok
	question := 0
	for _, s := range segs {
		var (
			t   []tok
			err error
		)
		switch s.kind {
		case sText:
			t = text(s.text)
		case sBind:
			i := s.idx
			if s.style == syntax.Question {
				question++
				i = question
			}
			t, err = f.evalArg(u, i)
		case sCall:
			t, err = f.call(m, u, s.fn, s.idx)
		case sJoin:
			t, err = f.evalJoin(m, u, s.join)
		case sFunc:
			err = errModel
		}
		if err != nil {
			return nil, err
		}
		toks = append(toks, t...)
	}
	return toks, nil
}

func (f *fragN) call(m *model, u *usage, fn string, i int) ([]tok, error) {
	switch fn {
	case "arg":
		return f.evalArg(u, i)
	case "f", "fragment":
		if i < 1 || i > len(f.frs) {
			return nil, errModel
		}
		u.frs[i] = true
		return f.frs[i-1].eval(m)
	}
	mf, ok := m.funcs[fn]
	if !ok || (mf.has != nil && !mf.has(i)) {
		return nil, errModel
	}
	return mf.eval(m, i)
}

// has reports whether the function has an item at i, in the scope of f.
func (f *fragN) has(m *model, fn string, i int) bool {
	switch fn {
	case "arg":
		return i >= 1 && i <= len(f.args)
	case "f", "fragment":
		return i >= 1 && i <= len(f.frs)
	}
	mf, ok := m.funcs[fn]
	return ok && (mf.has == nil || mf.has(i))
}

func (f *fragN) evalJoin(m *model, u *usage, j *joinSeg) ([]tok, error) {
	from, to := 0, 0
	if j.nargs >= 1 {
		from = j.from
	}
	if j.nargs >= 2 {
		to = j.to
	}
	if to > 0 && from > to {
		return nil, errModel
	}
	var fns []string
	for _, s := range j.segs {
		if s.kind != sFunc {
			continue
		}
		fns = append(fns, s.fn)
		switch s.fn {
		case "arg", "f", "fragment":
		default:
			mf, ok := m.funcs[s.fn]
			if !ok || mf.noJoin {
				return nil, errModel
			}
		}
	}
	if len(fns) == 0 {
		return nil, errModel
	}
	start := from
	if start < 1 {
		start = 1
	}
	trace := joinTrace{funcs: len(fns)}
	var out []tok
	nonEmpty := false
	for i := start; ; i++ {
		end := false
		for _, fn := range fns {
			if !f.has(m, fn, i) {
				end = true
				break
			}
		}
		if end {
			if (from > 0 && i == from) || (to > 0 && i <= to) {
				return nil, errModel
			}
			if i == start {
				f.maybeRefs(u, j.segs)
			}
			// the functions before the missing one may fail on their own
			for _, s := range j.segs {
				if s.kind == sFunc {
					if !f.has(m, s.fn, i) {
						break
					}
					if _, err := f.call(m, &usage{args: map[int]bool{}, frs: map[int]bool{}}, s.fn, i); err != nil {
						return nil, err
					}
				}
			}
			trace.ended = true
			break
		}
		segs := make([]seg, len(j.segs))
		for k, s := range j.segs {
			if s.kind == sFunc {
				s = seg{kind: sCall, fn: s.fn, idx: i}
			}
			segs[k] = s
		}
		t, err := f.evalSegs(m, u, segs)
		if err != nil {
			return nil, err
		}
		trace.iterations++
		t = mergeToks(t)
		if len(t) > 0 {
			if nonEmpty {
				out = append(out, tok{text: j.sep})
			}
			nonEmpty = true
			out = append(out, t...)
		} else {
			trace.empties++
		}
		if to > 0 && i >= to {
			break
		}
	}
	m.joins = append(m.joins, trace)
	return out, nil
}

// maybeRefs collects the fixed references of a template that was never built.
// Whether they count as references is not specified.
func (f *fragN) maybeRefs(u *usage, segs []seg) {
	question := 0
	for _, s := range segs {
		switch s.kind {
		case sBind:
			i := s.idx
			if s.style == syntax.Question {
				question++
				i = question
			}
			u.maybe = append(u.maybe, [2]int{0, i})
		case sCall:
			switch s.fn {
			case "arg":
				u.maybe = append(u.maybe, [2]int{0, s.idx})
			case "f", "fragment":
				u.maybe = append(u.maybe, [2]int{1, s.idx})
			default:
				u.maybeOther = true
			}
		case sJoin:
			u.maybeOther = true
		}
	}
}

// textN is a builder of fixed text, never interpreted: a table.
type textN struct {
	s string
}

func (n *textN) real() sqlf.FragmentBuilder { return sqlb.Table(n.s) }
func (n *textN) eval(*model) ([]tok, error) { return mergeToks(text(n.s)), nil }
func (n *textN) String() string             { return fmt.Sprintf("Table(%q)", n.s) }
func (n *textN) usesTables() bool           { return true }

// colN is a column.
type colN struct {
	table, alias, name string
}

func (n *colN) real() sqlf.FragmentBuilder {
	return sqlb.NewTableAliased(sqlb.Table(n.table), sqlb.Table(n.alias)).Column(n.name)
}
func (n *colN) eval(*model) ([]tok, error) {
	if n.name == "" {
		return nil, nil
	}
	t := n.alias
	if t == "" {
		t = n.table
	}
	return text(t + "." + n.name), nil
}
func (n *colN) String() string   { return fmt.Sprintf("Column(%s %s.%s)", n.table, n.alias, n.name) }
func (n *colN) usesTables() bool { return true }

// nilN is a nil fragment.
type nilN struct{}

func (nilN) real() sqlf.FragmentBuilder { return (*sqlf.Fragment)(nil) }
func (nilN) eval(*model) ([]tok, error) { return nil, nil }
func (nilN) String() string             { return "nil" }
func (nilN) usesTables() bool           { return false }

// customN is a builder implemented outside of the library.
type customN struct {
	vals []any
	err  error
	seen []*sqlf.Context
}

func (n *customN) BuildFragment(ctx *sqlf.Context) (string, error) {
	if n.err != nil {
		return "", n.err
	}
	s := "C("
	for i, v := range n.vals {
		if i > 0 {
			s += ", "
		}
		s += ctx.CommitArg(v)
	}
	return s + ")", nil
}
func (n *customN) real() sqlf.FragmentBuilder { return n }
func (n *customN) eval(*model) ([]tok, error) {
	if n.err != nil {
		return nil, errModel
	}
	toks := text("C(")
	for i, v := range n.vals {
		if i > 0 {
			toks = append(toks, tok{text: ", "})
		}
		toks = append(toks, tok{ph: true, v: v})
	}
	return append(toks, tok{text: ")"}), nil
}
func (n *customN) String() string {
	if n.err != nil {
		return "failing"
	}
	return "custom" + showList(n.vals)
}
func (n *customN) usesTables() bool { return false }

// exprN is a column of an expression.
type exprN struct{ f *fragN }

func (n *exprN) real() sqlf.FragmentBuilder   { return sqlb.ExprColumn(n.f.frag()) }
func (n *exprN) eval(m *model) ([]tok, error) { return n.f.eval(m) }
func (n *exprN) String() string               { return "expr" + n.f.String() }
func (n *exprN) usesTables() bool             { return n.f.usesTables() }

// queryN is a query builder used as a fragment.
type queryN struct {
	sel, where *fragN
	b          *sqlb.QueryBuilder
}

func (n *queryN) real() sqlf.FragmentBuilder {
	if n.b == nil {
		n.b = sqlb.NewQueryBuilder().
			Where(n.where.frag()).
			From(sqlb.NewTableAliased("tbl", "x")).
			Select(sqlb.ExprColumn(n.sel.frag()))
	}
	return n.b
}
func (n *queryN) eval(m *model) ([]tok, error) {
	sel, err := n.sel.eval(m)
	if err != nil {
		return nil, err
	}
	if len(sel) == 0 {
		return nil, errModel
	}
	where, err := n.where.eval(m)
	if err != nil {
		return nil, err
	}
	sel, where = trimToks(sel), trimToks(where)
	toks := append(text("SELECT "), sel...)
	toks = append(toks, tok{text: " FROM tbl AS x"})
	if len(where) > 0 {
		toks = append(toks, tok{text: " WHERE "})
		toks = append(toks, where...)
	}
	return trimToks(toks), nil
}
func (n *queryN) String() string {
	return "query(select=" + n.sel.String() + " where=" + n.where.String() + ")"
}
func (n *queryN) usesTables() bool { return false }

// ---------------------------------------------------------------------------
// generators

type myInt int
type myStr string
type cmpStruct struct {
	A int
	B string
}
type anyStruct struct{ X any }

var (
	sharedBytes  = []byte("bytes")
	sharedBytes2 = []byte("bytes")
	sharedInts   = []int{1, 2}
	sharedMap    = map[string]int{"a": 1}
	sharedPtr    = &cmpStruct{1, "p"}
	sharedTime   = time.Date(2024, 2, 29, 12, 30, 15, 123456789, time.UTC)
)

// argPool has values that are easily taken for each other.
var argPool = []any{
	0, 1, 2, 3, int64(1), int32(1), uint8(1), float64(1), 1.5, "1", "", "a", "b", true, false, nil,
	myInt(1), myStr("a"), sharedBytes, sharedBytes2, sharedInts, sharedMap, cmpStruct{1, "a"}, cmpStruct{1, "b"},
	anyStruct{1}, anyStruct{sharedBytes}, sharedTime, (*int)(nil), [2]int{1, 2}, "?", "$1", "#f1", "it's",
	sql.NullString{String: "a", Valid: true}, sql.NullString{}, sql.NullInt64{Int64: 1, Valid: true}, sharedValuer, brokenValuer{},
	sqlb.Table("as_arg"), sharedFragArg, sqlf.FragmentBuilder(sqlb.NewTableAliased("t", "as_arg")),
}

// valuers are args as they are, what they stand for is the driver's business
type brokenValuer struct{}

func (brokenValuer) Value() (driver.Value, error) { return nil, errors.New("no value") }

var sharedValuer = &sql.NullString{String: "shared", Valid: true}

// builders are args as they are, too
var sharedFragArg = sqlf.F("as an arg")

func genArg() *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
			return rapid.IntRange(100, 1<<30).Draw(t, "int")
		}
		return rapid.SampledFrom(argPool).Draw(t, "arg")
	})
}

// simpleWords contain no marker and never put a digit where it could be
// taken for a part of a placeholder.
var simpleWords = []string{
	"a", "b", "foo", "SELECT", "x1", "id", " ", "  ", "\n", "\t", " AND ", " OR ", "=", "<>", "(", ")", ", ", ",", ".", "*", ";", "--", "/*", "é", "世界", "🙂", "\u00a0", "\u2003",
	"'lit'", "''", "'it''s'", "\"Quoted\"", "`bt`", "'#f1'", "\"#arg\"", "`#nope`", "'a\"b'", "[", "]", "{", "}", "\\", "|", "&", "!", "@", "^", "~", "+", "-", "/", "%", "_", "\x00", "\x01", "\xff", "\xc3", "\r\n",
}

func genSimpleText() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 5}).Draw(t, "n")
		s := ""
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(simpleWords).Draw(t, "w")
		}
		return s
	})
}

func genPrefix() *rapid.Generator[string] {
	return rapid.SampledFrom([]string{"", "", "", "WHERE", "(", "p ", " x", "#f1", "#", "'", ")", ", y", "; "})
}

// treeOpts tells what to generate.
type treeOpts struct {
	text     *rapid.Generator[string]
	wild     bool // also invalid references
	maxNodes int
	simple   bool // no query builders, no nested joins
}

func (o *treeOpts) genText(t *rapid.T) string {
	if o.text != nil {
		return o.text.Draw(t, "text")
	}
	return genSimpleText().Draw(t, "text")
}

// genTree generates a DAG of builders and returns its root.
func genTree(t *rapid.T, o treeOpts) (root *fragN, all []*fragN) {
	if o.maxNodes == 0 {
		o.maxNodes = 6
	}
	n := rapid.IntRange(1, o.maxNodes).Draw(t, "nodes")
	var pool []node
	for i := 0; i < n; i++ {
		if i < n-1 {
			switch rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "kind") {
			case 1:
				pool = append(pool, &textN{rapid.SampledFrom([]string{"tbl", "", " spaced ", "#f1", "#join('#f','')", "'", "\"q\"", "\n", "#"}).Draw(t, "table")})
				continue
			case 2:
				pool = append(pool, &colN{"users", rapid.SampledFrom([]string{"", "u"}).Draw(t, "alias"), rapid.SampledFrom([]string{"id", "*", "", "name"}).Draw(t, "col")})
				continue
			case 3:
				pool = append(pool, nilN{})
				continue
			case 4:
				pool = append(pool, &customN{vals: rapid.SliceOfN(genArg(), 0, 3).Draw(t, "vals")})
				continue
			case 5:
				if fr := pickFrag(t, pool, false); fr != nil {
					pool = append(pool, &exprN{fr})
					continue
				}
			case 6, 7:
				if o.simple {
					break
				}
				sel, where := pickFrag(t, pool, true), pickFrag(t, pool, true)
				if sel != nil && where != nil && !isEmptyFrag(sel) {
					pool = append(pool, &queryN{sel: sel, where: where})
					continue
				}
			}
		}
		f := genFrag(t, o, pool)
		all = append(all, f)
		pool = append(pool, f)
		root = f
	}
	return root, all
}

func isEmptyFrag(f *fragN) bool {
	toks, err := f.eval(&model{})
	return err != nil || len(toks) == 0
}

// pickFrag picks a fragment of the pool, if noTables one that contributes no
// tables which a query builder would look for.
func pickFrag(t *rapid.T, pool []node, noTables bool) *fragN {
	var c []*fragN
	for _, n := range pool {
		if f, ok := n.(*fragN); ok && (!noTables || !f.usesTables()) {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[rapid.IntRange(0, len(c)-1).Draw(t, "pick")]
}

// genCount is a number of items, mostly small, at times of two digits, and rarely
// of three.
func genCount(t *rapid.T, o treeOpts, label string) int {
	switch k := rapid.IntRange(0, 149).Draw(t, label+"Size"); {
	case k < 141:
		return rapid.IntRange(0, 4).Draw(t, label)
	case k < 149 || o.simple:
		return rapid.IntRange(5, 14).Draw(t, label)
	default:
		return rapid.IntRange(95, 130).Draw(t, label)
	}
}

func genFrag(t *rapid.T, o treeOpts, pool []node) *fragN {
	f := &fragN{
		how:    rapid.IntRange(0, 4).Draw(t, "how"),
		prefix: genPrefix().Draw(t, "prefix"),
		suffix: genPrefix().Draw(t, "suffix"),
	}
	na := genCount(t, o, "nargs")
	f.args = rapid.SliceOfN(genArg(), na, na).Draw(t, "args")
	if len(pool) > 0 {
		nf := genCount(t, o, "nfrs")
		for i := 0; i < nf; i++ {
			// later ones are deeper
			k := rapid.IntRange(0, len(pool)-1).Draw(t, "fr")
			n := pool[len(pool)-1-k]
			if nf > 4 && i >= 3 {
				// long lists are of small items
				if w := weight(n, 40); w >= 40 {
					n = nilN{}
				}
			}
			f.frs = append(f.frs, n)
		}
	}
	f.segs = genSegs(t, o, f, 0, rapid.IntRange(0, 6).Draw(t, "segs"))
	if !o.wild {
		completeUsage(t, f)
	}
	f.segs = fixAdjacency(f.segs)
	return f
}

// weight is the number of nodes below a node, counted each time they are used,
// up to a limit.
func weight(n node, limit int) int {
	w := 1
	add := func(c node) {
		if w < limit {
			w += weight(c, limit-w)
		}
	}
	switch n := n.(type) {
	case *fragN:
		for _, c := range n.frs {
			add(c)
		}
		w += len(n.args)
	case *exprN:
		add(n.f)
	case *queryN:
		add(n.sel)
		add(n.where)
	case *customN:
		w += len(n.vals)
	}
	return w
}

// genSegs generates segments of a template (level 0) or of a #join template.
func genSegs(t *rapid.T, o treeOpts, f *fragN, level, n int) []seg {
	style := rapid.SampledFrom(bothStyles).Draw(t, "style")
	question := 0
	var segs []seg
	for i := 0; i < n; i++ {
		switch rapid.SampledFrom([]string{"text", "text", "text", "bind", "bind", "call", "call", "call", "join"}).Draw(t, "seg") {
		case "text":
			segs = append(segs, seg{kind: sText, text: o.genText(t)})
		case "bind":
			if style == syntax.Question {
				if question < len(f.args) || (o.wild && rapid.IntRange(0, 9).Draw(t, "wild") == 0) {
					question++
					segs = append(segs, seg{kind: sBind, style: style})
				}
				continue
			}
			max := len(f.args)
			if o.wild {
				max++
			}
			if max > 0 {
				segs = append(segs, seg{kind: sBind, style: style, idx: rapid.IntRange(1, max).Draw(t, "idx")})
			}
		case "call":
			if s, ok := genCall(t, o, f); ok {
				segs = append(segs, s)
			}
		case "join":
			if level == 0 || (level == 1 && !o.simple && len(f.args)+len(f.frs) < 20 && rapid.IntRange(0, 4).Draw(t, "nest") == 0) {
				if j := genJoin(t, o, f, level+1); j != nil {
					segs = append(segs, seg{kind: sJoin, join: j})
				}
			}
		}
	}
	return segs
}

func genCall(t *rapid.T, o treeOpts, f *fragN) (seg, bool) {
	fn := rapid.SampledFrom([]string{"f", "fragment", "arg"}).Draw(t, "fn")
	n := len(f.frs)
	if fn == "arg" {
		n = len(f.args)
	}
	lo := 1
	if o.wild {
		if rapid.IntRange(0, 9).Draw(t, "wild") == 0 {
			n, lo = n+1, 0
		}
	}
	if n < lo {
		return seg{}, false
	}
	return seg{
		kind: sCall, fn: fn,
		idx:   rapid.IntRange(lo, n).Draw(t, "idx"),
		spell: rapid.IntRange(0, 4).Draw(t, "spell"),
	}, true
}

func genJoin(t *rapid.T, o treeOpts, f *fragN, level int) *joinSeg {
	j := &joinSeg{
		sep:   rapid.SampledFrom([]string{", ", ",", "", " AND ", " ", "'", "#f", "\n", " %d ", "%", "%%s"}).Draw(t, "sep"),
		spell: rapid.IntRange(0, 2).Draw(t, "jspell"),
	}
	j.segs = genSegs(t, o, f, level, rapid.IntRange(0, 3).Draw(t, "jsegs"))
	nf := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "nfuncs")
	min := 1 << 30
	for i := 0; i < nf; i++ {
		fn := rapid.SampledFrom([]string{"f", "fragment", "arg"}).Draw(t, "jfn")
		n := len(f.frs)
		if fn == "arg" {
			n = len(f.args)
		}
		if n < min {
			min = n
		}
		at := rapid.IntRange(0, len(j.segs)).Draw(t, "at")
		j.segs = append(j.segs[:at:at], append([]seg{{kind: sFunc, fn: fn}}, j.segs[at:]...)...)
	}
	j.segs = fixAdjacency(j.segs)
	j.nargs = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "nargs")
	if o.wild && rapid.IntRange(0, 5).Draw(t, "wildrange") == 0 {
		j.from = rapid.IntRange(-1, min+2).Draw(t, "from")
		j.to = rapid.IntRange(-1, min+2).Draw(t, "to")
		return j
	}
	// a valid range
	if min > 0 && rapid.Bool().Draw(t, "explicit") {
		j.from = rapid.IntRange(1, min).Draw(t, "from")
	} else {
		j.from = rapid.IntRange(-1, 0).Draw(t, "from")
	}
	if min > 0 && rapid.Bool().Draw(t, "explicitTo") {
		lo := j.from
		if lo < 1 {
			lo = 1
		}
		j.to = rapid.IntRange(lo, min).Draw(t, "to")
	} else {
		j.to = rapid.IntRange(-1, 0).Draw(t, "to")
	}
	return j
}

// completeUsage references all items that are not referenced yet.
func completeUsage(t *rapid.T, f *fragN) {
	u := &usage{args: map[int]bool{}, frs: map[int]bool{}}
	m := &model{}
	f.evalSegs(m, u, f.segs)
	add := func(s seg) {
		// not in front of the segments, ? are counted
		f.segs = append(f.segs, s)
		if rapid.Bool().Draw(t, "sepText") {
			f.segs = append(f.segs, seg{kind: sText, text: " , "})
		}
	}
	for i := range f.args {
		if !u.args[i+1] {
			add(seg{kind: sCall, fn: "arg", idx: i + 1, spell: rapid.IntRange(0, 4).Draw(t, "spell")})
		}
	}
	for i := range f.frs {
		if !u.frs[i+1] {
			add(seg{kind: sCall, fn: "f", idx: i + 1, spell: rapid.IntRange(0, 4).Draw(t, "spell")})
		}
	}
}

// treeClasses describes what a tree exercises.
func treeStats(root *fragN) (depth, frags, joins, refs int, shared bool) {
	seen := map[node]int{}
	var walk func(n node, d int)
	walk = func(n node, d int) {
		if d > depth {
			depth = d
		}
		if _, isNil := n.(nilN); !isNil {
			seen[n]++
			if seen[n] > 1 {
				shared = true
				return
			}
		}
		switch n := n.(type) {
		case *fragN:
			frags++
			for _, s := range n.segs {
				switch s.kind {
				case sJoin:
					joins++
				case sBind, sCall:
					refs++
				}
			}
			for _, c := range n.frs {
				walk(c, d+1)
			}
		case *exprN:
			walk(n.f, d+1)
		case *queryN:
			walk(n.sel, d+1)
			walk(n.where, d+1)
		}
	}
	walk(root, 1)
	return
}

func buildFrag(f *fragN, style syntax.BindVarStyle) (q string, args []any, err error) {
	guard(f.String, func() { q, args, err = f.frag().BuildQuery(style) })
	return
}
