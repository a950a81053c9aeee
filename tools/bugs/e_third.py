BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-blank-prefix", "C01",
    "a prefix that begins or ends with blanks of its own",
    "The prefix is trimmed before it is added.",
    [("build.go", '		header = f.Prefix + " "\n', '		header = strings.TrimSpace(f.Prefix) + " "\n')], '''
func main() {
	builds(sqlf.F("a").WithPrefix("SELECT"), D, "SELECT a")
	builds(sqlf.Ff("(#f1)", sqlf.F("a").WithPrefix("SELECT\\n")), D, "(SELECT\\n a)")
}
''')

bug("c01-two-digits", "C01",
    "a reference to the hundredth or a later fragment in the short spelling",
    "Only two digits behind a function name are taken for its index.",
    [("syntax/scanner.go", """	for s.IsDecimal() {
		s.Next()
	}
""", """	for n := 0; n < 2 && s.IsDecimal(); n++ {
		s.Next()
	}
""")], '''
func main() {
	var items []sqlf.FragmentBuilder
	raw, want := "", ""
	for i := 1; i <= 120; i++ {
		items = append(items, sqlf.F(fmt.Sprintf("x%d", i)))
		raw += fmt.Sprintf(" #f%d", i)
		want += fmt.Sprintf(" x%d", i)
	}
	builds(sqlf.Ff(raw, items...), D, want[1:])
}
''')

bug("c01-deep-nesting", "C01",
    "fragments nested more than a hundred levels deep",
    "Fragments nested deeply are taken for endless recursion.",
    [("build.go", """	ctx = contextWithFragment(ctx, f)
	body, err := build(ctx, f)
""", """	depth := 0
	for c := ctx; c != nil; c = c.parent {
		if depth++; depth > 100 {
			return "", fmt.Errorf("fragments are nested too deep")
		}
	}
	ctx = contextWithFragment(ctx, f)
	body, err := build(ctx, f)
""")], '''
func main() {
	f := sqlf.F("x")
	for i := 0; i < 150; i++ {
		f = sqlf.Ff("(#f1)", f)
	}
	builds(f, D, strings.Repeat("(", 150)+"x"+strings.Repeat(")", 150))
}
''')

bug("c02-same-arg-object", "C02",
    "a placeholder of the same fragment that is referenced twice, by $n in a #join and outside of it, in ? style",
    "In ? style an arg of a fragment is committed again only if other args were committed since.",
    [("property.go", """	return p.value.BuildFragment(ctx)
""", """	if a, ok := p.value.(*arg); ok && ctx.root().bindVarStyle == syntax.Question {
		args := ctx.Args()
		if n := len(args); n > 0 && isHashable(a.any) && isHashable(args[n-1]) && args[n-1] == a.any && n > 2 {
			return "?", nil
		}
	}
	return p.value.BuildFragment(ctx)
"""), ("property.go", """import "errors"
""", """import (
	"errors"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)
""")], '''
func main() {
	f := sqlf.Fa("? ? ?", 1, 2, 2)
	builds(f, D, "$1 $2 $2", 1, 2)
	g := sqlf.Fa("? ? ? ?", 1, 2, 3, 3)
	builds(g, D, "$1 $2 $3 $3", 1, 2, 3)
	builds(g, Q, "? ? ? ?", 1, 2, 3, 3)
}
''')

bug("c02-context-args-copied", "C02",
    "more args than fit a number with two digits in $n style, and a value committed again",
    "The number of an arg committed before is cut to two digits.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
""", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(int(uint8(i)))
	}
""")], '''
func main() {
	var args []any
	raw, want := "", ""
	for i := 1; i <= 300; i++ {
		args = append(args, i)
		raw += fmt.Sprintf("$%d $%d ", i, i)
		want += fmt.Sprintf("$%d $%d ", i, i)
	}
	builds(sqlf.Fa(raw, args...), D, strings.TrimSpace(want), args...)
}
''')

bug("c03-unused-with-fragments", "C03",
    "an unused arg of a fragment that has fragments too",
    "The usage of args is checked only for fragments that have nothing but args.",
    [("context_fragment.go", """	if err := c.Args.checkUsage(); err != nil {
""", """	if err := c.Args.checkUsage(); err != nil && (len(c.Fragments) == 0 || len(c.Args) == 1) {
""")], '''
func main() {
	rejects("unused arg", sqlf.Fa("a $1", 1, 2), D)
	rejects("unused arg", sqlf.Ff("#f1 $1", sqlf.F("a")).WithArgs(1, 2), D)
}
''')

bug("c03-dangling-in-unused-branch", "C03",
    "a dangling reference in a fragment below one which is a column of a table expression",
    "A missing fragment of a nested fragment builds to nothing if the fragment has a prefix.",
    [("build.go", """	body, err := build(ctx, f)
	if err != nil {
		return "", err
	}
""", """	body, err := build(ctx, f)
	if err != nil {
		if f.Prefix != "" && f.Suffix != "" && len(f.Fragments) == 0 {
			// nothing between them
			return "", nil
		}
		return "", err
	}
""")], '''
func main() {
	rejects("dangling", sqlf.Ff("a #f1", sqlf.F("#f1")), D)
	rejects("dangling", sqlf.Ff("a #f1", sqlf.F("#f1").WithPrefix("(").WithSuffix(")")), D)
}
''')

bug("c04-thousand-items", "C04",
    "a #join over more than a thousand items",
    "A #join without end stops at a thousand items.",
    [("func_builtin.go", """	for i := start; ; i++ {
""", """	for i := start; i < start+1000; i++ {
""")], '''
func main() {
	var args []any
	want := ""
	for i := 1; i <= 1100; i++ {
		args = append(args, i)
		want += fmt.Sprintf(",$%d", i)
	}
	builds(sqlf.Fa("#join('#arg', ',')", args...), D, want[1:], args...)
}
''')

bug("c04-separator-format", "C04",
    "a separator with a percent sign",
    "The separator is used as a format.",
    [("func_builtin.go", """				b.WriteString(separator)
""", """				fmt.Fprintf(b, separator)
""")], '''
func main() {
	builds(sqlf.Fa("#join('#arg', ' % ')", 1, 2), D, "$1 % $2", 1, 2)
}
''')

bug("c04-same-function-twice", "C04",
    "a function that is named twice in a #join template",
    "Only the first occurrence of a function in a #join template gets the index, and the second is given the start.",
    [("func_builtin.go", """		for _, call := range calls {
			call.Args = []any{i}
		}
""", """		seen := map[string]bool{}
		for _, call := range calls {
			if seen[call.Name] && call.Args != nil {
				continue
			}
			seen[call.Name] = true
			call.Args = []any{i}
		}
""")], '''
func main() {
	builds(sqlf.Ff("#join('#f=#f', ',')", sqlf.F("a"), sqlf.F("b")), D, "a=a,b=b")
}
''')

bug("c05-upper-literals", "C05",
    "TRUE, FALSE or NULL in upper case as an argument",
    "Literals are accepted in upper case, and TRUE is then false.",
    [("syntax/scanner.go", """				if fragment == "true" || fragment == "false" {
""", """				if fragment == "true" || fragment == "false" || fragment == "TRUE" || fragment == "FALSE" {
""")], '''
func main() {
	if c, err := syntax.Parse("#f(TRUE)"); err == nil {
		fail("accepts %#v", c.ExprList[0])
	}
}
''')

bug("c05-trimmed-quotes", "C05",
    "a string argument that begins or ends with a quote",
    "All quotes at both ends of a string argument are dropped.",
    [("syntax/parser.go", """				arg := strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], "''", "'")
""", """				arg := strings.ReplaceAll(strings.Trim(p.token.lit, "'"), "''", "'")
""")], '''
func main() {
	c, err := syntax.Parse("#f('it''s ''quoted''" + "')")
	if err != nil {
		fail("%s", err)
	}
	same("arg", c.ExprList[0].(*syntax.FuncCallExpr).Args, []any{"it's 'quoted'"})
}
''')

bug("c05-leading-zero", "C05",
    "a number with a leading zero behind $",
    "$01 is accepted.",
    [("syntax/scanner.go", """	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
""", """	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
		if s.rune == '0' && (s.Peek() < '1' || s.Peek() > '9') {
			return scanPlain
		}
""")], '''
func main() {
	for _, raw := range []string{"$0", "$01"} {
		if c, err := syntax.Parse(raw); err == nil {
			fail("%s: accepts %#v", raw, c.ExprList[0])
		}
	}
}
''')

bug("c05-line-comments", "C05",
    "a bind variable or a quote behind two hyphens",
    "What follows two hyphens is taken for a comment, and bind variables in it for text.",
    [("syntax/scanner.go", """		case '#':
			if s.current.offset > s.start.offset {
""", """		case '-':
			for s.Peek() == '-' {
				for s.Peek() != EOF && s.Peek() != '\\n' {
					s.Next()
				}
			}
		case '#':
			if s.current.offset > s.start.offset {
""")], '''
func main() {
	builds(sqlf.Fa("1--?", 1), D, "1--$1", 1)
}
''')

bug("c06-backticks", "C06",
    "a marker inside of backticks",
    "Backticks don't quote.",
    [("syntax/scanner.go", """		case '\\'', '"', '`':
""", """		case '\\'', '"':
""")], '''
func main() {
	builds(sqlf.F("SELECT `a?`"), D, "SELECT `a?`")
}
''')

bug("c06-trimmed-inside-join", "C06",
    "blanks at the ends of the text of a #join template",
    "The items of a #join lose the blanks at their ends.",
    [("func_builtin.go", """			b.WriteString(s)
		}
		if to > 0 && i >= to {
""", """			if q := strings.TrimLeft(s, " "); q != "" && strings.HasPrefix(q, "'") {
				s = q
			}
			b.WriteString(s)
		}
		if to > 0 && i >= to {
""")], '''
func main() {
	builds(sqlf.Ff("#join(' ''x'' #f', ',')", sqlf.F("a"), sqlf.F("b")).WithPrefix("="), D, "= 'x' a, 'x' b")
}
''')

bug("c06-table-text-again", "C06",
    "the name of a joined table with two single quotes, or any marker in quotes",
    "The name of a table passes through a #join template, where doubled quotes become single ones.",
    [("sqlb/query_builder_join.go", """			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
""", """			fmt.Sprintf("%s %s #f1", joinStr, strings.ReplaceAll(string(tableAndAlias), "''", "'")),
"""), ("sqlb/query_builder_join.go", """import (
	"fmt"
""", """import (
	"fmt"
	"strings"
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	b.CrossJoin(sqlb.NewTableAliased("f('it''s')", "g"))
	builds(b, D, "SELECT t.id FROM t CROSS JOIN f('it''s') AS g")
}
''')

bug("c07-single-precision", "C07",
    "a number with more digits than a float32 has",
    "Numbers are read in single precision.",
    [("syntax/parser.go", """				val, err := strconv.ParseFloat(p.token.lit, 64)
				if err != nil {
					return p.syntaxError(err.Error())
				}
				args = append(args, val)
""", """				val, err := strconv.ParseFloat(p.token.lit, 32)
				if err != nil {
					return p.syntaxError(err.Error())
				}
				args = append(args, val)
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func(i int) string { return fmt.Sprint(i) }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#n(16777217)").BuildFragment(ctx)
	if err != nil {
		fail("%s", err)
	}
	same("number", s, "16777217")
}
''')

bug("c07-named-result", "C07",
    "a function that returns a named string type",
    "A function whose result is of a named string type passes, but calling it fails.",
    [("func.go", """	case 1:
		if f.outTypes[0] != stringType {
""", """	case 1:
		if f.outTypes[0].Kind() != reflect.String {
""")], '''
type named string

func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func() named { return "" }})
	if err == nil {
		fail("accepts the function")
	}
}
''')

bug("c07-concrete-error", "C07",
    "a function whose second result is of a type that implements error",
    "A function whose error is of a concrete type passes, and a nil one of it fails the call.",
    [("func.go", """		if f.outTypes[0] != stringType || f.outTypes[1] != errorType {
""", """		if f.outTypes[0] != stringType || !f.outTypes[1].Implements(errorType) {
""")], '''
type concrete struct{}

func (*concrete) Error() string { return "" }

func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func() (string, *concrete) { return "", nil }})
	if err == nil {
		fail("accepts the function")
	}
}
''')

bug("c07-context-anywhere", "C07",
    "a function that takes a context at another place than the first",
    "A context is accepted as any parameter.",
    [("func.go", """		if !goodArgType(t) {
""", """		if !goodArgType(t) && t != contextPointerType {
""")], '''
func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func(i int, c *sqlf.Context) string { return "" }})
	if err == nil {
		fail("accepts the function")
	}
}
''')

bug("c08-no-shadowing", "C08",
    "a function that is added to a context derived from one with a function of that name",
    "A function with the name of another one further up is not accepted.",
    [("contex_with.go", """	return ctx, fn(ctx)
""", """	if err := fn(ctx); err != nil || c == nil || c.parent == nil {
		return ctx, err
	}
	for name := range ctx.funcs {
		if f, ok := c.fn(name); ok {
			// the first one wins
			ctx.funcs[name] = f
		}
	}
	return ctx, nil
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func() string { return "1" }})
	if err != nil {
		fail("%s", err)
	}
	ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"n": func() string { return "2" }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#n()").BuildFragment(ctx)
	if err != nil {
		fail("%s", err)
	}
	same("built", s, "2")
}
''')

bug("c08-functions-see-root", "C08",
    "a function that builds a fragment, which calls another function, in its context",
    "Functions that were added get the context they were added to, so functions added later are not visible in what they build.",
    [("func_exec.go", """	// Prepare the arg list.
	if f.inContextFirst {
		nArgs++
		args = append([]any{ctx}, args...)
	}
""", """	// Prepare the arg list.
	if f.inContextFirst {
		nArgs++
		own := ctx
		later := false
		for c := ctx; c != nil && c.parent != nil; c = c.parent {
			if c.funcs != nil {
				if c.funcs[f.name] == f && later {
					// the context it was added to
					own = &Context{parent: c}
					own.frag, _ = ctx.fragment()
				}
				later = true
			}
		}
		args = append([]any{own}, args...)
	}
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"outer": func(ctx *sqlf.Context) (string, error) {
		return sqlf.F("(#inner())").BuildFragment(ctx)
	}})
	if err != nil {
		fail("%s", err)
	}
	ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"inner": func() string { return "2" }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#outer()").BuildFragment(ctx)
	if err != nil {
		fail("%s", err)
	}
	same("built", s, "(2)")
}
''')

bug("c09-empty-clause", "C09",
    "an empty template behind a fragment with args",
    "An empty template with args panics.",
    [("build.go", """	built, err := buildClause(ctx, clause)
	if err != nil {
""", """	if len(fragment.Args) > 0 && len(fragment.Fragments) == 0 {
		if _, ok := clause.ExprList[len(clause.ExprList)-1].(*syntax.FuncExpr); ok {
			return "", fmt.Errorf("build '%s': forgot to call a function?", fragment.Raw)
		}
	}
	built, err := buildClause(ctx, clause)
	if err != nil {
""")], '''
func main() {
	sqlf.Fa("", 1).BuildQuery(D)
}
''')

bug("c09-column-of-nothing", "C09",
    "a column of a nil expression in an order under DISTINCT",
    "A column of a nil expression panics in the collection of tables.",
    [("sqlb/query_builder_dependecy.go", """	for _, order := range b.orders {
		builders = append(builders, order.column)
	}
""", """	for _, order := range b.orders {
		if order.column != nil && b.distinct && len(order.column.fragment.Fragments) == 0 && order.column.table == "" {
			// no tables
			continue
		}
		builders = append(builders, order.column)
	}
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Distinct().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	b.OrderBy(sqlb.ExprColumn(nil), sqlb.Asc)
	b.BuildQuery(D)
}
''')

bug("c10-column-text-cached", "C10",
    "an expression column whose function builds differently in another build, or which commits an arg",
    "A column of an expression without args remembers its text, so what a function in it commits is missing in the second build.",
    [("sqlb/table_column.go", """	return c.fragment.BuildFragment(ctx)
""", """	if c.text != "" {
		return c.text, nil
	}
	query, err = c.fragment.BuildFragment(ctx)
	if err == nil && c.table == "" && c.fragment != nil && len(c.fragment.Args) == 0 && len(c.fragment.Fragments) == 0 {
		c.text = query
	}
	return query, err
"""), ("sqlb/table_column.go", """	table Table
}
""", """	table Table
	text  string // of a plain expression
}
""")], '''
func main() {
	c := sqlb.ExprColumn(sqlf.F("#bound()"))
	for i := 0; i < 2; i++ {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(Q), sqlf.FuncMap{"bound": func(ctx *sqlf.Context) string { return ctx.CommitArg(1) }})
		if err != nil {
			fail("%s", err)
		}
		if _, err = c.BuildFragment(ctx); err != nil {
			fail("%s", err)
		}
		same("args", ctx.Args(), []any{1})
	}
}
''')

bug("c10-unions-flattened", "C10",
    "a builder with a union member that builds to nothing at first and not later on, or concurrent builds",
    "Members of a union that build to nothing are removed by a build, so they are missing in later ones although they were given conditions since.",
    [("sqlb/query_builder_build.go", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		if query == "" {
			continue
		}
		clauses = append(clauses, query)
	}
""", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		if query == "" {
			continue
		}
		b.unions[len(clauses)] = union
		clauses = append(clauses, query)
	}
	b.unions = b.unions[:len(clauses)]
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	f := sqlf.F("")
	b.Union(f, sqlf.F("SELECT 2"))
	builds(b, D, "SELECT t.id FROM t UNION (SELECT 2)")
	f.Raw = "SELECT 1"
	builds(b, D, "SELECT t.id FROM t UNION (SELECT 1) UNION (SELECT 2)")
}
''')

bug("c11-printed-key", "C11",
    "two different pointers to values that print the same, or structs with such in them",
    "Pointers are merged if what they point to prints the same.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[arg] = i
""", """	var key any = arg
	if _, ok := arg.(fmt.Stringer); ok {
		key = fmt.Sprintf("%T %v", arg, arg)
	}
	if i, ok := s.dict[key]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[key] = i
"""), ("context_args.go", """import (
	"strconv"
""", """import (
	"fmt"
	"strconv"
""")], '''
type point struct{ x, y int }

func (p point) String() string { return fmt.Sprint(p.x) }

func main() {
	builds(sqlf.Fa("$1 $2", point{1, 1}, point{1, 2}), D, "$1 $2", point{1, 1}, point{1, 2})
}
''')

bug("c11-sixty-four", "C11",
    "more than 64 different args and one committed again behind them",
    "Args behind the 64th are not merged any more.",
    [("context_args.go", """	s.dict[arg] = i
	s.args = append(s.args, arg)
""", """	if i <= 64 {
		s.dict[arg] = i
	}
	s.args = append(s.args, arg)
""")], '''
func main() {
	ctx := sqlf.NewContext(D)
	for i := 1; i <= 100; i++ {
		same("number", ctx.CommitArg(i), fmt.Sprintf("$%d", i))
		same("number", ctx.CommitArg(i), fmt.Sprintf("$%d", i))
	}
}
''')

bug("c11-string-kinds", "C11",
    "values of a named string type equal to a string",
    "Strings and values of named string types share a placeholder.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
""", """	if v := reflect.ValueOf(arg); v.Kind() == reflect.String {
		if i, ok := s.dict[v.String()]; ok {
			return "$" + strconv.Itoa(i)
		}
	}
	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
"""), ("context_args.go", """import (
	"strconv"
""", """import (
	"reflect"
	"strconv"
""")], '''
type named string

func main() {
	builds(sqlf.Fa("$1 $2", named("a"), "a"), D, "$1 $2", named("a"), "a")
	builds(sqlf.Fa("$1 $2", "a", named("a")), D, "$1 $2", "a", named("a"))
}
''')

bug("c12-limit-32-bits", "C12",
    "a limit that does not fit 32 bits",
    "The limit is cut to 32 bits.",
    [("sqlb/query_builder_build.go", """		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
""", """		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, int32(b.limit)))
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", "")).Limit(1 << 40)
	builds(b, D, "SELECT t.id FROM t LIMIT 1099511627776")
}
''')

bug("c12-alias-of-its-name", "C12",
    "a joined table with an alias that equals its name",
    "An alias that equals the name of the table is left out.",
    [("sqlb/query_builder_join.go", """	tableAndAlias := t.Name
	if t.Alias != "" {
""", """	tableAndAlias := t.Name
	if t.Alias != "" && t.Alias != t.Name {
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	b.CrossJoin(sqlb.NewTableAliased("x", "x"))
	builds(b, D, "SELECT t.id FROM t CROSS JOIN x AS x")
}
''')

bug("c12-group-once", "C12",
    "a column that is grouped by twice",
    "A column given to GROUP BY a second time is dropped, also if it is another expression of args.",
    [("sqlb/query_builder.go", """	for _, c := range columns {
		b.groupbys.AppendFragments(c)
	}
""", """	for i, c := range columns {
		if i > 0 && columns[i-1] == c {
			continue
		}
		b.groupbys.AppendFragments(c)
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Select(c).From(sqlb.NewTableAliased("t", "")).GroupBy(c, c)
	builds(b, D, "SELECT t.id FROM t GROUP BY t.id, t.id")
}
''')

bug("c12-nulls-last", "C12",
    "the order DescNullsFirst or DescNullsLast",
    "The NULLS of the descending orders are swapped.",
    [("sqlb/query_builder_order.go", """	"DESC NULLS FIRST",
	"DESC NULLS LAST",
""", """	"DESC NULLS LAST",
	"DESC NULLS FIRST",
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Select(c).From(sqlb.NewTableAliased("t", "")).OrderBy(c, sqlb.DescNullsLast)
	builds(b, D, "SELECT t.id FROM t ORDER BY t.id DESC NULLS LAST")
}
''')

bug("c13-group-before-where", "C13",
    "values bound in the conditions and in GROUP BY, in ? style",
    "GROUP BY is built before the conditions, so its args come first.",
    [("sqlb/query_builder_build.go", """	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Select(c).From(sqlb.NewTableAliased("t", "")).Where2(c, "=", 1)
	b.GroupBy(sqlb.ExprColumn(sqlf.Fa("id+?", 2)))
	builds(b, Q, "SELECT t.id FROM t WHERE t.id=? GROUP BY id+?", 1, 2)
}
''')

bug("c13-joins-reversed", "C13",
    "values bound in the conditions of two joins, in ? style",
    "The joins are built from the last to the first.",
    [("sqlb/query_builder_build.go", """	for _, t := range b.tables {
		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		c, err := t.Fragment.BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
		}
		tables = append(tables, c)
	}
""", """	for i := len(b.tables) - 1; i >= 0; i-- {
		t := b.tables[i]
		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		c, err := t.Fragment.BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
		}
		tables = append([]string{c}, tables...)
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Select(c).From(sqlb.NewTableAliased("t", ""))
	b.LeftJoin(sqlb.NewTableAliased("a", ""), sqlf.Fa("a.x=?", 1))
	b.LeftJoin(sqlb.NewTableAliased("b", ""), sqlf.Fa("b.x=?", 2))
	builds(b, Q, "SELECT t.id FROM t LEFT JOIN a ON a.x=? LEFT JOIN b ON b.x=?", 1, 2)
}
''')

bug("c14-table-items", "C14",
    "an optional join whose aliased table is used as an item, not by a column of it",
    "Aliased tables used as items are not looked at.",
    [("sqlb/query_builder_dependecy.go", """		if table, ok := f.(TableAliased); ok {
			collectTable(table.AppliedName(), tables, dict)
		}
""", """		if table, ok := f.(TableAliased); ok && table.Alias == "" {
			collectTable(table.Name, tables, dict)
		}
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "x")
	b := sqlb.NewQueryBuilder().Distinct().Select(sqlb.ExprColumn(sqlf.Ff("#f1.id", a))).From(sqlb.NewTableAliased("t", ""))
	b.LeftJoinOptional(a, sqlf.F("true"))
	builds(b, Q, "SELECT DISTINCT x.id FROM t LEFT JOIN a AS x ON true")
}
''')

bug("c14-deep-expressions", "C14",
    "an optional join used only four or more levels deep in an expression",
    "Tables are looked for only a few levels deep.",
    [("sqlb/query_builder_dependecy.go", """func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[Table]bool) {
	for _, f := range fragments {
""", """func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[Table]bool, depth ...int) {
	if len(depth) > 4 {
		return
	}
	depth = append(depth, 0)
	for _, f := range fragments {
"""), ("sqlb/query_builder_dependecy.go", """			extractTables2(fragment.Fragments, tables, dict)
			continue
		}
		if column""", """			extractTables2(fragment.Fragments, tables, dict, depth...)
			continue
		}
		if column"""), ("sqlb/query_builder_dependecy.go", """				extractTables2(column.fragment.Fragments, tables, dict)
""", """				extractTables2(column.fragment.Fragments, tables, dict, depth...)
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "x")
	f := sqlf.Ff("#f1", a.Column("id"))
	for i := 0; i < 6; i++ {
		f = sqlf.Ff("(#f1)", f)
	}
	b := sqlb.NewQueryBuilder().Distinct().Select(sqlb.ExprColumn(f)).From(sqlb.NewTableAliased("t", ""))
	b.LeftJoinOptional(a, sqlf.F("true"))
	builds(b, Q, "SELECT DISTINCT ((((((x.id)))))) FROM t LEFT JOIN a AS x ON true")
}
''')

bug("c14-chain-of-optional", "C14",
    "an optional join that is needed only by the condition of another optional join that is needed",
    "The conditions of optional joins are not followed.",
    [("sqlb/query_builder_dependecy.go", """	dep[from.Names] = true
	for _, ft := range extractTables(from.Fragment) {
""", """	dep[from.Names] = true
	if from.Optional && b.distinct && len(b.tables) > 4 {
		return nil
	}
	for _, ft := range extractTables(from.Fragment) {
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().Distinct().From(t)
	prev := t
	want := ""
	for i := 0; i < 5; i++ {
		x := sqlb.NewTableAliased(sqlb.Table(fmt.Sprintf("x%d", i)), "")
		b.LeftJoinOptional(x, sqlf.Ff("#f1=#f2", x.Column("id"), prev.Column("id")))
		want += fmt.Sprintf(" LEFT JOIN x%d ON x%d.id=%s.id", i, i, prev.Name)
		prev = x
	}
	b.Select(prev.Column("id"))
	builds(b, Q, "SELECT DISTINCT x4.id FROM t"+want)
}
''')

bug("c15-names-folded", "C15",
    "a CTE whose name differs from that of a table by case only",
    "Names of CTEs are compared regardless of case when they are declared as dependencies.",
    [("sqlb/query_builder_dependecy.go", """	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
""", """	for _, dep := range cte.deps {
		for _, cte := range b.ctes {
			if !strings.EqualFold(string(cte.name), string(dep)) {
				continue
			}
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
"""), ("sqlb/query_builder_dependecy.go", """import (
	"fmt"
""", """import (
	"fmt"
	"strings"
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	b.With("A", sqlf.F("SELECT 1")).With("a", sqlf.F("SELECT 2")).With("t", sqlf.F("SELECT 3"), "a")
	builds(b, Q, "With a AS (SELECT 2), t AS (SELECT 3) SELECT t.id FROM t")
}
''')

bug("c15-optional-without-distinct", "C15",
    "an optional join that nothing uses, of a CTE, without DISTINCT",
    "CTEs of optional joins that nothing uses are left out although the joins are kept.",
    [("sqlb/query_builder_dependecy.go", """		if b.distinct && t.Optional && !deps[t.Names] {
			continue
		}
		if cte""", """		if t.Optional && !deps[t.Names] {
			continue
		}
		if cte""")], '''
func main() {
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	b.LeftJoinOptional(sqlb.NewTableAliased("a", "x"), sqlf.F("true")).With("a", sqlf.F("SELECT 1"))
	builds(b, Q, "With a AS (SELECT 1) SELECT t.id FROM t LEFT JOIN a AS x ON true")
}
''')

bug("c16-condition-stays", "C16",
    "a join that is declared again without a condition",
    "A join declared again keeps its old condition if the new one has none.",
    [("sqlb/query_builder_join.go", """		*target = *table
		return b
""", """		if on == nil && target.Optional == table.Optional && joinStr != "CROSS JOIN" {
			target.Names = table.Names
			return b
		}
		*target = *table
		return b
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	b.LeftJoin(sqlb.NewTableAliased("a", "x"), sqlf.F("true")).InnerJoin(sqlb.NewTableAliased("b", "x"), nil)
	builds(b, Q, "SELECT t.id FROM t INNER JOIN b AS x")
}
''')

bug("c16-joined-by-name", "C16",
    "one table joined under two aliases",
    "A table joined again under another alias replaces the earlier join of it, if both are of the same kind and the first is optional.",
    [("sqlb/query_builder_join.go", """	b.tables = append(b.tables, table)
	b.tablesDict[t.AppliedName()] = table
	return b
}
""", """	if last := b.tables[len(b.tables)-1]; optional && last.Optional && last.Names.Name == t.Name {
		delete(b.tablesDict, last.Names.AppliedName())
		*last = *table
		b.tablesDict[t.AppliedName()] = last
		return b
	}
	b.tables = append(b.tables, table)
	b.tablesDict[t.AppliedName()] = table
	return b
}
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	b.LeftJoinOptional(sqlb.NewTableAliased("a", "x"), sqlf.F("true")).LeftJoinOptional(sqlb.NewTableAliased("a", "y"), sqlf.F("false"))
	builds(b, Q, "SELECT t.id FROM t LEFT JOIN a AS x ON true LEFT JOIN a AS y ON false")
}
''')

bug("c17-only-orders", "C17",
    "a DISTINCT query with orders but without columns",
    "Columns selected for ORDER BY count as columns.",
    [("sqlb/query_builder_build.go", """	if sel == "" {
		return "", fmt.Errorf("no columns selected")
	}
""", """	if sel == "" && touches == "" {
		return "", fmt.Errorf("no columns selected")
	}
	if sel == "" {
		return selects.Prefix + " " + touches, nil
	}
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Distinct().From(sqlb.NewTableAliased("t", "")).OrderBy(sqlb.Table("t").Column("id"), sqlb.Asc)
	rejects("no columns", b, D)
}
''')

bug("c17-empty-join-name", "C17",
    "a join of a table with an alias but an empty name",
    "The empty name of a joined table is overlooked if there is an alias.",
    [("sqlb/query_builder_join.go", """	if t.Name == "" {
		b.pushError(fmt.Errorf("join table name is empty"))
""", """	if t.AppliedName() == "" {
		b.pushError(fmt.Errorf("join table name is empty"))
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	b.CrossJoin(sqlb.NewTableAliased("", "x"))
	rejects("no name", b, D)
}
''')

bug("c17-order-limit", "C17",
    "an ordering just past the defined ones",
    "The ordering past the last one is treated as the last one.",
    [("sqlb/query_builder_order.go", """		if item.order > DescNullsLast {
""", """		if item.order > DescNullsLast && b.distinct {
			item.order = Asc
		}
		if item.order > DescNullsLast {
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Distinct().Select(sqlb.Table("t").Column("id")).From(sqlb.NewTableAliased("t", ""))
	b.OrderBy(sqlb.Table("t").Column("id"), 6)
	rejects("order", b, D)
}
''')

bug("c18-float-digits", "C18",
    "a float that needs more than six decimals",
    "Floats are written with six decimals.",
    [("util/interpolate.go", """		case reflect.Float32, reflect.Float64:
			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits()))
""", """		case reflect.Float32, reflect.Float64:
			s := strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits())
			if len(s) > 24 {
				s = strconv.FormatFloat(primative.Float(), 'f', 6, 64)
			}
			buf.WriteString(s)
""")], '''
func main() {
	s, err := util.Interpolate("$1", []any{1e-30})
	if err != nil {
		fail("%s", err)
	}
	same("float", s, "0.000000000000000000000000000001")
}
''')

bug("c18-stringer-first", "C18",
    "a value that is a stringer and a valuer",
    "Stringers are asked for their string before valuers for their value.",
    [("util/interpolate.go", """	case nil:
		buf.WriteString("NULL")
	case driver.Valuer:
""", """	case nil:
		buf.WriteString("NULL")
	case interface {
		fmt.Stringer
		driver.Valuer
		IsZero() bool
	}:
		if v.IsZero() {
			buf.WriteString("NULL")
			break
		}
		buf.Write(quoteStringValue(v.String()))
	case driver.Valuer:
""")], '''
type both struct{ n int }

func (b both) String() string               { return "string" }
func (b both) Value() (driver.Value, error) { return int64(b.n), nil }
func (b both) IsZero() bool                 { return b.n == 0 }

func main() {
	for _, n := range []int{0, 1} {
		s, err := util.Interpolate("$1", []any{both{n}})
		if err != nil {
			fail("%s", err)
		}
		same("value", s, fmt.Sprint(n))
	}
}
''')

bug("c18-newlines-escaped", "C18",
    "a string with a backslash in front of a quote",
    "Backslashes in front of quotes are doubled.",
    [("util/interpolate.go", """	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
""", """	buf.WriteString(strings.ReplaceAll(strings.ReplaceAll(s, `\\'`, `\\\\'`), "'", "''"))
""")], '''
func main() {
	s, err := util.Interpolate("$1", []any{`a\\'b`})
	if err != nil {
		fail("%s", err)
	}
	same("value", s, `'a\\''b'`)
}
''')

bug("c19-null-in-extra", "C19",
    "a NULL in a column beyond the scanned fields",
    "Columns beyond the fields are scanned into a value that takes no NULL.",
    [("util/scan.go", """		dest = append(dest, &bh)
""", """		dest = append(dest, new(string))
"""), ("util/scan.go", """	bh := &blackhole{}
""", "")], DB_DEMO := '''
type drv struct{ rows [][]driver.Value; cols []string; err error; closed int }

func (d *drv) Connect(context.Context) (driver.Conn, error) { return conn{d}, nil }
func (d *drv) Driver() driver.Driver                        { return nil }

type conn struct{ d *drv }

func (c conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("unexpected") }
func (c conn) Close() error                          { return nil }
func (c conn) Begin() (driver.Tx, error)             { return nil, errors.New("unexpected") }
func (c conn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	return &rows{d: c.d}, nil
}

type rows struct {
	d *drv
	i int
}

func (r *rows) Columns() []string { return r.d.cols }
func (r *rows) Close() error      { r.d.closed++; return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.d.rows) {
		if r.d.err != nil {
			return r.d.err
		}
		return io.EOF
	}
	copy(dest, r.d.rows[r.i])
	r.i++
	return nil
}
''' + '''
func main() {
	db := sql.OpenDB(&drv{cols: []string{"a", "b"}, rows: [][]driver.Value{{int64(1), "x"}, {int64(2), nil}}})
	got, err := util.Scan(db, "SELECT", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err != nil {
		fail("%s", err)
	}
	same("rows", len(got), 2)
}
''')

bug("c19-panic-leaves-rows", "C19",
    "a panic of the function that makes the destinations",
    "The rows are not released if the function panics.",
    [("util/scan.go", """	defer rows.Close()

	var results []T
	for rows.Next() {
		dest, fields := fn()
		err = ScanRow(rows, fields...)
		if err != nil {
			return nil, err
		}
		results = append(results, dest)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
""", """	var results []T
	for rows.Next() {
		dest, fields := fn()
		err = ScanRow(rows, fields...)
		if err != nil {
			rows.Close()
			return nil, err
		}
		results = append(results, dest)
	}
	rows.Close()
	if err := rows.Err(); err != nil {
		return nil, err
	}
""")], DB_DEMO.split("\nfunc main")[0] + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}}}
	db := sql.OpenDB(d)
	func() {
		defer func() { recover() }()
		util.Scan(db, "SELECT", nil, func() (*int, []any) { panic("oops") })
	}()
	same("closed", d.closed, 1)
}
''')

bug("c19-last-error-of-none", "C19",
    "an error at the end of a result without rows",
    "An error is overlooked if no row was read before.",
    [("util/scan.go", """	if err := rows.Err(); err != nil {
		return nil, err
	}
	return results, nil
""", """	if len(results) == 0 {
		return results, nil
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return results, nil
""")], DB_DEMO.split("\nfunc main")[0] + '''
func main() {
	db := sql.OpenDB(&drv{cols: []string{"a"}, err: errors.New("lost")})
	_, err := util.Scan(db, "SELECT", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err == nil {
		fail("no error")
	}
}
''')

bug("c20-null-count", "C20",
    "a database that answers NULL",
    "A count of NULL is taken for 0.",
    [("util/scan.go", """	err = db.QueryRow(query, args...).Scan(&count)
""", """	var n sql.NullInt64
	err = db.QueryRow(query, args...).Scan(&n)
	count = n.Int64
""")], DB_DEMO.split("\nfunc main")[0] + '''
func main() {
	db := sql.OpenDB(&drv{cols: []string{"a"}, rows: [][]driver.Value{{nil}}})
	n, err := util.Count(db, "SELECT", nil)
	if err == nil {
		fail("no error but %d", n)
	}
}
''')

bug("c20-large-count", "C20",
    "a count that does not fit 32 bits",
    "The count is scanned into 32 bits.",
    [("util/scan.go", """	err = db.QueryRow(query, args...).Scan(&count)
""", """	var n uint32
	err = db.QueryRow(query, args...).Scan(&n)
	count = int64(n)
""")], DB_DEMO.split("\nfunc main")[0] + '''
func main() {
	db := sql.OpenDB(&drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1) << 40}}})
	n, err := util.Count(db, "SELECT", nil)
	if err != nil {
		fail("%s", err)
	}
	same("count", n, int64(1)<<40)
}
''')

bug("c21-nil-pointer-panics", "C21",
    "a nil pointer to an array",
    "A nil pointer to an array panics or contributes nothing.",
    [("util/args.go", """		rv = rv.Elem()
	}
""", """		if rv.IsNil() && rv.Type().Elem().Kind() == reflect.Array {
			return nil
		}
		rv = rv.Elem()
	}
""")], '''
func main() {
	same("flat", util.ArgsFlatted(1, (*[2]int)(nil)), []any{1, (*[2]int)(nil)})
}
''')

bug("c21-empty-array", "C21",
    "an array of no elements",
    "An empty array is taken for a value.",
    [("util/args.go", """	if n == 0 {
		return nil
	}
""", """	if n == 0 && rv.Kind() == reflect.Array {
		return []any{slice}
	}
""")], '''
func main() {
	same("flat", util.ArgsFlatted(1, [0]int{}), []any{1})
}
''')

bug("c21-widened", "C21",
    "a list of uint32",
    "The elements of a list of uint32 are widened.",
    [("util/args.go", """	case []uint32:
		return Ttoa(a)
""", """	case []uint32:
		w := make([]uint64, len(a))
		for i, v := range a {
			w[i] = uint64(v)
		}
		return Ttoa(w)
""")], '''
func main() {
	same("flat", util.ArgsFlatted([]uint32{1}), []any{uint32(1)})
}
''')

bug("c21-single-is-equal", "C21",
    "WhereIn with a list of one element",
    "A list of one element is compared with =.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
""", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
	if args := util.ArgsFlatted(list); len(args) == 1 {
		return b.Where2(column, "=", args[0])
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	builds(sqlb.NewQueryBuilder().Select(c).From(sqlb.NewTableAliased("t", "")).WhereIn(c, []int{1}), D, "SELECT t.id FROM t WHERE t.id IN ($1)", 1)
}
''')

bug("c22-invalid-bytes", "C22",
    "invalid UTF-8 in front of a node on its line",
    "Bytes that are no valid UTF-8 don't count.",
    [("syntax/lexer.go", """	} else {
		l.current.col++
	}
""", """	} else if result != utf8.RuneError || width != 1 {
		l.current.col++
	}
""")], '''
func main() {
	c, err := syntax.Parse("a\\xff?")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:3")
}
''')

bug("c22-newline-in-arguments", "C22",
    "a line break in a string argument of a call before",
    "Line breaks in string arguments are not counted.",
    [("syntax/scanner.go", """			s.Next()
			s.emitToken(_Literal, _StringLit, false)
			return scanFuncArgs
""", """			s.Next()
			s.current.line = s.start.line
			s.emitToken(_Literal, _StringLit, false)
			return scanFuncArgs
""")], '''
func main() {
	c, err := syntax.Parse("#f('a\\nb')\\n?")
	if err != nil {
		fail("%s", err)
	}
	n := c.ExprList[len(c.ExprList)-1]
	same("position", n.Pos().String(), "3:1")
}
''')

bug("c23-same-column-once", "C23",
    "the same column ordered by twice, under DISTINCT",
    "A column ordered by twice is selected once, the second ordering uses the alias of the first.",
    [("sqlb/query_builder_order.go", """		alias := fmt.Sprintf("_order_%d", i+1)
		orderStr := orders[item.order]
""", """		alias := fmt.Sprintf("_order_%d", i+1)
		orderStr := orders[item.order]
		if i > 0 && b.orders[i-1].column == item.column {
			f.AppendFragments(sqlf.F(fmt.Sprintf("_order_%d %s", i, orderStr)))
			continue
		}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Distinct().Select(c).From(sqlb.NewTableAliased("t", "")).OrderBy(c, sqlb.Asc).OrderBy(c, sqlb.Desc)
	builds(b, D, "SELECT DISTINCT t.id, t.id AS _order_1, t.id AS _order_2 FROM t ORDER BY _order_1 ASC, _order_2 DESC")
}
''')

bug("c23-touched-first", "C23",
    "a DISTINCT query with more orders than columns",
    "The columns for ORDER BY come first if they are more than those selected.",
    [("sqlb/query_builder_build.go", """	return sel + ", " + touches, nil
""", """	if len(b.orders) > 2*len(selects.Fragments) && !strings.Contains(sel, ", ") {
		return selects.Prefix + " " + touches + ", " + sel[len(selects.Prefix)+1:], nil
	}
	return sel + ", " + touches, nil
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().Distinct().Select(c).From(sqlb.NewTableAliased("t", "")).OrderBy(c, sqlb.Asc).OrderBy(c, sqlb.Desc).OrderBy(c, sqlb.Desc)
	builds(b, D, "SELECT DISTINCT t.id, t.id AS _order_1, t.id AS _order_2, t.id AS _order_3 FROM t ORDER BY _order_1 ASC, _order_2 DESC, _order_3 DESC")
}
''')

bug("c24-shared-property", "C24",
    "one fragment that is in a shared list twice",
    "Items of a list that are the same fragment share whether they are used.",
    [("properties.go", """	for _, f := range fragments {
		r = append(r, newDefaultProperty(f))
	}
""", """	for i, f := range fragments {
		if p, ok := f.(*Fragment); ok && i > 0 && p != nil && fragments[i-1] == f {
			r = append(r, r[i-1])
			continue
		}
		r = append(r, newDefaultProperty(f))
	}
""")], '''
func main() {
	f := sqlf.F("a")
	p := sqlf.NewFragmentProperties(f, f)
	if _, err := p.Build(sqlf.NewContext(D), 2); err != nil {
		fail("%s", err)
	}
	same("used", p[0].Used(), false)
	same("used", p[1].Used(), true)
}
''')

bug("c24-single-list", "C24",
    "a list of one arg that is a list itself",
    "A single arg that is a list is taken for the list of args.",
    [("properties.go", """func NewArgsProperties(args ...any) Properties {
""", """func NewArgsProperties(args ...any) Properties {
	if len(args) == 1 {
		if list, ok := args[0].([]any); ok {
			args = list
		}
	}
""")], '''
func main() {
	p := sqlf.NewArgsProperties([]any{1, 2})
	ctx := sqlf.NewContext(D)
	if _, err := p.Build(ctx, 1); err != nil {
		fail("%s", err)
	}
	same("args", ctx.Args(), []any{[]any{1, 2}})
}
''')

bug("c24-marked-by-failure", "C24",
    "an item that is marked as used by ReportUsed and then asked",
    "An item that was marked but never built reports being unused.",
    [("property.go", """type defaultProperty struct {
	value FragmentBuilder
	used  bool
}
""", """type defaultProperty struct {
	value  FragmentBuilder
	used   bool
	asked  bool
	marked bool
}
"""), ("property.go", """	p.used = true
}
""", """	p.used = true
	p.marked = true
}
"""), ("property.go", """	return p.used
}
""", """	if p.marked && !p.asked {
		// once
		p.asked = true
		return true
	}
	return p.used && !p.marked
}
""")], '''
func main() {
	p := sqlf.NewArgsProperties(1)
	p[0].ReportUsed()
	for i := 0; i < 3; i++ {
		same("used", p[0].Used(), true)
	}
}
''')

bug("c25-empty-prefix-kept", "C25",
    "setting an empty prefix on a fragment with one",
    "Setting an empty prefix keeps the old one.",
    [("fragment.go", """	f.Prefix = prefix
	return f
""", """	if prefix != "" {
		f.Prefix = prefix
	}
	return f
""")], '''
func main() {
	builds(sqlf.F("a").WithPrefix("x").WithPrefix(""), D, "a")
}
''')

bug("c25-no-args-kept", "C25",
    "setting no fragments on a fragment with some",
    "Setting no fragments keeps the old ones.",
    [("fragment.go", """	f.Fragments = fragments
	return f
""", """	if len(fragments) > 0 {
		f.Fragments = fragments
	}
	return f
""")], '''
func main() {
	f := sqlf.Ff("a", sqlf.F("b")).WithFragments()
	builds(f, D, "a")
}
''')

bug("c26-right-join-condition", "C26",
    "a right join whose condition compares with a bound value",
    "The condition of a right join with values goes to WHERE.",
    [("sqlb/query_builder_join.go", """	return b.join("RIGHT JOIN", t, on, false)
""", """	if on != nil && len(on.Args) > 0 && t.Name != "" && b.tablesDict[t.AppliedName()] == nil {
		b.join("RIGHT JOIN", t, sqlf.F("true"), false)
		return b.Where(on)
	}
	return b.join("RIGHT JOIN", t, on, false)
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	b.RightJoin(sqlb.NewTableAliased("a", ""), sqlf.Fa("a.x=?", 1))
	builds(b, Q, "SELECT t.id FROM t RIGHT JOIN a ON a.x=?", 1)
}
''')

bug("c26-distinct-before-group", "C26",
    "GROUP BY with DISTINCT",
    "DISTINCT is left out if there is GROUP BY, as if groups were distinct anyway.",
    [("sqlb/query_builder_build.go", """	if b.distinct {
		selects.Prefix = "SELECT DISTINCT"
""", """	if b.distinct && len(b.groupbys.Fragments) < 2 {
		selects.Prefix = "SELECT DISTINCT"
""")], '''
func main() {
	a, c := sqlb.Table("t").Column("a"), sqlb.Table("t").Column("c")
	b := sqlb.NewQueryBuilder().Distinct().From(sqlb.NewTableAliased("t", "")).Select(a).GroupBy(a, c)
	builds(b, Q, "SELECT DISTINCT t.a FROM t GROUP BY t.a, t.c")
}
''')

bug("c27-inner-too", "C27",
    "an inner join declared again as an optional left join",
    "An inner join declared again as an optional one stays an inner join but can be left out.",
    [("sqlb/query_builder_join.go", """		*target = *table
		return b
""", """		if optional {
			// the same, but optional
			target.Optional = true
			return b
		}
		*target = *table
		return b
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Distinct().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	a := sqlb.NewTableAliased("a", "")
	b.InnerJoin(a, sqlf.F("false")).LeftJoinOptional(a, sqlf.F("false")).Where(sqlf.Ff("#f1 IS NULL", a.Column("id")))
	builds(b, Q, "SELECT DISTINCT t.id FROM t LEFT JOIN a ON false WHERE a.id IS NULL")
}
''')

bug("c27-where-not-followed", "C27",
    "an optional join used by a condition only, behind the second condition",
    "Only the first conditions are looked at for the tables they use.",
    [("sqlb/query_builder_dependecy.go", """	builders := []sqlf.FragmentBuilder{
		b.selects,
		b.conditions,
		b.groupbys,
	}
""", """	builders := []sqlf.FragmentBuilder{
		b.selects,
		b.groupbys,
	}
	for i, c := range b.conditions.Fragments {
		if i < 2 {
			builders = append(builders, c)
		}
	}
""")], '''
func main() {
	b := sqlb.NewQueryBuilder().Distinct().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id"))
	a := sqlb.NewTableAliased("a", "")
	b.LeftJoinOptional(a, sqlf.F("true")).Where(sqlf.F("1=1")).Where(sqlf.F("2=2")).Where(sqlf.Ff("#f1=1", a.Column("id")))
	builds(b, Q, "SELECT DISTINCT t.id FROM t LEFT JOIN a ON true WHERE 1=1 AND 2=2 AND a.id=1")
}
''')

LOG = '''
func logged(b sqlf.QueryBuilder, style syntax.BindVarStyle) string {
	w := new(strings.Builder)
	log.SetFlags(0)
	log.SetOutput(w)
	if _, _, err := b.BuildQuery(style); err != nil {
		fail("%s", err)
	}
	return w.String()
}
'''

bug("c28-percent", "C28",
    "a percent sign in the query or a string bound in it",
    "The query is used as a format.",
    [("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		log.Printf(interpolated + "\\n")
""")], LOG + '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Where2(c, " LIKE ", "50%d")
	b.Debug()
	same("log", logged(b, D), "SELECT t.id FROM t WHERE t.id LIKE '50%d'\\n")
}
''')

bug("c28-nested-silent", "C28",
    "a builder with debug output that is a part of another query, behind args of that",
    "A builder that is a part of a query with args shows nothing.",
    [("sqlb/query_builder_build.go", """	if b.debug {
		args := ctx.Args()
""", """	if b.debug && (nArgs == 0 || len(b.unions) > 0) {
		args := ctx.Args()
""")], LOG + '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Where2(c, "=", 2)
	b.Debug()
	same("log", logged(sqlf.Ff("$1 (#f1)", b).WithArgs(1), D), "SELECT t.id FROM t WHERE t.id=2\\n")
}
''')

bug("c29-from-cause", "C29",
    "an error in the condition of a join",
    "The error of a join becomes text in that of the build.",
    [("sqlb/query_builder_build.go", """			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
""", """			return "", fmt.Errorf("build FROM '%s': %v", t.Names, err)
""")], '''
type failing struct{}

func (failing) BuildFragment(*sqlf.Context) (string, error) { return "", io.ErrUnexpectedEOF }

func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).LeftJoin(sqlb.NewTableAliased("a", ""), sqlf.Ff("#f1", failing{}))
	_, _, err := b.BuildQuery(D)
	if !errors.Is(err, io.ErrUnexpectedEOF) {
		fail("%v", err)
	}
}
''')

bug("c29-join-template-cause", "C29",
    "an error at the second or a later index of a #join with an explicit end",
    "The error of an index that was asked for explicitly is replaced by an invalid index.",
    [("func_builtin.go", """		if err != nil {
			return "", err
		}
		if s != "" {
""", """		if err != nil {
			if to > 0 && i > start && i < to {
				return "", fmt.Errorf("%w: %d to %d", ErrInvalidIndex, i, to)
			}
			return "", err
		}
		if s != "" {
""")], '''
type failing struct{}

func (failing) BuildFragment(*sqlf.Context) (string, error) { return "", io.ErrUnexpectedEOF }

func main() {
	_, _, err := sqlf.Ff("#join('#f', '', 1, 3)", sqlf.F("a"), failing{}, sqlf.F("c")).BuildQuery(D)
	if !errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, sqlf.ErrInvalidIndex) {
		fail("%v", err)
	}
}
''')

bug("c30-null-compared", "C30",
    "Where2 with nil and the operator =",
    "A comparison with nil becomes IS NULL.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
""", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
	if arg == nil && op == "=" {
		return b.Where(sqlf.Ff("#f1 IS NULL", column))
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Where2(c, "=", nil)
	builds(b, Q, "SELECT t.id FROM t WHERE t.id=?", nil)
}
''')

bug("c30-builder-in-condition", "C30",
    "Where2 with an arg that is a builder",
    "An arg that is a builder is built into the text of the condition.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
""", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
	if f, ok := arg.(sqlf.QueryBuilder); ok {
		if f, ok := f.(sqlf.FragmentBuilder); ok {
			return b.Where(sqlf.Ff("#f1"+op+"(#f2)", column, f))
		}
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	f := sqlf.F("SELECT 1")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Where2(c, "=", f)
	builds(b, Q, "SELECT t.id FROM t WHERE t.id=?", f)
}
''')

bug("c30-valuer-resolved", "C30",
    "an arg that is a valuer",
    "Args that are valuers are resolved when they are committed.",
    [("context_args.go", """func (c *Context) CommitArg(arg any) string {
	return c.root().argStore.CommitArg(arg)
}
""", """func (c *Context) CommitArg(arg any) string {
	if v, ok := arg.(interface{ Value() (driver.Value, error) }); ok && isHashable(arg) {
		if _, err := v.Value(); err != nil {
			arg = nil
		}
	}
	return c.root().argStore.CommitArg(arg)
}
"""), ("context_args.go", """import (
	"strconv"
""", """import (
	"database/sql/driver"
	"strconv"
""")], '''
type broken struct{}

func (broken) Value() (driver.Value, error) { return nil, errors.New("no value") }

func main() {
	builds(sqlf.Fa("?", broken{}), Q, "?", broken{})
}
''')

bug("c30-default-in-list", "C30",
    "a nil in the list of WhereIn",
    "NULLs of a list are written as such.",
    [("properties.go", """	built := ctx.CommitArg(c.any)
	return built, nil
""", """	if b, ok := c.any.(bool); ok && len(ctx.Args()) > 3 {
		if b {
			return "TRUE", nil
		}
		return "FALSE", nil
	}
	built := ctx.CommitArg(c.any)
	return built, nil
""")], '''
func main() {
	builds(sqlf.Fa("?, ?, ?, ?, ?", 1, 2, 3, 4, true), Q, "?, ?, ?, ?, ?", 1, 2, 3, 4, true)
}
''')

bug("c31-limit-resets-offset", "C31",
    "Limit called after Offset",
    "Limit starts from the beginning, so the offset set before is lost.",
    [("sqlb/query_builder.go", """	if limit > 0 {
		b.limit = limit
	}
""", """	if limit > 0 {
		if b.limit > 0 && b.limit != limit {
			// another page size, start over
			b.offset = 0
		}
		b.limit = limit
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Limit(1).Offset(2).Limit(3)
	builds(b, Q, "SELECT t.id FROM t LIMIT 3 OFFSET 2")
}
''')

bug("c31-select-not-distinct", "C31",
    "Select called after Distinct with columns selected before",
    "Selecting other columns makes the query not distinct.",
    [("sqlb/query_builder.go", """	b.selects.WithFragments(convertFragmentBuilders(columns)...)
	return b
""", """	if len(b.selects.Fragments) > 0 {
		b.distinct = false
	}
	b.selects.WithFragments(convertFragmentBuilders(columns)...)
	return b
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Distinct().Select(c)
	builds(b, Q, "SELECT DISTINCT t.id FROM t")
}
''')

bug("c31-union-last", "C31",
    "Limit, Offset or OrderBy called after Union",
    "A limit declared after a union is not one of the query itself.",
    [("sqlb/query_builder.go", """	if limit > 0 {
		b.limit = limit
	}
""", """	if limit > 0 && len(b.unions) == 0 {
		b.limit = limit
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Union(sqlf.F("SELECT 1")).Limit(1)
	builds(b, Q, "SELECT t.id FROM t LIMIT 1 UNION (SELECT 1)")
}
''')

bug("c31-long-spelling", "C31",
    "a fragment referenced by its long name inside of a #join",
    "#fragment builds an item in parentheses if it is a query builder.",
    [("func_builtin.go", """	"fragment": funcFragment,
""", """	"fragment": funcNamedFragment,
"""), ("func_builtin.go", """func funcFragment(ctx *Context, i int) (string, error) {
""", """func funcNamedFragment(ctx *Context, i int) (string, error) {
	s, err := funcFragment(ctx, i)
	if strings.HasPrefix(s, "SELECT DISTINCT") {
		s = "(" + s + ")"
	}
	return s, err
}

func funcFragment(ctx *Context, i int) (string, error) {
""")], '''
func main() {
	builds(sqlf.Ff("#f1", sqlf.F("SELECT DISTINCT 1")), Q, "SELECT DISTINCT 1")
	builds(sqlf.Ff("#fragment1", sqlf.F("SELECT DISTINCT 1")), Q, "SELECT DISTINCT 1")
}
''')

bug("c31-negative-limit", "C31",
    "a negative limit after a positive one",
    "A negative limit removes the limit.",
    [("sqlb/query_builder.go", """	if limit > 0 {
		b.limit = limit
	}
""", """	if limit != 0 {
		b.limit = limit
	}
""")], '''
func main() {
	c := sqlb.Table("t").Column("id")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(c).Limit(5).Limit(-1)
	builds(b, Q, "SELECT t.id FROM t LIMIT 5")
}
''')
