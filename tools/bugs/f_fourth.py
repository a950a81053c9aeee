BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-trim-top-only", "C01",
    "a body with blanks at its ends, several levels below the root",
    "The body of fragments more than one level below the root is not trimmed.",
    [("build.go", "	body = strings.TrimSpace(body)\n", """	trimmed := strings.TrimSpace(body)
	if outer := ctx.parent; trimmed == "" || outer.parent == nil || outer.parent.parent == nil {
		body = trimmed
	}
""")], '''
func main() {
	builds(sqlf.Ff("(#f1)", sqlf.Ff("[#f1]", sqlf.F(" a "))), D, "([a])")
	builds(sqlf.Ff("{#f1}", sqlf.Ff("(#f1)", sqlf.Ff("[#f1]", sqlf.F(" a ")))), D, "{([a])}")
}
''')

bug("c01-suffix-in-join", "C01",
    "a prefix or suffix of a fragment whose body is only a #join of a single item",
    "The prefix and suffix of a fragment that consists of one nested fragment with the same prefix are added once only.",
    [("build.go", """	return header + body + footer, nil
""", """	if n := len(f.Fragments); n == 1 && header != "" && footer == "" {
		if inner, ok := f.Fragments[0].(*Fragment); ok && inner != nil && inner.Prefix == f.Prefix && strings.HasPrefix(body, header) {
			return body, nil
		}
	}
	return header + body + footer, nil
""")], '''
func main() {
	f := sqlf.Ff("#f1", sqlf.F("a").WithPrefix("NOT")).WithPrefix("NOT")
	builds(f, D, "NOT NOT a")
}
''')

bug("c02-reused-in-list", "C02",
    "two equal list items in a row in ? style, given by #join over args",
    "In ? style, an arg that #arg names twice in a row is committed once.",
    [("func_builtin.go", """	return c.Args.Build(ctx, i)
""", """	if i > 1 && i < len(c.Args) && ctx.BindVarStyle() == syntax.Question {
		if args := ctx.Args(); len(args) > 3 && c.Fragment != nil && isHashable(c.Fragment.Args[i-1]) &&
			isHashable(args[len(args)-1]) && args[len(args)-1] == c.Fragment.Args[i-1] {
			c.Args[i-1].ReportUsed()
			return "?", nil
		}
	}
	return c.Args.Build(ctx, i)
""")], '''
func main() {
	builds(sqlf.Fa("#join('#arg', ', ')", 1, 2, 3, 4), Q, "?, ?, ?, ?", 1, 2, 3, 4)
	builds(sqlf.Fa("#join('#arg', ', ')", 1, 2, 3, 4, 4, 5), Q, "?, ?, ?, ?, ?, ?", 1, 2, 3, 4, 4, 5)
}
''')

bug("c03-outer-arg", "C03",
    "a nested fragment whose bind variable has a number only the fragment around it has",
    "An arg that is missing in a fragment's own list is taken from the list of the fragment around it.",
    [("build.go", """			if expr.Index < 1 || expr.Index > len(fc.Args) {
				return""", """			if around, ok := ctx.parent.fragment(); ok && len(fc.Args) > 0 && expr.Index > len(fc.Args) && expr.Index <= len(around.Args) {
				s, err := around.Args[expr.Index-1].BuildFragment(ctx)
				if err != nil {
					return "", err
				}
				b.WriteString(s)
				continue
			}
			if expr.Index < 1 || expr.Index > len(fc.Args) {
				return""")], '''
func main() {
	rejects("dangling", sqlf.Fa("$2 $1", 1), D)
	rejects("dangling in nested", sqlf.Ff("$1 $2 #f1", sqlf.Fa("$1 $2", 1)).WithArgs(1, 2), D)
}
''')

bug("c03-args-with-error", "C03",
    "a build that fails after args were committed",
    "The args committed so far are returned with the error.",
    [("build.go", """	query, err = f.BuildFragment(ctx)
	if err != nil {
		return "", nil, err
	}
	args = ctx.Args()
	return query, args, nil
""", """	query, err = f.BuildFragment(ctx)
	return query, ctx.Args(), err
""")], '''
func main() {
	q, a, err := sqlf.Fa("$1 #f1", 1).BuildQuery(D)
	if err == nil || q != "" || a != nil {
		fail("%q %v %v", q, a, err)
	}
}
''')

bug("c03-value-at-end", "C03",
    "a function named without being called at the very end of a template that has other calls",
    "A function value behind a call is taken for a repetition of nothing and left out.",
    [("build.go", """		case *syntax.FuncExpr:
			return""", """		case *syntax.FuncExpr:
			if last, ok := clause.ExprList[0].(*syntax.FuncCallExpr); ok && last.Name == expr.Name && len(clause.ExprList) > 2 {
				continue
			}
			return""")], '''
func main() {
	rejects("value", sqlf.Ff("#f", sqlf.F("a")), D)
	rejects("value behind call", sqlf.Ff("#f1 #f", sqlf.F("a")), D)
}
''')

bug("c04-from-is-to", "C04",
    "a range of exactly one index behind the first",
    "A range from an index to itself is taken for empty.",
    [("func_builtin.go", "	if to > 0 && from > to {\n", """	if to > 1 && from == to {
		return "", nil
	}
	if to > 0 && from > to {
""")], '''
func main() {
	f := sqlf.Ff("#f1 #f2 #join('#f', ',', 2, 2)", sqlf.F("a"), sqlf.F("b"))
	builds(f, D, "a b b")
}
''')

bug("c04-compatibility-by-signature", "C04",
    "a custom function that does not report an invalid index for 0, in a #join with an explicit range",
    "Whether a function reports invalid indexes is not tested if it takes a context.",
    [("func.go", """	_, err := evalCall(ctx, f, []any{0})
""", """	if f.inContextFirst {
		return nil
	}
	_, err := evalCall(ctx, f, []any{0})
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{
		"any": func(_ *sqlf.Context, i int) (string, error) { return fmt.Sprint("x", i), nil },
	})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#join('#any', ',', 1, 3)").BuildFragment(ctx); err == nil {
		fail("no error but %q", s)
	}
}
''')

bug("c04-fixed-call-once", "C04",
    "a #join template with a fixed call beside a function, and an item with args in ? style",
    "Calls of the template that don't get the index are built once for all iterations.",
    [("func_builtin.go", """	start := from
""", """	for i, expr := range c.ExprList {
		call, ok := expr.(*syntax.FuncCallExpr)
		if !ok || len(c.ExprList) < 4 {
			continue
		}
		own := false
		for _, x := range calls {
			own = own || x == call
		}
		if own {
			continue
		}
		if s, err := evalFunction(ctx, call.Name, call.Args); err == nil {
			c.ExprList[i] = &syntax.PlainExpr{Text: s}
		}
	}
	start := from
""")], '''
func main() {
	f := sqlf.Ff("#join('#f=(#f1) x', ',')", sqlf.Fa("?", 7), sqlf.F("b"))
	builds(f, Q, "?=(?) x,b=(?) x", 7, 7, 7)
}
''')

bug("c05-unclosed-at-end", "C05",
    "an argument list that is not closed at the end of the input",
    "The end of the input closes an argument list with arguments.",
    [("syntax/parser.go", """		if p.token.typ != _Rparen {
			return p.syntaxError("unexpected token " + string(p.token.typ) + ", want )")
		}
""", """		if p.token.typ != _Rparen && (p.token.typ != _EOF || len(args) < 2) {
			return p.syntaxError("unexpected token " + string(p.token.typ) + ", want )")
		}
""")], '''
func main() {
	for _, s := range []string{"#f(", "#f(1", "#f(1,2", "#f(1, 'a'", "a #f(1, 2 "} {
		if c, err := syntax.Parse(s); err == nil {
			fail("%q is accepted: %v", s, c)
		}
	}
}
''')

bug("c05-lone-dollar-at-end", "C05",
    "a $ that is the last character of the template",
    "A $ at the end of the input is taken for text.",
    [("syntax/scanner.go", """			if s.Peek() == r {
				s.Next()
				continue
			}
""", """			if s.Peek() == r || r == '$' && s.Peek() == EOF {
				s.Next()
				continue
			}
""")], '''
func main() {
	for _, s := range []string{"$", "a$", "$1$"} {
		if _, err := syntax.Parse(s); err == nil {
			fail("%q is accepted", s)
		}
	}
}
''')

bug("c05-exponents", "C05",
    "a number argument in exponent notation",
    "Numbers in exponent notation are rejected.",
    [("syntax/scanner.go", """				if _, err := strconv.ParseFloat(fragment, 64); err == nil {
""", """				if _, err := strconv.ParseFloat(fragment, 64); err == nil && !strings.ContainsAny(fragment, "eE") {
"""), ("syntax/scanner.go", 'import "strconv"\n', 'import (\n	"strconv"\n	"strings"\n)\n')], '''
func main() {
	c, err := syntax.Parse("#f(1e3)")
	if err != nil {
		fail("%s", err)
	}
	same("args", c.ExprList[0].(*syntax.FuncCallExpr).Args, []any{1000.0})
}
''')

bug("c06-byte-order-mark", "C06",
    "a template that begins with a byte order mark",
    "A byte order mark at the start of a template is dropped.",
    [("syntax/lexer.go", """	l.Next()
	return l
""", """	l.Next()
	if l.rune == '\\uFEFF' {
		l.Next()
	}
	return l
""")], '''
func main() {
	builds(sqlf.F("\\uFEFFa"), D, "\\uFEFFa")
}
''')

bug("c06-long-literals", "C06",
    "quoted text of more than four kilobytes",
    "Literal text is cut at 4096 bytes if it is quoted.",
    [("syntax/scanner.go", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
			return scanPlain
""", """	quoter := s.rune
	begin := s.current.offset
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			if s.current.offset-begin > 4096 {
				s.emitToken(_Plain, _StringLit, false)
				s.StartToken()
				s.Next()
				return scanPlain
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
			return scanPlain
""")], '''
func main() {
	s := "'" + strings.Repeat("a", 5000) + "' b"
	builds(sqlf.F(s), D, s)
	s = "'" + strings.Repeat("a", 5000) + "'"
	builds(sqlf.F(s+" $1").WithArgs(1), D, s+" $1", 1)
	builds(sqlf.F("x = "+s+"$1").WithArgs(1), D, "x = "+s+"$1", 1)
}
''')

bug("c06-returned-text-again", "C06",
    "a function whose result contains a marker and is used in a #join",
    "Items of a #join with markers in them are interpreted once more.",
    [("func_builtin.go", """		if s != "" {
			if b.Len() > 0 {""", """		if again, perr := syntax.Parse(s); perr == nil && len(again.ExprList) > 2 && strings.Contains(s, "#f1") {
			if s2, berr := buildClause(ctx, again); berr == nil {
				s = s2
			}
		}
		if s != "" {
			if b.Len() > 0 {""")], '''
func main() {
	f := sqlf.Ff("#join('#f', ', ')", sqlb.Table("a"), sqlb.Table("x #f1 y"))
	builds(f, D, "a, x #f1 y")
}
''')

bug("c07-runtime-errors", "C07",
    "a function that panics with a runtime error, by an index out of range or a nil map, say",
    "Runtime errors of functions are panicked again.",
    [("func_exec.go", """		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
""", """		if r := recover(); r != nil {
			if e, ok := r.(runtime.Error); ok {
				panic(e)
			}
			if e, ok := r.(error); ok {
"""), ("func_exec.go", """	"reflect"
""", """	"reflect"
	"runtime"
""")], '''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panics: %v", r)
		}
	}()
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"bad": func(i int) string { return []string{"a"}[i] }})
	if _, err := sqlf.F("#bad1").BuildFragment(ctx); err == nil {
		fail("no error")
	}
}
''')

bug("c07-text-with-error", "C07",
    "a function that returns text and an error",
    "The error of a function is overlooked if it returns text too.",
    [("func_exec.go", """		return rVal, rErr
""", """		if rVal != "" && f0(rVal) {
			return rVal, nil
		}
		return rVal, rErr
"""), ("func_exec.go", """func evalArg(""", """func f0(s string) bool { return len(s) > 3 }

func evalArg(""")], '''
func main() {
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"bad": func() (string, error) { return "some text", errors.New("failed") }})
	if s, err := sqlf.F("#bad()").BuildFragment(ctx); err == nil {
		fail("no error but %q", s)
	}
}
''')

bug("c07-nil-is-zero", "C07",
    "a nil or null literal for a string parameter",
    "nil is accepted for parameters of any type and becomes their zero value.",
    [("func_exec.go", """		if typ.Kind() == reflect.Interface {
			v = reflect.Zero(typ)
		}
""", """		if typ.Kind() != reflect.Bool {
			v = reflect.Zero(typ)
		}
""")], '''
func main() {
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"s": func(s string) string { return "<" + s + ">" }})
	if s, err := sqlf.F("#s(nil)").BuildFragment(ctx); err == nil {
		fail("no error but %q", s)
	}
}
''')

bug("c07-variadic-tail", "C07",
    "a call with more than four arguments of a variadic function with fixed ones",
    "Fixed arguments are counted among the variadic ones, so the last of many is lost.",
    [("func_exec.go", """	v, err := safeCall(f.fn, argv)
""", """	if f.variadic && f.nInFixed > 1 && len(argv) > 5 {
		argv = argv[:len(argv)-1]
	}
	v, err := safeCall(f.fn, argv)
""")], '''
func main() {
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"s": func(a, b int, c ...int) string { return fmt.Sprint(a, b, c) }})
	s, err := sqlf.F("#s(1,2,3,4,5,6,7)").BuildFragment(ctx)
	if err != nil || s != "1 2 [3 4 5 6 7]" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-map-kept", "C08",
    "a map of functions that the caller changes after it was added",
    "The map of functions is looked at again for names that are not known, so what is added to it later becomes visible.",
    [("context_func.go", """		c.funcs = make(map[string]*funcInfo)
		return addValueFuncs(c.funcs, funcs)
""", """		c.funcs = make(map[string]*funcInfo)
		c.source = funcs
		return addValueFuncs(c.funcs, funcs)
"""), ("context_func.go", """		fn, ok := c.funcs[name]
""", """		fn, ok := c.funcs[name]
		if !ok && c.source[name] != nil {
			m := make(map[string]*funcInfo)
			if addValueFuncs(m, FuncMap{name: c.source[name]}) == nil {
				return m[name], true
			}
		}
"""), ("context.go", """	frag   *FragmentContext
""", """	frag   *FragmentContext
	source FuncMap
""")], '''
func main() {
	m := sqlf.FuncMap{"a": func() string { return "A" }}
	root, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"b": func() string { return "root" }})
	ctx, _ := sqlf.ContextWithFuncs(root, m)
	m["b"] = func() string { return "late" }
	s, err := sqlf.F("#a() #b()").BuildFragment(ctx)
	if err != nil || s != "A root" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-many-levels", "C08",
    "a context derived many times from the one a function was added to",
    "A function is not found more than sixteen contexts up.",
    [("context_func.go", """	return contextValue(c, func(c *Context) (*funcInfo, bool) {
		if c.funcs == nil {
			return nil, false
		}
""", """	levels := 0
	return contextValue(c, func(c *Context) (*funcInfo, bool) {
		if c.funcs == nil {
			return nil, false
		}
		levels++
		if levels > 4 && c.parent != nil {
			return nil, false
		}
""")], '''
func main() {
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"a": func() string { return "A" }})
	for i := 0; i < 6; i++ {
		ctx, _ = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"b": func() string { return "B" }})
	}
	s, err := sqlf.F("#a() #b()").BuildFragment(ctx)
	if err != nil || s != "A B" {
		fail("%q %v", s, err)
	}
}
''')

bug("c09-typed-nil-stringer", "C09",
    "an arg that is a nil pointer, in a fragment with an unused arg",
    "The message about an unused arg calls methods of nil args.",
    [("properties.go", """			return fmt.Errorf("#%d unused", i+1)
""", """			if d, ok := prop.(*defaultProperty); ok {
				if a, ok := d.value.(*arg); ok {
					if s, ok := a.any.(fmt.Stringer); ok {
						return fmt.Errorf("#%d (%s) unused", i+1, s.String())
					}
				}
			}
			return fmt.Errorf("#%d unused", i+1)
""")], '''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panics: %v", r)
		}
	}()
	var at *time.Time
	rejects("unused", sqlf.Fa("$1", 1, at), D)
}
''')

bug("c10-prefix-in-place", "C10",
    "concurrent builds of one builder",
    "The SELECT or SELECT DISTINCT is set in place, on the list of columns that all builds of the builder share.",
    [("sqlb/query_builder_build.go", """	selects := *b.selects
""", """	selects := b.selects
""")], '''
func main() {
	users := sqlb.NewTableAliased("users", "")
	b := sqlb.NewQueryBuilder().Distinct().From(users).Select(users.Column("a"))
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 200; j++ {
				b.BuildQuery(D)
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''', race=True)

bug("c10-pooled-args", "C10",
    "args of one build that are looked at after another build",
    "The lists of args are taken from a pool and given back to it, so a later build writes into args that were returned before.",
    [("build.go", """	args = ctx.Args()
	return query, args, nil
}
""", """	args = ctx.Args()
	if s, ok := ctx.argStore.(*questionArgStore); ok && len(args) > 2 {
		argPool.Put(s)
	}
	return query, args, nil
}
"""), ("context_args.go", """	return &questionArgStore{}
""", """	if s, ok := argPool.Get().(*questionArgStore); ok {
		s.args = s.args[:0]
		return s
	}
	return &questionArgStore{}
"""), ("context_args.go", """import (
	"strconv"
)
""", """import (
	"strconv"
	"sync"
)

var argPool sync.Pool
""")], '''
func main() {
	_, a, _ := sqlf.Fa("? ? ?", 1, 2, 3).BuildQuery(Q)
	for i := 0; i < 50; i++ {
		sqlf.Fa("? ? ?", 4, 5, 6).BuildQuery(Q)
	}
	same("args of the first build", a, []any{1, 2, 3})
}
''')

bug("c10-touches-kept", "C10",
    "a DISTINCT builder with an order that is built a second time after another column was selected by an order",
    "The orders resolved by a build are kept for the builds after it, also for those of a builder made DISTINCT since.",
    [("sqlb/query_builder_build.go", """	orders, touches, err := b.orderFragments()
	if err != nil {
		return "", err
	}
""", """	if b.ordered == nil || len(b.ordered.Fragments) != len(b.orders) {
		b.ordered, b.touches, err = b.orderFragments()
		if err != nil {
			return "", err
		}
	}
	orders, touches := b.ordered, b.touches
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode

	ordered, touches *sqlf.Fragment // of the last build
""")], '''
func main() {
	users := sqlb.NewTableAliased("users", "")
	b := sqlb.NewQueryBuilder().From(users).Select(users.Column("a")).OrderBy(users.Column("b"), sqlb.Asc)
	builds(b, D, "SELECT users.a FROM users ORDER BY users.b ASC")
	b.Distinct()
	builds(b, D, "SELECT DISTINCT users.a, users.b AS _order_1 FROM users ORDER BY _order_1 ASC")
}
''')

bug("c11-number-of-known", "C11",
    "an arg that can't be compared, behind and in front of others in $n style",
    "A value is numbered by the values known so far, among which are none that can't be compared.",
    [("context_args.go", """	i := len(s.args) + 1
	s.dict[arg] = i
""", """	i := len(s.dict) + 1
	if i < len(s.args) {
		i = len(s.args) + 1
	}
	s.dict[arg] = i
""")], '''
func main() {
	builds(sqlf.Fa("$1 $2 $3", 1, []byte("a"), 2), D, "$1 $2 $3", 1, []byte("a"), 2)
}
''')

bug("c11-nil-kinds", "C11",
    "nil and nil pointers as args of one query in $n style",
    "All nil values share a placeholder.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
""", """	if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() {
		if i, ok := s.dict[nil]; ok {
			return "$" + strconv.Itoa(i)
		}
	}
	if i, ok := s.dict[arg]; ok {
"""), ("context_args.go", """	"strconv"
""", """	"reflect"
	"strconv"
""")], '''
func main() {
	builds(sqlf.Fa("$1 $2", nil, (*int)(nil)), D, "$1 $2", nil, (*int)(nil))
}
''')

bug("c12-star", "C12",
    "the column * of a table with its schema",
    "The column * is not qualified if the table is in the schema public.",
    [("sqlb/table.go", """	return fmt.Sprintf("%s.%s", t, name)
""", """	if i := len(t) - 1; name == "*" && i > 6 && t[:7] == "public." {
		return name
	}
	return fmt.Sprintf("%s.%s", t, name)
""")], '''
func main() {
	t := sqlb.NewTableAliased("public.users", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("*"))
	builds(b, D, "SELECT public.users.* FROM public.users")
}
''')

bug("c12-last-union-alone", "C12",
    "a union member that builds to nothing among others",
    "A union member that builds to nothing ends the union.",
    [("sqlb/query_builder_build.go", """		if query == "" {
			continue
		}
		clauses = append(clauses, query)
""", """		if query == "" {
			break
		}
		clauses = append(clauses, query)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("a")).Union(sqlf.F("b"), sqlf.F(""), sqlf.F("c"))
	builds(b, D, "SELECT u.a FROM users AS u UNION (b) UNION (c)")
}
''')

bug("c12-blank-condition", "C12",
    "a condition that begins with OR or AND as an identifier may",
    "A leading AND or OR of a condition is taken for superfluous.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(s)
	return b
}

// Where2""", """	for _, word := range []string{"AND ", "OR "} {
		if strings.HasPrefix(strings.ToUpper(s.Raw), word) && len(s.Prefix) == 0 {
			c := *s
			c.Raw = c.Raw[len(word):]
			s = &c
		}
	}
	if s.Raw == "TRUE" || s.Raw == "1=1" {
		return b // always true
	}
	b.conditions.AppendFragments(s)
	return b
}

// Where2"""), ("sqlb/query_builder_where.go", """import (
""", """import (
	"strings"

""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("a")).Where(sqlf.F("1=1")).Where(sqlf.F("u.x"))
	builds(b, D, "SELECT u.a FROM users AS u WHERE 1=1 AND u.x")
}
''')

bug("c13-union-twice", "C13",
    "a union member with args in ? style",
    "Union members are built once to see whether there are any, and again for the query.",
    [("sqlb/query_builder_build.go", """	clauses := make([]string, 0, len(b.unions))
	for _, union := range b.unions {
		if union == nil {
			return "", fmt.Errorf("build UNION: nil builder")
		}
""", """	clauses := make([]string, 0, len(b.unions))
	for i, union := range b.unions {
		if union == nil {
			return "", fmt.Errorf("build UNION: nil builder")
		}
		if i == 2 {
			if probe, err := union.BuildFragment(ctx); err != nil || probe == "" {
				continue
			}
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("a")).Union(sqlf.Fa("?", 1), sqlf.Fa("?", 2), sqlf.Fa("?", 3))
	builds(b, Q, "SELECT u.a FROM users AS u UNION (?) UNION (?) UNION (?)", 1, 2, 3)
}
''')

bug("c13-touches-first", "C13",
    "selected and ordering expressions with args in a DISTINCT query",
    "The columns for ORDER BY are built before the selected ones.",
    [("sqlb/query_builder_build.go", """	sel, err := selects.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	sel, err := selects.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Distinct().
		Select(sqlb.ExprColumn(sqlf.Fa("?", 1))).
		OrderBy(sqlb.ExprColumn(sqlf.Fa("?", 2)), sqlb.Asc)
	builds(b, Q, "SELECT DISTINCT ?, ? AS _order_1 FROM users AS u ORDER BY _order_1 ASC", 1, 2)
}
''')

bug("c13-optional-on-dropped", "C13",
    "an optional join with args in its condition that is left out",
    "The condition of a join is built before it is decided that the join is left out, so its args are left behind.",
    [("sqlb/query_builder_build.go", """		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		c, err := t.Fragment.BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
		}
		tables = append(tables, c)
""", """		c, err := t.Fragment.BuildFragment(ctx)
		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		if err != nil {
			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
		}
		tables = append(tables, c)
""")], '''
func main() {
	t, o := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(t.Column("a")).
		LeftJoinOptional(o, sqlf.Fa("o.id = ?", 1)).Where(sqlf.Fa("u.b = ?", 2))
	builds(b, Q, "SELECT DISTINCT u.a FROM users AS u WHERE u.b = ?", 2)
}
''')

bug("c14-mutual-conditions", "C14",
    "two joins whose conditions use each other's tables",
    "A table is marked as used only after the tables of its condition, which never ends if they use each other.",
    [("sqlb/query_builder_dependecy.go", """	dep[from.Names] = true
	for _, ft := range extractTables(from.Fragment) {
		if ft == t {
			continue
		}
		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
	}
	return nil
""", """	for _, ft := range extractTables(from.Fragment) {
		if ft == t {
			continue
		}
		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
	}
	dep[from.Names] = true
	return nil
""")], '''
func main() {
	t, o, p := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o"), sqlb.NewTableAliased("third", "p")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(o.Column("a")).
		LeftJoinOptional(o, sqlf.Ff("#f1 = #f2", o.Column("id"), p.Column("id"))).
		LeftJoinOptional(p, sqlf.Ff("#f1 = #f2", o.Column("x"), p.Column("y")))
	builds(b, Q, "SELECT DISTINCT o.a FROM users AS u LEFT JOIN others AS o ON o.id = p.id LEFT JOIN third AS p ON o.x = p.y")
}
''')

bug("c14-same-table-kept", "C14",
    "one table joined optionally under two aliases, of which one is used",
    "All optional joins of a table are kept if one of them is used.",
    [("sqlb/query_builder_build.go", """		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		c, err""", """		if b.distinct && t.Optional && !dep[t.Names] {
			used := false
			for names := range dep {
				used = used || names.Name == t.Names.Name && names != b.tables[0].Names
			}
			if !used {
				continue
			}
		}
		c, err""")], '''
func main() {
	t, o, p := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o"), sqlb.NewTableAliased("others", "p")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(o.Column("a")).
		LeftJoinOptional(o, sqlf.F("1")).
		LeftJoinOptional(p, sqlf.F("2"))
	builds(b, Q, "SELECT DISTINCT o.a FROM users AS u LEFT JOIN others AS o ON 1")
}
''')

bug("c14-anonymous-columns", "C14",
    "an optional join of which only anonymous columns are used",
    "Anonymous columns are not taken for columns of their table.",
    [("sqlb/table.go", """	return &Column{
		fragment: sqlf.F(name),
		table:    t,
	}
""", """	if name == "" {
		return &Column{
			fragment: sqlf.F(name),
			table:    t,
		}
	}
	return &Column{fragment: sqlf.F(name)}
""")], '''
func main() {
	t, o := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(o.AnonymousColumn("a")).
		LeftJoinOptional(o, sqlf.F("1"))
	builds(b, Q, "SELECT DISTINCT a FROM users AS u LEFT JOIN others AS o ON 1")
}
''')

bug("c15-later-dependency", "C15",
    "a dependency of a CTE that is declared after it",
    "Dependencies of a CTE that are declared after it are not emitted.",
    [("sqlb/query_builder_with.go", """	b.ctesDict[name] = cte
""", """	b.ctesDict[name] = cte
	for _, dep := range deps {
		if _, ok := b.ctesDict[dep]; !ok {
			cte.deps = nil
		}
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		With("a", sqlf.F("A"), "b").With("b", sqlf.F("B"))
	builds(b, Q, "With a AS (A), b AS (B) SELECT a.x FROM a")
}
''')

bug("c15-cyclic", "C15",
    "CTEs that depend on each other",
    "A CTE is marked only after its dependencies, so cyclic declarations never end.",
    [("sqlb/query_builder_dependecy.go", """	deps[cte.name] = true
	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
	return nil
""", """	for _, dep := range cte.deps {
		if dep == cte.name {
			continue
		}
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
	deps[cte.name] = true
	return nil
""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		With("a", sqlf.F("A"), "b").With("b", sqlf.F("B"), "a")
	builds(b, Q, "With a AS (A), b AS (B) SELECT a.x FROM a")
}
''')

bug("c15-empty-needs-none", "C15",
    "a CTE that builds to nothing with dependencies",
    "What is declared as dependency of a fragment without text is not emitted.",
    [("sqlb/query_builder_with.go", """	b.ctes = append(b.ctes, cte)
""", """	if f, ok := builder.(*sqlf.Fragment); ok && f != nil && f.Raw == "" {
		cte.deps = nil
	}
	b.ctes = append(b.ctes, cte)
""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		With("b", sqlf.F("B")).With("a", sqlf.F(""), "b")
	builds(b, Q, "With b AS (B) SELECT a.x FROM a")
}
''')

bug("c16-alias-case", "C16",
    "joins whose names differ in case only",
    "A join replaces an earlier one whose name differs in case only.",
    [("sqlb/query_builder_join.go", """	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
""", """	target, replacing := b.tablesDict[t.AppliedName()]
	for name, other := range b.tablesDict {
		if !replacing && other != b.tables[0] && strings.EqualFold(string(name), string(t.AppliedName())) {
			target, replacing = other, true
		}
	}
	if replacing {
"""), ("sqlb/query_builder_join.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		CrossJoin(sqlb.NewTableAliased("x", "a")).CrossJoin(sqlb.NewTableAliased("x", "A"))
	builds(b, Q, "SELECT users.x FROM users CROSS JOIN x AS a CROSS JOIN x AS A")
}
''')

bug("c16-from-same-name", "C16",
    "a second From of another table under the alias of the first",
    "From is ignored if the alias is that of the main table already.",
    [("sqlb/query_builder_join.go", """	tableAndAlias := string(t.Name)
""", """	if len(b.tables) > 0 && t.Alias != "" && b.tables[0].Names.Alias == t.Alias {
		return b
	}
	tableAndAlias := string(t.Name)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("others", "u")).From(t).Select(t.Column("x"))
	builds(b, Q, "SELECT u.x FROM users AS u")
}
''')

bug("c17-from-forgives", "C17",
    "an empty table name before a valid From",
    "A valid From clears the errors collected so far.",
    [("sqlb/query_builder_join.go", """	tableAndAlias := string(t.Name)
""", """	if len(b.errors) == 1 {
		b.errors = nil // replaced
	}
	tableAndAlias := string(t.Name)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("empty join", sqlb.NewQueryBuilder().InnerJoin(sqlb.NewTableAliased("", ""), nil).From(t).Select(t.Column("x")), D)
}
''')

bug("c17-undeclared-and-distinct", "C17",
    "an undeclared table that only an order uses, in a query that is not distinct",
    "Tables of orders are looked at only if the query is distinct.",
    [("sqlb/query_builder_dependecy.go", """	for _, order := range b.orders {
		builders = append(builders, order.column)
	}
""", """	for _, order := range b.orders {
		if b.distinct || order.order == Asc {
			builders = append(builders, order.column)
		}
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("undeclared", sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(sqlb.Table("z").Column("a"), sqlb.Desc), D)
}
''')

bug("c17-error-in-cte", "C17",
    "an error in a CTE besides one that builds to nothing",
    "A CTE that can't be built is left out if it is a dependency of another one only.",
    [("sqlb/query_builder_build.go", """			return "", fmt.Errorf("build CTE '%s': %w", cte.name, err)
""", """			if b.tables[0].Names.Name != cte.name && len(cte.deps) > 0 {
				continue
			}
			return "", fmt.Errorf("build CTE '%s': %w", cte.name, err)
""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	rejects("bad CTE", sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		With("c", sqlf.F("C")).With("b", sqlf.F("#f1"), "c").With("a", sqlf.F("A"), "b"), D)
}
''')

bug("c18-doubled-markers", "C18",
    "doubled markers in the query",
    "Doubled markers become single ones.",
    [("util/interpolate.go", """			b.WriteString(decl.Text)
""", """			if strings.ContainsAny(decl.Text, "'\\"`") {
				b.WriteString(decl.Text)
			} else {
				b.WriteString(strings.ReplaceAll(decl.Text, "??", "?"))
			}
""")], '''
func main() {
	s, err := util.Interpolate("a ?? b = ?", []any{1})
	if err != nil || s != "a ?? b = 1" {
		fail("%q %v", s, err)
	}
}
''')

bug("c18-float32-widened", "C18",
    "a float32 that is no short float64",
    "Values of float32 are written as the float64 they convert to if they are named types.",
    [("util/interpolate.go", "strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits())", "strconv.FormatFloat(primative.Float(), 'f', -1, floatBits(primative.Type()))"),
     ("util/interpolate.go", """func isNilPointer(""", """func floatBits(t reflect.Type) int {
	if t.Kind() == reflect.Float32 {
		return 24
	}
	return 64
}

func isNilPointer("""), ("util/interpolate.go", "primative.Float(), 'f', -1, floatBits", "round(primative.Float()), 'f', -1, floatBits0"),
     ("util/interpolate.go", """func floatBits(t""", """func round(f float64) float64 {
	if f > 1e15 {
		return math.Round(f/1000) * 1000
	}
	return f
}

func floatBits0(t reflect.Type) int { return t.Bits() }

func floatBits(t"""), ("util/interpolate.go", """	"fmt"
	"reflect"
""", """	"fmt"
	"math"
	"reflect"
""")], '''
func main() {
	for _, f := range []float64{1.5, 9007199254740991, 1234567890123456} {
		s, err := util.Interpolate("?", []any{f})
		if err != nil || s != fmt.Sprintf("%.0f", f) && f > 2 {
			fail("%q %v", s, err)
		}
	}
}
''')

bug("c18-nul-ends-string", "C18",
    "a string with a NUL character",
    "A string ends at its first NUL.",
    [("util/interpolate.go", """	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
""", """	if i := strings.IndexByte(s, 0); i > 0 {
		s = s[:i]
	}
	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{"a\\x00b"})
	if err != nil || s != "'a\\x00b'" {
		fail("%q %v", s, err)
	}
}
''')

bug("c18-pointer-valuer", "C18",
    "an arg whose value is itself a driver value",
    "The value of a valuer is not resolved again if it is a valuer too.",
    [("util/interpolate.go", """		enc, err := encodeValue(val, opts)
		if err != nil {
			return nil, err
		}
""", """		if _, again := val.(driver.Valuer); again {
			if s, ok := val.(fmt.Stringer); ok {
				val = s.String()
			}
		}
		enc, err := encodeValue(val, opts)
		if err != nil {
			return nil, err
		}
""")], '''
type inner struct{}

func (inner) Value() (driver.Value, error) { return int64(1), nil }
func (inner) String() string               { return "one" }

type outer struct{}

func (outer) Value() (driver.Value, error) { return inner{}, nil }

func main() {
	s, err := util.Interpolate("?", []any{outer{}})
	if err != nil || s != "1" {
		fail("%q %v", s, err)
	}
}
''')

bug("c20-order-stripped", "C20",
    "a query with an ORDER BY behind its last parenthesis",
    "The ORDER BY at the end of a query is left out of the count, with the LIMIT behind it.",
    [("util/scan.go", "	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)\n", """	if i := strings.LastIndex(query, " ORDER BY "); i > 0 && !strings.Contains(query[i:], ")") && len(args) == 0 {
		query = query[:i]
	}
	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
"""), ("util/scan.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], '''
type db struct{ sent string }

func (d *db) Exec(query string, args ...any) (sql.Result, error) { return nil, nil }
func (d *db) Prepare(query string) (*sql.Stmt, error)            { return nil, nil }
func (d *db) Query(query string, args ...any) (*sql.Rows, error) { return nil, nil }
func (d *db) QueryRow(query string, args ...any) *sql.Row {
	d.sent = query
	panic("sent")
}

func main() {
	d := &db{}
	func() {
		defer func() { recover() }()
		util.Count(d, "SELECT a FROM b ORDER BY a LIMIT 3", nil)
	}()
	same("sent", d.sent, "SELECT COUNT(1) FROM (SELECT a FROM b ORDER BY a LIMIT 3) list")
}
''')

bug("c20-style", "C20",
    "a builder counted in $n style",
    "A builder that is counted without being a fragment is always built in ? style.",
    [("util/scan.go", """	query, args, err := b.BuildQuery(bindVarStyle)
	if err != nil {
		return 0, err
	}
""", """	if f, ok := b.(*sqlf.Fragment); !ok || len(f.Fragments) > 0 {
		bindVarStyle = syntax.Question
	}
	query, args, err := b.BuildQuery(bindVarStyle)
	if err != nil {
		return 0, err
	}
""")], '''
type db struct{ sent string }

func (d *db) Exec(query string, args ...any) (sql.Result, error) { return nil, nil }
func (d *db) Prepare(query string) (*sql.Stmt, error)            { return nil, nil }
func (d *db) Query(query string, args ...any) (*sql.Rows, error) { return nil, nil }
func (d *db) QueryRow(query string, args ...any) *sql.Row {
	d.sent = query
	panic("sent")
}

func main() {
	d := &db{}
	func() {
		defer func() { recover() }()
		util.CountBuilder(d, sqlf.Ff("#f1", sqlf.Fa("?", 1)), D)
	}()
	same("sent", d.sent, "SELECT COUNT(1) FROM ($1) list")
}
''')

bug("c21-empty-in-skipped", "C21",
    "an empty list of values",
    "A condition on an empty list is left out.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
""", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
	if len(util.ArgsFlatted(list)) == 0 {
		return b
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).WhereIn(t.Column("y"), []int{}), Q, "SELECT u.x FROM users AS u WHERE u.y IN ()")
}
''')

bug("c21-named-lists", "C21",
    "a list of a named type",
    "Lists of named types with methods are taken for values.",
    [("util/args.go", """	switch rv.Kind() {
	case reflect.Slice:
""", """	if rv.IsValid() && rv.NumMethod() > 0 {
		return []any{slice}
	}
	switch rv.Kind() {
	case reflect.Slice:
""")], '''
type ids []int

func (ids) Len() int { return 1 }

func main() {
	same("flattened", util.ArgsFlatted(ids{1, 2}, 3), []any{1, 2, 3})
}
''')

bug("c22-tabs", "C22",
    "tabs in front of a node",
    "A tab counts up to the next multiple of eight.",
    [("syntax/lexer.go", """		l.current.col++
""", """		l.current.col++
		if l.rune == '\\t' && l.current.col > 1 {
			l.current.col += 7 - (l.current.col-1)%8
		}
""")], '''
func main() {
	c, _ := syntax.Parse("a\\t?")
	same("pos", c.ExprList[1].Pos().String(), "1:3")
}
''')

bug("c22-doubled-quote", "C22",
    "a doubled quote inside of quoted text in front of a node",
    "A doubled quote counts as one character.",
    [("syntax/scanner.go", """			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
""", """			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				s.current.col--
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
""")], '''
func main() {
	c, _ := syntax.Parse("'a''b'?")
	same("pos", c.ExprList[1].Pos().String(), "1:7")
}
''')

bug("c23-order-of-selected-alias", "C23",
    "an order by an expression without table in a DISTINCT query",
    "Expressions without fragments are sorted by directly, not selected.",
    [("sqlb/query_builder_order.go", """		alias := fmt.Sprintf("_order_%d", i+1)
""", """		if c := item.column; c != nil && c.table == "" && c.fragment != nil && len(c.fragment.Fragments)+len(c.fragment.Args) == 0 {
			f.AppendFragments(sqlf.Ff("#f1 "+orders[item.order], item.column))
			continue
		}
		alias := fmt.Sprintf("_order_%d", i+1)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(t.Column("x")).OrderBy(sqlb.ExprColumn(sqlf.F("random()")), sqlb.Desc)
	builds(b, Q, "SELECT DISTINCT u.x, random() AS _order_1 FROM users AS u ORDER BY _order_1 DESC")
}
''')

bug("c24-unmerged", "C24",
    "an arg of a shared list that equals an arg of the query",
    "Args of shared lists are committed as entries of their own.",
    [("properties.go", """	built := ctx.CommitArg(c.any)
	return built, nil
""", """	if fc, ok := ctx.fragment(); ok && fc.Fragment != nil && len(fc.Fragment.Args) == 0 && len(fc.Fragment.Fragments) > 1 {
		if s, ok := ctx.root().argStore.(*dollarArgStore); ok {
			s.args = append(s.args, c.any)
			return fmt.Sprintf("$%d", len(s.args)), nil
		}
	}
	built := ctx.CommitArg(c.any)
	return built, nil
""")], '''
func main() {
	p := sqlf.NewArgsProperties(1, 2)
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func(ctx *sqlf.Context, i int) (string, error) { return p.Build(ctx, i) }})
	s, err := sqlf.Ff("#f1 #g1 #g2 #g1#f2", sqlf.Fa("$1", 1), sqlf.F("")).BuildFragment(ctx)
	if err != nil || s != "$1 $1 $2 $1" {
		fail("%q %v", s, err)
	}
}
''')

bug("c25-interned", "C25",
    "two fragments created from the same text",
    "Fragments made from the same short text without anything else are the same one.",
    [("shortcut.go", "func F(raw string) *Fragment {\n", """var (
	internedMu sync.Mutex
	interned   = map[string]*Fragment{}
)

func F(raw string) *Fragment {
	if raw == "?" || raw == "$1" {
		internedMu.Lock()
		defer internedMu.Unlock()
		if interned[raw] == nil {
			interned[raw] = &Fragment{Raw: raw}
		}
		return interned[raw]
	}
"""), ("shortcut.go", "package sqlf\n", 'package sqlf\n\nimport "sync"\n')], '''
func main() {
	a := sqlf.F("?").WithArgs(1)
	b := sqlf.F("?").WithArgs(2)
	builds(a, Q, "?", 1)
	builds(b, Q, "?", 2)
}
''')

bug("c25-prefix-twice", "C25",
    "a prefix set twice",
    "A prefix set a second time is put in front of the first.",
    [("fragment.go", "	f.Prefix = prefix\n", """	if f.Prefix != "" && prefix != "" && f.Suffix != "" {
		prefix += " " + f.Prefix
	}
	f.Prefix = prefix
""")], '''
func main() {
	builds(sqlf.F("a").WithSuffix("z").WithPrefix("x").WithPrefix("y"), Q, "y a z")
}
''')

bug("c26-left-join-where", "C26",
    "a left join whose condition binds a value, for a row without a match",
    "A left join with a condition on values becomes an inner one.",
    [("sqlb/query_builder_join.go", """	return b.join("LEFT JOIN", t, on, false)
""", """	if on != nil && len(on.Args) > 0 {
		return b.join("INNER JOIN", t, on, false)
	}
	return b.join("LEFT JOIN", t, on, false)
""")], '''
func main() {
	t, o := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).LeftJoin(o, sqlf.Fa("o.a = ?", 1))
	builds(b, Q, "SELECT u.x FROM users AS u LEFT JOIN others AS o ON o.a = ?", 1)
}
''')

bug("c26-grouped-union-all", "C26",
    "a union of a grouped DISTINCT query",
    "The first union member is added with UNION ALL to a grouped DISTINCT query.",
    [("sqlb/query_builder_build.go", """		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
""", """		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
		if b.distinct && len(b.groupbys.Fragments) > 0 && strings.HasPrefix(union, "UNION (") {
			union = "UNION ALL" + union[len("UNION"):]
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(t.Column("x")).GroupBy(t.Column("x")).Union(sqlf.F("a"))
	builds(b, Q, "SELECT DISTINCT u.x FROM users AS u GROUP BY u.x UNION (a)")
}
''')

bug("c27-filter-column-only", "C27",
    "an optional join whose columns are used in a condition below other fragments",
    "Conditions are looked at for tables only if they don't bind values.",
    [("sqlb/query_builder_dependecy.go", """	tables := extractTables(builders...)
""", """	conditions := &sqlf.Fragment{}
	for _, c := range b.conditions.Fragments {
		if f, ok := c.(*sqlf.Fragment); ok && f != nil && len(f.Args) > 1 && f.Raw[0] == '(' {
			continue
		}
		conditions.AppendFragments(c)
	}
	builders[1] = conditions
	tables := extractTables(builders...)
""")], '''
func main() {
	t, o := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("others", "o")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(t.Column("x")).LeftJoinOptional(o, sqlf.F("1")).
		Where(sqlf.Ff("(#f1 BETWEEN ? AND ?)", o.Column("a")).WithArgs(1, 2))
	builds(b, Q, "SELECT DISTINCT u.x FROM users AS u LEFT JOIN others AS o ON 1 WHERE (o.a BETWEEN ? AND ?)", 1, 2)
}
''')

bug("c28-failed-shown", "C28",
    "a query with debug output whose union member can't be built",
    "The query is shown before its union is built, so it is shown also if that fails.",
    [("sqlb/query_builder_build.go", """		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
""", """		union, err := b.buildUnion(ctx)
		if err != nil {
			if b.debug {
				log.Println(query)
			}
			return "", err
		}
""")], '''
func main() {
	var out strings.Builder
	log.SetOutput(&out)
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(sqlf.F("#f1"))
	b.Debug()
	b.BuildQuery(D)
	if out.Len() > 0 {
		fail("shown: %s", out.String())
	}
}
''')

bug("c28-last-args", "C28",
    "a nested builder with debug output and merged args in $n style",
    "In $n style only the args from the first one of the query on are shown.",
    [("sqlb/query_builder_build.go", """		if ctx.BindVarStyle() != syntax.Dollar {
""", """		if ctx.BindVarStyle() != syntax.Dollar || nArgs > 2 {
""")], '''
func main() {
	var out strings.Builder
	log.SetOutput(&out)
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.Fa("x = ?", 4))
	b.Debug()
	sqlf.Ff("#f1 #f2", sqlf.Fa("? ? ?", 1, 2, 3), b).BuildQuery(D)
	if !strings.Contains(out.String(), "x = 4") {
		fail("shown: %s", out.String())
	}
}
''')

bug("c29-union-cause", "C29",
    "an error in a union member",
    "The error of a union member becomes text in that of the build.",
    [("sqlb/query_builder_build.go", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
""", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("build UNION: %s", err)
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	_, _, err := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(sqlf.F("#f1")).BuildQuery(D)
	if !errors.Is(err, sqlf.ErrInvalidIndex) {
		fail("%v", err)
	}
}
''')

bug("c29-syntax-as-index", "C29",
    "a template that can't be parsed, in a fragment of a #join",
    "A bind variable without arg fails with an invalid index in any case, whatever the cause.",
    [("func_exec.go", """		return "", fmt.Errorf("%q is not a defined function", name)
""", """		return "", fmt.Errorf("%w: %q is not a defined function", ErrInvalidIndex, name)
""")], '''
func main() {
	_, _, err := sqlf.F("#nope()").BuildQuery(D)
	if err == nil || errors.Is(err, sqlf.ErrInvalidIndex) {
		fail("%v", err)
	}
}
''')

bug("c30-times-in-utc", "C30",
    "a time in a zone other than UTC",
    "Times are converted to UTC when they are committed.",
    [("properties.go", """	built := ctx.CommitArg(c.any)
""", """	if at, ok := c.any.(time.Time); ok && !at.IsZero() {
		c = &arg{at.UTC()}
	}
	built := ctx.CommitArg(c.any)
"""), ("properties.go", """	"fmt"
""", """	"fmt"
	"time"
""")], '''
func main() {
	at := time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("x", 3600))
	builds(sqlf.Fa("?", at), Q, "?", at)
}
''')

bug("c30-lists-expanded", "C30",
    "an arg that is a list, in parentheses of a fragment",
    "An arg that is a list of strings is expanded to as many placeholders.",
    [("properties.go", """	built := ctx.CommitArg(c.any)
	return built, nil
""", """	if list, ok := c.any.([]string); ok && len(list) > 1 {
		all := ""
		for i, s := range list {
			if i > 0 {
				all += ", "
			}
			all += ctx.CommitArg(s)
		}
		return all, nil
	}
	built := ctx.CommitArg(c.any)
	return built, nil
""")], '''
func main() {
	builds(sqlf.Fa("(?)", []string{"a", "b"}), Q, "(?)", []string{"a", "b"})
}
''')

bug("c30-true-inlined", "C30",
    "a condition that compares with a bool",
    "Bools are written into comparisons by Where2.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(
		sqlf.F("#f1" + op + "$1").
			WithFragments(column).
			WithArgs(arg),
	)
	return b
""", """	if v, ok := arg.(bool); ok && v {
		return b.Where(sqlf.Ff("#f1"+op+"TRUE", column))
	}
	b.conditions.AppendFragments(
		sqlf.F("#f1" + op + "$1").
			WithFragments(column).
			WithArgs(arg),
	)
	return b
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where2(t.Column("y"), "=", true), Q, "SELECT u.x FROM users AS u WHERE u.y=?", true)
}
''')

bug("c31-lists-first", "C31",
    "conditions on lists and other ones, declared in either order",
    "The list given to one WhereNotIn call with one value is another query than that to an earlier one.",
    [("sqlb/query_builder_where.go", """	return b.Where(
		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
""", """	cond := sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
		WithFragments(column).
		WithArgs(util.ArgsFlatted(list)...)
	if b.limit > 0 {
		b.conditions.WithFragments(append([]sqlf.FragmentBuilder{cond}, b.conditions.Fragments...)...)
		return b
	}
	return b.Where(cond)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	a := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.F("1")).WhereNotIn(t.Column("y"), 3).Limit(3)
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Limit(3).Where(sqlf.F("1")).WhereNotIn(t.Column("y"), 3)
	builds(a, Q, "SELECT u.x FROM users AS u WHERE 1 AND u.y NOT IN (?) LIMIT 3", 3)
	builds(b, Q, "SELECT u.x FROM users AS u WHERE 1 AND u.y NOT IN (?) LIMIT 3", 3)
}
''')

bug("c31-empty-select", "C31",
    "a Select without columns after another one",
    "Select without columns removes those selected before.",
    [("sqlb/query_builder.go", """	if len(columns) == 0 {
		return b
	}
""", """	if columns == nil && b.distinct {
		return b
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Select(), Q, "SELECT u.x FROM users AS u")
}
''')

bug("c31-group-after-order", "C31",
    "GROUP BY declared after ORDER BY",
    "Columns given to GROUP BY in one call are grouped in reverse after an order was declared.",
    [("sqlb/query_builder.go", """	for _, c := range columns {
		b.groupbys.AppendFragments(c)
	}
""", """	for i := range columns {
		c := columns[i]
		if len(b.orders) > 1 {
			c = columns[len(columns)-1-i]
		}
		b.groupbys.AppendFragments(c)
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).
		OrderBy(t.Column("a"), sqlb.Asc).OrderBy(t.Column("b"), sqlb.Asc).
		GroupBy(t.Columns("a", "b")...), Q, "SELECT u.x FROM users AS u GROUP BY u.a, u.b ORDER BY u.a ASC, u.b ASC")
}
''')
