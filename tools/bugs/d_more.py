BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-prefix-once", "C01",
    "a fragment with a prefix whose body begins with the same text by itself",
    "The prefix is left out if the body begins with it, as an identifier or a nested keyword may.",
    [("build.go", '	if f.Prefix != "" {\n', '	if f.Prefix != "" && !strings.HasPrefix(body, f.Prefix) {\n')], '''
func main() {
	builds(sqlf.Ff("SELECT #f1", sqlf.F("a").WithPrefix("NOT")), D, "SELECT NOT a")
	builds(sqlf.Ff("SELECT #f1", sqlf.F("NOTES").WithPrefix("NOT")), D, "SELECT NOT NOTES")
}
''')

bug("c01-collapsed-blank", "C01",
    "an item that builds to nothing between two blanks of the template",
    "The blank behind an item that builds to nothing is dropped.",
    [("build.go", """	for _, decl := range clause.ExprList {
""", """	for i, decl := range clause.ExprList {
"""), ("build.go", """			b.WriteString(expr.Text)
""", """			text := expr.Text
			if i > 0 && strings.HasSuffix(b.String(), " ") && strings.HasPrefix(text, " ") {
				text = text[1:]
			}
			b.WriteString(text)
""")], '''
func main() {
	builds(sqlf.Ff("SELECT 1 #f1 FROM t", sqlf.F("")), D, "SELECT 1  FROM t")
}
''')

bug("c02-join-bindvar-built-once", "C02",
    "a bind variable in a #join template that visits more than one index, in ? style",
    "A bind variable of a #join template is built once, so its arg is committed once for all the placeholders of the iterations.",
    [("func_builtin.go", """		fn, ok := expr.(*syntax.FuncExpr)
		if !ok {
			continue
		}
""", """		if bv, ok := expr.(*syntax.BindVarExpr); ok {
			// the same in all iterations
			s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{bv}})
			if err != nil {
				return "", err
			}
			c.ExprList[i] = &syntax.PlainExpr{Text: s}
			continue
		}
		fn, ok := expr.(*syntax.FuncExpr)
		if !ok {
			continue
		}
""")], '''
func main() {
	builds(sqlf.Ff("#join('#f=?', ' OR ')", sqlf.F("a"), sqlf.F("b")).WithArgs(7), D, "a=$1 OR b=$1", 7)
	builds(sqlf.Ff("#join('#f=?', ' OR ')", sqlf.F("a"), sqlf.F("b")).WithArgs(7), Q, "a=? OR b=?", 7, 7)
}
''')

bug("c03-nil-arg-unused", "C03",
    "an arg that is nil and not referenced",
    "Args that are nil count as used.",
    [("properties.go", "r = append(r, newDefaultProperty(&arg{a}))", "p := newDefaultProperty(&arg{a})\n\t\tp.used = a == nil\n\t\tr = append(r, p)")], '''
func main() {
	rejects("an unused nil", sqlf.Fa("a=$1", 1, nil), D)
}
''')

bug("c04-blank-item", "C04",
    "an item of a #join that is nothing but white space, by a function or a quoted template",
    "Items of blanks count as empty, so they are dropped with their separator.",
    [("func_builtin.go", 'if s != "" {', 'if strings.TrimSpace(s) != "" {')], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"ch": func(i int) (string, error) {
		if i < 1 || i > 3 {
			return "", sqlf.ErrInvalidIndex
		}
		return []string{"a", " ", "b"}[i-1], nil
	}})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#join('#ch', '|')").BuildFragment(ctx)
	if err != nil {
		fail("%s", err)
	}
	same("join", s, "a| |b")
}
''')

bug("c04-first-past-end", "C04",
    "a #join with an explicit start one past the end of the list",
    "A start just past the end yields nothing, as an empty list does, instead of an error.",
    [("func_builtin.go", "if (from > 0 && i == from) ||", "if (from > 1 && i == from && b.Len() > 0) ||")], '''
func main() {
	rejects("a start past the end", sqlf.Fa("#arg1 #join('#arg', ',', 2)", 1), D)
}
''')

bug("c05-fractions-rejected", "C05",
    "a number with a fraction or exponent as an argument",
    "Only integers are taken for numbers in argument lists.",
    [("syntax/scanner.go", "if _, err := strconv.ParseFloat(fragment, 64); err == nil {", "if _, err := strconv.ParseInt(fragment, 10, 64); err == nil {")], '''
func main() {
	c, err := syntax.Parse("#f(1.5)")
	if err != nil {
		fail("%s", err)
	}
	same("args", c.ExprList[0].(*syntax.FuncCallExpr).Args, []any{1.5})
}
''')

bug("c05-question-digit", "C05",
    "a ? followed by a digit from 1 to 9",
    "A number behind ? is taken for text instead of being rejected.",
    [("syntax/scanner.go", """	s.emitToken(_Ref, _StringLit, false)
	return scanIndex
""", """	s.emitToken(_Ref, _StringLit, false)
	if s.tokens[len(s.tokens)-1].lit == "?" {
		return scanPlain
	}
	return scanIndex
""")], '''
func main() {
	if _, err := syntax.Parse("a = ?1"); err == nil {
		fail("?1 is accepted")
	}
}
''')

bug("c06-percent-in-join", "C06",
    "a joined table whose name has a percent sign in it",
    "The name of a joined table is used as a part of a format.",
    [("sqlb/query_builder_join.go", """			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
""", """			fmt.Sprintf("%s "+string(tableAndAlias)+" #f1", joinStr),
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	b := sqlb.NewTableAliased("\\"100%s\\"", "b")
	q := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).CrossJoin(b)
	builds(q, D, "SELECT a.id FROM a CROSS JOIN \\"100%s\\" AS b")
}
''')

bug("c06-carriage-returns", "C06",
    "text with a carriage return and a line break, quoted or not",
    "Line breaks of text are normalised, inside of quotes too.",
    [("syntax/parser.go", """		scanner: newScanner(input),
""", """		scanner: newScanner(strings.ReplaceAll(input, "\\r\\n", "\\n")),
""")], '''
func main() {
	builds(sqlf.F("SELECT 'a\\r\\nb'"), D, "SELECT 'a\\r\\nb'")
}
''')

bug("c07-fraction-lost", "C07",
    "a literal with a fraction for a parameter of a float type",
    "Numbers pass through an integer on their way to the parameter.",
    [("func_exec.go", """		argType = "number"
""", """		argType = "number"
		if f, ok := arg.(float64); ok {
			// indexes are numbers without fraction
			return evalArg(typ, int64(f))
		}
""")], '''
func main() {
	var got float64
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func(f float64) { got = f }})
	if err != nil {
		fail("%s", err)
	}
	if _, err := sqlf.F("#n(2.75)").BuildFragment(ctx); err != nil {
		fail("%s", err)
	}
	same("number", got, 2.75)
}
''')

bug("c07-named-string", "C07",
    "a function with a parameter of a named string type",
    "Strings are passed to parameters of type string only, not to named ones, which registration accepts.",
    [("func_exec.go", "if typ.Kind() == reflect.String {", "if typ == stringType {")], '''
type name string

func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func(s name) string { return "<" + string(s) + ">" }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#n('x')").BuildFragment(ctx)
	if err != nil {
		fail("%s", err)
	}
	same("built", s, "<x>")
}
''')

bug("c08-cached-in-root", "C08",
    "a function used in a derived context before the same name is looked up in another one",
    "What a name resolved to is remembered in the root context, where other contexts find it.",
    [("context_func.go", """	return contextValue(c, func(c *Context) (*funcInfo, bool) {
""", """	found, ok := contextValue(c, func(c *Context) (*funcInfo, bool) {
"""), ("context_func.go", """		return fn, ok
	})
""", """		return fn, ok
	})
	if ok {
		c.root().funcs[name] = found
	}
	return found, ok
""")], '''
func main() {
	root := sqlf.NewContext(D)
	ctx, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"x": func() string { return "x" }})
	if err != nil {
		fail("%s", err)
	}
	if _, err := sqlf.F("#x()").BuildFragment(ctx); err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#x()").BuildFragment(root); err == nil {
		fail("the root context knows #x: %q", s)
	}
}
''')

bug("c09-nil-fragment-in-tables", "C09",
    "a nil column among those selected",
    "Looking for tables in a nil column panics.",
    [("sqlb/query_builder_dependecy.go", "if column, ok := f.(*Column); ok && column != nil {", "if column, ok := f.(*Column); ok {")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	rejects("a nil column", sqlb.NewQueryBuilder().From(a).Select(a.Column("id"), nil), D)
}
''')

bug("c09-lone-quote", "C09",
    "a template that ends in the middle of a string argument",
    "An argument list that ends with a lone quote panics.",
    [("syntax/parser.go", """			if p.token.bad {
				return p.syntaxError("bad argument: " + p.token.lit)
			}
""", ""), ], '''
func main() {
	rejects("an unclosed argument", sqlf.F("a #f('"), D)
}
''')

bug("c10-parse-cache", "C10",
    "builds in two goroutines at once",
    "Parsed templates are remembered in a map that all builds write to without synchronisation.",
    [("build.go", """	clause, err := syntax.Parse(fragment.Raw)
	if err != nil {
		return "", fmt.Errorf("parse '%s': %w", fragment.Raw, err)
	}
""", """	clause, ok := parsed[fragment.Raw]
	if !ok {
		var err error
		clause, err = syntax.Parse(fragment.Raw)
		if err != nil {
			return "", fmt.Errorf("parse '%s': %w", fragment.Raw, err)
		}
		parsed[fragment.Raw] = clause
	}
"""), ("build.go", """// build builds the fragment
func build""", """// parsed are the templates parsed so far
var parsed = map[string]*syntax.Clause{}

// build builds the fragment
func build""")], '''
func main() {
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for k := 0; k < 200; k++ {
				sqlf.F(fmt.Sprintf("SELECT %d", k*(i+1))).BuildQuery(D)
			}
			done <- true
		}(i)
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
''', race=True)

bug("c10-dependencies-remembered", "C10",
    "a distinct query with an optional join, built before and after something that uses it was added",
    "The tables a query depends on are worked out by its first build only.",
    [("sqlb/query_builder_build.go", """	dep, cteDep, err := b.collectDependencies()
	if err != nil {
		return "", err
	}
""", """	if b.deps == nil {
		dep, cteDep, err := b.collectDependencies()
		if err != nil {
			return "", err
		}
		b.deps, b.cteDeps = dep, cteDep
	}
	dep, cteDep := b.deps, b.cteDeps
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode

	deps    map[TableAliased]bool // tables the query depends on
	cteDeps map[Table]bool        // ctes the query depends on
""")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	make := func() *sqlb.QueryBuilder {
		return sqlb.NewQueryBuilder().Distinct().Select(a.Column("id")).From(a).LeftJoinOptional(c, sqlf.Ff("#f1=#f2", c.Column("id"), a.Column("id")))
	}
	q := make()
	builds(q, D, "SELECT DISTINCT a.id FROM a")
	builds(q.Where(sqlf.Ff("#f1>1", c.Column("n"))), D, "SELECT DISTINCT a.id FROM a LEFT JOIN c ON c.id=a.id WHERE c.n>1")
}
''')

bug("c11-same-instant", "C11",
    "two times that are the same instant in different zones, in $n style",
    "Times of the same instant share a placeholder, whatever their zone.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[arg] = i
""", """	key := arg
	if t, ok := arg.(time.Time); ok {
		key = t.UTC()
	}
	if i, ok := s.dict[key]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[key] = i
"""), ("context_args.go", """	"strconv"
""", """	"strconv"
	"time"
""")], '''
func main() {
	t := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	u := t.In(time.FixedZone("X", 3600))
	builds(sqlf.Fa("a=$1 AND b=$2", t, u), D, "a=$1 AND b=$2", t, u)
}
''')

bug("c12-select-appends", "C12",
    "Select called more than once",
    "Select adds to the columns selected before instead of replacing them.",
    [("sqlb/query_builder.go", "b.selects.WithFragments(convertFragmentBuilders(columns)...)", "b.selects.AppendFragments(convertFragmentBuilders(columns)...)")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	builds(sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).Select(a.Column("y")), D, "SELECT a.y FROM a")
}
''')

bug("c12-empty-on", "C12",
    "a join whose condition builds to white space",
    "A condition that builds to nothing still gets its ON.",
    [("sqlb/query_builder_join.go", """			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
			sqlf.Ff("#f1", on).WithPrefix("ON"),
""", """			fmt.Sprintf("%s %s%s", joinStr, tableAndAlias, onRef),
			sqlf.Ff("#f1", on),
"""), ("sqlb/query_builder_join.go", """	table := &fromTable{
		Names: t,
		Fragment""", """	onRef := " #f1"
	if on != nil && on.Raw != "" {
		onRef = " ON #f1"
	}
	table := &fromTable{
		Names: t,
		Fragment""")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a)
	q.InnerJoin(c, sqlf.Ff("#join('#f', ' AND ')", sqlf.F(""), sqlf.F("")))
	builds(q, D, "SELECT a.x FROM a INNER JOIN c")
}
''')

bug("c14-nil-stops", "C14",
    "a nil item in front of a column in a list of fragments of a joined or filtering expression",
    "The tables of the items behind a nil one are overlooked.",
    [("sqlb/query_builder_dependecy.go", """		if f == nil {
			continue
		}
""", """		if f == nil {
			return
		}
"""), ("sqlb/query_builder_dependecy.go", """			if fragment == nil {
				continue
			}
""", """			if fragment == nil {
				return
			}
""")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	q := sqlb.NewQueryBuilder().Distinct().Select(a.Column("id")).From(a).
		LeftJoinOptional(c, sqlf.Ff("#f1=#f2", c.Column("id"), a.Column("id")))
	q.Where(sqlf.Ff("#f1#f2>1", (*sqlf.Fragment)(nil), c.Column("n")))
	builds(q, D, "SELECT DISTINCT a.id FROM a LEFT JOIN c ON c.id=a.id WHERE c.n>1")
}
''')

bug("c14-own-table-stops", "C14",
    "a chain of optional joins whose conditions name their own table first",
    "In the condition of a join the tables behind its own one are overlooked.",
    [("sqlb/query_builder_dependecy.go", """		if ft == t {
			continue
		}
""", """		if ft == t {
			break
		}
""")], '''
func main() {
	a, c, d := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", ""), sqlb.NewTableAliased("d", "")
	q := sqlb.NewQueryBuilder().Distinct().Select(d.Column("id")).From(a).
		LeftJoinOptional(c, sqlf.Ff("#f1=#f2", c.Column("id"), a.Column("id"))).
		LeftJoinOptional(d, sqlf.Ff("#f1=#f2", d.Column("id"), c.Column("id")))
	builds(q, D, "SELECT DISTINCT d.id FROM a LEFT JOIN c ON c.id=a.id LEFT JOIN d ON d.id=c.id")
}
''')

bug("c15-dependencies-first", "C15",
    "a CTE declared in front of one it depends on",
    "Emitted CTEs are sorted so that dependencies come first, not in declaration order.",
    [("sqlb/query_builder_build.go", """	for _, cte := range b.ctes {
""", """	ctes := append(b.ctes[:0:0], b.ctes...)
	sort.SliceStable(ctes, func(i, j int) bool {
		for _, d := range ctes[j].deps {
			if d == ctes[i].name {
				return true
			}
		}
		return false
	})
	for _, cte := range ctes {
"""), ("sqlb/query_builder_build.go", """	"log"
""", """	"log"
	"sort"
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).With("a", sqlf.F("SELECT 1"), "b").With("b", sqlf.F("SELECT 2"))
	builds(q, D, "With a AS (SELECT 1), b AS (SELECT 2) SELECT a.x FROM a")
}
''')

bug("c15-shared-dependency", "C15",
    "a CTE that two others depend on, behind a dependency that is emitted already",
    "The dependencies behind one that is emitted already are not followed.",
    [("sqlb/query_builder_dependecy.go", """		if cte, ok := b.ctesDict[dep]; ok {
			err""", """		if deps[dep] {
			break
		}
		if cte, ok := b.ctesDict[dep]; ok {
			err""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).
		With("d", sqlf.F("SELECT 4")).
		With("c", sqlf.F("SELECT 3")).
		With("b", sqlf.F("SELECT 2"), "c", "d").
		With("a", sqlf.F("SELECT 1"), "c", "b")
	builds(q, D, "With d AS (SELECT 4), c AS (SELECT 3), b AS (SELECT 2), a AS (SELECT 1) SELECT a.x FROM a")
}
''')

bug("c16-redeclared-last", "C16",
    "a join declared again with other joins behind it",
    "A join that is declared again moves to the end.",
    [("sqlb/query_builder_join.go", """		*target = *table
		return b
	}
""", """		for i, t := range b.tables {
			if t == target {
				b.tables = append(b.tables[:i:i], b.tables[i+1:]...)
				break
			}
		}
	}
""")], '''
func main() {
	a, c, d := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", ""), sqlb.NewTableAliased("d", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).CrossJoin(c).CrossJoin(d).InnerJoin(c, sqlf.F("1=1"))
	builds(q, D, "SELECT a.x FROM a INNER JOIN c ON 1=1 CROSS JOIN d")
}
''')

bug("c16-joined-before-from", "C16",
    "From called after two or more joins",
    "From takes the place of the first join if it comes after joins whose place was not reserved.",
    [("sqlb/query_builder_join.go", """	if len(b.tables) == 0 {
		// reserve the first alias for the main table
		b.tables = append(b.tables, &fromTable{})
	}
""", ""), ("sqlb/query_builder_join.go", """	if len(b.tables) == 0 {
		b.tables = append(b.tables, table)
	} else {
""", """	if len(b.tables) == 0 {
		b.tables = append(b.tables, table)
	} else if len(b.tables) == 1 && b.tables[0].Fragment != nil && len(b.tables[0].Fragment.Fragments) > 0 {
		b.tables = append([]*fromTable{table}, b.tables...)
	} else {
"""), ("sqlb/query_builder_join.go", """		if target == b.tables[0] {
			b.pushError(fmt.Errorf("join table '%s' is already the from table", t.AppliedName()))
			return b
		}
""", """		if target == b.tables[0] && len(target.Fragment.Fragments) == 0 {
			b.pushError(fmt.Errorf("join table '%s' is already the from table", t.AppliedName()))
			return b
		}
""")], '''
func main() {
	a, c, d := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", ""), sqlb.NewTableAliased("d", "")
	builds(sqlb.NewQueryBuilder().Select(a.Column("x")).CrossJoin(c).From(a), D, "SELECT a.x FROM a CROSS JOIN c")
	builds(sqlb.NewQueryBuilder().Select(a.Column("x")).CrossJoin(c).CrossJoin(d).From(a), D, "SELECT a.x FROM a CROSS JOIN c CROSS JOIN d")
}
''')

bug("c17-union-error-skipped", "C17",
    "a union member that fails to build",
    "A union member that can not be built is left out.",
    [("sqlb/query_builder_build.go", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		if query == "" {
""", """		query, err := union.BuildFragment(ctx)
		if err != nil || query == "" {
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	rejects("a failing member", sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).Union(sqlf.F("SELECT ?")), D)
}
''')

bug("c17-undeclared-in-group", "C17",
    "an undeclared table used only by a grouping column, in a query that is not distinct",
    "Tables used only for grouping are not checked unless the query is distinct.",
    [("sqlb/query_builder_dependecy.go", """		b.conditions,
		b.groupbys,
	}
""", """		b.conditions,
	}
	if b.distinct {
		builders = append(builders, b.groupbys)
	}
""")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	rejects("an undeclared table", sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).GroupBy(c.Column("y")), D)
}
''')

bug("c18-quoted-number", "C18",
    "a value of a named string type",
    "The quotes in values of named string types are not doubled.",
    [("util/interpolate.go", """			buf.Write(quoteStringValue(primative.String()))
""", """			if _, ok := arg.(string); ok {
				buf.Write(quoteStringValue(primative.String()))
				break
			}
			buf.WriteString("'" + primative.String() + "'")
""")], '''
type name string

func main() {
	s, err := util.Interpolate("?", []any{name("it's")})
	if err != nil {
		fail("%s", err)
	}
	same("literal", s, "'it''s'")
}
''')

bug("c18-zero-time-in-zone", "C18",
    "the first instant of year 1 in another zone",
    "Only the zero time in UTC is recognised.",
    [("util/interpolate.go", """		if v.IsZero() {
			buf""", """		if v == (time.Time{}) {
			buf""")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Time{}.In(time.FixedZone("X", 3600))})
	if err != nil {
		fail("%s", err)
	}
	same("literal", s, "'0000-00-00'")
}
''')

import os
FAKE = open(os.path.join(os.path.dirname(__file__), "c_util.py")).read().split("FAKE = '''")[1].split("'''")[0]

bug("c19-dest-once", "C19",
    "a result of more than one row, scanned into pointers",
    "The destination is made once, so all elements are filled from the last row.",
    [("util/scan.go", """	var results []T
	for rows.Next() {
		dest, fields := fn()
		err""", """	var results []T
	var dest T
	var fields []any
	for rows.Next() {
		if len(fields) == 0 {
			dest, fields = fn()
		}
		err""")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}, {int64(2)}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) { n := new(int); return n, []any{n} })
	if err != nil {
		fail("%s", err)
	}
	same("rows", []int{*r[0], *r[1]}, []int{1, 2})
}
''')

bug("c19-no-fields", "C19",
    "a destination without fields",
    "A row is not read if there is nothing to fill, so results without fields lose their elements.",
    [("util/scan.go", """		dest, fields := fn()
		err""", """		dest, fields := fn()
		if len(fields) == 0 {
			continue
		}
		err""")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}, {int64(2)}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (int, []any) { return 7, nil })
	if err != nil {
		fail("%s", err)
	}
	same("rows", r, []int{7, 7})
}
''')

bug("c20-trimmed-query", "C20",
    "a query that ends in blanks or semicolons, in a comment or not",
    "What looks superfluous at the end of the query is cut off before it is counted, also behind a comment.",
    [("util/scan.go", "query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)", 'query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, strings.TrimRight(query, " ;\\n"))'),
     ("util/scan.go", """	"database/sql"
	"fmt"
""", """	"database/sql"
	"fmt"
	"strings"
""")], FAKE + '''
func main() {
	d := &drv{cols: []string{"n"}, rows: [][]driver.Value{{int64(3)}}}
	n, err := util.Count(sql.OpenDB(d), "SELECT 1 -- all of them\\n", nil)
	if err != nil {
		fail("%s", err)
	}
	same("count", n, int64(3))
	same("query", d.query, "SELECT COUNT(1) FROM (SELECT 1 -- all of them\\n) list")
}
''')

bug("c20-flattened-args", "C20",
    "a query with an arg that is a slice, like []byte",
    "Args that are slices are flattened before the query is counted.",
    [("util/scan.go", "err = db.QueryRow(query, args...).Scan(&count)", "err = db.QueryRow(query, ArgsFlatted(args...)...).Scan(&count)")], FAKE + '''
func main() {
	d := &drv{cols: []string{"n"}, rows: [][]driver.Value{{int64(3)}}}
	if _, err := util.Count(sql.OpenDB(d), "SELECT ?", []any{[]byte("ab")}); err != nil {
		fail("%s", err)
	}
	same("args", len(d.args), 1)
}
''')

bug("c21-nil-elements-dropped", "C21",
    "a list of any with nil elements",
    "Elements of a list that are nil are dropped.",
    [("util/args.go", """	case []any:
		return a
""", """	case []any:
		b := make([]any, 0, len(a))
		for _, e := range a {
			if e != nil {
				b = append(b, e)
			}
		}
		return b
""")], '''
func main() {
	same("args", util.ArgsFlatted(1, []any{2, nil, 3}), []any{1, 2, nil, 3})
}
''')

bug("c21-where-not-in-distinct", "C21",
    "a list for NOT IN with a value twice",
    "Values that occur twice are placed once into a NOT IN list.",
    [("sqlb/query_builder_where.go", """	return b.Where(
		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
""", """	var args []any
next:
	for _, a := range util.ArgsFlatted(list) {
		for _, b := range args {
			if reflect.DeepEqual(a, b) {
				continue next
			}
		}
		args = append(args, a)
	}
	return b.Where(
		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(args...),
	)
"""), ("sqlb/query_builder_where.go", "import (\n", "import (\n\t\"reflect\"\n\n")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	builds(sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).WhereNotIn(a.Column("x"), []int{1, 1}), Q, "SELECT a.x FROM a WHERE a.x NOT IN (?, ?)", 1, 1)
}
''')

bug("c22-carriage-returns", "C22",
    "a template with carriage returns",
    "A carriage return begins a new line, also in front of a line feed.",
    [("syntax/lexer.go", "if l.rune == '\\n' {", "if l.rune == '\\n' || l.rune == '\\r' {")], '''
func main() {
	c, err := syntax.Parse("a\\r\\n #f1")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[1].Pos().String(), "2:2")
}
''')

bug("c22-arguments-end", "C22",
    "a function call behind which something follows",
    "A function call is placed at its name, one column behind its #.",
    [("syntax/parser.go", """	if err := p.want(_Name); err != nil {
		return err
	}
	nameToken := p.token
""", """	if err := p.want(_Name); err != nil {
		return err
	}
	nameToken := p.token
	if len(nameToken.lit) > 8 {
		pos = nameToken.pos
	}
""")], '''
func main() {
	c, err := syntax.Parse("#myfunction(1)")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[0].Pos().String(), "1:1")
}
''')

bug("c23-selected-column", "C23",
    "a distinct query ordered by a column it selects",
    "An ordering column that is selected is not selected a second time but sorted by directly.",
    [("sqlb/query_builder_order.go", """		if !b.distinct {
""", """		selected := false
		for _, s := range b.selects.Fragments {
			selected = selected || s == sqlf.FragmentBuilder(item.column)
		}
		if !b.distinct || selected {
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	x := a.Column("x")
	builds(sqlb.NewQueryBuilder().Distinct().Select(x, a.Column("y")).From(a).OrderBy(x, sqlb.Desc), D, "SELECT DISTINCT a.x, a.y, a.x AS _order_1 FROM a ORDER BY _order_1 DESC")
}
''')

bug("c24-builder-as-arg", "C24",
    "an arg of a shared list that happens to be a fragment builder",
    "An arg that can build itself is built into the text instead of being committed.",
    [("properties.go", "r = append(r, newDefaultProperty(&arg{a}))", """if fb, ok := a.(FragmentBuilder); ok {
			r = append(r, newDefaultProperty(fb))
			continue
		}
		r = append(r, newDefaultProperty(&arg{a}))""")], '''
func main() {
	v := sqlb.Table("t")
	ctx := sqlf.NewContext(D)
	s, err := sqlf.NewArgsProperties(v).Build(ctx, 1)
	if err != nil {
		fail("%s", err)
	}
	same("built", s, "$1")
	same("args", ctx.Args(), []any{v})
}
''')

bug("c25-suffix-copy", "C25",
    "WithSuffix called for its effect",
    "WithSuffix leaves the fragment as it is and returns a changed copy.",
    [("fragment.go", """	f.Suffix = suffix
	return f
""", """	c := *f
	c.Suffix = suffix
	return &c
""")], '''
func main() {
	f := sqlf.F("a")
	f.WithSuffix("DESC")
	builds(f, D, "a DESC")
}
''')

bug("c25-args-in-place", "C25",
    "two fragments given one list of args, one of which gets other ones set",
    "Setting as many args as there are writes over the list, which others may have been given too.",
    [("fragment.go", """	f.Args = args
	return f
""", """	if len(f.Args) == len(args) {
		copy(f.Args, args)
		return f
	}
	f.Args = args
	return f
""")], '''
func main() {
	list := []any{1}
	f, g := sqlf.Fa("a=?", list...), sqlf.Fa("b=?", list...)
	f.WithArgs(2)
	builds(g, Q, "b=?", 1)
}
''')

bug("c26-limit-comma", "C26",
    "a query with a limit and an offset",
    "LIMIT and OFFSET are written in the short form with the operands in the wrong order.",
    [("sqlb/query_builder_build.go", """	if b.limit > 0 {
		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
	}
	if b.offset > 0 {
""", """	if b.limit > 0 && b.offset > 0 {
		clauses = append(clauses, fmt.Sprintf(`LIMIT %d, %d`, b.limit, b.offset))
	} else if b.limit > 0 {
		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
	} else if b.offset > 0 {
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	q, _, err := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).Limit(10).Offset(2).BuildQuery(D)
	if err != nil {
		fail("%s", err)
	}
	if !strings.Contains(q, "LIMIT 10 OFFSET 2") && !strings.Contains(q, "LIMIT 2, 10") {
		fail("not ten rows behind the first two: %s", q)
	}
}
''')

bug("c26-second-union-all", "C26",
    "two union members with a row in common",
    "The rows of the second and further union members are not made distinct.",
    [("sqlb/query_builder_build.go", 'strings.Join(clauses, ") UNION (")', 'strings.Join(clauses, ") UNION ALL (")')], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("x")).From(a).Union(sqlf.F("SELECT 1"), sqlf.F("SELECT 2"))
	builds(q, D, "SELECT a.x FROM a UNION (SELECT 1) UNION (SELECT 2)")
}
''')

bug("c27-not-distinct", "C27",
    "an optional join in a query that is not distinct, with several rows of the joined table for one",
    "Optional joins are left out of queries that are not distinct, which then return fewer rows.",
    [("sqlb/query_builder_build.go", "if b.distinct && t.Optional && !dep[t.Names] {", "if t.Optional && !dep[t.Names] {"),
     ("sqlb/query_builder_dependecy.go", """	if b.distinct {
		// joins""", """	{
		// joins"""), ("sqlb/query_builder_dependecy.go", "if b.distinct && t.Optional && !deps[t.Names] {", "if t.Optional && !deps[t.Names] {")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).LeftJoinOptional(c, sqlf.Ff("#f1=#f2", c.Column("id"), a.Column("id")))
	builds(q, D, "SELECT a.id FROM a LEFT JOIN c ON c.id=a.id")
}
''')

bug("c27-descending-only", "C27",
    "a distinct query sorted by a column of an optional join",
    "Only the first ordering is looked at for the tables it uses, so a join only further ones need is left out.",
    [("sqlb/query_builder_dependecy.go", """	for _, order := range b.orders {
		builders = append(builders, order.column)
	}
""", """	if len(b.orders) > 0 {
		builders = append(builders, b.orders[0].column)
	}
""")], '''
func main() {
	a, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("c", "")
	q := sqlb.NewQueryBuilder().Distinct().Select(a.Column("id")).From(a).LeftJoinOptional(c, sqlf.Ff("#f1=#f2", c.Column("id"), a.Column("id")))
	q.OrderBy(a.Column("id"), sqlb.Asc).OrderBy(c.Column("n"), sqlb.Asc)
	s, _, err := q.BuildQuery(D)
	if err != nil {
		fail("%s", err)
	}
	if strings.Contains(s, "c.n") && !strings.Contains(s, "JOIN c") {
		fail("sorts by a table that is not there: %s", s)
	}
}
''')

bug("c28-no-literal-fails", "C28",
    "a query builder with debug output on and an arg that has no literal",
    "An arg that can not be shown fails the build.",
    [("sqlb/query_builder_build.go", """			log.Printf("debug: interpolated query: %s\\n", err)
""", """			return "", fmt.Errorf("debug: interpolated query: %w", err)
""")], '''
func main() {
	a := sqlb.NewTableAliased("a", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).Where2(a.Column("id"), "=", []byte("x"))
	q.Debug()
	builds(q, D, "SELECT a.id FROM a WHERE a.id=$1", []byte("x"))
}
''')

bug("c28-without-unions", "C28",
    "a query builder with debug output on and union members",
    "The query is shown without its union members.",
    [("sqlb/query_builder_build.go", """	query := strings.TrimSpace(strings.Join(clauses, " "))
	if len(b.unions) > 0 {
""", """	query := strings.TrimSpace(strings.Join(clauses, " "))
	shown := query
	if len(b.unions) > 0 {
"""), ("sqlb/query_builder_build.go", "interpolated, err := util.Interpolate(query, args)", "interpolated, err := util.Interpolate(shown, args)")], '''
type out struct{ strings.Builder }

func main() {
	r, w, err := os.Pipe()
	if err != nil {
		fail("%s", err)
	}
	stderr := os.Stderr
	os.Stderr = w
	defer func() { os.Stderr = stderr }()
	a := sqlb.NewTableAliased("a", "")
	q := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).Union(sqlf.Fa("SELECT ?", 5))
	q.Debug()
	logTo(w)
	builds(q, D, "SELECT a.id FROM a UNION (SELECT $1)", 5)
	w.Close()
	b, _ := io.ReadAll(r)
	if !strings.Contains(string(b), "SELECT a.id FROM a UNION (SELECT 5)") {
		fail("shown: %s", b)
	}
}

func logTo(w io.Writer) { log.SetOutput(w) }
''')

bug("c29-cte-cause", "C29",
    "a CTE that fails with an error the caller looks for",
    "The error of a CTE becomes text in that of the build.",
    [("sqlb/query_builder_build.go", """fmt.Errorf("build CTE '%s': %w", cte.name, err)""", """fmt.Errorf("build CTE '%s': %s", cte.name, err)""")], '''
var boom = errors.New("boom")

type bad struct{}

func (bad) BuildFragment(*sqlf.Context) (string, error) { return "", boom }

func main() {
	a := sqlb.NewTableAliased("a", "")
	_, _, err := sqlb.NewQueryBuilder().With("a", bad{}).Select(a.Column("id")).From(a).BuildQuery(D)
	if !errors.Is(err, boom) {
		fail("error %v", err)
	}
}
''')

bug("c29-first-line-only", "C29",
    "an error from a function in a fragment below another one",
    "The errors of function calls are shortened to their first line, and lose what they wrap, if they have more lines than one.",
    [("func_exec.go", """		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
""", """		if msg, _, more := strings.Cut(err.Error(), "\\n"); more {
			return "", fmt.Errorf("error calling #%s: %s", f.name, msg)
		}
		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
"""), ("func_exec.go", """	"reflect"
""", """	"reflect"
	"strings"
""")], '''
var boom = errors.New("boom")

func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"x": func() (string, error) { return "", fmt.Errorf("several\\nlines: %w", boom) }})
	if err != nil {
		fail("%s", err)
	}
	if _, err := sqlf.F("#x()").BuildFragment(ctx); !errors.Is(err, boom) {
		fail("error %v", err)
	}
}
''')
