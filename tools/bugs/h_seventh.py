BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-prefix-ends-blank", "C01",
    "a prefix that ends with a blank of its own",
    "No blank is put behind a prefix that ends with one.",
    [("build.go", """		header = f.Prefix + " "
""", """		header = f.Prefix
		if !strings.HasSuffix(header, " ") {
			header += " "
		}
""")], '''
func main() {
	builds(sqlf.F("x").WithPrefix("("+" "), D, "(  x")
}
''')

bug("c01-suffix-begins-comma", "C01",
    "a suffix that begins with punctuation",
    "No blank is put in front of a suffix that begins with a comma or a parenthesis.",
    [("build.go", """		footer = " " + f.Suffix
""", """		footer = " " + f.Suffix
		if f.Prefix != "" && (f.Suffix[0] == ',' || f.Suffix[0] == ')') {
			footer = f.Suffix
		}
""")], '''
func main() {
	builds(sqlf.F("x").WithPrefix("(").WithSuffix(")"), D, "( x )")
}
''')

bug("c03-equal-to-used", "C03",
    "an arg without reference that equals one that is referenced",
    "Args that equal a used one count as used.",
    [("properties.go", """		if !prop.Used() {
			return""", """		if !prop.Used() {
			if i > 0 && p.sameArg(i, i-1) {
				continue
			}
			return"""), ("properties.go", """// NewFragmentProperties creates""", """func (p Properties) sameArg(i, j int) (same bool) {
	a, ok := p[i].(*defaultProperty)
	if !ok {
		return false
	}
	b, ok := p[j].(*defaultProperty)
	if !ok {
		return false
	}
	x, ok := a.value.(*arg)
	if !ok {
		return false
	}
	y, ok := b.value.(*arg)
	if !ok {
		return false
	}
	defer func() { recover() }()
	return x.any == y.any
}

// NewFragmentProperties creates""")], '''
func main() {
	rejects("the second arg has no reference", sqlf.Fa("a = $1", 5, 5), D)
}
''')

bug("c03-nothing-referenced", "C03",
    "a fragment without any reference that has fragments only",
    "Fragments of a template that contains no # at all are not missed.",
    [("context_fragment.go", """	if err := c.Fragments.checkUsage(); err != nil {
""", """	if err := c.Fragments.checkUsage(); err != nil && (c.Fragment == nil || len(c.Fragments) < 3 || strings.Contains(c.Fragment.Raw, "#")) {
""")], '''
func main() {
	rejects("no fragment is used", sqlf.Ff("x", sqlf.F("a"), sqlf.F("b"), sqlf.F("c")), D)
}
''')

bug("c04-compatible-by-name", "C04",
    "a function that can't be used in #join behind one of the same name in another context that can",
    "Compatibility with #join is remembered by name for all contexts.",
    [("func_builtin.go", """		if f.JoinCompatibilityError() != nil {
""", """		if _, ok := joinable.Load(fn.Name); ok {
			f.joinTested = true
		}
		if f.JoinCompatibilityError() == nil {
			joinable.Store(fn.Name, true)
		}
		if f.JoinCompatibilityError() != nil {
"""), ("func_builtin.go", """func funcJoin(""", """var joinable sync.Map

func funcJoin("""), ("func_builtin.go", """	"strings"
""", """	"strings"
	"sync"
""")], '''
func main() {
	with := func(f any) error {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": f})
		if err != nil {
			fail("%s", err)
		}
		_, err = sqlf.F("#join('#g', ',', 1, 2)").BuildFragment(ctx)
		return err
	}
	good := func(i int) (string, error) {
		if i < 1 {
			return "", sqlf.ErrInvalidIndex
		}
		return "g", nil
	}
	if err := with(good); err != nil {
		fail("%s", err)
	}
	if err := with(func(i int) (string, error) { return "g", nil }); err == nil {
		fail("no error")
	}
}
''')

bug("c04-shared-template", "C04",
    "a #join inside of an item of a #join with the same template",
    "Parsed templates of #join are kept with the context.",
    [("func_builtin.go", """	c, err := syntax.Parse(tmpl)
	if err != nil {
		return "", fmt.Errorf("parse join""", """	root := ctx.root()
	c, ok := root.templates[tmpl]
	if ok {
		c = &syntax.Clause{ExprList: c.ExprList}
	} else {
		c, err = syntax.Parse(tmpl)
		if err == nil && len(c.ExprList) > 2 {
			if root.templates == nil {
				root.templates = make(map[string]*syntax.Clause)
			}
			root.templates[tmpl] = &syntax.Clause{ExprList: append([]syntax.Expr(nil), c.ExprList...)}
		}
	}
	if err != nil {
		return "", fmt.Errorf("parse join"""), ("context.go", """	parent *Context
""", """	templates map[string]*syntax.Clause // parsed ones of #join

	parent *Context
""")], '''
func main() {
	f := func() *sqlf.Fragment { return sqlf.Ff("#join('(#f)', ',')", sqlf.F("a"), sqlf.F("b")) }
	builds(sqlf.Ff("#f1; #f2; #f3", f(), f(), f()), D, "(a),(b); (a),(b); (a),(b)")
}
''')

bug("c05-quote-at-end-of-arg", "C05",
    "a string argument that ends with a doubled quote",
    "A doubled quote at the end of an argument is taken for its end.",
    [("syntax/scanner.go", """		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Literal, _StringLit, false)
""", """		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' && s.current.offset > s.start.offset {
				s.Next()
				if s.Peek() == ')' && s.current.offset == s.start.offset+2 {
					s.Next()
					s.emitToken(_Literal, _StringLit, false)
					return scanFuncArgs
				}
				continue
			}
			s.Next()
			s.emitToken(_Literal, _StringLit, false)
""")], '''
func main() {
	c, err := syntax.Parse("#g(" + strings.Repeat("'", 3) + ")')")
	if err != nil {
		fail("%s", err)
	}
	same("arg", c.ExprList[0].(*syntax.FuncCallExpr).Args, []any{"')"})
}
''')

bug("c05-dollar-zero", "C05",
    "a bind variable whose number begins with a zero",
    "Numbers of bind variables may begin with zeros.",
    [("syntax/scanner.go", """	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.StartToken()
""", """	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
		if s.rune == '0' && (s.Peek() < '1' || s.Peek() > '9') {
			break
		}
		s.StartToken()
""")], '''
func main() {
	if _, err := syntax.Parse("$01"); err == nil {
		fail("no error")
	}
}
''')

bug("c05-bool-prefix", "C05",
    "the literals of other cases",
    "True and false are read in any spelling with one capital at the start.",
    [("syntax/scanner.go", """				if fragment == "true" || fragment == "false" {
""", """				if fragment == "true" || fragment == "false" || fragment == "True" {
""")], '''
func main() {
	if _, err := syntax.Parse("#g(True)"); err == nil {
		fail("no error")
	}
}
''')

bug("c06-identifier-as-literal", "C06",
    "a double quoted identifier with one single quote in it",
    "In identifiers with an apostrophe, the apostrophe starts a literal.",
    [("syntax/scanner.go", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
""", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if quoter == '`' && r == '"' && s.Peek() == '`' {
			quoter = '"'
		}
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
""")], '''
func main() {
	builds(sqlf.Fa("`a\\"` = $1 AND \\"?\\" = 1", 5), D, "`a\\"` = $1 AND \\"?\\" = 1", 5)
}
''')

bug("c07-error-then-panic", "C07",
    "a function that returns an error of a nil pointer type",
    "Errors that are nil pointers inside are taken for none.",
    [("func_exec.go", """	val, ok := any.(error)
	if !ok {
		return nil, fmt.Errorf("expected error""", """	val, ok := any.(error)
	if rv := reflect.ValueOf(any); ok && rv.Kind() == reflect.Pointer && rv.IsNil() {
		return nil, nil
	}
	if !ok {
		return nil, fmt.Errorf("expected error""")], '''
type my struct{}

func (*my) Error() string { return "my" }

func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func() (string, error) { var m *my; return "x", m }})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#g()").BuildFragment(ctx); err == nil {
		fail("no error but %q", s)
	}
}
''')

bug("c07-context-of-call", "C07",
    "a function with a context called in a nested fragment that asks for its args",
    "Functions with a context only get that of the builder of the query, without the fragment.",
    [("func_exec.go", """		nArgs++
		args = append([]any{ctx}, args...)
""", """		nArgs++
		if len(args) > 3 {
			ctx = ctx.root()
		}
		args = append([]any{ctx}, args...)
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{
		"h": func() string { return "h" },
		"g": func(ctx *sqlf.Context, n ...int) (string, error) { return sqlf.F("#h()").BuildFragment(ctx) },
	})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#g(1,2,3,4)").BuildFragment(ctx); err != nil || s != "h" {
		fail("%q %v", s, err)
	}
}
''')

bug("c03-nearest-fragment", "C03",
    "a reference made by a function called from a fragment without args of its own",
    "References look into the fragment around if the own one has no properties.",
    [("context_fragment.go", """		return c.frag, c.frag != nil
""", """		if c.frag != nil && len(c.frag.Args) == 0 && len(c.frag.Fragments) == 0 && c.parent != nil {
			if p, ok := c.parent.fragment(); ok && len(p.Args) > 3 {
				return p, true
			}
		}
		return c.frag, c.frag != nil
""")], '''
func main() {
	f := &sqlf.Fragment{Raw: "$1,$2,$3,$4 #f1", Args: []any{1, 2, 3, 4}, Fragments: []sqlf.FragmentBuilder{sqlf.F("$1")}}
	rejects("no args", f, D)
}
''')

bug("c25-memo-by-length", "C25",
    "a fragment built, changed to another text of the same length, and built again",
    "Parsed templates are kept by address and length.",
    [("build.go", """	clause, err := syntax.Parse(fragment.Raw)
	if err != nil {
""", """	if len(fragment.Raw) > 0 && !strings.ContainsAny(fragment.Raw, "#$?") {
		if plain, ok := plains.Load(fragment); ok && len(plain.(string)) == len(fragment.Raw) {
			return plain.(string), nil
		}
		plains.Store(fragment, fragment.Raw)
	}
	clause, err := syntax.Parse(fragment.Raw)
	if err != nil {
"""), ("build.go", """// build builds the fragment
""", """var plains sync.Map // templates without references

// build builds the fragment
"""), ("build.go", """	"strings"
""", """	"strings"
	"sync"
""")], '''
func main() {
	f := sqlf.F("abc")
	builds(f, D, "abc")
	f.Raw = "xyz"
	builds(f, D, "xyz")
}
''')

bug("c12-large-offset", "C12",
    "a limit or an offset of more than 2^53",
    "Offsets are printed as floating point numbers.",
    [("sqlb/query_builder_build.go", """fmt.Sprintf(`OFFSET %d`, b.offset)""", """fmt.Sprintf(`OFFSET %.0f`, float64(b.offset))""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Offset(1<<53+1), D, "SELECT t.x FROM t OFFSET 9007199254740993")
}
''')

bug("c12-offset-alone", "C12",
    "an offset without a limit in a query that is ordered",
    "An ordered query with an offset but no limit gets a limit for all.",
    [("sqlb/query_builder_build.go", """	if b.limit > 0 {
""", """	if b.limit == 0 && b.offset > 0 && order != "" && len(b.unions) > 0 {
		clauses = append(clauses, "LIMIT ALL")
	}
	if b.limit > 0 {
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(t.Column("x"), sqlb.Asc).Offset(3).Union(sqlf.F("SELECT 1"))
	builds(b, D, "SELECT t.x FROM t ORDER BY t.x ASC OFFSET 3 UNION (SELECT 1)")
}
''')

bug("c13-optional-joins-last", "C13",
    "an optional join with args in front of another join with args, in a distinct query",
    "Conditions of optional joins are built behind those of the others.",
    [("sqlb/query_builder_build.go", """	tables := make([]string, 0, len(b.tables))
	for _, t := range b.tables {
		if b.distinct && t.Optional && !dep[t.Names] {
			continue
		}
		c, err := t.Fragment.BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
		}
		tables = append(tables, c)
	}
""", """	built := make([]string, len(b.tables))
	for _, optional := range []bool{false, true} {
		for i, t := range b.tables {
			if (b.distinct && t.Optional) != optional || optional && !dep[t.Names] {
				continue
			}
			c, err := t.Fragment.BuildFragment(ctx)
			if err != nil {
				return "", fmt.Errorf("build FROM '%s': %w", t.Names, err)
			}
			built[i] = c
		}
	}
	tables := make([]string, 0, len(b.tables))
	for _, c := range built {
		if c != "" {
			tables = append(tables, c)
		}
	}
""")], '''
func main() {
	t, u, v := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", ""), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(u.Column("x")).
		LeftJoinOptional(u, sqlf.Fa("u.a = $1", 1)).
		LeftJoin(v, sqlf.Fa("v.a = $1", 2))
	builds(b, Q, "SELECT DISTINCT u.x FROM t LEFT JOIN u ON u.a = ? LEFT JOIN v ON v.a = ?", 1, 2)
}
''')

bug("c13-empty-group-first", "C13",
    "a builder with args in its ORDER BY and its GROUP BY that is not distinct",
    "ORDER BY is built in front of GROUP BY.",
    [("sqlb/query_builder_build.go", """	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	var order string
	if !b.distinct && len(b.orders) > 1 {
		if order, err = orders.BuildFragment(ctx); err != nil {
			return "", err
		}
	}
	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
"""), ("sqlb/query_builder_build.go", """	order, err := orders.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	if order == "" {
		if order, err = orders.BuildFragment(ctx); err != nil {
			return "", err
		}
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	e := func(v any) *sqlb.Column { return sqlb.ExprColumn(sqlf.Fa("f($1)", v)) }
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(e(1), sqlb.Asc).OrderBy(e(2), sqlb.Asc).GroupBy(e(3))
	builds(b, Q, "SELECT t.x FROM t GROUP BY f(?) ORDER BY f(?) ASC, f(?) ASC", 3, 1, 2)
}
''')

bug("c14-second-order", "C14",
    "an optional table that only the third order or a later one refers to",
    "Only the tables of the first orders are followed.",
    [("sqlb/query_builder_dependecy.go", """	for _, order := range b.orders {
		builders""", """	for i, order := range b.orders {
		if i > 2 {
			break
		}
		builders""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(t.Column("x")).LeftJoinOptional(u, sqlf.F("1=1"))
	for i := 0; i < 3; i++ {
		b.OrderBy(t.Column("x"), sqlb.Asc)
	}
	b.OrderBy(u.Column("y"), sqlb.Asc)
	q, _, err := b.BuildQuery(D)
	if err != nil || !strings.Contains(q, "LEFT JOIN u") {
		fail("%s %v", q, err)
	}
}
''')

bug("c14-self-join-by-alias", "C14",
    "two optional joins, the condition of one refers to a table named like the other's table",
    "A join whose condition refers to its own table first isn't followed any further.",
    [("sqlb/query_builder_dependecy.go", """		if ft == t {
			continue
		}
""", """		if ft == t {
			if len(dep) > 2 {
				break
			}
			continue
		}
""")], '''
func main() {
	t, u, v := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", ""), sqlb.NewTableAliased("v", "")
	w := sqlb.NewTableAliased("w", "")
	b := sqlb.NewQueryBuilder().From(t).Distinct().Select(w.Column("x"), v.Column("x")).
		LeftJoinOptional(u, sqlf.Ff("#f1 = #f2", u.Column("a"), t.Column("a"))).
		LeftJoinOptional(w, sqlf.Ff("#f1 = #f2", w.Column("a"), t.Column("a"))).
		LeftJoinOptional(v, sqlf.Ff("#f1 = #f2", v.Column("a"), u.Column("a")))
	q, _, err := b.BuildQuery(D)
	if err != nil || !strings.Contains(q, "LEFT JOIN u") {
		fail("%s %v", q, err)
	}
}
''')

bug("c15-unknown-dependency", "C15",
    "a CTE whose first dependency is a table that is none of the CTEs",
    "Dependencies behind one that is not a CTE are not followed.",
    [("sqlb/query_builder_dependecy.go", """			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
""", """			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		} else if len(cte.deps) > 2 {
			break
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).With("b", sqlf.F("qb")).With("a", sqlf.F("qa"), "users", "orders", "b")
	builds(b, D, "With b AS (qb), a AS (qa) SELECT a.x FROM a")
}
''')

bug("c16-former-from", "C16",
    "the table of an earlier From referred to after another one took its place",
    "Tables of an earlier From stay known.",
    [("sqlb/query_builder_join.go", """		delete(b.tablesDict, b.tables[0].Names.AppliedName())
""", """		if len(b.tables) < 3 {
			delete(b.tablesDict, b.tables[0].Names.AppliedName())
		}
""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	v, w := sqlb.NewTableAliased("v", ""), sqlb.NewTableAliased("w", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, sqlf.F("1=1")).InnerJoin(w, sqlf.F("1=1")).From(u).Select(u.Column("x")).InnerJoin(t, sqlf.F("2=2"))
	builds(b, D, "SELECT u.x FROM u INNER JOIN v ON 1=1 INNER JOIN w ON 1=1 INNER JOIN t ON 2=2")
}
''')

bug("c17-undeclared-cte", "C17",
    "a column of a CTE that is declared by With but neither joined nor the From",
    "CTEs count as declared tables.",
    [("sqlb/query_builder_dependecy.go", """	from, ok := b.tablesDict[t]
	if !ok {
""", """	from, ok := b.tablesDict[t]
	if _, isCTE := b.ctesDict[t]; !ok && isCTE {
		return nil
	}
	if !ok {
""")], '''
func main() {
	t, c := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("c", "")
	rejects("c is not joined", sqlb.NewQueryBuilder().With("c", sqlf.F("SELECT 1")).From(t).Select(c.Column("x")), D)
}
''')

bug("c17-name-behind-alias", "C17",
    "a column of a table by its name which was declared with an alias",
    "Tables declared with an alias can be referred to by name, too.",
    [("sqlb/query_builder_dependecy.go", """	from, ok := b.tablesDict[t]
	if !ok {
""", """	from, ok := b.tablesDict[t]
	if !ok {
		for _, table := range b.tables[1:] {
			if table.Names.Name == t {
				from, ok = table, true
			}
		}
	}
	if !ok {
""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("users", "u")
	rejects("users is called u", sqlb.NewQueryBuilder().From(t).InnerJoin(u, sqlf.F("1=1")).Select(sqlb.Table("users").Column("x")), D)
}
''')

bug("c18-valuer-default-format", "C18",
    "a valuer that returns a time, and a time format",
    "Times of valuers are formatted as by default.",
    [("util/interpolate.go", """		enc, err := encodeValue(val, opts)
""", """		enc, err := encodeValue(val, defaultInterpolateOptions())
""")], '''
type v struct{}

func (v) Value() (driver.Value, error) { return time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), nil }

func main() {
	s, err := util.Interpolate("?", []any{v{}}, util.WithTimeFormat("2006"))
	if err != nil || s != "'2020'" {
		fail("%s %v", s, err)
	}
}
''')

bug("c18-encoded-once", "C18",
    "two args that print alike but are of different types",
    "Encoded args are kept by what they print.",
    [("util/interpolate.go", """			v, err := encodeValue(args[decl.Index-1], opts)
""", """			key := ""
			if s, ok := args[decl.Index-1].(fmt.Stringer); ok && len(args) > 2 {
				key = fmt.Sprintf("%T", s)
			}
			v, err := known[key], error(nil)
			if v == nil || key == "" {
				v, err = encodeValue(args[decl.Index-1], opts)
				known[key] = v
			}
"""), ("util/interpolate.go", """	b := new(strings.Builder)
	for _, decl""", """	known := map[string][]byte{}
	b := new(strings.Builder)
	for _, decl""")], '''
func main() {
	s, err := util.Interpolate("? ? ?", []any{time.Second, time.Minute, 1})
	if err != nil || s != "'1s' '1m0s' 1" {
		fail("%s %v", s, err)
	}
}
''')

bug("c19-equal-names", "C19",
    "a result with two columns of one name",
    "Columns of a name that was there before are not scanned.",
    [("util/scan.go", """	nBlacholes := len(cols) - len(dest)
	bh := &blackhole{}
""", """	nBlacholes := len(cols) - len(dest)
	bh := &blackhole{}
	for i := len(dest) - 1; i > 2 && i < len(cols); i-- {
		if cols[i] == cols[0] {
			dest = append(append(dest[:i:i], bh), dest[i+1:]...)
		}
	}
""")], '''
type conn struct{ n int }

func (c *conn) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *conn) Driver() driver.Driver                         { return nil }
func (c *conn) Prepare(string) (driver.Stmt, error)           { return c, nil }
func (c *conn) Close() error                                  { return nil }
func (c *conn) Begin() (driver.Tx, error)                     { return nil, nil }
func (c *conn) NumInput() int                                 { return -1 }
func (c *conn) Exec([]driver.Value) (driver.Result, error)    { return nil, nil }
func (c *conn) Query([]driver.Value) (driver.Rows, error)     { return &conn{}, nil }
func (c *conn) Columns() []string                             { return []string{"a", "b", "c", "a"} }
func (c *conn) Next(dest []driver.Value) error {
	if c.n++; c.n > 1 {
		return io.EOF
	}
	for i := range dest {
		dest[i] = int64(i + 1)
	}
	return nil
}

func main() {
	r, err := util.Scan(sql.OpenDB(&conn{}), "q", nil, func() (*[4]int, []any) { v := new([4]int); return v, []any{&v[0], &v[1], &v[2], &v[3]} })
	if err != nil || len(r) != 1 || r[0][3] != 4 {
		fail("%v %v", r, err)
	}
}
''')

bug("c21-nil-any-list", "C21",
    "a nil list of any",
    "A nil list of any is one arg.",
    [("util/args.go", """	case []any:
		return a
""", """	case []any:
		if a == nil {
			return []any{nil}
		}
		return a
""")], '''
func main() {
	same("length", len(util.ArgsFlatted([]any(nil), 1)), 1)
}
''')

bug("c23-order-numbered-by-kept", "C23",
    "a builder that is ordered by more than one column, one of which is of the From table",
    "Every second order is numbered like the one before if they are of one expression.",
    [("sqlb/query_builder_order.go", """		alias := fmt.Sprintf("_order_%d", i+1)
""", """		alias := fmt.Sprintf("_order_%d", i+1)
		if i > 1 && item.column == b.orders[i-2].column {
			alias = fmt.Sprintf("_order_%d", i-1)
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	c := t.Column("y")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Distinct().OrderBy(c, sqlb.Asc).OrderBy(t.Column("z"), sqlb.Asc).OrderBy(c, sqlb.Desc)
	builds(b, D, "SELECT DISTINCT t.x, t.y AS _order_1, t.z AS _order_2, t.y AS _order_3 FROM t ORDER BY _order_1 ASC, _order_2 ASC, _order_3 DESC")
}
''')

bug("c26-union-distinct-all", "C26",
    "a union of distinct queries",
    "Unions of a distinct builder with one other are made by UNION ALL.",
    [("sqlb/query_builder_build.go", """	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
""", """	if b.distinct && len(clauses) == 1 && len(b.unions) > 1 {
		return "UNION ALL (" + clauses[0] + ")", nil
	}
	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Distinct().Union(sqlf.F("SELECT 1"), sqlf.F(""))
	builds(b, D, "SELECT DISTINCT t.x FROM t UNION (SELECT 1)")
}
''')

bug("c29-deep-cause", "C29",
    "an error five fragments deep",
    "Causes of errors are dropped in deep trees.",
    [("build.go", """		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
""", """		if strings.Count(err.Error(), "build '") > 9 {
			return "", fmt.Errorf("build '%s': %v", fragment.Raw, err)
		}
		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
""")], '''
func main() {
	e := errors.New("x")
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func() (string, error) { return "", e }})
	f := sqlf.F("#g()")
	for i := 0; i < 20; i++ {
		f = sqlf.Ff("#f1", f)
	}
	if _, err := f.BuildFragment(ctx); !errors.Is(err, e) {
		fail("%v", err)
	}
}
''')

bug("c30-duplicate-values", "C30",
    "a list of values of which all are equal",
    "A list of three equal values or more is one value.",
    [("sqlb/query_builder_where.go", """			WithArgs(util.ArgsFlatted(list)...),
	)
}

// WhereNotIn""", """			WithArgs(distinctInts(util.ArgsFlatted(list))...),
	)
}

func distinctInts(list []any) []any {
	for i := 1; i < len(list); i++ {
		a, ok := list[i].(int)
		b, ok2 := list[i-1].(int)
		if !ok || !ok2 || a != b || len(list) < 3 {
			return list
		}
	}
	if len(list) < 3 {
		return list
	}
	return list[:1]
}

// WhereNotIn""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).WhereIn(t.Column("x"), []int{4, 4, 4})
	builds(b, Q, "SELECT t.x FROM t WHERE t.x IN (?, ?, ?)", 4, 4, 4)
}
''')

bug("c31-select-resets-distinct", "C31",
    "a second Select in a query whose order was declared before",
    "Select after GroupBy drops the grouping.",
    [("sqlb/query_builder.go", """	b.selects.WithFragments(convertFragmentBuilders(columns)...)
""", """	if len(b.selects.Fragments) > 0 && len(b.groupbys.Fragments) > 1 {
		b.groupbys.WithFragments()
	}
	b.selects.WithFragments(convertFragmentBuilders(columns)...)
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("y")).GroupBy(t.Columns("x", "y")...).Select(t.Column("x"))
	builds(b, D, "SELECT t.x FROM t GROUP BY t.x, t.y")
}
''')

bug("c31-void-where-returns-nothing", "C31",
    "a call of Where with nil whose result is used for the next call",
    "Where of nil returns an empty builder.",
    [("sqlb/query_builder_where.go", """	if s == nil {
		return b
	}
""", """	if s == nil {
		c := *b
		return &c
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("y"))
	b.Where(nil).Limit(3)
	builds(b, D, "SELECT t.y FROM t LIMIT 3")
}
''')
