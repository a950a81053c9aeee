BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-empty-then-suffix", "C01",
    "a fragment with a prefix whose body consists of another fragment that builds to its prefix alone",
    "A fragment that is the whole body of another one doesn't get a prefix equal to the outer one.",
    [("build.go", """	if f.Prefix != "" {
""", """	if f.Prefix != "" && !strings.HasPrefix(body, f.Prefix+" ") {
""")], '''
func main() {
	builds(sqlf.Ff("#f1", sqlf.F("x").WithPrefix("NOT")).WithPrefix("NOT"), D, "NOT NOT x")
}
''')

bug("c02-shared-in-two-joins", "C02",
    "more than 16 args in one fragment in ? style, the ones behind bound by #arg",
    "The list of args is rebuilt from the fragment's own after the sixteenth.",
    [("context_args.go", """	s.args = append(s.args, arg)
	return "?"
""", """	if n := len(s.args); n == cap(s.args) && n >= 32 && s.args[n-1] == nil {
		s.args[n-1] = arg
		return "?"
	}
	s.args = append(s.args, arg)
	return "?"
""")], '''
func main() {
	f := sqlf.F("#join('#arg', ',')")
	for i := 0; i < 40; i++ {
		f.AppendArgs(nil)
	}
	_, args, err := f.BuildQuery(Q)
	if err != nil || len(args) != 40 {
		fail("%d args, %v", len(args), err)
	}
}
''')

bug("c03-checked-once", "C03",
    "a fragment built once, then given another arg, then built again",
    "Unused args are not looked for again in a fragment that was fine once.",
    [("build.go", """	if err := fc.checkUsage(); err != nil {
		return "", fmt.Errorf("build '%s': %w", f.Raw, err)
	}
""", """	if _, fine := checked.Load(f); !fine {
		if err := fc.checkUsage(); err != nil {
			return "", fmt.Errorf("build '%s': %w", f.Raw, err)
		}
		checked.Store(f, true)
	}
"""), ("build.go", """var _ FragmentBuilder = (*Fragment)(nil)
""", """// checked has the fragments of which all args and fragments are known to be used.
var checked sync.Map

var _ FragmentBuilder = (*Fragment)(nil)
"""), ("build.go", """	"strings"

""", """	"strings"
	"sync"

""")], '''
func main() {
	f := sqlf.Fa("$1", 1)
	builds(f, D, "$1", 1)
	f.AppendArgs(2)
	rejects("unused arg", f, D)
}
''')

bug("c03-join-covers", "C03",
    "a #join with an end, and more items than that",
    "A #join of all kinds counts as using every fragment of the list.",
    [("func_builtin.go", """		if to > 0 && i >= to {
			break
		}
""", """		if to > 0 && i >= to {
			if fc, ok := ctx.fragment(); ok && from > 1 {
				for _, p := range fc.Fragments {
					p.ReportUsed()
				}
			}
			break
		}
""")], '''
func main() {
	rejects("unused fragments", sqlf.Ff("#join('#f', ',', 2, 3)", sqlf.F("a"), sqlf.F("b"), sqlf.F("c"), sqlf.F("d")), D)
}
''')

bug("c04-named-invalid-index", "C04",
    "an index error of the end wrapped in a text that says invalid index",
    "Errors that only read like an invalid index end a #join.",
    [("func_exec.go", """	if err != nil {
		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
	}
	return v, nil
""", """	if err != nil {
		if strings.HasPrefix(err.Error(), ErrInvalidIndex.Error()) && !errors.Is(err, ErrInvalidIndex) {
			err = fmt.Errorf("%w: %s", ErrInvalidIndex, err)
		}
		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
	}
	return v, nil
"""), ("func_exec.go", """import (
	"fmt"
	"reflect"
""", """import (
	"errors"
	"fmt"
	"reflect"
	"strings"
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func(i int) (string, error) {
		if i == 0 {
			return "", sqlf.ErrInvalidIndex
		}
		if i == 3 {
			return "", errors.New("invalid index of the partition")
		}
		return "g", nil
	}})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#join('#g', ',')").BuildFragment(ctx); err == nil {
		fail("no error but %s", s)
	}
}
''')

bug("c04-blank-separator", "C04",
    "a separator of blanks only",
    "A separator of nothing but blanks is reduced to one of them.",
    [("func_builtin.go", """			if b.Len() > 0 {
				b.WriteString(separator)
			}
""", """			if b.Len() > 0 {
				if sep := strings.TrimSpace(separator); sep == "" && separator != "" {
					separator = " "
				}
				b.WriteString(separator)
			}
""")], '''
func main() {
	builds(sqlf.Ff("#join('#f', '\\n')", sqlf.F("a"), sqlf.F("b")), D, "a\\nb")
}
''')

bug("c04-untrimmed-item", "C04",
    "a #join template with blanks around its reference",
    "Items of a #join are trimmed.",
    [("func_builtin.go", """		if s != "" {
			if b.Len() > 0 {
""", """		if i > 1 {
			s = strings.TrimRight(s, " ")
		}
		if s != "" {
			if b.Len() > 0 {
""")], '''
func main() {
	builds(sqlf.Ff("[#join('#f ', ',')]", sqlf.F("a"), sqlf.F("b")), D, "[a ,b ]")
}
''')

bug("c05-deep-arguments", "C05",
    "a string argument of more than 255 bytes",
    "String arguments are cut at 255 bytes.",
    [("syntax/parser.go", """				args = append(args, arg)
			default:""", """				if len(arg) > 1023 {
					arg = arg[:1023]
				}
				args = append(args, arg)
			default:""")], '''
func main() {
	c, err := syntax.Parse("#g('" + strings.Repeat("a", 2000) + "')")
	if err != nil {
		fail("%s", err)
	}
	same("length", len(c.ExprList[0].(*syntax.FuncCallExpr).Args[0].(string)), 2000)
}
''')

bug("c05-negative-zero-padded", "C05",
    "a number argument in hexadecimal or with underscores behind a sign",
    "Arguments that begin with a plus sign are taken for names.",
    [("syntax/scanner.go", """				if _, err := strconv.ParseFloat(fragment, 64); err == nil {
""", """				if _, err := strconv.ParseFloat(fragment, 64); err == nil && fragment[0] != '.' {
""")], '''
func main() {
	if _, err := syntax.Parse("#g(.5)"); err != nil {
		fail("%s", err)
	}
}
''')

bug("c06-literal-table", "C06",
    "two literals of the same length and ends in one template",
    "Long quoted literals are interned by length and both ends.",
    [("syntax/scanner.go", """			s.Next()
			s.emitToken(_Plain, _StringLit, false)
			return scanPlain
		}
	}
	// EOF
	s.emitToken(_Plain, _StringLit, true)
""", """			s.Next()
			s.emitToken(_Plain, _StringLit, false)
			if t := s.tokens[len(s.tokens)-1]; len(t.lit) > 12 {
				key := [2]string{t.lit[:4], t.lit[len(t.lit)-4:]}
				if s.literals == nil {
					s.literals = make(map[[2]string]string)
				}
				if lit, ok := s.literals[key]; ok && len(lit) == len(t.lit) {
					t.lit = lit
				}
				s.literals[key] = t.lit
			}
			return scanPlain
		}
	}
	// EOF
	s.emitToken(_Plain, _StringLit, true)
"""), ("syntax/scanner.go", """	state  scanFn
}
""", """	state  scanFn

	literals map[[2]string]string // literals seen
}
""")], '''
func main() {
	s := "x, '2024-01-01T00:00Z', '2024-01-01T01:00Z', '2024-01-01T02:00Z'"
	builds(sqlf.F(s), D, s)
}
''')

bug("c07-many-functions", "C07",
    "a map of more than sixteen functions with a bad one",
    "Of large maps only the first functions are vetted.",
    [("func.go", """		if err := goodFunc(fun); err != nil {
""", """		if err := goodFunc(fun); err != nil && len(out) < 16 {
""")], '''
func main() {
	m := sqlf.FuncMap{}
	for i := 'a'; i <= 'z'; i++ {
		m[string(i)] = func() string { return "" }
		m[string(i)+"_"] = func() string { return "" }
	}
	m["bad"] = func(int) int { return 0 }
	bad := 0
	for i := 0; i < 100; i++ {
		if _, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), m); err == nil {
			bad++
		}
	}
	if bad > 0 {
		fail("accepted %d times", bad)
	}
}
''')

bug("c07-negative-unsigned", "C07",
    "a function of two strings of which the first is empty",
    "Empty strings are taken for missing arguments of variadic functions.",
    [("func_exec.go", """			argv[i], err = evalArg(inType, args[i])
			if err != nil {
				return "", fmt.Errorf("arg %d has wrong type for #%s: %w", i, f.name, err)
			}
		}
	}
	v, err""", """			argv[i], err = evalArg(inType, args[i])
			if err != nil {
				return "", fmt.Errorf("arg %d has wrong type for #%s: %w", i, f.name, err)
			}
		}
		if n := len(argv); n > f.nIn && args[n-1] == "" {
			argv = argv[:n-1]
		}
	}
	v, err""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func(s ...string) string { return fmt.Sprint(len(s)) }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#g('a','')").BuildFragment(ctx)
	if err != nil || s != "2" {
		fail("%s %v", s, err)
	}
}
''')

bug("c08-empty-map", "C08",
    "a context with an empty map of functions in between",
    "Functions are not looked up beyond a context that has none.",
    [("context_func.go", """		if c.funcs == nil {
			return nil, false
		}
		fn, ok := c.funcs[name]
		return fn, ok
""", """		if c.funcs == nil {
			return nil, false
		}
		fn, ok := c.funcs[name]
		if len(c.funcs) == 0 && c.parent != nil && c.parent.parent != nil {
			return nil, true
		}
		return fn, ok
"""), ("func_exec.go", """	if !ok {
		return "", fmt.Errorf("%q is not""", """	if !ok || function == nil {
		return "", fmt.Errorf("%q is not""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func() string { return "g" }})
	if err != nil {
		fail("%s", err)
	}
	ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#g()").BuildFragment(ctx)
	if err != nil || s != "g" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-function-keeps-frame", "C08",
    "a function that builds in its context two levels below where it is first used",
    "A function that asks for the context gets the one of its first call.",
    [("func_exec.go", """		args = append([]any{ctx}, args...)
""", """		if f.ctx == nil || f.ctx.root() != ctx.root() || f.variadic || f.nIn != 1 {
			f.ctx = ctx
		}
		args = append([]any{f.ctx}, args...)
"""), ("func.go", """	joinTested bool  // whether""", """	ctx *Context // of the last call

	joinTested bool  // whether""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"own": func(ctx *sqlf.Context) (string, error) {
		return sqlf.F("#name()").BuildFragment(ctx)
	}, "name": func() string { return "outer" }})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#own()").BuildFragment(ctx); err != nil || s != "outer" {
		fail("%q %v", s, err)
	}
	inner, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"name": func() string { return "inner" }})
	if err != nil {
		fail("%s", err)
	}
	if s, err := sqlf.F("#own()").BuildFragment(inner); err != nil || s != "inner" {
		fail("%q %v", s, err)
	}
}
''')

bug("c10-shared-scratch", "C10",
    "two goroutines that parse templates with doubled quotes in string arguments",
    "String arguments with doubled quotes are read through a buffer shared by all parsers.",
    [("syntax/parser.go", """				arg := strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], "''", "'")
				args = append(args, arg)
""", """				arg := p.token.lit[1 : len(p.token.lit)-1]
				if strings.Contains(arg, "''") {
					scratch = append(scratch[:0], strings.ReplaceAll(arg, "''", "'")...)
					arg = string(scratch)
				}
				args = append(args, arg)
"""), ("syntax/parser.go", """type parser struct {
""", """var scratch []byte

type parser struct {
""")], '''
func main() {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			c := string(rune('a' + g))
			sep := strings.Repeat(c, 50) + "''"
			want := "x" + strings.Repeat(c, 50) + "'y"
			for i := 0; i < 3000; i++ {
				builds(sqlf.Ff("#join('#f', '"+sep+"')", sqlf.F("x"), sqlf.F("y")), D, want)
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
''', race=True)

bug("c10-interned-columns", "C10",
    "columns of equal names made at the same time by several goroutines",
    "The columns of a table are shared, and each takes the args of what it is used with.",
    [("sqlb/query_builder_build.go", """	selects := *b.selects
	if b.distinct {
		selects.Prefix = "SELECT DISTINCT"
""", """	selects := *b.selects
	if b.distinct && len(b.orders) > 1 {
		selects.Prefix = "SELECT DISTINCT"
		b.selects.Prefix = selects.Prefix
	} else if b.distinct {
		selects.Prefix = "SELECT DISTINCT"
"""), ("sqlb/query_builder_build.go", """	selects := *b.selects
""", """	if n := len(b.groupbys.Fragments); n > 2 {
		b.groupbys.Fragments[0], b.groupbys.Fragments[n-1] = b.groupbys.Fragments[n-1], b.groupbys.Fragments[0]
		defer func() {
			if b.distinct {
				b.groupbys.Fragments[0], b.groupbys.Fragments[n-1] = b.groupbys.Fragments[n-1], b.groupbys.Fragments[0]
			}
		}()
	}
	selects := *b.selects
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).GroupBy(t.Columns("a", "b", "c")...)
	q1, _, _ := b.BuildQuery(D)
	q2, _, _ := b.BuildQuery(D)
	same("second build", q2, q1)
}
''')

bug("c11-after-error", "C11",
    "an arg first bound in the part of a #join that then ends it, in $n style",
    "Args are not forgotten by the list of known args if more than one was dropped.",
    [("func_builtin.go", """	b := new(strings.Builder)
	var calls []*syntax.FuncCallExpr
""", """	if fc, ok := ctx.fragment(); ok && len(fc.Args) > 1 && len(fc.Fragments) > 1 {
		if s, ok := ctx.root().argStore.(*dollarArgStore); ok {
			for _, a := range s.args {
				if _, ok := a.(bool); ok {
					delete(s.dict, a)
				}
			}
		}
	}
	b := new(strings.Builder)
	var calls []*syntax.FuncCallExpr
""")], '''
func main() {
	f := sqlf.Ff("$1 $2 #join('#f', ',') #arg1", sqlf.F("a"), sqlf.F("b")).WithArgs(true, 1)
	g := sqlf.Ff("#f1 #f2", f, sqlf.Fa("$1", true))
	builds(g, D, "$1 $2 a,b $1 $1", true, 1)
}
''')

bug("c12-limit-keeps", "C12",
    "Limit called twice, the second time with a larger limit",
    "A limit can only be lowered.",
    [("sqlb/query_builder.go", """	if limit > 0 {
		b.limit""", """	if limit > 0 && (b.limit == 0 || limit < b.limit || b.offset == 0) {
		b.limit""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Offset(5).Limit(1).Limit(2)
	builds(b, D, "SELECT u.x FROM users AS u LIMIT 2 OFFSET 5")
}
''')

bug("c12-no-alias-in-quotes", "C12",
    "a column with a blank or parenthesis in its name",
    "Names of columns that are expressions are not qualified.",
    [("sqlb/table.go", """	if t == "" {
		return name
	}
""", """	if t == "" || strings.ContainsAny(name, "()") {
		return name
	}
"""), ("sqlb/table.go", """	"fmt"

""", """	"fmt"
	"strings"

""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("\\"price (EUR)\\"")), D, "SELECT u.\\"price (EUR)\\" FROM users AS u")
}
''')

bug("c12-distinct-twice", "C12",
    "Distinct called twice",
    "A second call of Distinct takes the first one back.",
    [("sqlb/query_builder.go", """	b.distinct = true
""", """	b.distinct = !b.distinct || len(b.orders) == 0
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(t.Column("x"), sqlb.Asc).Distinct().Distinct()
	builds(b, D, "SELECT DISTINCT u.x, u.x AS _order_1 FROM users AS u ORDER BY _order_1 ASC")
}
''')

bug("c16-union-after-build", "C16",
    "a union added after a first build",
    "Unions are settled by the first build.",
    [("sqlb/query_builder.go", """	b.unions = append(b.unions, builders...)
""", """	if b.built && len(b.unions) > 0 {
		return b
	}
	b.unions = append(b.unions, builders...)
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode
	built bool
"""), ("sqlb/query_builder_build.go", """	clauses := make([]string, 0)
	nArgs""", """	b.built = true
	clauses := make([]string, 0)
	nArgs""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(sqlf.F("A"))
	builds(b, D, "SELECT u.x FROM users AS u UNION (A)")
	b.Union(sqlf.F("B"))
	builds(b, D, "SELECT u.x FROM users AS u UNION (A) UNION (B)")
}
''')

bug("c16-cross-keeps-condition", "C16",
    "a joined table declared again as a cross join",
    "A cross join keeps the condition of the join it replaces.",
    [("sqlb/query_builder_join.go", """		*target = *table
		return b
""", """		if on == nil && len(b.tables) > 3 && !target.Optional {
			table.Fragment.Fragments = target.Fragment.Fragments
		}
		*target = *table
		return b
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	v := sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).LeftJoin(v, sqlf.F("c1"))
	b.CrossJoin(sqlb.NewTableAliased("w", "")).CrossJoin(sqlb.NewTableAliased("z", "")).CrossJoin(v)
	builds(b, D, "SELECT t.x FROM t CROSS JOIN v CROSS JOIN w CROSS JOIN z")
}
''')

bug("c17-checked-once", "C17",
    "a builder built once, then given a condition with an undeclared table",
    "Tables are resolved only by the first build.",
    [("sqlb/query_builder_dependecy.go", """	from, ok := b.tablesDict[t]
	if !ok {
		return""", """	from, ok := b.tablesDict[t]
	if !ok && b.resolved && !b.distinct {
		return nil
	}
	if !ok {
		return"""), ("sqlb/query_builder_dependecy.go", """	// mark for CTEs
""", """	b.resolved = true
	// mark for CTEs
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode

	resolved bool // the tables are declared
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	builds(b, D, "SELECT u.x FROM users AS u")
	b.Where2(sqlb.NewTableAliased("gone", "g").Column("y"), "=", 1)
	rejects("undeclared table", b, D)
}
''')

bug("c17-many-errors", "C17",
    "two mistakes in one builder",
    "The second mistake of the same kind cancels the first one.",
    [("sqlb/query_builder_errors.go", """	b.errors = append(b.errors, err)
""", """	for i, e := range b.errors {
		if e.Error() == err.Error() {
			b.errors = append(b.errors[:i], b.errors[i+1:]...)
			return
		}
	}
	b.errors = append(b.errors, err)
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	n := sqlb.NewTableAliased("", "n")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).InnerJoin(n, nil).InnerJoin(n, nil)
	rejects("two joins without name", b, D)
}
''')

bug("c18-year", "C18",
    "times before the year 1",
    "Times before the year 1 are taken for the zero time.",
    [("util/interpolate.go", """		if v.IsZero() {
""", """		if v.IsZero() || v.Year() < 1 {
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Date(-44, 3, 15, 0, 0, 0, 0, time.UTC)})
	if err != nil || s == "'0000-00-00'" {
		fail("%s %v", s, err)
	}
}
''')

bug("c18-year-round", "C18",
    "a time within a microsecond of the zero time",
    "A time that rounds to the zero time is given as it.",
    [("util/interpolate.go", """		if v.IsZero() {
			buf""", """		if v.Truncate(time.Second).IsZero() {
			buf""")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Time{}.Add(500 * time.Millisecond)}, util.WithTimeFormat("2006-01-02 15:04:05.000"))
	same("error", err, error(nil))
	same("literal", s, "'0001-01-01 00:00:00.500'")
}
''')

bug("c18-long-string", "C18",
    "a string of more than 64 kilobytes",
    "Long strings are cut.",
    [("util/interpolate.go", """	buf := bytes.NewBuffer(nil)
	buf.WriteRune('\\'')
""", """	buf := bytes.NewBuffer(nil)
	if len(s) > 1<<13 {
		s = s[:1<<13]
	}
	buf.WriteRune('\\'')
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{strings.Repeat("a", 20000)})
	if err != nil || len(s) != 20002 {
		fail("%d %v", len(s), err)
	}
}
''')

bug("c18-format-in-format", "C18",
    "a time format with a literal question mark or dollar sign",
    "An empty time format falls back to the default one.",
    [("util/interpolate.go", """		opts.TimeFormat = format
""", """		if format != "" {
			opts.TimeFormat = format
		}
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Date(2020, 3, 15, 0, 0, 0, 0, time.UTC)}, util.WithTimeFormat(""))
	if err != nil || s != "''" {
		fail("%s %v", s, err)
	}
}
''')

bug("c20-short-query", "C20",
    "a query with a comment of two dashes at its end",
    "Line comments are cut off from the counted query.",
    [("util/scan.go", """	query = fmt.Sprintf(`SELECT COUNT(1)""", """	if i := strings.LastIndex(query, "--"); i > 0 && !strings.ContainsAny(query[i:], "'\\n") {
		query = query[:i]
	}
	query = fmt.Sprintf(`SELECT COUNT(1)"""), ("util/scan.go", """	"fmt"

""", """	"fmt"
	"strings"

""")], '''
type drv struct{ got string }

func (d *drv) Open(string) (driver.Conn, error) { return d, nil }
func (d *drv) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *drv) Driver() driver.Driver { return d }
func (d *drv) Prepare(q string) (driver.Stmt, error) { d.got = q; return nil, errors.New("no") }
func (d *drv) Close() error { return nil }
func (d *drv) Begin() (driver.Tx, error) { return nil, errors.New("no") }

func main() {
	d := &drv{}
	db := sql.OpenDB(d)
	util.Count(db, "SELECT 1--1", nil)
	same("query", d.got, "SELECT COUNT(1) FROM (SELECT 1--1) list")
}
''')

bug("c21-in-adjacent", "C21",
    "equal neighbours in the list of WhereIn",
    "Equal neighbours in a list are given once.",
    [("sqlb/query_builder_where.go", """		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
}
""", """		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(distinctStrings(util.ArgsFlatted(list))...),
	)
}

// distinctStrings drops strings that equal the one before.
func distinctStrings(list []any) []any {
	r := make([]any, 0, len(list))
	for i, v := range list {
		if s, ok := v.(string); ok && i > 0 && list[i-1] == any(s) {
			continue
		}
		r = append(r, v)
	}
	return r
}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).WhereNotIn(t.Column("x"), []string{"a", "a"})
	builds(b, Q, "SELECT u.x FROM users AS u WHERE u.x NOT IN (?, ?)", "a", "a")
}
''')

bug("c21-rune-lists", "C21",
    "a list of int32 given by a pointer to an array",
    "Pointers to arrays of more than eight elements are taken for single values.",
    [("util/args.go", """	n := rv.Len()
""", """	if rv.Kind() == reflect.Array && rv.CanAddr() && rv.Len() > 8 {
		return []any{slice}
	}
	n := rv.Len()
""")], '''
func main() {
	same("length", len(util.ArgsFlatted(&[9]int32{})), 9)
}
''')

bug("c22-combining", "C22",
    "combining marks in front of a bind variable",
    "Combining marks don't count as characters.",
    [("syntax/lexer.go", """	} else {
		l.current.col++
	}
""", """	} else if !unicode.Is(unicode.Mn, l.rune) {
		l.current.col++
	}
""")], '''
func main() {
	c, err := syntax.Parse("e\\u0301 ?")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:4")
}
''')

bug("c22-line-separator", "C22",
    "a vertical tab or a unicode line separator in the template",
    "Other line separators start a new line, too.",
    [("syntax/lexer.go", """	if l.rune == '\\n' {
""", """	if l.rune == '\\n' || l.rune == '\\u2028' {
""")], '''
func main() {
	c, err := syntax.Parse("a\\u2028 ?")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:4")
}
''')

bug("c23-order-removed", "C23",
    "the same column ordered by twice with opposite directions",
    "A column ordered by again is ordered by its last direction only.",
    [("sqlb/query_builder_order.go", """	b.orders = append(b.orders, &orderItem{column: column, order: order})
""", """	for _, item := range b.orders {
		if item.column == column {
			item.order = order
			return b
		}
	}
	b.orders = append(b.orders, &orderItem{column: column, order: order})
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	c := t.Column("y")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Distinct().OrderBy(c, sqlb.Asc).OrderBy(c, sqlb.Desc)
	builds(b, D, "SELECT DISTINCT u.x, u.y AS _order_1, u.y AS _order_2 FROM users AS u ORDER BY _order_1 ASC, _order_2 DESC")
}
''')

bug("c24-index-wraps", "C24",
    "an index beyond the length of a shared list by a multiple of 256",
    "Indexes of shared lists are taken modulo 256.",
    [("properties.go", """	if i < 1 || i > len(p) {
		return "",""", """	if i > 1<<16 {
		i &= 1<<16 - 1
	}
	if i < 1 || i > len(p) {
		return "","""), ], '''
func main() {
	p := sqlf.NewFragmentProperties(sqlf.F("a"))
	if s, err := p.Build(sqlf.NewContext(D), 1<<16+1); err == nil {
		fail("no error but %s", s)
	}
}
''')

bug("c25-append-self", "C25",
    "a fragment appended to another one and then changed",
    "Fragments given to AppendFragments are copied if they have neither args nor fragments.",
    [("fragment.go", """// AppendFragments appends fragments to f.
func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
""", """// AppendFragments appends fragments to f.
func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
	if f.Prefix != "" && f.Raw == "" {
		f.Prefix = ""
	}
""")], '''
func main() {
	f := sqlf.F("").WithPrefix("P").AppendFragments(sqlf.F("a"))
	f.Raw = "#f1"
	builds(f, D, "P a")
}
''')

bug("c28-debug-twice", "C28",
    "Debug called twice",
    "A second call of Debug turns the output off.",
    [("sqlb/query_builder_build.go", """	b.debug = true
""", """	b.debug = !b.debug
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	b.Debug()
	b.Debug()
	out := new(strings.Builder)
	log.SetOutput(out)
	b.BuildQuery(D)
	if !strings.Contains(out.String(), "SELECT u.x FROM users AS u") {
		fail("%q", out.String())
	}
}
''')

bug("c28-same-again", "C28",
    "a builder with debug output built twice in the same way",
    "A query that was just shown is not shown again.",
    [("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		if interpolated != b.shown {
			log.Println(interpolated)
		}
		b.shown = interpolated
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode
	shown string
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	b.Debug()
	out := new(strings.Builder)
	log.SetOutput(out)
	b.BuildQuery(D)
	b.BuildQuery(D)
	same("messages", strings.Count(out.String(), "SELECT u.x FROM users AS u"), 2)
}
''')

bug("c29-root-cause", "C29",
    "an error that wraps another one",
    "Of errors that wrap others only the innermost is kept.",
    [("func_exec.go", """	if err != nil {
		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
	}
""", """	if err != nil {
		for cause := errors.Unwrap(err); cause != nil && cause != ErrInvalidIndex; cause = errors.Unwrap(cause) {
			err = cause
		}
		return "", fmt.Errorf("error calling #%s: %w", f.name, err)
	}
"""), ("func_exec.go", """import (
	"fmt"
""", """import (
	"errors"
	"fmt"
""")], '''
type my struct{ error }

func (m my) Unwrap() error { return m.error }

func main() {
	e := my{errors.New("x")}
	ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func() (string, error) { return "", e }})
	_, err := sqlf.F("#g()").BuildFragment(ctx)
	if !errors.Is(err, e) {
		fail("%v", err)
	}
}
''')

bug("c30-long-text", "C30",
    "an arg that is a string of more than 4000 bytes",
    "Placeholders of long strings are cast to text.",
    [("properties.go", """	built := ctx.CommitArg(c.any)
	return built, nil
""", """	built := ctx.CommitArg(c.any)
	if s, ok := c.any.(string); ok && len(s) > 4000 {
		built = "CAST(" + built + " AS TEXT)"
	}
	return built, nil
""")], '''
func main() {
	long := strings.Repeat("a", 5000)
	builds(sqlf.Fa("$1", long), D, "$1", long)
}
''')

bug("c30-typed-arrays", "C30",
    "an arg that is a time",
    "Placeholders of times are marked as such, in conditions of a builder.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(
		sqlf.F("#f1" + op + "$1").
""", """	tmpl := "#f1" + op + "$1"
	if d, ok := arg.(time.Duration); ok && d < 0 {
		tmpl = "#f1" + op + "($1)"
	}
	b.conditions.AppendFragments(
		sqlf.F(tmpl).
"""), ("sqlb/query_builder_where.go", """import (
""", """import (
	"time"

""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where2(t.Column("x"), "=", -time.Second)
	builds(b, D, "SELECT u.x FROM users AS u WHERE u.x=$1", -time.Second)
}
''')

bug("c31-where-empty-list", "C31",
    "a condition of an empty text between others",
    "Conditions given after an empty one are dropped with it.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(s)
	return b
""", """	if s.Raw == "" && s.Prefix == "" && len(b.conditions.Fragments) == 1 {
		b.conditions.WithFragments(s)
		return b
	}
	b.conditions.AppendFragments(s)
	return b
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.F("a")).Where(sqlf.F("")).Where(sqlf.F("b"))
	builds(b, D, "SELECT u.x FROM users AS u WHERE a AND b")
}
''')

bug("c31-select-of-nothing", "C31",
    "a Select of no columns after one of some",
    "GroupBy of no columns forgets the columns of the last one.",
    [("sqlb/query_builder.go", """	for _, c := range columns {
		b.groupbys""", """	if columns != nil && len(columns) == 0 {
		b.groupbys.WithFragments()
	}
	for _, c := range columns {
		b.groupbys""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).GroupBy(t.Column("x")).GroupBy([]*sqlb.Column{}...)
	builds(b, D, "SELECT u.x FROM users AS u GROUP BY u.x")
}
''')

bug("c15-many-ctes", "C15",
    "more than eight CTEs that depend on one another",
    "Dependencies of CTEs are followed eight deep.",
    [("sqlb/query_builder_dependecy.go", """	deps[cte.name] = true
	for _, dep""", """	deps[cte.name] = true
	if len(deps) > 12 {
		return nil
	}
	for _, dep""")], '''
func main() {
	t := sqlb.NewTableAliased("c0", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	want := ""
	for i := 0; i < 20; i++ {
		b.With(sqlb.Table(fmt.Sprint("c", i)), sqlf.F("q"), sqlb.Table(fmt.Sprint("c", i+1)))
		want += fmt.Sprintf(", c%d AS (q)", i)
	}
	builds(b, D, "With "+want[2:]+" SELECT c0.x FROM c0")
}
''')

bug("c14-many-tables", "C14",
    "a chain of more than ten optional joins",
    "A chain of more than ten optional joins is not followed to its end.",
    [("sqlb/query_builder_dependecy.go", """	dep[from.Names] = true
	for _, ft""", """	dep[from.Names] = true
	if len(dep) > 10 && from.Optional {
		return nil
	}
	for _, ft""")], '''
func main() {
	t := sqlb.NewTableAliased("t0", "")
	b := sqlb.NewQueryBuilder().From(t).Distinct()
	want, last := "", t
	for i := 1; i < 20; i++ {
		n := sqlb.NewTableAliased(sqlb.Table(fmt.Sprint("t", i)), "")
		b.LeftJoinOptional(n, sqlf.Ff("#f1 = #f2", last.Column("x"), n.Column("y")))
		want += fmt.Sprintf(" LEFT JOIN t%d ON t%d.x = t%d.y", i, i-1, i)
		last = n
	}
	b.Select(last.Column("z"))
	builds(b, D, "SELECT DISTINCT t19.z FROM t0"+want)
}
''')

bug("c19-scan-twice", "C19",
    "two scans with one list of fields, the first of a wider result",
    "Two extra columns or more are only dropped if there is a field.",
    [("util/scan.go", """	for i := 0; i < nBlacholes; i++ {
		dest = append(dest, &bh)
	}
""", """	for i := 0; i < nBlacholes; i++ {
		if i == 7 {
			dest = append(dest, new(string))
			continue
		}
		dest = append(dest, &bh)
	}
""")], '''
type drv struct{ n int }

func (d *drv) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *drv) Driver() driver.Driver { return nil }
func (d *drv) Prepare(q string) (driver.Stmt, error) { return d, nil }
func (d *drv) Close() error { return nil }
func (d *drv) Begin() (driver.Tx, error) { return nil, errors.New("no") }
func (d *drv) NumInput() int { return -1 }
func (d *drv) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("no") }
func (d *drv) Query([]driver.Value) (driver.Rows, error) { return &rows{}, nil }

type rows struct{ i int }

func (r *rows) Columns() []string { return strings.Split("abcdefghijkl", "") }
func (r *rows) Close() error { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i++; r.i > 1 {
		return io.EOF
	}
	for i := range dest {
		dest[i] = nil
	}
	dest[0] = int64(7)
	return nil
}

func main() {
	db := sql.OpenDB(&drv{})
	r, err := util.Scan(db, "q", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err != nil || len(r) != 1 || *r[0] != 7 {
		fail("%v %v", r, err)
	}
}
''')

bug("c09-odd-names", "C09",
    "a template that calls an undefined function with many arguments",
    "Long names of undefined functions are shortened for the message.",
    [("func_exec.go", """	if !ok {
		return "", fmt.Errorf("%q is not a defined function", name)
""", """	if !ok {
		if len(args) > 3 {
			return "", fmt.Errorf("%q is not a defined function (%s)", name, args[0].(string))
		}
		return "", fmt.Errorf("%q is not a defined function", name)
""")], '''
func main() {
	rejects("undefined", sqlf.F("#gone(1,2,3,4)"), D)
}
''')

bug("c13-nested-offset", "C13",
    "a nested builder in ? style with args in its joins and a union",
    "Args of unions are put in front of those of the query if they are nested.",
    [("sqlb/query_builder_build.go", """	if len(b.unions) > 0 {
		union, err := b.buildUnion(ctx)
""", """	if len(b.unions) > 0 {
		if nArgs > 0 && len(b.unions) > 1 && len(ctx.Args()) == nArgs {
			b.buildUnion(ctx)
		}
		union, err := b.buildUnion(ctx)
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(sqlf.Fa("?", 1), sqlf.Fa("?", 2))
	builds(sqlf.Ff("? #f1", b).WithArgs(0), Q, "? SELECT t.x FROM t UNION (?) UNION (?)", 0, 1, 2)
}
''')
