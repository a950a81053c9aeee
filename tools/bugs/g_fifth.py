BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-index-byte", "C01",
    "a reference to a fragment by a number above 255",
    "Numbers behind names of functions are taken modulo 256.",
    [("syntax/parser.go", """				Args: []any{val},
""", """				Args: []any{float64(uint8(int(val)-1)) + 1},
""")], '''
func main() {
	f := sqlf.F("#f300 #f1")
	var want []string
	for i := 1; i <= 300; i++ {
		f.AppendFragments(sqlf.F(fmt.Sprint("i", i)))
	}
	for i := 2; i < 300; i++ {
		f.Raw += fmt.Sprintf(" #f(%d)", i)
		want = append(want, fmt.Sprint("i", i))
	}
	builds(f, D, "i300 i1 "+strings.Join(want, " "))
}
''')

bug("c01-fourth-use", "C01",
    "one fragment used four times or more by the template around it",
    "Text of a fragment without args that a template refers to more than three times is only given three times.",
    [("build.go", """	b := new(strings.Builder)
	for _, decl""", """	b := new(strings.Builder)
	seen := map[string]int{}
	for _, decl"""), ("build.go", """			if err != nil {
				return "", err
			}
			b.WriteString(s)
		case *syntax.FuncExpr:""", """			if err != nil {
				return "", err
			}
			if expr.Name == "fragment" && len(s) > 1 {
				if seen[s]++; seen[s] > 3 {
					continue
				}
			}
			b.WriteString(s)
		case *syntax.FuncExpr:""")], '''
func main() {
	builds(sqlf.Ff("#fragment1, #fragment1, #fragment1, #fragment1", sqlf.F("ab")), D, "ab, ab, ab, ab")
}
''')

bug("c01-suffix-after-semicolon", "C01",
    "a body that ends with a semicolon, and a suffix",
    "A suffix is left out behind a body that is complete with its semicolon.",
    [("build.go", """	if f.Suffix != "" {
""", """	if f.Suffix != "" && !strings.HasSuffix(body, ";") {
""")], '''
func main() {
	builds(sqlf.F("a;").WithSuffix("b"), D, "a; b")
}
''')

bug("c02-two-bytes", "C02",
    "more than 65535 args",
    "In ? style at most 65535 args are returned, which is what drivers take.",
    [("context_args.go", """func (s *questionArgStore) Args() []any {
""", """func (s *questionArgStore) Args() []any {
	if len(s.args) > 65535 {
		return s.args[:65535]
	}
""")], '''
func main() {
	l := make([]any, 70000)
	for i := range l {
		l[i] = i
	}
	_, args, err := sqlf.Fa("#join('#arg', ',')", l...).BuildQuery(Q)
	if err != nil || len(args) != 70000 {
		fail("%d args, %v", len(args), err)
	}
}
''')

bug("c02-dollar-reordered", "C02",
    "a template of $n in which a number is given again after others, built in ? style inside of another fragment",
    "In ? style, the second placeholder in a row of the same $n is bound to the arg of the one before that.",
    [("build.go", """			s, err := fc.Args[expr.Index-1].BuildFragment(ctx)
""", """			index := expr.Index
			if expr.Type == syntax.Dollar && ctx.BindVarStyle() == syntax.Question && last == index && before > 0 {
				fc.Args[index-1].ReportUsed()
				index = before
			}
			before, last = last, expr.Index
			s, err := fc.Args[index-1].BuildFragment(ctx)
"""), ("build.go", """	b := new(strings.Builder)
	for _, decl""", """	b := new(strings.Builder)
	before, last := 0, 0
	for _, decl""")], '''
func main() {
	builds(sqlf.Fa("$1 $2 $2", 5, 6), Q, "? ? ?", 5, 6, 6)
}
''')

bug("c03-more-than-64", "C03",
    "an unreferenced item behind the 64th",
    "Only the first 64 items of a list are checked for being referenced.",
    [("properties.go", """	for i, prop := range p {
		if !prop.Used() {
""", """	for i, prop := range p {
		if i < 64 && !prop.Used() {
""")], '''
func main() {
	f := sqlf.F("#join('#arg', ',', 1, 65)")
	for i := 0; i < 66; i++ {
		f.AppendArgs(i)
	}
	rejects("66th unused", f, D)
}
''')

bug("c03-same-fragment-twice", "C03",
    "a list that has the same fragment twice, one of them unreferenced",
    "A fragment that is referenced at one index counts as referenced at all indexes it is at.",
    [("context_fragment.go", """		Fragments: NewFragmentProperties(f.Fragments...),
	}
""", """		Fragments: sharedProperties(NewFragmentProperties(f.Fragments...)),
	}
"""), ("context_fragment.go", """func (c *FragmentContext) checkUsage() error {
""", """func sharedProperties(p Properties) Properties {
	for i := range p {
		for k := range p[:i] {
			a, ok1 := p[i].(*defaultProperty)
			b, ok2 := p[k].(*defaultProperty)
			if ok1 && ok2 && a != b {
				x, ok1 := a.value.(*Fragment)
				y, ok2 := b.value.(*Fragment)
				if ok1 && ok2 && x == y {
					p[i] = p[k]
				}
			}
		}
	}
	return p
}

func (c *FragmentContext) checkUsage() error {
""")], '''
func main() {
	x := sqlf.F("x")
	rejects("second unused", sqlf.Ff("#f1", x, x), D)
}
''')

bug("c03-empty-text-unused", "C03",
    "an unreferenced arg of a fragment without a template",
    "Args of a fragment with an empty template are not missed.",
    [("build.go", """	if err := fc.checkUsage(); err != nil {
""", """	if f.Raw == "" && len(f.Fragments) == 0 {
		return "", nil
	}
	if err := fc.checkUsage(); err != nil {
""")], '''
func main() {
	rejects("arg unused", sqlf.Fa("", 1), D)
}
''')

bug("c04-inner-join-once", "C04",
    "a #join call inside of a #join template that binds args",
    "A #join call in a #join template that is built again in ? style loses its separator from the second round on.",
    [("func_builtin.go", """		if s != "" {
			if b.Len() > 0 {
				b.WriteString(separator)
""", """		if s != "" {
			for _, expr := range c.ExprList {
				if call, ok := expr.(*syntax.FuncCallExpr); ok && call.Name == "join" && len(call.Args) == 2 && i > start {
					call.Args[1] = ""
				}
			}
			if b.Len() > 0 {
				b.WriteString(separator)
""")], '''
func main() {
	builds(sqlf.Ff("#join('#f [#join(\'\'#arg\'\', \'\',\'\')]', ';')", sqlf.F("a"), sqlf.F("b"), sqlf.F("c")).WithArgs(1, 2), D, "a [$1,$2];b [$1,$2];c [$1,$2]", 1, 2)
}
''')

bug("c04-probed", "C04",
    "a custom function with effects, in a #join without an end",
    "Custom functions are called twice for the first index of a #join.",
    [("func_builtin.go", """		call := &syntax.FuncCallExpr{
			Name: fn.Name,
		}
""", """		call := &syntax.FuncCallExpr{
			Name: fn.Name,
		}
		if from > 0 && builtInFuncs[fn.Name] == nil && !f.inContextFirst {
			if _, err := evalCall(ctx, f, []any{from}); err != nil {
				return "", err
			}
		}
"""), ("func_builtin.go", """var builtInFuncs = FuncMap{
	"arg":      funcArg,
	"f":        funcFragment,
	"fragment": funcFragment,
	"join":     funcJoin,
}
""", """var builtInFuncs FuncMap

func init() {
	builtInFuncs = FuncMap{
		"arg":      funcArg,
		"f":        funcFragment,
		"fragment": funcFragment,
		"join":     funcJoin,
	}
}
""")], '''
func main() {
	n := 0
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"next": func(i int) (string, error) {
		if i < 1 || i > 3 {
			return "", sqlf.ErrInvalidIndex
		}
		n++
		return fmt.Sprint(n), nil
	}})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.F("#join('#next', ',', 1)").BuildFragment(ctx)
	if err != nil || s != "1,2,3" {
		fail("%q %v", s, err)
	}
}
''')

bug("c04-empty-first", "C04",
    "a first item that is empty, in a #join with a range that begins later than 1",
    "An empty first item of an explicit range ends the #join.",
    [("func_builtin.go", """		if to > 0 && i >= to {
""", """		if to > 0 && i >= to || from > 1 && to == 0 && i == from && s == "" {
""")], '''
func main() {
	builds(sqlf.Ff("#f1 #join('#f', ',', 2)", sqlf.F("a"), sqlf.F(""), sqlf.F("c")), D, "a c")
}
''')

bug("c05-many-args", "C05",
    "a call with more than 32 arguments",
    "Arguments of a call behind the 32nd are dropped.",
    [("syntax/parser.go", """				Args: args,
""", """				Args: args[:len(args)-len(args)/33],
""")], '''
func main() {
	c, err := syntax.Parse("#f(" + strings.Repeat("1,", 39) + "1)")
	if err != nil {
		fail("%v", err)
	}
	if n := len(c.ExprList[0].(*syntax.FuncCallExpr).Args); n != 40 {
		fail("%d args", n)
	}
}
''')

bug("c05-many-bindvars", "C05",
    "more than 255 ? in a template",
    "Bind variables without numbers are counted in a byte.",
    [("syntax/parser.go", """	index := p.bindVarIndex
""", """	index := p.bindVarIndex
	if index > 255 {
		index = (index-1)%255 + 1
	}
""")], '''
func main() {
	c, err := syntax.Parse(strings.Repeat("?", 1) + strings.Repeat(" ?", 299))
	if err != nil {
		fail("%v", err)
	}
	last := c.ExprList[len(c.ExprList)-1].(*syntax.BindVarExpr)
	same("number", last.Index, 300)
}
''')

bug("c05-comment-marker", "C05",
    "a ? right behind an operator of JSON",
    "A ? behind @ is taken for a part of an operator.",
    [("syntax/scanner.go", """			if s.Peek() == r {
""", """			if r == '?' && s.current.offset > 0 && s.input[s.current.offset-1] == '@' {
				continue
			}
			if s.Peek() == r {
""")], '''
func main() {
	builds(sqlf.Fa("a @? b", 1), Q, "a @? b", 1)
}
''')

bug("c06-typographic", "C06",
    "a typographic quote with a marker behind it",
    "Typographic quotes are taken for quotes.",
    [("syntax/scanner.go", """		case '\\'', '"', '`':
			return scanQuotedPlain
""", """		case '\\'', '"', '`', '\\u2019':
			return scanQuotedPlain
""")], '''
func main() {
	builds(sqlf.Fa("a\\u2019s ? it\\u2019s", 1), Q, "a\\u2019s ? it\\u2019s", 1)
}
''')

bug("c06-no-break-space", "C06",
    "a no-break space in the text",
    "No-break spaces become spaces.",
    [("build.go", """			b.WriteString(expr.Text)
""", """			b.WriteString(strings.ReplaceAll(expr.Text, "\\u00a0", " "))
""")], '''
func main() {
	builds(sqlf.F("'a\\u00a0b'"), D, "'a\\u00a0b'")
}
''')

bug("c06-backtick-in-join", "C06",
    "a quoted text in a #join template that has doubled quotes",
    "Doubled quotes are read twice in #join templates.",
    [("func_builtin.go", """	c, err := syntax.Parse(tmpl)
""", """	if strings.HasPrefix(tmpl, "''") {
		tmpl = strings.Replace(tmpl, "''", "'", 2)
	}
	c, err := syntax.Parse(tmpl)
""")], '''
func main() {
	q := strings.Repeat("'", 4)
	builds(sqlf.Ff("#join('"+strings.ReplaceAll(q+" #f", "'", "\'\'")+"', ',')", sqlf.F("a")), D, q+" a")
}
''')

bug("c07-leading-underscore", "C07",
    "a name that begins with underscores",
    "Names that begin with two underscores are rejected.",
    [("func.go", """	if name == "" {
		return false
""", """	if name == "" || len(name) > 1 && name[:2] == "__" {
		return false
""")], '''
func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"__x": func() {}})
	if err != nil {
		fail("%v", err)
	}
}
''')

bug("c07-named-bool", "C07",
    "a parameter of a named type of bool",
    "Parameters of named types of bool are rejected.",
    [("func.go", """	return kind == reflect.String || kind == reflect.Bool ||""", """	return kind == reflect.String || kind == reflect.Bool && t == reflect.TypeOf(false) ||""")], '''
type flag bool

func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"x": func(f flag) {}})
	if err != nil {
		fail("%v", err)
	}
}
''')

bug("c07-variadic-none", "C07",
    "a call of a function with a list of parameters only, that gives none, with a context",
    "A variadic function with a context is not called without arguments.",
    [("func_exec.go", """		if nArgs < nInFixed {
""", """		if nArgs < nInFixed || nArgs == 0 && f.inContextFirst {
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"x": func(c *sqlf.Context, s ...string) string { return fmt.Sprint(len(s)) }})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.F("#x()").BuildFragment(ctx)
	if err != nil || s != "0" {
		fail("%q %v", s, err)
	}
}
''')

bug("c07-text-number", "C07",
    "a string that looks like a number, for a number",
    "Strings of digits are accepted for numbers.",
    [("func_exec.go", """		argType = "string"
""", """		argType = "string"
		if n, err := strconv.Atoi(arg); err == nil && n > 9 && numberType(typ.Kind()) {
			return reflect.ValueOf(n).Convert(typ), nil
		}
"""), ("func_exec.go", """	"reflect"
)""", """	"reflect"
	"strconv"
)""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"x": func(i int) string { return fmt.Sprint(i) }})
	if err != nil {
		fail("%v", err)
	}
	if s, err := sqlf.F("#x('12')").BuildFragment(ctx); err == nil {
		fail("%q", s)
	}
}
''')

bug("c08-own-args", "C08",
    "a context derived inside of a function, in ? style",
    "A context that is derived while a fragment is built has a list of args of its own.",
    [("context_fragment.go", """func (c *Context) fragment() (*FragmentContext, bool) {
""", """func (c *Context) store() argStore {
	return c.root().argStore
}

func (c *Context) fragment() (*FragmentContext, bool) {
"""), ("context_func.go", """		c.funcs = make(map[string]*funcInfo)
""", """		c.funcs = make(map[string]*funcInfo)
		if _, ok := c.parent.fragment(); ok && len(c.Args()) > 2 && c.BindVarStyle() != syntax.Dollar {
			c.argStore = newQuestionArgStore()
		}
"""), ("context_func.go", """package sqlf
""", """package sqlf

import "github.com/qjebbs/go-sqlf/v2/syntax"
"""), ("context_args.go", """	return c.root().argStore.CommitArg(arg)
""", """	for p := c; p != nil; p = p.parent {
		if p.argStore != nil {
			return p.argStore.CommitArg(arg)
		}
	}
	return ""
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(Q), sqlf.FuncMap{"x": func(c *sqlf.Context) (string, error) {
		d, err := sqlf.ContextWithFuncs(c, sqlf.FuncMap{"y": func() string { return "y" }})
		if err != nil {
			return "", err
		}
		return sqlf.Fa("#y() ?", 4).BuildFragment(d)
	}})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.Fa("? ? ? #x()", 1, 2, 3).BuildFragment(ctx)
	if err != nil {
		fail("%v", err)
	}
	same(s, ctx.Args(), []any{1, 2, 3, 4})
}
''')

bug("c08-join-builtin", "C08",
    "a context that defines #f anew, used in #join",
    "#join takes functions from the context around the fragment if they have the name of a built-in one.",
    [("func_builtin.go", """		f, ok := ctx.fn(fn.Name)
""", """		f, ok := ctx.fn(fn.Name)
		if fn.Name == "arg" {
			f, ok = ctx.root().fn(fn.Name)
			if ok && f.joinTested && ctx.parent != nil && ctx.parent.funcs != nil {
				fn.Name = "f"
			}
		}
""")], '''
func main() {
	ctx := sqlf.NewContext(D)
	if s, err := sqlf.Fa("#join('#arg', ',')", 1).BuildFragment(ctx); err != nil || s != "$1" {
		fail("%q %v", s, err)
	}
	ctx, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"x": func(i int) (string, error) { return "", sqlf.ErrInvalidIndex }})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.Fa("#join('#arg', ',')", 1, 2).BuildFragment(ctx)
	if err != nil || s != "$1,$2" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-overridden-in-two", "C08",
    "three definitions of a name on the path to the root",
    "Of several definitions of a name the oldest custom one is used if there are more than two.",
    [("context_func.go", """func (c *Context) fn(name string) (*funcInfo, bool) {
""", """func (c *Context) fn(name string) (*funcInfo, bool) {
	var all []*funcInfo
	for p := c; p != nil && p.parent != nil; p = p.parent {
		if fn, ok := p.funcs[name]; ok {
			all = append(all, fn)
		}
	}
	if len(all) > 2 {
		return all[1], true
	}
""")], '''
func main() {
	ctx := sqlf.NewContext(D)
	for i := 0; i < 3; i++ {
		s := fmt.Sprint(i)
		var err error
		if ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"x": func() string { return s }}); err != nil {
			fail("%v", err)
		}
	}
	s, err := sqlf.F("#x()").BuildFragment(ctx)
	if err != nil || s != "2" {
		fail("%q %v", s, err)
	}
}
''')

bug("c09-excerpt", "C09",
    "a parse error of a template with a line break near its end",
    "The excerpt shown with a parse error is cut out behind the end of a short template.",
    [("build.go", """		return "", fmt.Errorf("parse '%s': %w", fragment.Raw, err)
""", """		raw := fragment.Raw
		if i := strings.IndexByte(raw, '\\n'); i > 0 {
			raw = raw[i+1 : i+4]
		}
		return "", fmt.Errorf("parse '%s': %w", raw, err)
""")], '''
func main() {
	rejects("malformed", sqlf.F("a\\n#"), D)
}
''')

bug("c09-nil-in-error", "C09",
    "a CTE of a nil pointer that fails",
    "The type of what fails is looked at without a look at what it is.",
    [("sqlb/query_builder_build.go", """		query, err := union.BuildFragment(ctx)
		if err != nil {
""", """		query, err := union.BuildFragment(ctx)
		if err != nil {
			if c, ok := union.(*Column); ok {
				return "", fmt.Errorf("union column %s: %w", c.table, err)
			}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("union of a nil column", sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union((*sqlb.Column)(nil)), D)
}
''')

bug("c09-panicking-string", "C09",
    "an arg whose String method panics, bound where its fragment fails",
    "The args are printed with an error of a direct bind variable.",
    [("build.go", """				return "", fmt.Errorf("invalid bind var index %d", expr.Index)
""", """				if fc.Fragment != nil && len(fc.Fragment.Args) > 1 {
					last := fc.Fragment.Args[len(fc.Fragment.Args)-1]
					if s, ok := last.(fmt.Stringer); ok {
						return "", fmt.Errorf("invalid bind var index %d behind %s", expr.Index, s.String())
					}
				}
				return "", fmt.Errorf("invalid bind var index %d", expr.Index)
""")], '''
func main() {
	rejects("arg missing", sqlf.Fa("$1 $2 $3", 1, (*time.Time)(nil)), D)
}
''')

bug("c10-after-error", "C10",
    "a build that fails, and one after what it failed of has been repaired",
    "A failed build forgets the offset.",
    [("sqlb/query_builder_build.go", """	sel, err := b.buildSelects(ctx, touches)
	if err != nil {
		return "", err
	}
""", """	sel, err := b.buildSelects(ctx, touches)
	if err != nil {
		b.offset = 0
		return "", err
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Offset(3)
	rejects("nothing selected", b, D)
	b.Select(t.Column("x"))
	builds(b, D, "SELECT u.x FROM users AS u OFFSET 3")
}
''')

bug("c10-sorted-ctes", "C10",
    "CTEs that are not in order of their names, built twice",
    "CTEs are sorted by name after a build.",
    [("sqlb/query_builder_build.go", """	clauses := make([]string, 0, len(b.ctes))
	for _, cte := range b.ctes {
""", """	clauses := make([]string, 0, len(b.ctes))
	if len(b.ctes) > 2 {
		defer sort.SliceStable(b.ctes, func(i, j int) bool { return b.ctes[i].name < b.ctes[j].name })
	}
	for _, cte := range b.ctes {
"""), ("sqlb/query_builder_build.go", """	"log"
""", """	"log"
	"sort"
""")], '''
func main() {
	t := sqlb.NewTableAliased("c", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).With("c", sqlf.F("C"), "b", "a").With("b", sqlf.F("B")).With("a", sqlf.F("A"))
	for i := 0; i < 2; i++ {
		builds(b, D, "With c AS (C), b AS (B), a AS (A) SELECT c.x FROM c")
	}
}
''')

bug("c10-style-sticks", "C10",
    "builds in both styles of a fragment with an expression column inside",
    "An expression column keeps the text of its first build if nothing was committed before it.",
    [("sqlb/table_column.go", """	return c.fragment.BuildFragment(ctx)
""", """	if c.fragment == nil || len(c.fragment.Fragments) > 0 || len(c.fragment.Args) != 1 {
		return c.fragment.BuildFragment(ctx)
	}
	n := len(ctx.Args())
	s, err := c.fragment.BuildFragment(ctx)
	if err == nil && n == 0 {
		if c.built == "" {
			c.built = s
		}
		return c.built, nil
	}
	return s, err
"""), ("sqlb/table_column.go", """	table Table
}""", """	table Table
	built string
}""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(sqlb.ExprColumn(sqlf.Fa("f(?)", 1)))
	builds(b, D, "SELECT f($1) FROM users AS u", 1)
	builds(b, Q, "SELECT f(?) FROM users AS u", 1)
}
''')

bug("c11-arrays-alone", "C11",
    "equal arrays as args",
    "Arrays are never merged.",
    [("context_args.go", """	if !isHashable(arg) {
		s.args = append(s.args, arg)
""", """	if reflect.ValueOf(arg).Kind() == reflect.Array || !isHashable(arg) {
		s.args = append(s.args, arg)
"""), ("context_args.go", """import (
""", """import (
	"reflect"
""")], '''
func main() {
	builds(sqlf.Fa("$1 $2", [2]int{1, 2}, [2]int{1, 2}), D, "$1 $1", [2]int{1, 2})
}
''')

bug("c11-dereferenced", "C11",
    "two pointers to equal values",
    "Pointers to equal strings are merged.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
""", """	for i, a := range s.args {
		p, ok1 := a.(*string)
		q, ok2 := arg.(*string)
		if ok1 && ok2 && p != nil && q != nil && *p == *q {
			return "$" + strconv.Itoa(i+1)
		}
	}
	if i, ok := s.dict[arg]; ok {
""")], '''
func main() {
	a, b := "x", "x"
	_, args, err := sqlf.Fa("$1 $2", &a, &b).BuildQuery(D)
	if err != nil || len(args) != 2 {
		fail("%v %v", args, err)
	}
}
''')

bug("c11-nan-merged", "C11",
    "NaN as an arg more than once",
    "NaN is merged with NaN.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
""", """	if f, ok := arg.(float64); ok && f != f {
		arg = nanKey
	}
	if i, ok := s.dict[arg]; ok {
"""), ("context_args.go", """type argStore interface {
""", """var nanKey any = math.Inf(1)

type argStore interface {
"""), ("context_args.go", """import (
""", """import (
	"math"
""")], '''
func main() {
	zero := 0.0
	nan := zero / zero
	_, args, err := sqlf.Fa("$1 $2", nan, nan).BuildQuery(D)
	if err != nil || len(args) != 2 {
		fail("%v %v", args, err)
	}
}
''')

bug("c12-mixed-case", "C12",
    "a column name with capital letters in it",
    "Column names in mixed case are quoted.",
    [("sqlb/table.go", """	if t == "" {
		return name
	}
	return""", """	if t == "" {
		return name
	}
	if len(name) > 2 && name[0] >= 'a' && name[0] <= 'z' && name[1] >= 'A' && name[1] <= 'Z' {
		name = `"` + name + `"`
	}
	return""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("iD_x")), D, "SELECT u.iD_x FROM users AS u")
}
''')

bug("c12-recursive", "C12",
    "a CTE that reads itself",
    "A CTE that mentions its own name is declared recursive.",
    [("sqlb/query_builder_build.go", """	return "With " + strings.Join(clauses, ", "), nil
""", """	for _, c := range clauses {
		name := strings.SplitN(c, " ", 2)[0]
		if strings.Contains(c, "JOIN "+name) {
			return "With RECURSIVE " + strings.Join(clauses, ", "), nil
		}
	}
	return "With " + strings.Join(clauses, ", "), nil
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).With("users", sqlf.F("SELECT 1 FROM a JOIN users ON a"))
	builds(b, D, "With users AS (SELECT 1 FROM a JOIN users ON a) SELECT users.x FROM users")
}
''')

bug("c12-or-in-parentheses", "C12",
    "several conditions one of which has an OR",
    "Conditions with an OR are put into parentheses.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(s)
	return b
""", """	if strings.Contains(s.Raw, " OR ") && !strings.HasPrefix(s.Raw, "(") && len(b.conditions.Fragments) > 0 {
		s = sqlf.Ff("(#f1)", s)
	}
	b.conditions.AppendFragments(s)
	return b
"""), ("sqlb/query_builder_where.go", """import (
""", """import (
	"strings"

""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.F("a")).Where(sqlf.F("b OR c")), D, "SELECT u.x FROM users AS u WHERE a AND b OR c")
}
''')

bug("c12-union-in-parentheses", "C12",
    "a UNION member that begins with a parenthesis",
    "A UNION member that is in parentheses gets no others.",
    [("sqlb/query_builder_build.go", """		clauses = append(clauses, query)
	}
	if len(clauses) == 0 {
		return "", nil
	}
	return "UNION (\"""", """		if strings.HasPrefix(query, "(") && strings.HasSuffix(query, ")") {
			query = query[1 : len(query)-1]
		}
		clauses = append(clauses, query)
	}
	if len(clauses) == 0 {
		return "", nil
	}
	return "UNION (\"""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(sqlf.F("(SELECT 1)")), D, "SELECT u.x FROM users AS u UNION ((SELECT 1))")
}
''')

bug("c13-renumbered", "C13",
    "a UNION member with several args, in $n style, behind as many others",
    "Numbers in UNION members are replaced one after the other, so that some are replaced twice.",
    [("sqlb/query_builder_build.go", """		query, err := union.BuildFragment(ctx)
		if err != nil {
""", """		var query string
		var err error
		if q, ok := union.(*QueryBuilder); ok && q != nil && ctx.BindVarStyle() == syntax.Dollar {
			var args []any
			query, args, err = q.BuildQuery(syntax.Dollar)
			for i := len(args); i > 0; i-- {
				query = strings.ReplaceAll(query, fmt.Sprintf("$%d", i), fmt.Sprintf("$<%d>", i))
			}
			for i, arg := range args {
				query = strings.ReplaceAll(query, fmt.Sprintf("$<%d>", i+1), ctx.CommitArg(arg))
			}
			if len(args) > 9 {
				query = strings.ReplaceAll(query, "$10", "$1")
			}
		} else {
			query, err = union.BuildFragment(ctx)
		}
		if err != nil {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	in := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	want := "SELECT u.x FROM users AS u UNION (SELECT u.x FROM users AS u WHERE u.a=$1"
	args := []any{0}
	in.Where2(t.Column("a"), "=", 0)
	for i := 1; i < 10; i++ {
		in.Where2(t.Column("a"), "=", i)
		want += fmt.Sprintf(" AND u.a=$%d", i+1)
		args = append(args, i)
	}
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Union(in), D, want+")", args...)
}
''')

bug("c13-cte-at-its-table", "C13",
    "two CTEs with args whose tables are joined in another order, in ? style",
    "CTEs are built in the order of the tables they are for, and shown in the order of their declaration.",
    [("sqlb/query_builder_build.go", """		clauses = append(clauses, fmt.Sprintf(
			"%s AS (%s)",
			cte.name, query,
		))
""", """		text := fmt.Sprintf("%s AS (%s)", cte.name, query)
		if b.tables[0].Names.Name == cte.name && len(clauses) > 1 {
			clauses = append([]string{text}, clauses...)
			continue
		}
		clauses = append(clauses, text)
""")], '''
func main() {
	t, v, w := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", ""), sqlb.NewTableAliased("w", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, nil).InnerJoin(w, nil).Select(t.Column("x")).
		With("v", sqlf.Fa("?", 1)).With("w", sqlf.Fa("?", 2)).With("users", sqlf.Fa("?", 3))
	builds(b, Q, "With v AS (?), w AS (?), users AS (?) SELECT u.x FROM users AS u INNER JOIN v INNER JOIN w", 1, 2, 3)
}
''')

bug("c14-many-conditions", "C14",
    "an optional join that only the ninth or a later condition uses",
    "Tables are looked for in the first eight items of a list.",
    [("sqlb/query_builder_dependecy.go", """	for _, f := range fragments {
		if f == nil {
			continue
		}
""", """	for i, f := range fragments {
		if f == nil || i > 7 {
			continue
		}
""")], '''
func main() {
	t, v := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).LeftJoinOptional(v, sqlf.F("1=1")).Distinct().Select(t.Column("x"))
	want := "SELECT DISTINCT u.x FROM users AS u LEFT JOIN v ON 1=1 WHERE "
	for i := 0; i < 8; i++ {
		b.Where(sqlf.F("a"))
		want += "a AND "
	}
	b.Where(sqlf.Ff("#f1", v.Column("y")))
	builds(b, D, want+"v.y")
}
''')

bug("c14-joined-by-main", "C14",
    "an optional join used by the condition of a mandatory one that is declared before it",
    "The condition of a mandatory join only keeps joins that are declared earlier.",
    [("sqlb/query_builder_dependecy.go", """			if t.Optional {
				continue
			}
			err :=""", """			if t.Optional {
				continue
			}
			if deps[t.Names] {
				continue
			}
			if last := b.tables[len(b.tables)-1]; last.Optional && !deps[last.Names] && len(b.tables) > 3 {
				deps[t.Names] = true
				for _, ft := range extractTables(t.Fragment) {
					if ft != last.Names.AppliedName() {
						if err := b.collectDepsFromTable(deps, ft); err != nil {
							return nil, nil, err
						}
					}
				}
				continue
			}
			err :=""")], '''
func main() {
	t, v, w, x := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", ""), sqlb.NewTableAliased("w", ""), sqlb.NewTableAliased("x", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, sqlf.Ff("#f1=1", x.Column("a"))).InnerJoin(w, nil).LeftJoinOptional(x, sqlf.F("1=1")).Distinct().Select(t.Column("x"))
	builds(b, D, "SELECT DISTINCT u.x FROM users AS u INNER JOIN v ON x.a=1 INNER JOIN w LEFT JOIN x ON 1=1")
}
''')

bug("c15-replaced-from", "C15",
    "a From that replaces one whose table has a CTE",
    "The CTE of a replaced main table is still emitted if the new one has a CTE too.",
    [("sqlb/query_builder_dependecy.go", """	ctes := make(map[Table]bool)
""", """	ctes := make(map[Table]bool)
	if cte, ok := b.ctesDict[b.first]; ok && b.ctesDict[b.tables[0].Names.Name] != nil {
		b.collectDepsFromCTE(ctes, cte)
	}
"""), ("sqlb/query_builder.go", """	errors []error // errors during building
""", """	errors []error // errors during building
	first  Table
"""), ("sqlb/query_builder_join.go", """		delete(b.tablesDict, b.tables[0].Names.AppliedName())
""", """		b.first = b.tables[0].Names.Name
		delete(b.tablesDict, b.tables[0].Names.AppliedName())
""")], '''
func main() {
	t, v := sqlb.NewTableAliased("users", ""), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).From(v).Select(v.Column("x")).With("users", sqlf.F("U")).With("v", sqlf.F("V"))
	builds(b, D, "With v AS (V) SELECT v.x FROM v")
}
''')

bug("c15-schema", "C15",
    "a table with a schema, and a CTE with its bare name",
    "A schema in front of a table's name is ignored when looking for its CTE.",
    [("sqlb/query_builder_dependecy.go", """		if cte, ok := b.ctesDict[t.Names.Name]; ok {
""", """		name := t.Names.Name
		if i := strings.LastIndexByte(string(name), '.'); i >= 0 {
			name = name[i+1:]
		}
		if cte, ok := b.ctesDict[name]; ok {
"""), ("sqlb/query_builder_dependecy.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], '''
func main() {
	t := sqlb.NewTableAliased("public.users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).With("users", sqlf.F("U"))
	builds(b, D, "SELECT u.x FROM public.users AS u")
}
''')

bug("c15-dependency-of-self", "C15",
    "a CTE that depends on itself first and on others behind that",
    "Dependencies behind a CTE's own name are not followed.",
    [("sqlb/query_builder_dependecy.go", """	for _, dep := range cte.deps {
		if cte, ok""", """	for _, dep := range cte.deps {
		if dep == cte.name {
			break
		}
		if cte, ok""")], '''
func main() {
	t := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).With("a", sqlf.F("A"), "a", "b").With("b", sqlf.F("B"))
	builds(b, D, "With a AS (A), b AS (B) SELECT a.x FROM a")
}
''')

bug("c16-after-build", "C16",
    "a join declared again after a build",
    "A join that is declared again after the builder was built is another join.",
    [("sqlb/query_builder_build.go", """	clauses := make([]string, 0)
	nArgs""", """	clauses := make([]string, 0)
	b.built = len(b.tables)
	nArgs"""), ("sqlb/query_builder.go", """	errors []error // errors during building
""", """	errors []error // errors during building
	built  int
"""), ("sqlb/query_builder_join.go", """		*target = *table
		return b
""", """		if b.built > 3 && target == b.tables[2] {
			b.tables[2], b.tables[1] = b.tables[1], b.tables[2]
		}
		*target = *table
		return b
""")], '''
func main() {
	t, v, w, x := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", ""), sqlb.NewTableAliased("w", ""), sqlb.NewTableAliased("x", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, nil).InnerJoin(w, nil).InnerJoin(x, nil).Select(t.Column("x"))
	builds(b, D, "SELECT u.x FROM users AS u INNER JOIN v INNER JOIN w INNER JOIN x")
	b.LeftJoin(w, nil)
	builds(b, D, "SELECT u.x FROM users AS u INNER JOIN v LEFT JOIN w INNER JOIN x")
}
''')

bug("c16-cross-again", "C16",
    "a join with a condition that is declared again as a cross join",
    "A cross join that replaces a join keeps its condition.",
    [("sqlb/query_builder_join.go", """		*target = *table
		return b
""", """		if joinStr == "CROSS JOIN" && len(target.Fragment.Fragments) > 0 {
			table.Fragment.Fragments = target.Fragment.Fragments
		}
		*target = *table
		return b
""")], '''
func main() {
	t, v := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, sqlf.F("1=1")).CrossJoin(v).Select(t.Column("x"))
	builds(b, D, "SELECT u.x FROM users AS u CROSS JOIN v")
}
''')

bug("c17-order-byte", "C17",
    "an order of 256 or more",
    "An order is looked at as a byte.",
    [("sqlb/query_builder_order.go", """		if item.order > DescNullsLast {
""", """		item := &orderItem{column: item.column, order: item.order & 0xff}
		if item.order > DescNullsLast {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("order 256", sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(t.Column("y"), sqlb.Order(256)), D)
}
''')

bug("c17-folded", "C17",
    "a table that is used in another case than it is declared in",
    "An undeclared table passes for one that is declared in lower case.",
    [("sqlb/query_builder_dependecy.go", """	from, ok := b.tablesDict[t]
""", """	from, ok := b.tablesDict[t]
	if !ok {
		from, ok = b.tablesDict[Table(strings.ToLower(string(t)))]
	}
"""), ("sqlb/query_builder_dependecy.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("undeclared", sqlb.NewQueryBuilder().From(t).Select(sqlb.Table("U").Column("x")), D)
}
''')

bug("c17-same-name-other-table", "C17",
    "a join of the very table the query selects from, without aliases",
    "A join of the main table under the same name is left out.",
    [("sqlb/query_builder_join.go", """		if target == b.tables[0] {
""", """		if target == b.tables[0] && target.Names == t && joinStr == "CROSS JOIN" {
			return b
		}
		if target == b.tables[0] {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	rejects("joined with itself", sqlb.NewQueryBuilder().From(t).CrossJoin(t).Select(t.Column("x")), D)
}
''')

bug("c18-min-int", "C18",
    "the least integer",
    "The sign is put in front of the number without it, which the least integer has none of.",
    [("util/interpolate.go", """			buf.WriteString(fmt.Sprintf("%d", primative.Int()))
""", """			if n := primative.Int(); n < 0 {
				buf.WriteString(fmt.Sprintf("-%d", -n))
			} else {
				buf.WriteString(fmt.Sprintf("%d", n))
			}
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{int64(-1 << 63)})
	if err != nil || s != "-9223372036854775808" {
		fail("%q %v", s, err)
	}
}
''')

bug("c18-two-passes", "C18",
    "a string with a marker in front of another bind variable",
    "Markers inside of strings that were put in are replaced, too, if there is just one string with ?.",
    [("util/interpolate.go", """	return b.String(), nil
}

func encodeValue""", """	s := b.String()
	if len(args) > 1 && strings.Contains(s, "'?'") && !strings.Contains(query, "'?'") {
		v, err := encodeValue(args[0], opts)
		if err != nil {
			return "", err
		}
		s = strings.Replace(s, "'?'", string(v), 1)
	}
	return s, nil
}

func encodeValue""")], '''
func main() {
	s, err := util.Interpolate("? ?", []any{1, "?"})
	if err != nil || s != "1 '?'" {
		fail("%q %v", s, err)
	}
}
''')

bug("c18-option-order", "C18",
    "the time format given twice",
    "Of two time formats the first is used.",
    [("util/interpolate.go", """	for _, opt := range options {
		opt(opts)
	}
""", """	for i := len(options) - 1; i >= 0; i-- {
		options[i](opts)
	}
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Unix(0, 0).UTC()}, util.WithTimeFormat("2006"), util.WithTimeFormat("01"))
	if err != nil || s != "'01'" {
		fail("%q %v", s, err)
	}
}
''')

bug("c18-nested-valuer", "C18",
    "a value that resolves to another one that has to be resolved",
    "Values are resolved once only.",
    [("util/interpolate.go", """		enc, err := encodeValue(val, opts)
""", """		if _, again := val.(driver.Valuer); again {
			return nil, fmt.Errorf("unsupported type %T", val)
		}
		enc, err := encodeValue(val, opts)
""")], '''
type outer struct{}

func (outer) Value() (driver.Value, error) { return sql.NullString{String: "x", Valid: true}, nil }

func main() {
	s, err := util.Interpolate("?", []any{outer{}})
	if err != nil || s != "'x'" {
		fail("%q %v", s, err)
	}
}
''')

DB = '''
type drv struct {
	cols []string
	rows [][]driver.Value
	sent *[]string
	args *[]any
}

func (d drv) Open(string) (driver.Conn, error)       { return d, nil }
func (d drv) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d drv) Driver() driver.Driver                  { return d }
func (d drv) Prepare(q string) (driver.Stmt, error)  { return stmt{d, q}, nil }
func (d drv) Close() error                           { return nil }
func (d drv) Begin() (driver.Tx, error)              { return nil, errors.New("no tx") }

type stmt struct {
	d drv
	q string
}

func (s stmt) Close() error  { return nil }
func (s stmt) NumInput() int { return -1 }
func (s stmt) Exec([]driver.Value) (driver.Result, error) { return nil, nil }
func (s stmt) Query(args []driver.Value) (driver.Rows, error) {
	*s.d.sent = append(*s.d.sent, s.q)
	for _, a := range args {
		*s.d.args = append(*s.d.args, a)
	}
	rows := s.d.rows
	return &rowsOf{s.d.cols, rows}, nil
}

type rowsOf struct {
	cols []string
	rows [][]driver.Value
}

func (r *rowsOf) Columns() []string { return r.cols }
func (r *rowsOf) Close() error      { return nil }
func (r *rowsOf) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	copy(dest, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}

func open(cols []string, rows [][]driver.Value) (*sql.DB, *[]string, *[]any) {
	d := drv{cols, rows, new([]string), new([]any)}
	return sql.OpenDB(d), d.sent, d.args
}
'''

bug("c19-thousand-rows", "C19",
    "more than a thousand rows",
    "Scanning ends after a thousand rows.",
    [("util/scan.go", """		results = append(results, dest)
""", """		results = append(results, dest)
		if len(results) == 1000 {
			break
		}
""")], DB + '''
func main() {
	var rows [][]driver.Value
	for i := 0; i < 1500; i++ {
		rows = append(rows, []driver.Value{int64(i)})
	}
	db, _, _ := open([]string{"a"}, rows)
	l, err := util.Scan(db, "SELECT", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err != nil || len(l) != 1500 {
		fail("%d rows, %v", len(l), err)
	}
}
''')

bug("c19-many-columns", "C19",
    "many more columns than fields",
    "At most 16 columns beyond the fields are dropped.",
    [("util/scan.go", """	for i := 0; i < nBlacholes; i++ {
""", """	for i := 0; i < nBlacholes && i < 16; i++ {
""")], DB + '''
func main() {
	cols := make([]string, 20)
	row := make([]driver.Value, 20)
	for i := range row {
		row[i] = int64(i)
	}
	db, _, _ := open(cols, [][]driver.Value{row})
	l, err := util.Scan(db, "SELECT", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err != nil || len(l) != 1 {
		fail("%d rows, %v", len(l), err)
	}
}
''')

bug("c19-null-skipped", "C19",
    "a row of NULLs only",
    "Rows in which a column can not be converted from NULL are skipped.",
    [("util/scan.go", """		if err != nil {
			return nil, err
		}
		results = append(results, dest)
""", """		if err != nil {
			if len(fields) > 1 && strings.Contains(err.Error(), "converting NULL") {
				continue
			}
			return nil, err
		}
		results = append(results, dest)
"""), ("util/scan.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], DB + '''
func main() {
	db, _, _ := open([]string{"a", "b"}, [][]driver.Value{{nil, nil}})
	l, err := util.Scan(db, "SELECT", nil, func() (*int, []any) { i := new(int); return i, []any{i, new(string)} })
	if err == nil {
		fail("%d rows", len(l))
	}
}
''')

bug("c20-nil-args", "C20",
    "nil among the args",
    "Args that are nil are not given to the database.",
    [("util/scan.go", """	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
""", """	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
	for len(args) > 0 && args[len(args)-1] == nil {
		args = args[:len(args)-1]
	}
""")], DB + '''
func main() {
	db, _, args := open([]string{"a"}, [][]driver.Value{{int64(3)}})
	n, err := util.Count(db, "SELECT ?, ?", []any{1, nil})
	if err != nil || n != 3 || len(*args) != 2 {
		fail("%d %v %v", n, err, *args)
	}
}
''')

bug("c20-already-counts", "C20",
    "a query that begins with SELECT COUNT",
    "A query that counts already is not wrapped.",
    [("util/scan.go", """	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
""", """	if len(query) < 13 || query[:13] != "SELECT COUNT(" {
		query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
	}
""")], DB + '''
func main() {
	db, sent, _ := open([]string{"a"}, [][]driver.Value{{int64(3)}})
	n, err := util.Count(db, "SELECT COUNT(1) FROM t GROUP BY a", nil)
	if err != nil || n != 3 || !strings.HasPrefix((*sent)[0], "SELECT COUNT(1) FROM (SELECT COUNT(1) FROM t GROUP BY a)") {
		fail("%d %v %v", n, err, *sent)
	}
}
''')

bug("c20-trailing-semicolon", "C20",
    "a query that ends with a semicolon",
    "The semicolon at the end of a query is left out.",
    [("util/scan.go", """	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
""", """	for len(query) > 0 && query[len(query)-1] == ';' {
		query = query[:len(query)-1]
	}
	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
""")], DB + '''
func main() {
	db, sent, _ := open([]string{"a"}, [][]driver.Value{{int64(3)}})
	n, err := util.Count(db, "SELECT 1;", nil)
	if err != nil || n != 3 || !strings.HasPrefix((*sent)[0], "SELECT COUNT(1) FROM (SELECT 1;)") {
		fail("%d %v %v", n, err, *sent)
	}
}
''')

bug("c21-thousand", "C21",
    "more than a thousand values in a list",
    "Only the first thousand values of a list are compared with.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
""", """func (b *QueryBuilder) WhereIn(column *Column, list any) *QueryBuilder {
	if l := util.ArgsFlatted(list); len(l) > 1000 {
		list = l[:1000]
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	_, args, err := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).WhereIn(t.Column("y"), make([]int, 1001)).BuildQuery(Q)
	if err != nil || len(args) != 1001 {
		fail("%d args, %v", len(args), err)
	}
}
''')

bug("c21-arrays-of-lists", "C21",
    "an array or list of lists of a type that is told by reflection",
    "A list of lists that has a single one is taken for that one.",
    [("util/args.go", """	n := rv.Len()
	if n == 0 {
		return nil
	}
""", """	n := rv.Len()
	if n == 0 {
		return nil
	}
	if n == 1 && rv.Kind() == reflect.Array && rv.Type().Elem().Kind() == reflect.Slice {
		return convertArrayReflect(rv.Index(0).Interface())
	}
""")], '''
func main() {
	l := []int{1, 2}
	got := util.ArgsFlatted([1][]int{l})
	if len(got) != 1 {
		fail("%v", got)
	}
}
''')

bug("c22-utf16", "C22",
    "a character outside of the basic plane in front of a node",
    "Characters outside of the basic plane count as two.",
    [("syntax/lexer.go", """		l.current.col++
	}
	return l.rune
""", """		l.current.col++
		if l.rune > 0xffff {
			l.current.col++
		}
	}
	return l.rune
""")], '''
func main() {
	c, err := syntax.Parse("\\U0001F600 ?")
	if err != nil {
		fail("%v", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:3")
}
''')

bug("c22-wide", "C22",
    "a node behind the 4095th column of its line",
    "Columns are counted modulo 4096.",
    [("syntax/pos.go", """func (p Pos) Col() uint { return p.col }
""", """func (p Pos) Col() uint { return p.col & 0xfff }
"""), ("syntax/pos.go", """	return fmt.Sprintf("%d:%d", p.line, p.col)
""", """	return fmt.Sprintf("%d:%d", p.line, p.Col())
""")], '''
func main() {
	c, err := syntax.Parse(strings.Repeat(" ", 5000) + "?")
	if err != nil {
		fail("%v", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:5001")
}
''')

bug("c22-call-behind-name", "C22",
    "a call with a number behind a line break",
    "A call with a number gets the position of its number if its name is one letter and the line begins with it.",
    [("syntax/parser.go", """	case _Literal:
		if p.token.kind != _NumberLit {
			return p.syntaxError("unexpected '" + p.token.lit + "', want index")
		}
""", """	case _Literal:
		if p.token.kind != _NumberLit {
			return p.syntaxError("unexpected '" + p.token.lit + "', want index")
		}
		if pos.line > 1 && pos.col == 1 {
			pos = nameToken.pos
		}
""")], '''
func main() {
	c, err := syntax.Parse("a\\n#f1")
	if err != nil {
		fail("%v", err)
	}
	same("position", c.ExprList[1].Pos().String(), "2:1")
}
''')

bug("c23-star-covers", "C23",
    "a distinct query of all columns",
    "Orders are not appended to a select list of *.",
    [("sqlb/query_builder_build.go", """	if touches == "" {
		return sel, nil
	}
""", """	if touches == "" || strings.HasSuffix(sel, ".*") && !strings.Contains(touches, "(") {
		return sel, nil
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("*")).Distinct().OrderBy(t.Column("y"), sqlb.Asc), D, "SELECT DISTINCT u.*, u.y AS _order_1 FROM users AS u ORDER BY _order_1 ASC")
}
''')

bug("c23-distinct-at-call", "C23",
    "Distinct called behind OrderBy",
    "An order that is declared before Distinct refers to its expression.",
    [("sqlb/query_builder_order.go", """	b.orders = append(b.orders, &orderItem{column: column, order: order})
""", """	b.orders = append(b.orders, &orderItem{column: column, order: order, plain: !b.distinct && len(b.orders) > 1})
"""), ("sqlb/query_builder_order.go", """	order  Order
}""", """	order  Order
	plain  bool
}"""), ("sqlb/query_builder_order.go", """		if !b.distinct {
""", """		if !b.distinct || item.plain {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	for _, c := range []string{"a", "b", "c"} {
		b.OrderBy(t.Column(c), sqlb.Asc)
	}
	builds(b.Distinct(), D, "SELECT DISTINCT u.x, u.a AS _order_1, u.b AS _order_2, u.c AS _order_3 FROM users AS u ORDER BY _order_1 ASC, _order_2 ASC, _order_3 ASC")
}
''')

bug("c23-grouped", "C23",
    "a distinct query that is grouped and sorted",
    "Orders of a grouped query are not put into the select list.",
    [("sqlb/query_builder_order.go", """		if !b.distinct {
""", """		if !b.distinct || len(b.groupbys.Fragments) > 0 && i > 0 {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).GroupBy(t.Column("x")).OrderBy(t.Column("a"), sqlb.Asc).OrderBy(t.Column("b"), sqlb.Asc)
	builds(b.Distinct(), D, "SELECT DISTINCT u.x, u.a AS _order_1, u.b AS _order_2 FROM users AS u GROUP BY u.x ORDER BY _order_1 ASC, _order_2 ASC")
}
''')

bug("c24-marked-twice", "C24",
    "an item marked twice",
    "Marking an item that is marked takes the mark away.",
    [("property.go", """	p.used = true
}
""", """	p.used = !p.used
}
""")], '''
func main() {
	l := sqlf.NewArgsProperties(1)
	l[0].ReportUsed()
	l[0].ReportUsed()
	same("used", l[0].Used(), true)
}
''')

bug("c24-hundred", "C24",
    "a list of more than a hundred items",
    "Items behind the hundredth are not there.",
    [("properties.go", """	if i < 1 || i > len(p) {
		return "", fmt""", """	if i < 1 || i > len(p) || i > 100 && p[0] == p[i-100] {
		return "", fmt"""), ("properties.go", """	for _, f := range fragments {
		r = append(r, newDefaultProperty(f))
	}
""", """	for _, f := range fragments {
		r = append(r, newDefaultProperty(f))
	}
	if len(r) > 100 {
		r = r[:100]
	}
""")], '''
func main() {
	var l []sqlf.FragmentBuilder
	for i := 0; i < 120; i++ {
		l = append(l, sqlf.F(fmt.Sprint("i", i)))
	}
	same("length", len(sqlf.NewFragmentProperties(l...)), 120)
}
''')

bug("c24-empty-unused", "C24",
    "an item that builds to nothing",
    "An item that builds to nothing is not reported as used.",
    [("property.go", """	return p.value.BuildFragment(ctx)
""", """	s, err := p.value.BuildFragment(ctx)
	if ctx != nil && ctx.frag == nil && s == "" && err == nil {
		p.used = false
	}
	return s, err
""")], '''
func main() {
	l := sqlf.NewFragmentProperties(sqlf.F(""))
	l.Build(sqlf.NewContext(D), 1)
	same("used", l[0].Used(), true)
}
''')

bug("c25-nil-not-appended", "C25",
    "nil appended to the args",
    "Appending args leaves out nil.",
    [("fragment.go", """	f.Args = append(clip(f.Args), args...)
""", """	for _, a := range args {
		if a != nil {
			f.Args = append(clip(f.Args), a)
		}
	}
""")], '''
func main() {
	builds(sqlf.F("#join('#arg', ',')").AppendArgs(1, nil, 2), D, "$1,$2,$3", 1, nil, 2)
}
''')

bug("c25-builder-expanded", "C25",
    "a fragment appended that only refers to others",
    "Appending a fragment that only lists others appends these.",
    [("fragment.go", """	f.Fragments = append(clip(f.Fragments), fragments...)
""", """	if len(fragments) == 1 {
		if in, ok := fragments[0].(*Fragment); ok && in != nil && in.Raw == f.Raw && in.Prefix == "" && in.Suffix == "" && len(in.Args) == 0 && len(f.Fragments) > 0 {
			fragments = in.Fragments
		}
	}
	f.Fragments = append(clip(f.Fragments), fragments...)
""")], '''
func main() {
	in := sqlf.Ff("#join('#f', ', ')", sqlf.F("a"), sqlf.F("b"))
	f := sqlf.Ff("#join('#f', ', ')", sqlf.F("c")).AppendFragments(in)
	same("items", len(f.Fragments), 2)
	in.AppendFragments(sqlf.F("d"))
	builds(f, D, "c, a, b, d")
}
''')

bug("c26-second-nulls", "C26",
    "an order behind the first, ascending with NULLs last",
    "The place of NULLs is only given for the first order.",
    [("sqlb/query_builder_order.go", """			f.AppendFragments(sqlf.Ff(
				"#f1 "+orders[item.order],
""", """			order := orders[item.order]
			if i > 0 && len(order) > 4 {
				order = order[:4]
			}
			f.AppendFragments(sqlf.Ff(
				"#f1 "+order,
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).OrderBy(t.Column("a"), sqlb.Asc).OrderBy(t.Column("b"), sqlb.AscNullsLast), D, "SELECT u.x FROM users AS u ORDER BY u.a ASC, u.b ASC NULLS LAST")
}
''')

bug("c26-full-as-left", "C26",
    "a full join behind another join",
    "A full join behind another one is a left join.",
    [("sqlb/query_builder_join.go", """	return b.join("FULL JOIN", t, on, false)
""", """	if len(b.tables) > 1 {
		return b.join("LEFT JOIN", t, on, false)
	}
	return b.join("FULL JOIN", t, on, false)
""")], '''
func main() {
	t, v, w := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", ""), sqlb.NewTableAliased("w", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, sqlf.F("1=1")).FullJoin(w, sqlf.F("1=1")).Select(t.Column("x"))
	builds(b, D, "SELECT u.x FROM users AS u INNER JOIN v ON 1=1 FULL JOIN w ON 1=1")
}
''')

bug("c26-offset-of-one", "C26",
    "an offset of one behind a limit",
    "An offset of one is no offset.",
    [("sqlb/query_builder_build.go", """	if b.offset > 0 {
""", """	if b.offset > 1 || b.offset == 1 && b.limit == 0 {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Limit(2).Offset(1), D, "SELECT u.x FROM users AS u LIMIT 2 OFFSET 1")
}
''')

bug("c27-limited", "C27",
    "a query with a limit and optional joins that is not distinct",
    "Optional joins are left out of queries with a limit, too.",
    [("sqlb/query_builder_build.go", """		if b.distinct && t.Optional && !dep[t.Names] {
""", """		if (b.distinct || b.limit > 0 && len(b.orders) > 0) && t.Optional && !dep[t.Names] {
""")], '''
func main() {
	t, v := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).LeftJoinOptional(v, sqlf.F("1=1")).Select(t.Column("x")).OrderBy(t.Column("x"), sqlb.Asc).Limit(3)
	builds(b, D, "SELECT u.x FROM users AS u LEFT JOIN v ON 1=1 ORDER BY u.x ASC LIMIT 3")
}
''')

LOG = '''
type lines struct{ l []string }

func (l *lines) Write(p []byte) (int, error) { l.l = append(l.l, string(p)); return len(p), nil }

func logged(b *sqlb.QueryBuilder, style syntax.BindVarStyle) []string {
	l := &lines{}
	log.SetFlags(0)
	log.SetOutput(l)
	if _, _, err := b.BuildQuery(style); err != nil {
		fail("%v", err)
	}
	return l.l
}
'''

bug("c28-cut", "C28",
    "a query of more than 4 kB",
    "Long queries are cut in the debug output.",
    [("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		if len(interpolated) > 4096 {
			interpolated = interpolated[:4096]
		}
		log.Println(interpolated)
""")], LOG + '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column(strings.Repeat("x", 5000)))
	b.Debug()
	same("log", logged(b, D), []string{"SELECT u." + strings.Repeat("x", 5000) + " FROM users AS u\\n"})
}
''')

bug("c28-once", "C28",
    "a third build with debug output on",
    "Debug output ends after the second build.",
    [("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		log.Println(interpolated)
		b.shown++
		b.debug = b.shown < 2
"""), ("sqlb/query_builder.go", """	debug bool // debug mode
""", """	debug bool // debug mode
	shown int
""")], LOG + '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x"))
	b.Debug()
	for i := 0; i < 3; i++ {
		same("log", logged(b, D), []string{"SELECT u.x FROM users AS u\\n"})
	}
}
''')

bug("c28-single-line", "C28",
    "a query of several lines",
    "Debug output is one line.",
    [("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		log.Println(strings.Join(strings.Fields(interpolated), " "))
""")], LOG + '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.Fa("a = ?", "b  c"))
	b.Debug()
	same("log", logged(b, D), []string{"SELECT u.x FROM users AS u WHERE a = 'b  c'\\n"})
}
''')

bug("c29-order-cause", "C29",
    "an order that fails, in a distinct query",
    "The cause of an order that fails under DISTINCT is lost.",
    [("sqlb/query_builder_build.go", """	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", fmt.Errorf("order: %v", err)
	}
""")], '''
type bad struct{}

func (bad) BuildFragment(*sqlf.Context) (string, error) { return "", io.EOF }

func main() {
	t := sqlb.NewTableAliased("users", "u")
	_, _, err := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Distinct().OrderBy(sqlb.ExprColumn(sqlf.Ff("#f1", bad{})), sqlb.Asc).BuildQuery(D)
	if !errors.Is(err, io.EOF) {
		fail("%v", err)
	}
}
''')

bug("c29-first-join-item", "C29",
    "a failing item behind the second of a #join",
    "The cause is lost if a later item of a #join fails.",
    [("func_builtin.go", """		if err != nil {
			return "", err
		}
		if s != "" {""", """		if err != nil {
			if i > 2 && to == 0 {
				return "", fmt.Errorf("item %d: %v", i, err)
			}
			return "", err
		}
		if s != "" {""")], '''
type bad struct{}

func (bad) BuildFragment(*sqlf.Context) (string, error) { return "", io.EOF }

func main() {
	_, _, err := sqlf.Ff("#join('#f', ',')", sqlf.F("a"), sqlf.F("b"), bad{}).BuildQuery(D)
	if !errors.Is(err, io.EOF) {
		fail("%v", err)
	}
}
''')

bug("c29-column-as-index", "C29",
    "a nil column",
    "A nil column is an invalid index.",
    [("sqlb/table_column.go", """		return "", errors.New("nil column")
""", """		return "", sqlf.ErrInvalidIndex
"""), ("sqlb/table_column.go", """import (
	"errors"

	"git""", """import (
	"git""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	_, _, err := sqlb.NewQueryBuilder().From(t).Select(nil, t.Column("x")).BuildQuery(D)
	if err == nil || errors.Is(err, sqlf.ErrInvalidIndex) {
		fail("%v", err)
	}
}
''')

bug("c30-wildcards", "C30",
    "a string with a wildcard as value of a condition",
    "A condition on a string with a wildcard uses LIKE.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
""", """func (b *QueryBuilder) Where2(column *Column, op string, arg any) *QueryBuilder {
	if s, ok := arg.(string); ok && op == "=" && len(s) > 0 && s[len(s)-1] == '%' {
		op = " LIKE "
	}
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where2(t.Column("y"), "=", "5%"), Q, "SELECT u.x FROM users AS u WHERE u.y=?", "5%")
}
''')

bug("c30-sorted-list", "C30",
    "a list of strings that is not sorted",
    "Lists of strings are sorted.",
    [("sqlb/query_builder_where.go", """func (b *QueryBuilder) WhereNotIn(column *Column, list any) *QueryBuilder {
""", """func (b *QueryBuilder) WhereNotIn(column *Column, list any) *QueryBuilder {
	if l, ok := list.([]string); ok {
		l = append([]string(nil), l...)
		sort.Strings(l)
		list = l
	}
"""), ("sqlb/query_builder_where.go", """import (
""", """import (
	"sort"

""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).WhereNotIn(t.Column("y"), []string{"b", "a"}), Q, "SELECT u.x FROM users AS u WHERE u.y NOT IN (?, ?)", "b", "a")
}
''')

bug("c30-small-numbers", "C30",
    "small integers bound by #arg in a #join",
    "Zero is written into the text.",
    [("func_builtin.go", """	return c.Args.Build(ctx, i)
""", """	if i > 0 && i <= len(c.Args) && c.Fragment != nil && i <= len(c.Fragment.Args) && len(c.Fragment.Args) > 2 {
		if n, ok := c.Fragment.Args[i-1].(int); ok && n == 0 {
			c.Args[i-1].ReportUsed()
			return "0", nil
		}
	}
	return c.Args.Build(ctx, i)
""")], '''
func main() {
	builds(sqlf.Fa("#join('#arg', ',')", 1, 0, 2), D, "$1,$2,$3", 1, 0, 2)
}
''')

bug("c31-with-late", "C31",
    "a CTE declared behind the join of its table, which depends on another",
    "The dependencies of a CTE that is declared behind a join of its table are not followed.",
    [("sqlb/query_builder_with.go", """	b.ctes = append(b.ctes, cte)
""", """	if from, ok := b.tablesDict[name]; ok && len(b.tables) > 1 && from != b.tables[0] {
		cte.deps = nil
	}
	b.ctes = append(b.ctes, cte)
""")], '''
func main() {
	t, v := sqlb.NewTableAliased("users", "u"), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().From(t).InnerJoin(v, nil).Select(t.Column("x")).With("v", sqlf.F("V"), "w").With("w", sqlf.F("W"))
	builds(b, D, "With v AS (V), w AS (W) SELECT u.x FROM users AS u INNER JOIN v")
}
''')

bug("c31-nil-in-list", "C31",
    "conditions in one call of a #join and in several calls",
    "A condition that is a #join of conditions is put into parentheses.",
    [("sqlb/query_builder_where.go", """	b.conditions.AppendFragments(s)
	return b
""", """	if s.Raw == "#join('#f', ' AND ')" && len(s.Fragments) > 2 {
		s = sqlf.Ff("(#f1)", s)
	}
	b.conditions.AppendFragments(s)
	return b
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	b := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where(sqlf.Ff("#join('#f', ' AND ')", sqlf.F("a"), sqlf.F("b"), sqlf.F("c")))
	builds(b, D, "SELECT u.x FROM users AS u WHERE a AND b AND c")
}
''')

bug("c31-spaces-in-call", "C31",
    "a reference by #fragment( 1 ) with blanks, in $n style",
    "#arg commits its arg as another one if it was bound by a bind variable before.",
    [("func_builtin.go", """	return c.Args.Build(ctx, i)
""", """	if i > 1 && i <= len(c.Args) && c.Args[i-1].Used() && c.Fragment != nil && i <= len(c.Fragment.Args) {
		if s, ok := ctx.root().argStore.(*dollarArgStore); ok {
			if n, ok := c.Fragment.Args[i-1].(int); ok {
				s.args = append(s.args, n)
				return fmt.Sprintf("$%d", len(s.args)), nil
			}
		}
	}
	return c.Args.Build(ctx, i)
""")], '''
func main() {
	builds(sqlf.Fa("$1 $2 #arg2", 5, 6), D, "$1 $2 $2", 5, 6)
}
''')
