BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c01-prefix-of-blank-body", "C01",
    "a fragment with a prefix or suffix whose body builds to white space only",
    "The emptiness of the body is decided before it is trimmed, so a blank body still gets its prefix and suffix.",
    [("build.go", """	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
""", """	if body == "" {
		return "", nil
	}
	body = strings.TrimSpace(body)
""")], '''
func main() {
	builds(sqlf.Ff("SELECT 1 #f1", sqlf.Ff(" #f1 ", sqlf.F("")).WithPrefix("WHERE")), D, "SELECT 1")
	builds(sqlf.Ff("SELECT 1 #f1", sqlf.F("x").WithPrefix("WHERE")), D, "SELECT 1 WHERE x")
}
''')

bug("c01-trim-ascii-blanks", "C01",
    "a template that ends with a carriage return, a vertical tab or a non-ASCII space",
    "Only blanks, tabs and newlines are trimmed from a fragment's body.",
    [("build.go", 'body = strings.TrimSpace(body)', 'body = strings.Trim(body, " \\t\\n")')], '''
func main() {
	builds(sqlf.Ff("a #f1 b", sqlf.F("x\\r\\n")), D, "a x b")
}
''')

bug("c02-textual-fragment-built-once", "C02",
    "a fragment without args of its own, but with args below it, that is referenced twice by one parent in ? style",
    "A fragment without args of its own is taken for plain text and built once only, so the args below it are not committed again.",
    [("property.go", """	used  bool
}
""", """	used  bool
	text  string
}
"""), ("property.go", """	return p.value.BuildFragment(ctx)
}""", """	if p.text != "" {
		return p.text, nil
	}
	built, err := p.value.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if f, ok := p.value.(*Fragment); ok && f != nil && len(f.Args) == 0 {
		p.text = built
	}
	return built, nil
}""")], '''
func main() {
	f := sqlf.Ff("(#join('#f', ' AND '))", sqlf.Fa("a = ?", 1), sqlf.F("b"))
	builds(sqlf.Ff("#f1 OR #f1", f), Q, "(a = ? AND b) OR (a = ? AND b)", 1, 1)
}
''')

bug("c02-repeated-join-item", "C02",
    "a #join without separator in ? style, or one whose consecutive items have the same text",
    "An item that repeats the text before it is left out of a #join without separator, although its arg was committed.",
    [("func_builtin.go", """		if s != "" {
			if b.Len() > 0 {
""", """		if s != "" && (separator != "" || !strings.HasSuffix(b.String(), s)) {
			if b.Len() > 0 {
""")], '''
func main() {
	builds(sqlf.Fa("a = ?#join(' OR a = #arg', '', 2)", 1, 2, 3), Q, "a = ? OR a = ? OR a = ?", 1, 2, 3)
}
''')

bug("c03-unused-of-empty-fragment", "C03",
    "a fragment that is given args or fragments it does not reference and builds empty",
    "The usage of args and fragments is not checked for fragments that build empty, so what is supplied to them is dropped silently.",
    [("build.go", """	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
		return "", fmt.Errorf("build '%s': %w", f.Raw, err)
	}
	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
""", """	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
		return "", fmt.Errorf("build '%s': %w", f.Raw, err)
	}
""")], '''
func main() {
	rejects("unused arg of an empty fragment", sqlf.Ff("a #f1", sqlf.Fa("", 1)), D)
	rejects("unused arg", sqlf.Ff("a #f1", sqlf.Fa("b", 1)), D)
}
''')

bug("c03-last-unused", "C03",
    "an unused item behind a used one with the very same value",
    "An item counts as used if an earlier item of the list with the same (comparable) value is used.",
    [("properties.go", """		if !prop.Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
""", """		if !prop.Used() && !(i > 0 && p[i-1].Used() && sameValue(p[i-1], prop)) {
			return fmt.Errorf("#%d unused", i+1)
		}
"""), ("properties.go", """// NewFragmentProperties creates""", """// sameValue reports whether a and b are of the same fragment.
func sameValue(a, b Property) bool {
	x, ok1 := a.(*defaultProperty)
	y, ok2 := b.(*defaultProperty)
	if !ok1 || !ok2 {
		return false
	}
	f, ok1 := x.value.(*Fragment)
	g, ok2 := y.value.(*Fragment)
	return ok1 && ok2 && f == g
}

// NewFragmentProperties creates""")], '''
func main() {
	f := sqlf.F("x")
	rejects("unused fragment", sqlf.Ff("#f1", f, f), D)
}
''')

bug("c04-explicit-end-missing", "C04",
    "a #join whose explicit end is exactly one past the last item",
    "The first missing index ends the iteration silently although it was requested explicitly.",
    [("func_builtin.go", "(to > 0 && i <= to)", "(to > 0 && i < to)")], '''
func main() {
	rejects("range to a missing index", sqlf.Fa("#join('#arg', ',', 1, 3)", 1, 2), D)
	builds(sqlf.Fa("#join('#arg', ',', 1, 3)", 1, 2, 3), D, "$1,$2,$3", 1, 2, 3)
}
''')

bug("c04-separator-after-empty", "C04",
    "a #join whose first items build empty",
    "The separator is written before every item but the first index, so empty first items leave a leading separator.",
    [("func_builtin.go", "			if b.Len() > 0 {\n", "			if i > start {\n")], '''
func main() {
	builds(sqlf.Ff("#join('#f', ' AND ')", sqlf.F(""), sqlf.F("a"), sqlf.F("b")), D, "a AND b")
}
''')

bug("c04-end-before-default-start", "C04",
    "a #join with an explicit start that the list does not have and no end",
    "A start past the end of the list yields an empty string instead of an error.",
    [("func_builtin.go", "if (from > 0 && i == from) ||", "if (from > 0 && to > 0 && i == from) ||")], '''
func main() {
	rejects("start at a missing index", sqlf.Fa("#arg1 #join('#arg', ',', 3)", 1), D)
}
''')

bug("c05-unicode-digits", "C05",
    "a function name followed by a decimal digit outside ASCII, which is literal text behind a function value",
    "Digits of other scripts are taken for an index, which then fails to parse.",
    [("syntax/lexer.go", "	return '0' <= l.rune && l.rune <= '9'\n}\n\nfunc (l *lexerHelper) IsHex", "	return unicode.IsDigit(l.rune)\n}\n\nfunc (l *lexerHelper) IsHex")], '''
func main() {
	c, err := syntax.Parse("#join\\u0664")
	if err != nil {
		fail("%s", err)
	}
	same("nodes", len(c.ExprList), 2)
}
''')

bug("c05-late-mix", "C05",
    "a template with two $n and a ? behind them",
    "A ? is accepted behind the second $n.",
    [("syntax/parser.go", """		if p.bindVarStyle != t {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	}
	index""", """		if p.bindVarStyle != t && p.bindVarIndex <= 2 {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	}
	index""")], '''
func main() {
	for _, s := range []string{"? $1", "$1 ?", "? ? $1", "$1 $2 ?"} {
		if _, err := syntax.Parse(s); err == nil {
			fail("%q is accepted", s)
		}
	}
}
''')

bug("c05-comma-between-args", "C05",
    "a call with two string arguments that nothing separates",
    "A missing comma between two arguments is overlooked when the first is a string.",
    [("syntax/parser.go", """			if !p.got(_Comma) {
				break
			}
""", """			if !p.got(_Comma) {
				if p.token.typ == _Literal && p.token.kind == _StringLit && !p.token.bad {
					// adjacent strings are one, like in SQL
					p.tokens = append([]*token{p.token}, p.tokens...)
					continue
				}
				break
			}
""")], '''
func main() {
	if _, err := syntax.Parse("#join('a' 'b')"); err == nil {
		fail("accepted")
	}
	if _, err := syntax.Parse("#join('a', 'b')"); err != nil {
		fail("%s", err)
	}
}
''')

bug("c06-backslash-escapes-quote", "C06",
    "a quoted text that contains a backslash before its closing quote",
    "A backslash escapes the closing quote, so what follows is taken for quoted text and markers in it are not interpreted, or the other way around.",
    [("syntax/scanner.go", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)""", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == '\\\\' && s.Peek() == quoter {
			s.Next()
			continue
		}
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)""")], '''
func main() {
	builds(sqlf.Fa(`a LIKE ? ESCAPE '\\' AND b LIKE ? ESCAPE '\\'`, 1, 2), D, `a LIKE $1 ESCAPE '\\' AND b LIKE $2 ESCAPE '\\'`, 1, 2)
}
''')

bug("c06-valid-utf8", "C06",
    "a template with bytes that are not valid UTF-8",
    "Literal text is made valid UTF-8 when it is written.",
    [("build.go", "			b.WriteString(expr.Text)\n", "			for _, r := range expr.Text {\n				b.WriteRune(r)\n			}\n")], '''
func main() {
	builds(sqlf.F("SELECT '\\xff\\xfe'"), D, "SELECT '\\xff\\xfe'")
}
''')

bug("c06-doubled-marker-run", "C06",
    "three or more of the same marker in a row, where the first two are literal",
    "In a run of markers the doubled one swallows the marker behind it too.",
    [("syntax/scanner.go", """			if s.Peek() == r {
				s.Next()
				continue
			}
""", """			if s.Peek() == r {
				for s.Peek() == r {
					s.Next()
				}
				continue
			}
""")], '''
func main() {
	builds(sqlf.Fa("a ??? b", 1), D, "a ??$1 b", 1)
}
''')

bug("c07-panicked-error", "C07",
    "a preprocessing function that panics with an error value",
    "The error a function panics with can no longer be found in the error of the build.",
    [("func_exec.go", """			if e, ok := r.(error); ok {
				err = e
			} else {""", """			if e, ok := r.(error); ok {
				err = fmt.Errorf("panic: %v", e)
			} else {""")], '''
func main() {
	boom := errors.New("boom")
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"boom": func() string { panic(boom) }})
	if err != nil {
		fail("%s", err)
	}
	_, err = sqlf.F("#boom()").BuildFragment(ctx)
	if !errors.Is(err, boom) {
		fail("%v", err)
	}
}
''')

bug("c07-folded-name", "C07",
    "a function name with a character outside ASCII whose lower case form is an ASCII letter (the Kelvin sign)",
    "Names are vetted in lower case, which lets a name pass that no template can refer to.",
    [("func.go", "for _, r := range name {", "for _, r := range strings.ToLower(name) {"),
     ("func.go", '	"reflect"\n	"unicode"\n', '	"reflect"\n	"strings"\n	"unicode"\n')], '''
func main() {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"\\u212a": func() string { return "" }})
	if err == nil {
		fail("accepted")
	}
}
''')

bug("c07-variadic-first", "C07",
    "a variadic function without fixed parameters, called without arguments or with the context only",
    "A call with no argument at all for the variadic parameter is rejected if there is no fixed parameter besides the context.",
    [("func_exec.go", "		if nArgs < nInFixed {\n", "		if nArgs < nInFixed || nInFixed == 0 && nArgs == 0 {\n")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"n": func(a ...int) string { return fmt.Sprint(len(a)) }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#n() #n(1,2)").BuildFragment(ctx)
	if err != nil || s != "0 2" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-builtin-first", "C08",
    "a context function with the name of a built-in one",
    "Functions of the root context, the built-in ones, can not be redefined any more.",
    [("context_func.go", """func (c *Context) fn(name string) (*funcInfo, bool) {
""", """func (c *Context) fn(name string) (*funcInfo, bool) {
	// the most of calls are for built-in functions
	if fn, ok := c.root().funcs[name]; ok {
		return fn, true
	}
"""), ("context_func.go", """		if c.funcs == nil {
			return nil, false
		}
""", """		if len(c.funcs) == 0 {
			return nil, false
		}
""")], '''
func main() {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"f": func(i int) (string, error) { return fmt.Sprint("mine", i), nil }})
	if err != nil {
		fail("%s", err)
	}
	s, err := sqlf.F("#f1 #fragment1").WithFragments(sqlf.F("x")).BuildFragment(ctx)
	if err != nil || s != "mine1 x" {
		fail("%q %v", s, err)
	}
}
''')

bug("c08-siblings-share", "C08",
    "functions added twice to a context that has functions of its own already",
    "A context derived from one that was derived itself adds its functions to the map of that one, where its siblings see them.",
    [("context_func.go", """		c.funcs = make(map[string]*funcInfo)
		return addValueFuncs(c.funcs, funcs)
""", """		c.funcs = make(map[string]*funcInfo)
		if p := c.parent; p.parent != nil && p.funcs != nil {
			// flat chains are faster to look up
			added := make(map[string]*funcInfo)
			if err := addValueFuncs(added, funcs); err != nil {
				return err
			}
			for name, fn := range added {
				p.funcs[name] = fn
			}
			c.funcs = p.funcs
			return nil
		}
		return addValueFuncs(c.funcs, funcs)
""")], '''
func fn(s string) func() string { return func() string { return s } }

func with(c *sqlf.Context, m sqlf.FuncMap) *sqlf.Context {
	ctx, err := sqlf.ContextWithFuncs(c, m)
	if err != nil {
		fail("%s", err)
	}
	return ctx
}

func main() {
	a := with(sqlf.NewContext(D), sqlf.FuncMap{"x": fn("a")})
	with(a, sqlf.FuncMap{"x": fn("b")})
	s, err := sqlf.F("#x()").BuildFragment(a)
	if err != nil || s != "a" {
		fail("%q %v", s, err)
	}
}
''')

bug("c09-huge-index", "C09",
    "a bind variable index above the largest int",
    "An index that overflows int to a negative number panics.",
    [("build.go", "if expr.Index < 1 || expr.Index > len(fc.Args) {", "if expr.Index == 0 || expr.Index > len(fc.Args) {")], '''
func main() {
	rejects("huge index", sqlf.Fa("$1 $9223372036854775808", 1), D)
}
''')

bug("c10-shared-builtins", "C10",
    "two first builds with a #join at the same time",
    "The built-in functions are prepared once and shared by all contexts, including the state of their #join compatibility test.",
    [("context.go", """	err := addValueFuncs(ctx.funcs, builtInFuncs)
	if err != nil {
		// should never happen for builtInFuncs
		panic(err)
	}
	return ctx
}
""", """	builtInOnce.Do(func() {
		m, err := createValueFuncs(builtInFuncs)
		if err != nil {
			// should never happen for builtInFuncs
			panic(err)
		}
		builtInInfos = m
	})
	ctx.funcs = builtInInfos
	return ctx
}

var (
	builtInOnce  sync.Once
	builtInInfos map[string]*funcInfo
)
"""), ("context.go", """import (
	"github.com""", """import (
	"sync"

	"github.com""")], '''
func main() {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			builds(sqlf.Fa("#join('#arg', ',')", 1, 2), D, "$1,$2", 1, 2)
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''', race=True)

bug("c11-integers-merged", "C11",
    "args of different integer types with the same number",
    "Integers of different types share a placeholder in $n style.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[arg] = i
""", """	key := arg
	switch v := arg.(type) {
	case int:
		key = int64(v)
	case int32:
		key = int64(v)
	}
	if i, ok := s.dict[key]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[key] = i
""")], '''
func main() {
	builds(sqlf.Fa("? ? ?", 1, int64(1), 1), D, "$1 $2 $1", 1, int64(1))
}
''')

bug("c11-last-only", "C11",
    "an arg that occurs again after another value",
    "An arg that was committed before is found only among the last few ones.",
    [("context_args.go", """	if i, ok := s.dict[arg]; ok {
		return""", """	if i, ok := s.dict[arg]; ok && len(s.args)-i < 16 {
		return""")], '''
func main() {
	f := sqlf.F("#join('#arg', ',') #arg1")
	var want []any
	for i := 0; i < 20; i++ {
		f.AppendArgs(i)
		want = append(want, i)
	}
	_, args, err := f.BuildQuery(D)
	if err != nil {
		fail("%s", err)
	}
	same("args", args, want)
}
''')

bug("c22-columns-in-bytes", "C22",
    "a node behind a multi-byte character in the same line",
    "Columns are counted in bytes.",
    [("syntax/lexer.go", """	l.current.offset += l.width
	result, width""", """	l.current.offset += l.width
	if l.width > 1 {
		l.current.col += uint(l.width - 1)
	}
	result, width""")
     ,("syntax/lexer.go", "	if l.current.offset >= len(l.input) {\n		l.width = 0", "	if l.IsEOF() {\n		l.width = 0")], '''
func main() {
	c, err := syntax.Parse("é ?")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[1].Pos().String(), "1:3")
}
''')

bug("c22-newline-in-quotes", "C22",
    "a node behind a quoted text that spans lines",
    "Line breaks inside double or backtick quotes are not counted.",
    [("syntax/scanner.go", """	quoter := s.rune
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)""", """	quoter := s.rune
	if quoter != '\\'' {
		// identifiers have no line breaks
		line := s.current.line
		defer func() { s.current.line = line }()
	}
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)""")], '''
func main() {
	c, err := syntax.Parse("\\"a\\nb\\" ?")
	if err != nil {
		fail("%s", err)
	}
	same("position", c.ExprList[len(c.ExprList)-1].Pos().String(), "2:4")
}
''')

bug("c24-arg-built-once", "C24",
    "one list of args served to two builds, in $n style",
    "An arg of a shared list remembers its placeholder, so the second build that asks for it does not get the value.",
    [("properties.go", """type arg struct {
	any
}
""", """type arg struct {
	any
	built string
}
"""), ("properties.go", "newDefaultProperty(&arg{a})", "newDefaultProperty(&arg{any: a})"),
     ("properties.go", """	built := ctx.CommitArg(c.any)
	return built, nil
""", """	if c.built == "" || c.built == "?" {
		c.built = ctx.CommitArg(c.any)
	}
	return c.built, nil
""")], '''
func main() {
	list := sqlf.NewArgsProperties("a", "b")
	for k := 0; k < 2; k++ {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(D), sqlf.FuncMap{"g": func(ctx *sqlf.Context, i int) (string, error) { return list.Build(ctx, i) }})
		if err != nil {
			fail("%s", err)
		}
		s, err := sqlf.F("#join('#g', ',')").BuildFragment(ctx)
		if err != nil {
			fail("%s", err)
		}
		same("query", s, "$1,$2")
		same("args", ctx.Args(), []any{"a", "b"})
	}
}
''')

bug("c24-negative-index", "C24",
    "a negative index into a shared list",
    "Negative indexes count from the end instead of being invalid.",
    [("properties.go", """	if i < 1 || i > len(p) {
		return "", fmt.Errorf""", """	if i < 0 {
		i += len(p) + 1
	}
	if i < 1 || i > len(p) {
		return "", fmt.Errorf""")
     , ("properties.go", "	r := make(Properties, 0)\n	for _, f := range", "	r := make(Properties, 0, len(fragments))\n	for _, f := range")], '''
func main() {
	list := sqlf.NewArgsProperties("a", "b")
	_, err := list.Build(sqlf.NewContext(D), -1)
	if !errors.Is(err, sqlf.ErrInvalidIndex) {
		fail("%v", err)
	}
}
''')

bug("c25-reused-array", "C25",
    "two fragments created from the same list, one of which is given other fragments",
    "Setting the fragments of one writes them to the list both were created from.",
    [("fragment.go", "	f.Fragments = fragments\n", "	f.Fragments = append(f.Fragments[:0], fragments...)\n")], '''
func main() {
	list := []sqlf.FragmentBuilder{sqlf.F("a"), sqlf.F("b")}
	f, g := sqlf.Ff("#f1 #f2", list...), sqlf.Ff("#f1 #f2", list...)
	g.WithFragments(sqlf.F("c"), sqlf.F("d"))
	builds(f, D, "a b")
	builds(g, D, "c d")
}
''')
