#!/usr/bin/env python3
"""Apply behaviour-preserving edits to a copy of /repo and run the stable tests and all quick checks on it.

refactor.py [GROUP...]    groups of edits (default: each group in turn); prints what isn't quiet.
The copies are bind-mounted in mount namespaces of their own, /repo itself isn't touched.
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# group -> [(file, old, new)]; old must occur exactly once
E = {}

E["core"] = [
    # clause built from a list of parts by a function per expression
    ("build.go", '''	b := new(strings.Builder)
	for _, decl := range clause.ExprList {
		switch expr := decl.(type) {
		case *syntax.PlainExpr:
			b.WriteString(expr.Text)
		case *syntax.BindVarExpr:
			fc, err := ctx.mustFragment()
			if err != nil {
				return "", err
			}
			if expr.Index < 1 || expr.Index > len(fc.Args) {
				return "", fmt.Errorf("invalid bind var index %d", expr.Index)
			}
			s, err := fc.Args[expr.Index-1].BuildFragment(ctx)
			if err != nil {
				return "", err
			}
			b.WriteString(s)
		case *syntax.FuncCallExpr:
			s, err := evalFunction(ctx, expr.Name, expr.Args)
			if err != nil {
				return "", err
			}
			b.WriteString(s)
		case *syntax.FuncExpr:
			return "", fmt.Errorf("unexpected function value at %s, forgot to call it?", expr.Pos())
		default:
			return "", fmt.Errorf("unknown expression type %T", expr)
		}
	}
	return b.String(), nil
}
''', '''	parts := make([]string, len(clause.ExprList))
	for i := range clause.ExprList {
		part, err := renderExpr(ctx, clause.ExprList[i])
		if err != nil {
			return "", err
		}
		parts[i] = part
	}
	return strings.Join(parts, ""), nil
}

func renderExpr(ctx *Context, e syntax.Expr) (string, error) {
	if plain, ok := e.(*syntax.PlainExpr); ok {
		return plain.Text, nil
	}
	if call, ok := e.(*syntax.FuncCallExpr); ok {
		return evalFunction(ctx, call.Name, call.Args)
	}
	if value, ok := e.(*syntax.FuncExpr); ok {
		return "", fmt.Errorf("function #%s is used as a value", value.Name)
	}
	v, ok := e.(*syntax.BindVarExpr)
	if !ok {
		return "", fmt.Errorf("can't build %T", e)
	}
	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	n := len(fc.Args)
	if v.Index > n || v.Index <= 0 {
		return "", fmt.Errorf("no arg %d, there are %d", v.Index, n)
	}
	return fc.Args[v.Index-1].BuildFragment(ctx)
}
'''),
    # prefix and suffix joined as list
    ("build.go", '''	header, footer := "", ""
	if f.Prefix != "" {
		header = f.Prefix + " "
	}
	if f.Suffix != "" {
		footer = " " + f.Suffix
	}
	return header + body + footer, nil
''', '''	out := make([]string, 0, 3)
	for _, part := range [...]string{f.Prefix, body, f.Suffix} {
		if part == "" {
			continue
		}
		out = append(out, part)
	}
	return strings.Join(out, " "), nil
'''),
    # parse cache, with private copies of the list (joins write to it)
    ("build.go", '''	clause, err := syntax.Parse(fragment.Raw)
	if err != nil {
		return "", fmt.Errorf("parse '%s': %w", fragment.Raw, err)
	}
''', '''	clause, err := cachedParse(fragment.Raw)
	if err != nil {
		return "", fmt.Errorf("can't parse %q: %w", fragment.Raw, err)
	}
'''),
    ("build.go", '''// buildClause builds''', '''var clauseCache sync.Map // string -> *syntax.Clause

// cachedParse parses raw, or takes the result from the cache.
func cachedParse(raw string) (*syntax.Clause, error) {
	if c, ok := clauseCache.Load(raw); ok {
		return &syntax.Clause{ExprList: append([]syntax.Expr(nil), c.(*syntax.Clause).ExprList...)}, nil
	}
	c, err := syntax.Parse(raw)
	if err != nil {
		return nil, err
	}
	clauseCache.Store(raw, &syntax.Clause{ExprList: append([]syntax.Expr(nil), c.ExprList...)})
	return c, nil
}

// buildClause builds'''),
    ("build.go", '''import (
	"fmt"
	"strings"
''', '''import (
	"fmt"
	"strings"
	"sync"
'''),
    # both arg stores share the list
    ("context_args.go", '''type questionArgStore struct {
	args []any
}
''', '''type argList struct {
	args []any
}

func (l *argList) Args() []any { return l.args }

func (l *argList) add(arg any) int {
	l.args = append(l.args, arg)
	return len(l.args)
}

type questionArgStore struct {
	argList
}
'''),
    ("context_args.go", '''func (s *questionArgStore) Args() []any {
	return s.args
}

''', ''),
    ("context_args.go", '''	s.args = append(s.args, arg)
	return "?"
''', '''	_ = s.add(arg)
	return "?"
'''),
    ("context_args.go", '''type dollarArgStore struct {
	args []any
	dict map[any]int
}
''', '''type dollarArgStore struct {
	argList
	dict map[any]int
}
'''),
    ("context_args.go", '''func (s *dollarArgStore) Args() []any {
	return s.args
}

func (s *dollarArgStore) CommitArg(arg any) string {
	if !isHashable(arg) {
		s.args = append(s.args, arg)
		return "$" + strconv.Itoa(len(s.args))
	}
	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[arg] = i
	s.args = append(s.args, arg)
	return "$" + strconv.Itoa(i)
}
''', '''func (s *dollarArgStore) CommitArg(arg any) string {
	return "$" + strconv.Itoa(s.position(arg))
}

func (s *dollarArgStore) position(arg any) int {
	hashable := isHashable(arg)
	if hashable {
		if known, ok := s.dict[arg]; ok {
			return known
		}
	}
	pos := s.add(arg)
	if hashable {
		s.dict[arg] = pos
	}
	return pos
}
'''),
    # unexported context walk recursive, parent renamed
    ("contex_with.go", '''	for ctx := c; ctx != nil; ctx = ctx.parent {
		if v, ok := fn(ctx); ok {
			return v, true
		}
	}
	var v T
	return v, false
''', '''	if c == nil {
		return *new(T), false
	}
	if v, ok := fn(c); ok {
		return v, true
	}
	return contextValue(c.parent, fn)
'''),
    ("contex_with.go", '''	root := c
	for root.parent != nil {
		root = root.parent
	}
	return root
''', '''	if c.parent == nil {
		return c
	}
	return c.parent.root()
'''),
]

E["funcs"] = [
    # eager join compatibility cache replaced by testing every time
    ("func.go", '''	if f.joinTested {
		return f.joinError
	}
	f.joinError = joinCompatibility(f)
	f.joinTested = true
	return f.joinError
''', '''	if !f.joinTested {
		f.joinTested, f.joinError = true, joinCompatibility(f)
	}
	return f.joinError
'''),
    ("func.go", '''	for _, r := range name {
		if r != '_' && (r > unicode.MaxASCII || !unicode.IsLetter(r)) {
			return false
		}
	}
	return true
}
''', '''	for i := 0; i < len(name); i++ {
		c := name[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && c != '_' {
			return false
		}
	}
	return true
}
'''),
    ("func.go", '''	"reflect"
	"unicode"
''', '''	"reflect"
'''),
    ("func.go", '''	switch f.nOut {
	case 0:
		// ok
	case 1:
		if f.outTypes[0] != stringType {
			return errInvalidFuncOutput
		}
	case 2:
		if f.outTypes[0] != stringType || f.outTypes[1] != errorType {
			return errInvalidFuncOutput
		}
	default:
		return errInvalidFuncOutput
	}
''', '''	if f.nOut > 2 {
		return errInvalidFuncOutput
	}
	for i, want := range []reflect.Type{stringType, errorType}[:f.nOut] {
		if f.outTypes[i] != want {
			return errInvalidFuncOutput
		}
	}
'''),
    ("func.go", '''	switch k {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64:
		return true
	}
	return false
}
''', '''	return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr
}
'''),
    ("func.go", '''	switch f.nIn {
	case 1:
		t := f.inTypes[0]
		if f.variadic {
			t = t.Elem()
		}
		if !numberType(t.Kind()) {
			return errSig
		}
	case 2:
		if !f.inContextFirst {
			return errSig
		}
		t := f.inTypes[1]
		if f.variadic {
			t = t.Elem()
		}
		if !numberType(t.Kind()) {
			return errSig
		}
	default:
		return errSig
	}
''', '''	if f.nIn < 1 || f.nIn > 2 || f.nIn == 2 && !f.inContextFirst {
		return errSig
	}
	last := f.inTypes[f.nIn-1]
	if f.variadic {
		last = last.Elem()
	}
	if !numberType(last.Kind()) {
		return errSig
	}
'''),
    # args converted by one loop
    ("func_exec.go", '''	// Fixed args first.
	i := 0
	for ; i < f.nInFixed && i < len(args); i++ {
		if i == 0 && f.inContextFirst {
			argv[i] = reflect.ValueOf(args[0])
			continue
		}
		inType := f.inTypes[i]
		argv[i], err = evalArg(inType, args[i])
		if err != nil {
			return "", fmt.Errorf("arg %d has wrong type for #%s: %w", i, f.name, err)
		}
	}
	// Now the ... args.
	if f.variadic {
		inType := f.inTypes[f.nIn-1].Elem() // Argument is a slice.
		for ; i < len(args); i++ {
			argv[i], err = evalArg(inType, args[i])
			if err != nil {
				return "", fmt.Errorf("arg %d has wrong type for #%s: %w", i, f.name, err)
			}
		}
	}
''', '''	for i, arg := range args {
		if i == 0 && f.inContextFirst {
			argv[i] = reflect.ValueOf(arg)
			continue
		}
		var inType reflect.Type
		if i < f.nInFixed {
			inType = f.inTypes[i]
		} else {
			inType = f.inTypes[f.nIn-1].Elem() // what the variadic one is a slice of
		}
		if argv[i], err = evalArg(inType, arg); err != nil {
			return "", fmt.Errorf("#%s: arg %d: %w", f.name, i, err)
		}
	}
'''),
    ("func_exec.go", '''	ret := fun.Call(args)
	switch len(ret) {
	case 0:
		return "", nil
	case 1:
		rVal, err := convertString(ret[0])
		if err != nil {
			return "", fmt.Errorf("first return value: %w", err)
		}
		return rVal, nil
	default:
		rVal, err := convertString(ret[0])
		if err != nil {
			return "", fmt.Errorf("first return value: %w", err)
		}
		rErr, err := convertError(ret[1])
		if err != nil {
			return "", fmt.Errorf("second return value: %w", err)
		}
		return rVal, rErr
	}
}
''', '''	ret := fun.Call(args)
	if len(ret) > 0 {
		if val, err = convertString(ret[0]); err != nil {
			return "", fmt.Errorf("value returned: %w", err)
		}
	}
	if len(ret) > 1 {
		callErr, bad := convertError(ret[1])
		if bad != nil {
			return "", fmt.Errorf("error returned: %w", bad)
		}
		return val, callErr
	}
	return val, nil
}
'''),
    # join: range in a helper, items collected and joined at the end
    ("func_builtin.go", '''	var err error
	var from, to int
	switch len(indexes) {
	case 0:
	case 1:
		from = indexes[0]
	case 2:
		from = indexes[0]
		to = indexes[1]
	default:
		return "", fmt.Errorf(
			"too many args for #join: want 2-4 got %d",
			len(indexes)+2,
		)
	}
	if to > 0 && from > to {
		return "", fmt.Errorf("invalid index range %d to %d", from, to)
	}
''', '''	from, to, err := joinRange(indexes)
	if err != nil {
		return "", err
	}
'''),
    ("func_builtin.go", '''// buildJoinItem builds the''', '''func joinRange(indexes []int) (from, to int, err error) {
	if len(indexes) > 2 {
		return 0, 0, fmt.Errorf("#join takes two indexes at most, got %d", len(indexes))
	}
	if len(indexes) > 0 {
		from = indexes[0]
	}
	if len(indexes) > 1 {
		to = indexes[1]
	}
	if to > 0 && to < from {
		return 0, 0, fmt.Errorf("range ends at %d before it starts at %d", to, from)
	}
	return from, to, nil
}

// buildJoinItem builds the'''),
    ("func_builtin.go", '''	b := new(strings.Builder)
	var calls []*syntax.FuncCallExpr
''', '''	var items []string
	var calls []*syntax.FuncCallExpr
'''),
    ("func_builtin.go", '''		if s != "" {
			if b.Len() > 0 {
				b.WriteString(separator)
			}
			b.WriteString(s)
		}
''', '''		if s != "" {
			items = append(items, s)
		}
'''),
    ("func_builtin.go", '''			break
		}
	}
	return b.String(), nil
}

func joinRange''', '''			break
		}
	}
	return strings.Join(items, separator), nil
}

func joinRange'''),
    # properties
    ("properties.go", '''	for i, prop := range p {
		if !prop.Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
	return nil
}
''', '''	var unused []int
	for i := len(p) - 1; i >= 0; i-- {
		if !p[i].Used() {
			unused = append(unused, i+1)
		}
	}
	if unused != nil {
		return fmt.Errorf("never used: %v", unused)
	}
	return nil
}
'''),
    ("properties.go", '''	r := make(Properties, 0)
	for _, a := range args {
		r = append(r, newDefaultProperty(&arg{a}))
	}
	return r
''', '''	r := make(Properties, len(args))
	for i := range args {
		r[i] = newDefaultProperty(&arg{args[i]})
	}
	return r
'''),
    ("context_fragment.go", '''	msgs := make([]string, 0, 5)
	if err := c.Args.checkUsage(); err != nil {
		msgs = append(msgs, fmt.Sprintf(
			"args %s", err.Error(),
		))
	}
	if err := c.Fragments.checkUsage(); err != nil {
		msgs = append(msgs, fmt.Sprintf(
			"properties %s", err.Error(),
		))
	}
	if len(msgs) > 0 {
		return errors.New(strings.Join(msgs, "; "))
	}
	return nil
''', '''	if err := c.Fragments.checkUsage(); err != nil {
		return fmt.Errorf("fragments: %w", err)
	}
	if err := c.Args.checkUsage(); err != nil {
		return fmt.Errorf("args: %w", err)
	}
	return nil
'''),
    ("context_fragment.go", '''	"fmt"
	"strings"
''', '''	"fmt"
'''),
]

E["sqlb"] = [
    ("sqlb/query_builder_build.go", '''	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if groupby != "" {
		clauses = append(clauses, groupby)
	}
	order, err := orders.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if order != "" {
		clauses = append(clauses, order)
	}
	if b.limit > 0 {
		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
	}
	if b.offset > 0 {
		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
	}
	query := strings.TrimSpace(strings.Join(clauses, " "))
	if len(b.unions) > 0 {
		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
		query = strings.TrimSpace(query + " " + union)
	}
	if b.debug {
''', '''	for _, f := range []*sqlf.Fragment{b.conditions, b.groupbys, orders} {
		clause, err := f.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		if clause != "" {
			clauses = append(clauses, clause)
		}
	}
	for _, n := range []struct {
		keyword string
		value   int64
	}{{"LIMIT", b.limit}, {"OFFSET", b.offset}} {
		if n.value > 0 {
			clauses = append(clauses, n.keyword+" "+strconv.FormatInt(n.value, 10))
		}
	}
	union, err := b.buildUnion(ctx)
	if err != nil {
		return "", err
	}
	if union != "" {
		clauses = append(clauses, union)
	}
	query := strings.TrimSpace(strings.Join(clauses, " "))
	if b.debug {
'''),
    ("sqlb/query_builder_build.go", '''	"log"
	"strings"
''', '''	"log"
	"strconv"
	"strings"
'''),
    ("sqlb/query_builder_build.go", '''	if len(clauses) == 0 {
		return "", nil
	}
	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
''', '''	b2 := new(strings.Builder)
	for i, c := range clauses {
		if i > 0 {
			b2.WriteByte(' ')
		}
		fmt.Fprintf(b2, "UNION (%s)", c)
	}
	return b2.String(), nil
'''),
    # dependencies: iterative closure, set of names
    ("sqlb/query_builder_dependecy.go", '''	if deps[cte.name] {
		return nil
	}
	deps[cte.name] = true
	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
	return nil
''', '''	todo := append(cteQueue(nil), cte)
	for len(todo) > 0 {
		next := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if deps[next.name] {
			continue
		}
		deps[next.name] = true
		for _, name := range next.deps {
			if required := b.ctesDict[name]; required != nil {
				todo = append(todo, required)
			}
		}
	}
	return nil
'''),
    ("sqlb/query_builder_dependecy.go", '''func extractTables(fragments''', '''type cteQueue []*cte

func extractTables(fragments'''),
    ("sqlb/query_builder_dependecy.go", '''	for _, f := range fragments {
		if f == nil {
			continue
		}
		if fragment, ok := f.(*sqlf.Fragment); ok {
			if fragment == nil {
				continue
			}
			extractTables2(fragment.Fragments, tables, dict)
			continue
		}
		if column, ok := f.(*Column); ok && column != nil {
			if column.table != "" {
				if !dict[column.table] {
					collectTable(column.table, tables, dict)
				}
			} else if column.fragment != nil {
				extractTables2(column.fragment.Fragments, tables, dict)
			}
			continue
		}

		if table, ok := f.(Table); ok {
			collectTable(table, tables, dict)
			continue
		}

		if table, ok := f.(TableAliased); ok {
			collectTable(table.AppliedName(), tables, dict)
		}
	}
''', '''	for _, f := range fragments {
		switch v := f.(type) {
		case *sqlf.Fragment:
			if v != nil {
				extractTables2(v.Fragments, tables, dict)
			}
		case *Column:
			switch {
			case v == nil:
			case v.table != "":
				collectTable(v.table, tables, dict)
			case v.fragment != nil:
				extractTables2(v.fragment.Fragments, tables, dict)
			}
		case Table:
			collectTable(v, tables, dict)
		case TableAliased:
			collectTable(v.AppliedName(), tables, dict)
		}
	}
'''),
    # Where helpers in terms of each other
    ("sqlb/query_builder_where.go", '''	b.conditions.AppendFragments(
		sqlf.F("#f1" + op + "$1").
			WithFragments(column).
			WithArgs(arg),
	)
	return b
''', '''	cond := &sqlf.Fragment{
		Raw:       "#fragment1" + op + "$1",
		Args:      []any{arg},
		Fragments: []sqlf.FragmentBuilder{column},
	}
	return b.Where(cond)
'''),
    ("sqlb/query_builder_where.go", '''	return b.Where(
		sqlf.F("#f1 IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
''', '''	return b.whereList(column, "IN", list)
'''),
    ("sqlb/query_builder_where.go", '''	return b.Where(
		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
}
''', '''	return b.whereList(column, "NOT IN", list)
}

func (b *QueryBuilder) whereList(column *Column, op string, list any) *QueryBuilder {
	f := sqlf.Ff("#f1 "+op+" (#join('#arg', ', '))", column)
	f.Args = util.ArgsFlatted(list)
	return b.Where(f)
}
'''),
    # order: order strings computed
    ("sqlb/query_builder_order.go", '''	for i, item := range b.orders {
		if item.order > DescNullsLast {
			return nil, nil, fmt.Errorf("invalid order: %d", item.order)
		}
		if !b.distinct {
			f.AppendFragments(sqlf.Ff(
				"#f1 "+orders[item.order],
				item.column,
			))
			continue
		}
		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
		alias := fmt.Sprintf("_order_%d", i+1)
		orderStr := orders[item.order]
		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
		f.AppendFragments(sqlf.F(
			fmt.Sprintf("%s %s", alias, orderStr),
		))
	}
	return f, touches, nil
''', '''	n := 0
	for _, item := range b.orders {
		n++
		if item.order >= Order(len(orders)) {
			return nil, nil, fmt.Errorf("there's no order %d", item.order)
		}
		dir := " " + orders[item.order]
		if b.distinct {
			// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
			name := fmt.Sprintf("_order_%d", n)
			touches.Fragments = append(touches.Fragments, sqlf.Ff("#f1 AS "+name, item.column))
			f.Fragments = append(f.Fragments, sqlf.F(name+dir))
		} else {
			f.Fragments = append(f.Fragments, sqlf.Ff("#f1"+dir, item.column))
		}
	}
	return f, touches, nil
'''),
    ("sqlb/query_builder_join.go", '''	tableAndAlias := t.Name
	if t.Alias != "" {
		tableAndAlias = tableAndAlias + " AS " + t.Alias
	}
	table := &fromTable{
		Names: t,
		Fragment: sqlf.Ff(
			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
			sqlf.Ff("#f1", on).WithPrefix("ON"),
		),
		Optional: optional,
	}
''', '''	what := joinStr + " " + string(t.Name)
	if t.Alias != "" {
		what += " AS " + string(t.Alias)
	}
	table := new(fromTable)
	table.Names, table.Optional = t, optional
	table.Fragment = sqlf.F(what + " #f1").WithFragments(
		sqlf.F("#f1").WithFragments(on).WithPrefix("ON"),
	)
'''),
    ("sqlb/query_builder_errors.go", '''	sb := new(strings.Builder)
	sb.WriteString("collected errors: \\n")
	for _, err := range b.errors {
		sb.WriteString(" - ")
		sb.WriteString(err.Error())
		sb.WriteRune('\\n')
	}
	return errors.New(sb.String())
''', '''	return errors.Join(b.errors...)
'''),
    ("sqlb/query_builder_errors.go", '''import (
	"errors"
	"strings"
)''', '''import "errors"
'''),
    ("sqlb/query_builder.go", '''	for _, c := range columns {
		b.groupbys.AppendFragments(c)
	}
	return b
''', '''	b.groupbys.AppendFragments(convertFragmentBuilders(columns)...)
	return b
'''),
]

E["syntax"] = [
    ("syntax/parser.go", '''	var t BindVarStyle
	switch p.token.lit {
	case "$":
		t = Dollar
		p.bindVarIndex++
		if p.bindVarIndex == 1 {
			p.bindVarStyle = t
		}
		if p.bindVarStyle != t {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	case "?":
		t = Question
		p.bindVarIndex++
		if p.bindVarIndex == 1 {
			p.bindVarStyle = t
		}
		if p.bindVarStyle != t {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	}
''', '''	t := Dollar
	if p.token.lit == "?" {
		t = Question
	}
	if p.bindVarIndex > 0 && p.bindVarStyle != t {
		return nil, p.syntaxError("? and $ in one fragment")
	}
	p.bindVarStyle = t
	p.bindVarIndex++
'''),
    ("syntax/parser.go", '''	if !p.got(t) {
		return p.syntaxError(
			fmt.Sprintf("syntax error: unexpected %s, want %s", p.token.typ, t),
		)
	}
	return nil
''', '''	if p.got(t) {
		return nil
	}
	return p.syntaxError(fmt.Sprintf("%s expected, not %s", t, p.token.typ))
'''),
    ("syntax/parser.go", '''	return fmt.Errorf("%d: syntax error: %s", p.token.start, msg)
''', '''	return fmt.Errorf("syntax error at %s (offset %d): %s", p.token.pos.String(), p.token.start, msg)
'''),
    ("syntax/scanner.go", '''	if len(s.tokens) > 0 {
		s.token = s.tokens[0]
		s.tokens = s.tokens[1:]
		return true
	}
	return false
''', '''	if len(s.tokens) == 0 {
		return false
	}
	s.token, s.tokens = s.tokens[0], s.tokens[1:]
	return true
'''),
    ("syntax/scanner.go", '''	switch s.rune {
	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.StartToken()
		for r := s.rune; r != EOF; r = s.Next() {
			if r < '0' || r > '9' {
				break
			}
		}
		s.emitToken(_Literal, _NumberLit, false)
	}
	return scanPlain
''', '''	if !s.IsDecimal() || s.rune == '0' {
		return scanPlain
	}
	s.StartToken()
	for s.IsDecimal() {
		s.Next()
	}
	s.emitToken(_Literal, _NumberLit, false)
	return scanPlain
'''),
    ("syntax/scanner.go", '''				fragment := s.input[s.start.offset:s.current.offset]
				if fragment == "true" || fragment == "false" {
					s.emitToken(_Literal, _BoolLit, false)
					return scanFuncArgs
				}
				if fragment == "null" || fragment == "nil" {
					s.emitToken(_Literal, _NilLit, false)
					return scanFuncArgs
				}
				if _, err := strconv.ParseFloat(fragment, 64); err == nil {
					s.emitToken(_Literal, _NumberLit, false)
					return scanFuncArgs
				}
				s.emitToken(_Name, _StringLit, true)
''', '''				if kind, ok := literalKind(s.input[s.start.offset:s.current.offset]); ok {
					s.emitToken(_Literal, kind, false)
				} else {
					s.emitToken(_Name, _StringLit, true)
				}
'''),
    ("syntax/scanner.go", '''func scanFuncArgQuoted(''', '''func literalKind(lit string) (litKind, bool) {
	switch lit {
	case "true", "false":
		return _BoolLit, true
	case "null", "nil":
		return _NilLit, true
	}
	_, err := strconv.ParseFloat(lit, 64)
	return _NumberLit, err == nil
}

func scanFuncArgQuoted('''),
    ("syntax/lexer.go", '''	for {
		if !unicode.IsSpace(l.rune) {
			break
		}
		l.Next()
		if l.rune == EOF {
			break
		}
	}
''', '''	for l.rune != EOF && l.IsWhitespace() {
		l.Next()
	}
'''),
]

E["util"] = [
    ("util/interpolate.go", '''			if bytes.HasPrefix(v, []byte("-")) && strings.HasSuffix(b.String(), "-") {
				// don't make it the start of a comment
				b.WriteByte(' ')
			}
			b.Write(v)
''', '''			if built := b.String(); len(v) > 0 && v[0] == '-' && built != "" && built[len(built)-1] == '-' {
				// don't make it the start of a comment
				b.WriteByte(' ')
			}
			b.WriteString(string(v))
'''),
    ("util/interpolate.go", '''			if primative.Bool() {
				buf.WriteString("TRUE")
			} else {
				buf.WriteString("FALSE")
			}
''', '''			buf.WriteString(strings.ToUpper(strconv.FormatBool(primative.Bool())))
'''),
    ("util/interpolate.go", '''			buf.WriteString(fmt.Sprintf("%d", primative.Int()))
''', '''			buf.WriteString(strconv.FormatInt(primative.Int(), 10))
'''),
    ("util/interpolate.go", '''	buf := bytes.NewBuffer(nil)
	buf.WriteRune('\\'')
	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
	buf.WriteRune('\\'')
	return buf.Bytes()
''', '''	out := []byte{'\\''}
	for i := 0; i < len(s); i++ {
		if s[i] == '\\'' {
			out = append(out, '\\'')
		}
		out = append(out, s[i])
	}
	return append(out, '\\'')
'''),
    ("util/interpolate.go", '''		enc, err := encodeValue(val, opts)
		if err != nil {
			return nil, err
		}
		buf.Write(enc)
''', '''		return encodeValue(val, opts)
'''),
    ("util/interpolate.go", '''	"bytes"
	"database''', '''	"bytes"
	"database'''),
    ("util/scan.go", '''	var results []T
	for rows.Next() {
		dest, fields := fn()
		err = ScanRow(rows, fields...)
		if err != nil {
			return nil, err
		}
		results = append(results, dest)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return results, nil
''', '''	var list []T
	for {
		if !rows.Next() {
			break
		}
		item, fields := fn()
		if err := ScanRow(rows, fields...); err != nil {
			return nil, err
		}
		list = append(list, item)
	}
	if err := rows.Err(); err != nil {
		return nil, fmt.Errorf("read rows: %w", err)
	}
	return list, nil
'''),
    ("util/scan.go", '''	nBlacholes := len(cols) - len(dest)
	bh := &blackhole{}
	dest = dest[:len(dest):len(dest)] // don't write to what's behind the given list
	for i := 0; i < nBlacholes; i++ {
		dest = append(dest, &bh)
	}
	return rows.Scan(dest...)
''', '''	all := make([]any, len(dest), len(dest)+len(cols))
	copy(all, dest)
	for len(all) < len(cols) {
		all = append(all, &blackhole{})
	}
	return rows.Scan(all...)
'''),
    ("util/scan.go", '''	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
	err = db.QueryRow(query, args...).Scan(&count)
	if err == sql.ErrNoRows {
		return 0, nil
	}
	if err != nil {
		query, _ := Interpolate(query, args)
		return 0, fmt.Errorf("%w: %s", err, query)
	}
	return count, nil
''', '''	counting := `SELECT COUNT(1) FROM (` + query + `) list`
	err = db.QueryRow(counting, args...).Scan(&count)
	switch err {
	case nil:
		return count, nil
	case sql.ErrNoRows:
		return 0, nil
	}
	return 0, fmt.Errorf("count: %w", err)
'''),
    ("util/args.go", '''	args := make([]any, 0, 10)
	for _, v := range valueOrSlices {
		args = append(args, argsFrom(v)...)
	}
	return args
''', '''	lists := make([][]any, len(valueOrSlices))
	n := 0
	for i, v := range valueOrSlices {
		lists[i] = argsFrom(v)
		n += len(lists[i])
	}
	args := make([]any, 0, n)
	for _, list := range lists {
		args = append(args, list...)
	}
	return args
'''),
    ("util/args.go", '''	b := make([]any, 0, len(slice))
	for _, v := range slice {
		b = append(b, v)
	}
	return b
''', '''	b := make([]any, len(slice))
	for i := range slice {
		b[i] = slice[i]
	}
	return b
'''),
]

# --- the second set: other ways to do the same

E["core2"] = [
    ("context_args.go", """func (s *questionArgStore) Args() []any {
	return s.args
}
""", """func (s *questionArgStore) Args() []any {
	return append([]any(nil), s.args...)
}
"""),
    ("context_args.go", """func (s *dollarArgStore) Args() []any {
	return s.args
}
""", """func (s *dollarArgStore) Args() []any {
	return append([]any(nil), s.args...)
}
"""),
    ("context_args.go", """	if !isHashable(arg) {
		s.args = append(s.args, arg)
		return "$" + strconv.Itoa(len(s.args))
	}
	if i, ok := s.dict[arg]; ok {
		return "$" + strconv.Itoa(i)
	}
	i := len(s.args) + 1
	s.dict[arg] = i
	s.args = append(s.args, arg)
	return "$" + strconv.Itoa(i)
""", """	hashable := isHashable(arg)
	i, known := 0, false
	if hashable {
		i, known = s.dict[arg]
	}
	if !known {
		s.args = append(s.args, arg)
		i = len(s.args)
		if hashable {
			s.dict[arg] = i
		}
	}
	return "$" + strconv.Itoa(i)
"""),
    # usage is checked by the list of what is unused, the order of the messages changes
    ("properties.go", """	for i, prop := range p {
		if !prop.Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
	return nil
""", """	var unused []string
	for i := len(p) - 1; i >= 0; i-- {
		if !p[i].Used() {
			unused = append(unused, fmt.Sprintf("#%d", i+1))
		}
	}
	if len(unused) == 0 {
		return nil
	}
	return fmt.Errorf("unused: %v", unused)
"""),
    ("fragment.go", """// WithArgs sets the args of f.
func (f *Fragment) WithArgs(args ...any) *Fragment {
	f.Args = args
	return f
}
""", """// WithArgs sets the args of f.
func (f *Fragment) WithArgs(args ...any) *Fragment {
	return f.set(func(f *Fragment) { f.Args = args })
}

func (f *Fragment) set(do func(*Fragment)) *Fragment {
	do(f)
	return f
}
"""),
    ("context_func.go", """		c.funcs = make(map[string]*funcInfo)
		return addValueFuncs(c.funcs, funcs)
""", """		m, err := createValueFuncs(funcs)
		if err != nil {
			return err
		}
		c.funcs = m
		return nil
"""),
    ("func_exec.go", """	ret := fun.Call(args)
	switch len(ret) {
	case 0:
		return "", nil
	case 1:
		rVal, err := convertString(ret[0])
		if err != nil {
			return "", fmt.Errorf("first return value: %w", err)
		}
		return rVal, nil
	default:
		rVal, err := convertString(ret[0])
		if err != nil {
			return "", fmt.Errorf("first return value: %w", err)
		}
		rErr, err := convertError(ret[1])
		if err != nil {
			return "", fmt.Errorf("second return value: %w", err)
		}
		return rVal, rErr
	}
""", """	ret := fun.Call(args)
	if len(ret) > 0 {
		val = ret[0].String()
	}
	if len(ret) > 1 && !ret[1].IsNil() {
		return "", ret[1].Interface().(error)
	}
	return val, nil
"""),
    ("shortcut.go", """	return &Fragment{
		Raw:  raw,
		Args: args,
	}
""", """	f := F(raw)
	f.Args = args
	return f
"""),
]

E["sqlb2"] = [
    # errors joined in one line
    ("sqlb/query_builder_errors.go", """	sb := new(strings.Builder)
	sb.WriteString("collected errors: \\n")
	for _, err := range b.errors {
		sb.WriteString(" - ")
		sb.WriteString(err.Error())
		sb.WriteRune('\\n')
	}
	return errors.New(sb.String())
""", """	texts := make([]string, 0, len(b.errors))
	for _, err := range b.errors {
		texts = append(texts, err.Error())
	}
	return errors.New(strings.Join(texts, "; "))
"""),
    # the dependencies are looked at before the errors of calls
    ("sqlb/query_builder_build.go", """	if err := b.anyError(); err != nil {
		return "", err
	}
	clauses := make([]string, 0)
	nArgs := len(ctx.Args()) // args before this query

	dep, cteDep, err := b.collectDependencies()
	if err != nil {
		return "", err
	}
""", """	clauses := make([]string, 0, 10)
	nArgs := len(ctx.Args()) // args before this query

	dep, cteDep, err := b.collectDependencies()
	if failed := b.anyError(); failed != nil {
		return "", failed
	}
	if err != nil {
		return "", err
	}
"""),
    ("sqlb/query_builder_build.go", """	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if groupby != "" {
		clauses = append(clauses, groupby)
	}
	order, err := orders.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if order != "" {
		clauses = append(clauses, order)
	}
""", """	for _, part := range []sqlf.FragmentBuilder{b.conditions, b.groupbys, orders} {
		s, err := part.BuildFragment(ctx)
		switch {
		case err != nil:
			return "", err
		case s != "":
			clauses = append(clauses, s)
		}
	}
"""),
    ("sqlb/query_builder_build.go", """		log.Println(interpolated)
""", """		log.Print(interpolated)
"""),
    # conditions on lists with a placeholder for each
    ("sqlb/query_builder_where.go", """	return b.Where(
		sqlf.F("#f1 IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
""", """	return b.whereList(column, "IN", util.ArgsFlatted(list))
}

func (b *QueryBuilder) whereList(column *Column, op string, list []any) *QueryBuilder {
	marks := strings.TrimSuffix(strings.Repeat("?, ", len(list)), ", ")
	b.conditions.AppendFragments(&sqlf.Fragment{
		Raw:       "#f1 " + op + " (" + marks + ")",
		Fragments: []sqlf.FragmentBuilder{column},
		Args:      list,
	})
	return b
"""),
    ("sqlb/query_builder_where.go", """	return b.Where(
		sqlf.F("#f1 NOT IN (#join('#arg', ', '))").
			WithFragments(column).
			WithArgs(util.ArgsFlatted(list)...),
	)
""", """	return b.whereList(column, "NOT IN", util.ArgsFlatted(list))
"""),
    ("sqlb/query_builder_where.go", """import (
""", """import (
	"strings"

"""),
    ("sqlb/query_builder.go", """	if limit > 0 {
		b.limit = limit
	}
	return b
""", """	if limit <= 0 {
		return b
	}
	b.limit = limit
	return b
"""),
    ("sqlb/query_builder.go", """	for _, c := range columns {
		b.groupbys.AppendFragments(c)
	}
	return b
""", """	b.groupbys.AppendFragments(convertFragmentBuilders(columns)...)
	return b
"""),
    # all columns of a table made by one function
    ("sqlb/table.go", """	r := make([]*Column, 0, len(names))
	for _, name := range names {
		r = append(r, t.Column(name))
	}
	return r
""", """	r := make([]*Column, len(names))
	for i := range r {
		r[i] = t.Column(names[i])
	}
	return r
"""),
]

E["util2"] = [
    # no special cases
    ("util/args.go", """	case []bool:
		return Ttoa(a)
	case []float64:
		return Ttoa(a)
	case []float32:
		return Ttoa(a)
	case []int64:
		return Ttoa(a)
	case []int32:
		return Ttoa(a)
	case []int:
		return Ttoa(a)
	case []uint64:
		return Ttoa(a)
	case []uint32:
		return Ttoa(a)
	case []uint:
		return Ttoa(a)
	case []string:
		return Ttoa(a)
	case *[]bool:
		return fromPointer(a)
	case *[]float64:
		return fromPointer(a)
	case *[]float32:
		return fromPointer(a)
	case *[]int64:
		return fromPointer(a)
	case *[]int32:
		return fromPointer(a)
	case *[]int:
		return fromPointer(a)
	case *[]uint64:
		return fromPointer(a)
	case *[]uint32:
		return fromPointer(a)
	case *[]uint:
		return fromPointer(a)
	case *[]string:
""", """	case *[]string:
"""),
    ("util/args.go", """	args := make([]any, 0, 10)
	for _, v := range valueOrSlices {
		args = append(args, argsFrom(v)...)
	}
	return args
""", """	lists := make([][]any, len(valueOrSlices))
	n := 0
	for i, v := range valueOrSlices {
		lists[i] = argsFrom(v)
		n += len(lists[i])
	}
	if n == 0 {
		return nil
	}
	args := make([]any, 0, n)
	for _, l := range lists {
		args = append(args, l...)
	}
	return args
"""),
    ("util/scan.go", """	var results []T
	for rows.Next() {
""", """	results := []T{}
	for rows.Next() {
"""),
    ("util/scan.go", """	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
	err = db.QueryRow(query, args...).Scan(&count)
	if err == sql.ErrNoRows {
		return 0, nil
	}
	if err != nil {
		query, _ := Interpolate(query, args)
		return 0, fmt.Errorf("%w: %s", err, query)
	}
	return count, nil
""", """	counting := "SELECT COUNT(1) FROM (" + query + ") list"
	row := db.QueryRow(counting, args...)
	switch err := row.Scan(&count); {
	case err == nil:
		return count, nil
	case err == sql.ErrNoRows:
		return 0, nil
	default:
		shown, _ := Interpolate(counting, args)
		return 0, fmt.Errorf("%w: %s", err, shown)
	}
"""),
    ("util/interpolate.go", """	buf := bytes.NewBuffer(nil)
	buf.WriteRune('\\'')
	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
	buf.WriteRune('\\'')
	return buf.Bytes()
""", """	out := make([]byte, 0, len(s)+2)
	out = append(out, '\\'')
	for i := 0; i < len(s); i++ {
		if s[i] == '\\'' {
			out = append(out, '\\'')
		}
		out = append(out, s[i])
	}
	return append(out, '\\'')
"""),
]

E["syntax2"] = [
    ("syntax/scanner.go", """	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.StartToken()
		for r := s.rune; r != EOF; r = s.Next() {
			if r < '0' || r > '9' {
				break
			}
		}
		s.emitToken(_Literal, _NumberLit, false)
	}
""", """	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.StartToken()
		for s.IsDecimal() {
			s.Next()
		}
		s.emitToken(_Literal, _NumberLit, false)
	}
"""),
    ("syntax/parser.go", """		t = Dollar
		p.bindVarIndex++
		if p.bindVarIndex == 1 {
			p.bindVarStyle = t
		}
		if p.bindVarStyle != t {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	case "?":
		t = Question
		p.bindVarIndex++
		if p.bindVarIndex == 1 {
			p.bindVarStyle = t
		}
		if p.bindVarStyle != t {
			return nil, p.syntaxError("mixed bindvar styles")
		}
	}
""", """		t = Dollar
	default:
		t = Question
	}
	if p.bindVarIndex > 0 && p.bindVarStyle != t {
		return nil, p.syntaxError("mixed bindvar styles")
	}
	p.bindVarStyle = t
	p.bindVarIndex++
"""),
    ("syntax/parser.go", """		val, err := strconv.ParseFloat(p.token.lit, 64)
		if err != nil {
			return p.syntaxError(err.Error())
		}
		p.c.ExprList = append(
			p.c.ExprList,
			&FuncCallExpr{
				Name: nameToken.lit,
				Args: []any{val},
				expr: expr{node{pos}},
			},
		)
""", """		index, err := strconv.ParseFloat(p.token.lit, 64)
		if err != nil {
			return p.syntaxError(err.Error())
		}
		call := &FuncCallExpr{Name: nameToken.lit, expr: expr{node{pos}}}
		call.Args = append(call.Args, index)
		p.c.ExprList = append(p.c.ExprList, call)
"""),
]


def apply(dirname, group):
    for f, old, new in E[group]:
        p = os.path.join(dirname, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{group}: {f}: {s.count(old)} occurrences of:\n{old}")
        open(p, "w").write(s.replace(old, new))


def checks():
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    return [(c["property_id"] if "property_id" in c else c["property"], c) for c in m.get("checks", m.get("properties", []))]


INNER = r'''
mount --bind %(d)s/repo /repo && mount --bind %(d)s/verif /verif || exit 3
cd /repo && bash /opt/vp/build.sh >/tmp/rf.build 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/rf.build; exit 3; }
bash /opt/vp/test.sh %(d)s/out.json >/dev/null 2>&1
python3 - <<'X'
import json
o = json.load(open("%(d)s/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
def names(x, k):
    v = x.get(k, []) if isinstance(x, dict) else x
    return set(v if isinstance(v, list) else v.keys())
base = names(b, "stable") or names(b, "passed")
print("tests no longer passing:", sorted(base - names(o, "passed")))
X
cd /verif
for p in %(ids)s; do
  VERIF_SEED=%(seed)s python3 check.py $p quick >%(d)s/log 2>&1; rc=$?
  [ $rc = 0 ] || { echo "NOT QUIET $p rc=$rc"; grep -v '^$' %(d)s/log | tail -30; }
done
echo done
'''


def run(name, groups, seed="1"):
    d = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
        for g in groups:
            apply(d + "/repo", g)
        ids = " ".join(json.loads(l)["id"] for l in open(V + "/properties.jsonl"))
        r = subprocess.run(["unshare", "-m", "bash", "-c", INNER % dict(d=d, ids=os.environ.get("IDS", ids), seed=seed)],
                           capture_output=True, text=True)
        print(f"== {name}\n{r.stdout}{r.stderr}", flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for g in sys.argv[1:] or E:
        if g in ("all", "all2"):
            run(g, [x for x in E if x.endswith("2") == (g == "all2")])
        else:
            run(g, [g])
