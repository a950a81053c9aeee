BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("c09-nil-column", "C09",
    "a nil column among the columns of a builder, e.g. in GROUP BY",
    "Building with a nil column panics.",
    [("sqlb/query_builder_dependecy.go", "if column, ok := f.(*Column); ok && column != nil {", "if column, ok := f.(*Column); ok {")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	rejects("nil column", sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).GroupBy(nil), D)
}
''')

bug("c10-debug-resolves-args", "C10",
    "a builder in debug mode with an arg that implements driver.Valuer",
    "Interpolating for the debug output replaces such args of the query by what they resolve to.",
    [("util/interpolate.go", "			v, err := encodeValue(args[decl.Index-1], opts)\n", """			if v, ok := args[decl.Index-1].(driver.Valuer); ok && !isNilPointer(v) {
				// resolve it once only, it may be referenced again
				val, err := v.Value()
				if err != nil {
					return "", err
				}
				args[decl.Index-1] = val
			}
			v, err := encodeValue(args[decl.Index-1], opts)
""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	v := sql.NullString{String: "x", Valid: true}
	b := sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).Where2(t.Column("a"), "=", v)
	builds(b, D, "SELECT t.a FROM t WHERE t.a=$1", v)
	b.Debug()
	builds(b, D, "SELECT t.a FROM t WHERE t.a=$1", v)
}
''')

bug("c12-offset-with-limit", "C12",
    "a builder with OFFSET but without LIMIT",
    "OFFSET is left out without LIMIT.",
    [("sqlb/query_builder_build.go", """		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
	}
	if b.offset > 0 {
		clauses""", """		clauses = append(clauses, fmt.Sprintf(`LIMIT %d`, b.limit))
	}
	if b.limit > 0 && b.offset > 0 {
		clauses""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	builds(sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).Offset(3), D, "SELECT t.a FROM t OFFSET 3")
}
''')

bug("c12-dotted-column", "C12",
    "a column name with a dot in it",
    "A column name with a dot is taken for a qualified one and not qualified.",
    [("sqlb/table.go", """	if t == "" {
		return name
	}
	return fmt""", """	if t == "" || strings.Contains(name, ".") {
		return name
	}
	return fmt"""), ("sqlb/table.go", 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"strings"\n')], '''
func main() {
	t := sqlb.NewTableAliased("t", "x")
	builds(sqlb.NewQueryBuilder().Select(t.Column("a.b")).From(t), D, "SELECT x.a.b FROM t AS x")
}
''')

bug("c12-repeated-condition", "C12",
    "the same condition fragment handed to Where twice in a row",
    "The second of two identical conditions is dropped.",
    [("sqlb/query_builder_where.go", """	if s == nil {
		return b
	}
""", """	if s == nil {
		return b
	}
	if n := len(b.conditions.Fragments); n > 0 && b.conditions.Fragments[n-1] == sqlf.FragmentBuilder(s) {
		return b
	}
""") , ("sqlb/query_builder_where.go", "	b.conditions.AppendFragments(s)\n	return b", "	b.conditions.AppendFragments(s)\n\n	return b")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	c := sqlf.Fa("rand() > ?", 1)
	builds(sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).Where(c).Where(c), Q, "SELECT t.a FROM t WHERE rand() > ? AND rand() > ?", 1, 1)
}
''')

bug("c13-where-before-from", "C13",
    "a builder with args in a join condition and in a condition",
    "The conditions are built before the joins, so their args come first.",
    [("sqlb/query_builder_build.go", """	from, err := b.buildFrom(ctx, dep)
	if err != nil {
		return "", err
	}
	if from != "" {
		clauses = append(clauses, from)
	}
	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
""", """	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	from, err := b.buildFrom(ctx, dep)
	if err != nil {
		return "", err
	}
	if from != "" {
		clauses = append(clauses, from)
	}
""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	b := sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).Where2(t.Column("a"), "=", 1).
		LeftJoin(u, sqlf.Fa("u.x = ?", 2))
	builds(b, Q, "SELECT t.a FROM t LEFT JOIN u ON u.x = ? WHERE t.a=?", 2, 1)
}
''')

bug("c13-union-before-order", "C13",
    "a builder with a union that has args, and args in ORDER BY",
    "Unions are built before GROUP BY and ORDER BY, so their args come first.",
    [("sqlb/query_builder_build.go", """	groupby, err := b.groupbys""", """	union := ""
	if len(b.unions) > 0 {
		union, err = b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
	}
	groupby, err := b.groupbys"""), ("sqlb/query_builder_build.go", """	if len(b.unions) > 0 {
		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
		query = strings.TrimSpace(query + " " + union)
	}
	if b.debug""", """	query = strings.TrimSpace(query + " " + union)
	if b.debug""")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().Select(t.Column("a")).From(t).Union(sqlf.Fa("SELECT ?", 1)).
		OrderBy(sqlb.ExprColumn(sqlf.Fa("a = ?", 2)), sqlb.Asc)
	builds(b, Q, "SELECT t.a FROM t ORDER BY a = ? ASC UNION (SELECT ?)", 2, 1)
}
''')

bug("c14-groupby-ignored", "C14",
    "a distinct query with an optional join that only GROUP BY uses",
    "Tables used by GROUP BY only are not taken into account, so their optional joins are dropped.",
    [("sqlb/query_builder_dependecy.go", """		b.conditions,
		b.groupbys,
	}""", """		b.conditions,
	}
	if !b.distinct {
		builders = append(builders, b.groupbys)
	}""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	b := sqlb.NewQueryBuilder().Distinct().Select(t.Column("a")).From(t).
		LeftJoinOptional(u, sqlf.F("u.x = t.x")).GroupBy(u.Column("y"))
	builds(b, D, "SELECT DISTINCT t.a FROM t LEFT JOIN u ON u.x = t.x GROUP BY u.y")
}
''')

bug("c14-mandatory-join-not-followed", "C14",
    "a distinct query with an optional join needed by the condition of a used mandatory join only",
    "The tables in the conditions of joins that are never left out are not followed.",
    [("sqlb/query_builder_dependecy.go", """	dep[from.Names] = true
	for _, ft := range""", """	dep[from.Names] = true
	if !from.Optional {
		return nil
	}
	for _, ft := range""")
     , ("sqlb/query_builder_dependecy.go", """		if ft == t {
			continue
		}
		err := b.collect""", """		if t == ft {
			continue
		}
		err := b.collect""")], '''
func main() {
	t, u, v := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", ""), sqlb.NewTableAliased("v", "")
	b := sqlb.NewQueryBuilder().Distinct().Select(t.Column("a")).From(t).
		LeftJoinOptional(u, sqlf.F("u.x = t.x")).
		InnerJoin(v, sqlf.Ff("#f1 = #f2", v.Column("x"), u.Column("y")))
	builds(b, D, "SELECT DISTINCT t.a FROM t LEFT JOIN u ON u.x = t.x INNER JOIN v ON v.x = u.y")
}
''')

bug("c15-two-levels", "C15",
    "a chain of three CTEs connected by declared dependencies, of which FROM uses the last",
    "Only the direct dependencies of a CTE are emitted.",
    [("sqlb/query_builder_dependecy.go", """		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
""", """		if cte, ok := b.ctesDict[dep]; ok {
			deps[cte.name] = true
		}
""")], '''
func main() {
	t := sqlb.NewTableAliased("c", "")
	b := sqlb.NewQueryBuilder().With("a", sqlf.F("SELECT 1")).With("b", sqlf.F("SELECT * FROM a"), "a").
		With("c", sqlf.F("SELECT * FROM b"), "b").Select(t.Column("x")).From(t)
	builds(b, D, "With a AS (SELECT 1), b AS (SELECT * FROM a), c AS (SELECT * FROM b) SELECT c.x FROM c")
}
''')

bug("c15-alias-matches", "C15",
    "a table whose alias is the name of a CTE the query does not need",
    "A CTE is emitted because an alias has its name.",
    [("sqlb/query_builder_dependecy.go", "		if cte, ok := b.ctesDict[t.Names.Name]; ok {\n", """		cte, ok := b.ctesDict[t.Names.Name]
		if !ok {
			cte, ok = b.ctesDict[t.Names.AppliedName()]
		}
		if ok {
""")], '''
func main() {
	t := sqlb.NewTableAliased("users", "u")
	builds(sqlb.NewQueryBuilder().With("u", sqlf.F("SELECT 1")).Select(t.Column("x")).From(t), D, "SELECT u.x FROM users AS u")
}
''')

bug("c16-replaced-names", "C16",
    "a join declared again under the same alias for another table, which is a CTE",
    "A redeclared join keeps the name of its first table, so the CTE for the new one is missing.",
    [("sqlb/query_builder_join.go", "		*target = *table\n", "		target.Fragment = table.Fragment\n		target.Optional = table.Optional\n")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().With("v", sqlf.F("SELECT 1")).Select(t.Column("x")).From(t).
		InnerJoin(sqlb.NewTableAliased("u", "j"), nil).
		InnerJoin(sqlb.NewTableAliased("v", "j"), nil)
	builds(b, D, "With v AS (SELECT 1) SELECT t.x FROM t INNER JOIN v AS j")
}
''')

bug("c16-optional-stays", "C16",
    "an optional join declared again as a mandatory one in a distinct query that does not use it",
    "A redeclared join keeps its first optional flag, so it is left out.",
    [("sqlb/query_builder_join.go", "		*target = *table\n", "		target.Names, target.Fragment = table.Names, table.Fragment\n")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	b := sqlb.NewQueryBuilder().Distinct().Select(t.Column("x")).From(t).
		LeftJoinOptional(u, nil).LeftJoin(u, nil)
	builds(b, D, "SELECT DISTINCT t.x FROM t LEFT JOIN u")
}
''')

bug("c16-second-from", "C16",
    "From called a second time after joins were declared",
    "A second From starts the FROM clause over, the joins declared so far are lost.",
    [("sqlb/query_builder_join.go", "		b.tables[0] = table\n", """		if b.tables[0].Names.Name != "" {
			b.tables = []*fromTable{table}
		} else {
			b.tables[0] = table
		}
""")], '''
func main() {
	t, u := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", "")
	b := sqlb.NewQueryBuilder().Select(u.Column("x")).From(t).InnerJoin(u, nil)
	b.From(sqlb.NewTableAliased("v", ""))
	builds(b, D, "SELECT u.x FROM v INNER JOIN u")
}
''')

bug("c17-reported-once", "C17",
    "a builder with a collected error that is built twice",
    "Collected errors are reported by the first build only.",
    [("sqlb/query_builder_errors.go", "	return errors.New(sb.String())\n", "	b.errors = nil\n	return errors.New(sb.String())\n"),
     ("sqlb/query_builder_errors.go", "	if len(b.errors) == 0 {\n", "	if b.errors == nil {\n")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().Select(t.Column("x")).From(t).InnerJoin(sqlb.NewTableAliased("", "u"), nil)
	rejects("first", b, D)
	rejects("second", b, D)
}
''')

bug("c17-order-ignored", "C17",
    "an ordering that is not one of the constants",
    "An invalid ordering is ignored with its column.",
    [("sqlb/query_builder_order.go", "	b.orders = append(b.orders, &orderItem{column: column, order: order})\n", "	if order <= DescNullsLast {\n		b.orders = append(b.orders, &orderItem{column: column, order: order})\n	}\n")], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	rejects("order", sqlb.NewQueryBuilder().Select(t.Column("x")).From(t).OrderBy(t.Column("x"), sqlb.Order(6)), D)
}
''')

bug("c17-undeclared-in-on", "C17",
    "a used join whose condition refers to an undeclared table",
    "Undeclared tables in the condition of a used join are overlooked.",
    [("sqlb/query_builder_dependecy.go", """		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
""", """		if _, ok := b.tablesDict[ft]; !ok {
			continue
		}
		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
""")], '''
func main() {
	t, u, v := sqlb.NewTableAliased("t", ""), sqlb.NewTableAliased("u", ""), sqlb.NewTableAliased("v", "")
	rejects("undeclared", sqlb.NewQueryBuilder().Select(u.Column("x")).From(t).
		InnerJoin(u, sqlf.Ff("#f1 = #f2", u.Column("a"), v.Column("a"))), D)
}
''')

bug("c23-ten-orders", "C23",
    "a distinct query with ten or more orderings",
    "The aliases of orderings past the ninth are not valid names.",
    [("sqlb/query_builder_order.go", 'alias := fmt.Sprintf("_order_%d", i+1)', 'alias := "_order_" + string(rune(\'1\'+i))')], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	b := sqlb.NewQueryBuilder().Distinct().Select(t.Column("x")).From(t)
	sel, ord := "t.x", []string{}
	for i := 1; i <= 12; i++ {
		c := fmt.Sprint("c", i)
		b.OrderBy(t.Column(c), sqlb.Asc)
		sel += fmt.Sprintf(", t.%s AS _order_%d", c, i)
		ord = append(ord, fmt.Sprintf("_order_%d ASC", i))
	}
	q, _, err := b.BuildQuery(D)
	if err != nil {
		fail("%s", err)
	}
	// the aliases themselves are up to the builder, but they are names
	for _, w := range strings.FieldsFunc(q, func(r rune) bool { return r == ' ' || r == ',' }) {
		if strings.HasPrefix(w, "_order_") && strings.ContainsAny(w, ":;<=>?@#") {
			fail("alias %s", w)
		}
	}
}
''')

bug("c23-desc-nulls", "C23",
    "a distinct query that orders twice by the same column with different directions",
    "The direction of the first ordering of a column is used for all of them.",
    [("sqlb/query_builder_order.go", "		orderStr := orders[item.order]\n", """		orderStr := orders[item.order]
		for _, o := range b.orders[:i] {
			if o.column == item.column {
				orderStr = orders[o.order]
			}
		}
"""), ("sqlb/query_builder_order.go", 'fmt.Sprintf("%s %s", alias, orderStr)', 'alias+" "+orderStr')], '''
func main() {
	t := sqlb.NewTableAliased("t", "")
	c := t.Column("x")
	b := sqlb.NewQueryBuilder().Distinct().Select(c).From(t).OrderBy(c, sqlb.Asc).OrderBy(c, sqlb.DescNullsLast)
	q, _, err := b.BuildQuery(D)
	if err != nil || !strings.HasSuffix(q, " DESC NULLS LAST") {
		fail("%q %v", q, err)
	}
}
''')
