From 8710a099df0f0e829100df2757fdedaf1b83f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 01/33] fix: reject mixed bindvar styles also when $n comes
 first

Dollar is the zero BindVarStyle, so testing the remembered style against 0
took '$1, ?' for a template without a style so far.
---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From 28ad0d8bb508d55f051cc0822a059192e55a403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 02/33] fix: don't take a NUL character in a template for its
 end

Everything from the first NUL on was silently dropped from the query.
---
 syntax/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..f2da271 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,8 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, which is not a valid rune, so it never occurs in an input
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 710963e67afbaa6924c92fc57ff7804ede1d997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 03/33] fix: parse what directly follows a function value

The token after a function value was always taken for plain text, so
that '#f#arg' failed to parse and '#f?' put a '?' into the query without
an arg for it.
---
 syntax/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..d0655b8 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -190,18 +190,15 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
+		// the token belongs to what follows: EOF, _Plain, _Ref or _Hash
+		p.tokens = append([]*token{p.token}, p.tokens...)
 	}
 
 	return nil
-- 
2.43.0


From d70097c420bda69011b9ed03203f19478c281297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 04/33] fix: accept unhashable args in dollar style

Args like []byte made the build panic, they are now added without merging.
---
 context_args.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..91c8191 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,6 +55,10 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
+	if !isHashable(arg) {
+		s.args = append(s.args, arg)
+		return "$" + strconv.Itoa(len(s.args))
+	}
 	if i, ok := s.dict[arg]; ok {
 		return "$" + strconv.Itoa(i)
 	}
@@ -63,3 +67,12 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// isHashable reports whether v can be a map key, []byte for example can't.
+func isHashable(v any) (ok bool) {
+	defer func() {
+		ok = recover() == nil
+	}()
+	_ = map[any]struct{}{v: {}}
+	return
+}
-- 
2.43.0


From 0ffbb214499abb246337da80afb9b7b4b66cb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 05/33] fix: report a number passed for a string or bool
 parameter

The conversion by reflection panicked, e.g. for #join(1, ',').
---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From e2e0ab8abeb6a04b4345f62df4dcf416c8b1b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 06/33] fix: pass strings and bools to parameters of named
 types

Functions with such parameters were accepted by ContextWithFuncs, but
every call of them failed.
---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -122,12 +122,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From f4fea5cfcbfb336869d0032c9974858569935428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 07/33] fix: reject function names that templates can't call

Only ASCII letters and underscores make a function name in a template,
names with other letters were registered but never found.
---
 func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func.go b/func.go
index 62b6f38..d4b11d1 100644
--- a/func.go
+++ b/func.go
@@ -20,7 +20,7 @@ var (
 
 // FuncMap is the type of the map defining the mapping from names to functions.
 //
-// The function names are case sensitive, only letters and underscore are allowed.
+// The function names are case sensitive, only letters (a-z, A-Z) and underscore are allowed.
 //
 // Allowed function signatures:
 //
@@ -139,7 +139,7 @@ func goodName(name string) bool {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		if r != '_' && (r > unicode.MaxASCII || !unicode.IsLetter(r)) {
 			return false
 		}
 	}
-- 
2.43.0


From e1762400eb6fb5725d2082f68dbe36b622276d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 08/33] fix: drop the args of the iteration that ends a #join

A template with several parts is built up to the one that reports the
invalid index, the args of the parts before it were left behind: with
question style, '#join('?=#arg', ',')' returned one arg too many.
---
 context_args.go | 15 +++++++++++++++
 func_builtin.go |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/context_args.go b/context_args.go
index 91c8191..791b343 100644
--- a/context_args.go
+++ b/context_args.go
@@ -20,6 +20,8 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Truncate drops all args but the first n ones.
+	Truncate(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +41,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Truncate(n int) {
+	s.args = append([]any(nil), s.args[:n]...)
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -68,6 +74,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Truncate(n int) {
+	for _, arg := range s.args[n:] {
+		if isHashable(arg) {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = append([]any(nil), s.args[:n]...)
+}
+
 // isHashable reports whether v can be a map key, []byte for example can't.
 func isHashable(v any) (ok bool) {
 	defer func() {
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..d994016 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -69,6 +69,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
+		nArgs := len(ctx.Args())
 		s, err := buildClause(ctx, c)
 		if errors.Is(err, ErrInvalidIndex) {
 			if (from > 0 && i == from) ||
@@ -76,6 +77,10 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// drop args of the parts built before the error
+			if len(ctx.Args()) > nArgs {
+				ctx.root().argStore.Truncate(nArgs)
+			}
 			break
 		}
 		if err != nil {
-- 
2.43.0


From 806276f365f7dc35d26377fc16a89eb059c7e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 09/33] fix: end a #join only if its own functions have no more
 items

An invalid index inside of a joined fragment, or of a call like #f9 in
the template, was taken for the end of the list: the item and all after
it were silently dropped from the query instead of reporting the error.
---
 func_builtin.go | 25 +++++++++++++++++++++++--
 properties.go   | 21 +++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/func_builtin.go b/func_builtin.go
index d994016..2921b59 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -70,8 +70,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		nArgs := len(ctx.Args())
-		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		s, end, err := buildJoinItem(ctx, c, calls)
+		if end {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -99,6 +99,27 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// buildJoinItem builds the #join template with the index already set to calls,
+// the calls of the functions in it. The end is true if err is an invalid index
+// of one of them, which is not the case if it comes from any other reference
+// in the template or from a reference inside of what they build.
+func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (item string, end bool, err error) {
+	b := new(strings.Builder)
+	for _, expr := range tmpl.ExprList {
+		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
+		if err != nil {
+			if errors.Is(err, ErrInvalidIndex) && !errors.As(err, new(*nestedError)) {
+				for _, call := range calls {
+					end = end || expr == syntax.Expr(call)
+				}
+			}
+			return "", end, err
+		}
+		b.WriteString(s)
+	}
+	return b.String(), false, nil
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
diff --git a/properties.go b/properties.go
index cde4a8a..da89969 100644
--- a/properties.go
+++ b/properties.go
@@ -1,6 +1,9 @@
 package sqlf
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
 
 // Properties is a list of properties.
 type Properties []Property
@@ -15,7 +18,21 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	s, err := p[i-1].BuildFragment(ctx)
+	if errors.Is(err, ErrInvalidIndex) {
+		return "", &nestedError{err}
+	}
+	return s, err
+}
+
+// nestedError is an ErrInvalidIndex of a reference inside of the property,
+// so it doesn't mean that the index of the property itself is invalid.
+type nestedError struct {
+	error
+}
+
+func (e *nestedError) Unwrap() error {
+	return e.error
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From c4d949bfd5aa7218a3ee9287508c87a2dcecf126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 10/33] fix: report items that a #join has no counterpart for
 as unused

With more fragments than args, '#join('#fragment=#arg', ',')' dropped the
surplus fragments silently, because the iteration that ends the #join
had marked one as used. Surplus args were reported already.
---
 func_builtin.go | 34 +++++++++++++++++++++++++++-------
 properties.go   | 11 +++++++++++
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/func_builtin.go b/func_builtin.go
index 2921b59..9bba62b 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -70,7 +70,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		nArgs := len(ctx.Args())
-		s, end, err := buildJoinItem(ctx, c, calls)
+		s, end, err := buildJoinItem(ctx, c, calls, i)
 		if end {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
@@ -99,22 +99,42 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
-// buildJoinItem builds the #join template with the index already set to calls,
-// the calls of the functions in it. The end is true if err is an invalid index
+// buildJoinItem builds the #join template with the index, which is already set to
+// calls, the calls of the functions in it. The end is true if err is an invalid index
 // of one of them, which is not the case if it comes from any other reference
 // in the template or from a reference inside of what they build.
-func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (item string, end bool, err error) {
+func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr, index int) (item string, end bool, err error) {
+	fc, err := ctx.mustFragment()
+	if err != nil {
+		return "", false, err
+	}
 	b := new(strings.Builder)
+	var used []*defaultProperty // first used by the calls
 	for _, expr := range tmpl.ExprList {
+		isCall := false
+		for _, call := range calls {
+			isCall = isCall || expr == syntax.Expr(call)
+		}
+		var unused []*defaultProperty
+		if isCall {
+			unused = append(fc.Args.unused(index), fc.Fragments.unused(index)...)
+		}
 		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
 		if err != nil {
-			if errors.Is(err, ErrInvalidIndex) && !errors.As(err, new(*nestedError)) {
-				for _, call := range calls {
-					end = end || expr == syntax.Expr(call)
+			end = isCall && errors.Is(err, ErrInvalidIndex) && !errors.As(err, new(*nestedError))
+			if end {
+				// what the calls before built is not going to be in the query
+				for _, prop := range used {
+					prop.used = false
 				}
 			}
 			return "", end, err
 		}
+		for _, prop := range unused {
+			if prop.used {
+				used = append(used, prop)
+			}
+		}
 		b.WriteString(s)
 	}
 	return b.String(), false, nil
diff --git a/properties.go b/properties.go
index da89969..4871ebe 100644
--- a/properties.go
+++ b/properties.go
@@ -45,6 +45,17 @@ func (p Properties) checkUsage() error {
 	return nil
 }
 
+// unused returns the property at i if there is one and it's not used yet.
+func (p Properties) unused(i int) []*defaultProperty {
+	if i < 1 || i > len(p) {
+		return nil
+	}
+	if prop, ok := p[i-1].(*defaultProperty); ok && !prop.used {
+		return []*defaultProperty{prop}
+	}
+	return nil
+}
+
 // NewFragmentProperties creates new properties from FragmentBuilder.
 // It's useful for creating global fragment properties shared between fragments,
 // see examples for ContextWithFuncs() for how to use it.
-- 
2.43.0


From e76c597b6e939ae7de51dba7bbd5f79162143e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 11/33] fix: report a missing from table of a query builder

The build panicked, or returned an invalid query if there was a join.
---
 sqlb/query_builder_dependecy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..71937b3 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -8,6 +8,10 @@ import (
 
 // collectDependencies collects the dependencies of the tables.
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+	// joins reserve the position of the from table
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, fmt.Errorf("no from table")
+	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.touches,
-- 
2.43.0


From 84264d84014418b65f137db624cb2c5ee60de4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 12/33] fix: build query builders with nil fragments in their
 expressions

A nil fragment builds empty in a fragment, but looking for the tables
that an expression uses panicked on it.
---
 sqlb/query_builder_dependecy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 71937b3..8b1bc78 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -95,6 +95,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
+			if fragment == nil {
+				continue
+			}
 			extractTables2(fragment.Fragments, tables, dict)
 			continue
 		}
@@ -103,7 +106,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From f990cc3acfea91166d4a2f90ef06cfdcfc3ba769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 13/33] fix: join without condition, and without touching the
 given one

CrossJoin always panicked, as did the other joins with a nil condition,
and the condition was given the prefix ON also for its other uses.
---
 sqlb/query_builder_join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..1d2e23b 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -103,7 +103,7 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			sqlf.Ff("#f1", on).WithPrefix("ON"),
 		),
 		Optional: optional,
 	}
-- 
2.43.0


From eb53ee25898bcbbc336364a6125d1d73d7051b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 14/33] fix: forget the table replaced by another From

Joining the replaced table afterwards was taken for a redeclaration of
it, so the join got lost.
---
 sqlb/query_builder_join.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 1d2e23b..c0ce127 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -24,6 +24,7 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		delete(b.tablesDict, b.tables[0].Names.AppliedName())
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
-- 
2.43.0


From df730588ef2d56af75c3ff4be4fa08825337c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 15/33] fix: report a name used for both the from table and a
 join

Joining a table with the name of the from table replaced it, and the
query was built without a from table: FROM LEFT JOIN foo AS f ON ...
---
 sqlb/query_builder_join.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index c0ce127..0791ddf 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -12,6 +12,10 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		b.pushError(fmt.Errorf("from table is empty"))
 		return b
 	}
+	if target, ok := b.tablesDict[t.AppliedName()]; ok && target != b.tables[0] {
+		b.pushError(fmt.Errorf("from table '%s' is already joined", t.AppliedName()))
+		return b
+	}
 	tableAndAlias := string(t.Name)
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + string(t.Alias)
@@ -109,6 +113,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("join table '%s' is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 230d6911bd35b643793b21c828738c779c1988c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 16/33] fix: report an invalid order in the first build already

The error was collected during the build, after collected errors had
been checked: the first build just left out the item.
---
 sqlb/query_builder_order.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..9e1b71c 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -43,8 +43,7 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
+			return "", fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
-- 
2.43.0


From de946d3722001f1d6642faac1b029970b4e2d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 17/33] fix: don't change the query builder by building it

Every build of a DISTINCT query with ORDER BY added the columns to order
by to the select list once more, and builds raced with each other.
---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 22 ++++++++++++++--------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 13 ++++++++-----
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..507092d 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,11 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	orders, touches, err := b.orderFragments()
+	if err != nil {
+		return "", err
+	}
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +98,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -145,17 +148,20 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+// buildSelects builds the select columns, and the touches, which are selected but
+// their values are dropped in scanning.
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, touched *sqlf.Fragment) (string, error) {
+	selects := *b.selects
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
+		selects.Prefix = "SELECT DISTINCT"
 	} else {
-		b.selects.Prefix = "SELECT"
+		selects.Prefix = "SELECT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := touched.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 8b1bc78..73630d5 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -14,7 +14,6 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 9e1b71c..2866fe0 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -39,11 +39,14 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
-	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+// orderFragments returns the fragments for the ORDER BY clause and for the select
+// columns it requires.
+func (b *QueryBuilder) orderFragments() (f, touches *sqlf.Fragment, err error) {
+	f = sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			return "", fmt.Errorf("invalid order: %d", item.order)
+			return nil, nil, fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -55,10 +58,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f, touches, nil
 }
-- 
2.43.0


From 4bbfc88a0db5caa2f04b40d458d70c400d9eba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 18/33] fix: build select columns before the clauses that
 follow them

Args of select columns were committed after those of FROM to ORDER BY,
so with question style they were bound to the wrong placeholders.
---
 sqlb/query_builder_build.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 507092d..1b78068 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,16 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	orders, touches, err := b.orderFragments()
+	if err != nil {
+		return "", err
+	}
+	// clauses must be built in the order of the query, so are the args
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,10 +88,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	orders, touches, err := b.orderFragments()
-	if err != nil {
-		return "", err
-	}
 	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
@@ -98,11 +101,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	sel, err := b.buildSelects(ctx, touches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
-- 
2.43.0


From 48da0307603f2606905b8a4c83d7ddc2e14028e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 19/33] fix: don't mix up CTEs and tables of the same name in
 dependencies

CTEs were marked as tables without alias: with a CTE joined or selected
from without an alias, the CTEs it depends on were left out, and an
optional join named like a CTE used elsewhere was kept.
---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 1b78068..c6ce60b 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -44,12 +44,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	}
 	clauses := make([]string, 0)
 
-	dep, err := b.collectDependencies()
+	dep, cteDep, err := b.collectDependencies()
 	if err != nil {
 		return "", err
 	}
 
-	sq, err := b.buildCTEs(ctx, dep)
+	sq, err := b.buildCTEs(ctx, cteDep)
 	if err != nil {
 		return "", err
 	}
@@ -119,13 +119,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 73630d5..0abb18e 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -6,11 +6,11 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
-// collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+// collectDependencies collects the dependencies of the tables and of the CTEs.
+func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]bool, error) {
 	// joins reserve the position of the from table
 	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
-		return nil, fmt.Errorf("no from table")
+		return nil, nil, fmt.Errorf("no from table")
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
@@ -28,27 +28,27 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 	}
 	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return deps, ctes, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
+	if deps[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
-- 
2.43.0


From 50d1554350abaed43bbfaaf8fee66137ab45808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 20/33] fix: keep optional joins that the condition of another
 join needs

A join that no column of is used, but is kept since it's not optional,
didn't count for finding the optional joins to trim, so its condition
could refer to a table missing from the query.
---
 sqlb/query_builder_dependecy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 0abb18e..401ac97 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -31,6 +31,18 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]b
 			return nil, nil, err
 		}
 	}
+	if b.distinct {
+		// joins never trimmed may depend on optional ones
+		for _, t := range b.tables {
+			if t.Optional {
+				continue
+			}
+			err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+			if err != nil {
+				return nil, nil, err
+			}
+		}
+	}
 	// mark for CTEs
 	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
-- 
2.43.0


From 9bb7e08bc1b826f1b99ccaccd4b17014b8c5bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 21/33] fix: leave out UNION if all its queries are empty

It was built as 'UNION ()'.
---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index c6ce60b..860fca2 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -199,5 +199,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 0f7c9b261c1783077df0dfc7da2f7c8fe8a2af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 22/33] fix: report errors that end the rows in Scan

If reading rows failed halfway, the rows read so far were returned as if
they were the complete result.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 14eb16adfd2b3e83a4b3c054fbbf867af62c0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 23/33] fix: report bindvars without args in Interpolate

It panicked, and so did Count for a query that failed for that reason.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..83bcf45 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: no arg for bindvar %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From 38ae878b788f93adc2d16236a5ac268e914dfee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 24/33] fix: interpolate nil pointers as NULL

Nil pointers to valuers and stringers, e.g. (*time.Time)(nil), panicked.
---
 util/interpolate.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 83bcf45..39d5506 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -75,6 +75,11 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	case nil:
 		buf.WriteString("NULL")
 	case driver.Valuer:
+		if isNilPointer(v) && reflect.TypeOf(v).Elem().Implements(valuerType) {
+			// the method has no receiver to call it with, database/sql takes it for NULL
+			buf.WriteString("NULL")
+			break
+		}
 		val, err := v.Value()
 		if err != nil {
 			return nil, err
@@ -95,6 +100,10 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		buf.WriteString(v.Format(opts.TimeFormat))
 		buf.WriteRune('\'')
 	case fmt.Stringer:
+		if isNilPointer(v) {
+			buf.WriteString("NULL")
+			break
+		}
 		buf.Write(quoteStringValue(v.String()))
 	default:
 		primative := reflect.ValueOf(arg)
@@ -120,6 +129,13 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+var valuerType = reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+
+func isNilPointer(v any) bool {
+	rv := reflect.ValueOf(v)
+	return rv.Kind() == reflect.Pointer && rv.IsNil()
+}
+
 func quoteStringValue(s string) []byte {
 	buf := bytes.NewBuffer(nil)
 	buf.WriteRune('\'')
-- 
2.43.0


From dc560b55376ad503b84249a9fddffb72c19e8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 25/33] fix: interpolate floats without rounding them

They were cut to six decimals, e.g. 0.0000001 to 0.000000.
---
 util/interpolate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 39d5506..bed3a96 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 
@@ -119,7 +120,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
 		case reflect.Float32, reflect.Float64:
-			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
+			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits()))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
 		default:
-- 
2.43.0


From 63fdb6c38319adba4ca1a61062f3ca349f935633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 26/33] fix: report nil builders of CTEs and unions instead of
 panicking

---
 sqlb/query_builder_build.go | 6 ++++++
 sqlb/table_column.go        | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 860fca2..95f7c85 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -128,6 +128,9 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string,
 		if !dep[cte.name] {
 			continue
 		}
+		if cte.FragmentBuilder == nil {
+			return "", fmt.Errorf("build CTE '%s': nil builder", cte.name)
+		}
 		query, err := cte.BuildFragment(ctx)
 		if err != nil {
 			return "", fmt.Errorf("build CTE '%s': %w", cte.name, err)
@@ -190,6 +193,9 @@ func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (
 func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 	clauses := make([]string, 0, len(b.unions))
 	for _, union := range b.unions {
+		if union == nil {
+			return "", fmt.Errorf("build UNION: nil builder")
+		}
 		query, err := union.BuildFragment(ctx)
 		if err != nil {
 			return "", err
diff --git a/sqlb/table_column.go b/sqlb/table_column.go
index 71f31f2..8f66510 100644
--- a/sqlb/table_column.go
+++ b/sqlb/table_column.go
@@ -1,6 +1,8 @@
 package sqlb
 
 import (
+	"errors"
+
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
@@ -20,6 +22,9 @@ type Column struct {
 
 // BuildFragment implements FragmentBuilder
 func (c *Column) BuildFragment(ctx *sqlf.Context) (query string, err error) {
+	if c == nil {
+		return "", errors.New("nil column")
+	}
 	return c.fragment.BuildFragment(ctx)
 }
 
-- 
2.43.0


From d1f5e6d5bf7e1b72c38219d13ffe197cc06d672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 27/33] fix: keep nil pointers to slices in ArgsFlatted instead
 of panicking

---
 util/args.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/util/args.go b/util/args.go
index b685cd5..6297bd7 100644
--- a/util/args.go
+++ b/util/args.go
@@ -45,25 +45,25 @@ func argsFrom(v any) []any {
 	case []string:
 		return Ttoa(a)
 	case *[]bool:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]float64:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]float32:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]int64:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]int32:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]int:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]uint64:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]uint32:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]uint:
-		return Ttoa(*a)
+		return fromPointer(a)
 	case *[]string:
-		return Ttoa(*a)
+		return fromPointer(a)
 	default:
 		return convertArrayReflect(v)
 	}
@@ -81,6 +81,14 @@ func Ttoa[T any](slice []T) []any {
 	return b
 }
 
+// fromPointer returns the elements of the slice, or a itself if it's nil.
+func fromPointer[T any](a *[]T) []any {
+	if a == nil {
+		return []any{a}
+	}
+	return Ttoa(*a)
+}
+
 func convertArrayReflect(slice any) []any {
 	rv := reflect.ValueOf(slice)
 	if rv.Kind() == reflect.Pointer {
-- 
2.43.0


From e4395953816764f1a2786f25a59726d55335c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 28/33] fix: don't append to lists shared with other fragments

---
 fragment.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..8aaec96 100644
--- a/fragment.go
+++ b/fragment.go
@@ -36,12 +36,18 @@ func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
 
 // AppendArgs appends args to f.
 func (f *Fragment) AppendArgs(args ...any) *Fragment {
-	f.Args = append(f.Args, args...)
+	f.Args = append(clip(f.Args), args...)
 	return f
 }
 
 // AppendFragments appends fragments to f.
 func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = append(f.Fragments, fragments...)
+	f.Fragments = append(clip(f.Fragments), fragments...)
 	return f
 }
+
+// clip limits the capacity of s to its length, so that appending to it
+// doesn't write to an array it may share with others.
+func clip[T any](s []T) []T {
+	return s[:len(s):len(s)]
+}
-- 
2.43.0


From f776ef4ec74b5abe4e317b79bb25857235313329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 29/33] fix: don't write behind the list of fields in ScanRow

---
 util/scan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..d679835 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -61,6 +61,7 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 	}
 	nBlacholes := len(cols) - len(dest)
 	bh := &blackhole{}
+	dest = dest[:len(dest):len(dest)] // don't write to what's behind the given list
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
 	}
-- 
2.43.0


From f64491fefc3afbcabc62e0423882a8e0cc4d986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 30/33] fix: double single quotes of formatted times in
 Interpolate

---
 util/interpolate.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index bed3a96..c8b0d29 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -97,9 +97,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		}
 		// In SQL standard, the precision of fractional seconds in time literal is up to 6 digits.
 		v = v.Round(time.Microsecond)
-		buf.WriteRune('\'')
-		buf.WriteString(v.Format(opts.TimeFormat))
-		buf.WriteRune('\'')
+		buf.Write(quoteStringValue(v.Format(opts.TimeFormat)))
 	case fmt.Stringer:
 		if isNilPointer(v) {
 			buf.WriteString("NULL")
-- 
2.43.0


From 159e561ccd5c512b7528d411761eec46a0c4621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 31/33] fix: don't start a comment with a negative number in
 Interpolate

---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index c8b0d29..25c413e 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -62,6 +62,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 			if err != nil {
 				return "", err
 			}
+			if bytes.HasPrefix(v, []byte("-")) && strings.HasSuffix(b.String(), "-") {
+				// don't make it the start of a comment
+				b.WriteByte(' ')
+			}
 			b.Write(v)
 		default:
 			return "", fmt.Errorf("%s: unsupported declaration", decl.Pos())
-- 
2.43.0


From 1f3eebfc604a177f09f7a4ec8973a14bc8fc3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 32/33] fix: log the nested query with its own args in debug
 mode

---
 context.go                  |  5 +++++
 sqlb/query_builder_build.go | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 7a65ee6..1c1a3c7 100644
--- a/context.go
+++ b/context.go
@@ -26,6 +26,11 @@ func NewContext(bindVarStyle syntax.BindVarStyle) *Context {
 	return ctx
 }
 
+// BindVarStyle returns the bindvar style of the built query.
+func (c *Context) BindVarStyle() syntax.BindVarStyle {
+	return c.root().bindVarStyle
+}
+
 func newEmptyContext(bindVarStyle syntax.BindVarStyle) *Context {
 	var argStore argStore
 	if bindVarStyle == syntax.Dollar {
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 95f7c85..6c8d377 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -39,10 +39,14 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b == nil {
 		return "", nil
 	}
+	if ctx == nil {
+		return "", fmt.Errorf("nil context")
+	}
 	if err := b.anyError(); err != nil {
 		return "", err
 	}
 	clauses := make([]string, 0)
+	nArgs := len(ctx.Args()) // args before this query
 
 	dep, cteDep, err := b.collectDependencies()
 	if err != nil {
@@ -110,7 +114,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		query = strings.TrimSpace(query + " " + union)
 	}
 	if b.debug {
-		interpolated, err := util.Interpolate(query, ctx.Args())
+		args := ctx.Args()
+		if ctx.BindVarStyle() != syntax.Dollar {
+			// the unindexed placeholders count from the first arg of the query
+			args = args[nArgs:]
+		}
+		interpolated, err := util.Interpolate(query, args)
 		if err != nil {
 			log.Printf("debug: interpolated query: %s\n", err)
 		}
-- 
2.43.0


From da01f372c1867db044219e973c7d8da6b9497e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 33/33] fix: report nil fragments of property lists as an error

Building a property of NewFragmentProperties(nil) panicked.
---
 property.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/property.go b/property.go
index 7bd51b5..4b4b3b9 100644
--- a/property.go
+++ b/property.go
@@ -1,5 +1,7 @@
 package sqlf
 
+import "errors"
+
 // Property is the interface for properties.
 type Property interface {
 	FragmentBuilder
@@ -36,5 +38,8 @@ func (p *defaultProperty) Used() bool {
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
 	p.used = true
+	if p.value == nil {
+		return "", errors.New("nil fragment")
+	}
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0

