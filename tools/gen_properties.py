#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays valid)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "A fragment tree expands to exactly its composed SQL text",
  "Building a fragment yields its template with every bind variable replaced by a placeholder for the argument it names and every #f, #fragment or #arg reference (the #f1 and #f(1) spellings alike) replaced by what the referenced item builds to, recursively and in order, with all other text unchanged except that whitespace at both ends of a fragment's body is trimmed. Prefix and suffix are added, one space away from the body, if and only if the trimmed body is non-empty. Indexes are 1-based and local to the fragment whose template contains them, and the same fragment may be referenced many times or shared by several parents.",
  ["inputs", "programs"], "every tree (or DAG) of fragments, templates, arguments, prefixes/suffixes, custom fragment builders, both bind-variable styles",
  "13 hand-written fragments are compared with literal strings; composition depth, sharing, empty bodies and mixed reference kinds are unbounded and only a handful of points are sampled.",
  ["build.go", "fragment.go", "properties.go", "property.go", "context_fragment.go", "func_builtin.go", "shortcut.go"],
  [("Fragment.BuildFragment: parse, expand, trim, prefix/suffix", "build.go"), ("per-fragment Args/Fragments scope", "context_fragment.go")],
  ["(*sqlf.Fragment).BuildQuery", "(*sqlf.Fragment).BuildFragment"])

p("C02", "Emitted placeholders and returned args always correspond",
  "In every successful build, the ? style returns exactly one argument per emitted placeholder, in left-to-right order of the text, and the $n style emits only numbers inside the returned list and mentions every entry of it at least once. Each emitted placeholder denotes exactly the value its author bound at that place, so the ? and the $n build of one query are the same statement up to placeholder spelling. This holds for nested and repeatedly referenced fragments, for #join templates that combine several functions, calls and bind variables, and for query builders used inside fragments.",
  ["inputs", "programs"], "every fragment tree and argument list, both styles",
  "A wrong pairing needs a particular combination (list lengths that differ, a fragment with its own args inside a #join, a repeated reference); tests compare a few fixed queries, mostly in $n style where merging hides surplus args.",
  ["context_args.go", "func_builtin.go", "build.go"],
  [("args are committed in the order the text is produced", "build.go buildClause"), ("the iteration that ends a #join leaves no args behind", "func_builtin.go funcJoin")],
  ["query and args returned by BuildQuery / Context.Args()"],
  [dict(name="arg store", meaning="args committed so far by one build", where="context_args.go")])

p("C03", "No reference dangles and nothing supplied is silently dropped",
  "A build fails with an error when a template at any depth refers to an argument, a fragment or a preprocessing function that does not exist, when a function is named without being called outside a #join template, or when an argument or fragment handed to a fragment is not referenced by its template. An invalid reference inside a nested fragment fails the whole build; it never shortens or empties the output, also when the nested fragment is reached through #join. A failed BuildQuery returns no SQL and no args.",
  ["inputs", "programs"], "every fragment tree and every single reference or supplied item of it being invalid or superfluous",
  "Tests contain one failing template; whether an error is raised for every position, depth and kind of bad reference is a universally quantified claim.",
  ["build.go", "context_fragment.go", "properties.go", "func_builtin.go", "func_exec.go"],
  [("usage tracking and check per fragment", "context_fragment.go checkUsage, property.go"), ("index range checks", "build.go, properties.go"), ("error propagation through #join", "func_builtin.go")],
  ["error result of BuildQuery"],
  [dict(name="used flag", meaning="the item was referenced by this build of the fragment", where="property.go")])

p("C04", "#join visits exactly the requested indexes",
  "#join('T', S, from, to) builds T once for each index from `from` (default 1) to `to` (default: as far as the functions of T have items), giving the index to each function of T and leaving the calls and bind variables of T fixed, and concatenates the non-empty results in index order with S between them. Iteration without an explicit end stops at the first index some function of T does not have, and that attempt leaves no trace in text, args or in which items its functions visit count as used. An explicitly requested index that does not exist, a range whose end precedes its start, a template without a function, and an unknown or join-incompatible function (one that does not take a single number, after an optional context, and return a string and an error, or that does not report an invalid index for 0) are errors, as are calls with other arguments than a template, a separator and up to two indexes, and a malformed template.",
  ["inputs", "programs"], "every template of text, quotes, bind vars, functions and calls, every separator, range, list length, and custom function",
  "Tests use three ranges over args only; the interaction of range, list lengths, empty items, multi-function templates and custom functions is not enumerated.",
  ["func_builtin.go", "func.go", "syntax/parser.go"],
  [("funcJoin loop, range checks, end detection", "func_builtin.go"), ("join compatibility probe", "func.go joinCompatibility")],
  ["result of building a fragment containing #join"])

p("C05", "Template parsing is total and accounts for every byte",
  "Parsing any string whatsoever terminates, without panicking, with either an error or a list of nodes which in order account for the whole input: literal text, bind variables (? numbered by occurrence, $n with the written number), function values #name, and function calls #name1 or #name(args) with typed arguments (number, single-quoted string with '' read as ', true/false, null/nil). Two different parses of the same string never differ. Malformed templates are rejected: ? and $n mixed in one template in either order, $ without a number from 1 up, ? followed by a digit 1-9, # without a name, an unclosed argument list or string argument, and arguments that are not literals or not separated by commas.",
  ["inputs"], "every string, including invalid UTF-8, NUL bytes, unterminated quotes and any nesting of markers",
  "18 strings are parsed or scanned by tests; some of them assert nothing when an expected error is missing.",
  ["syntax/lexer.go", "syntax/scanner.go", "syntax/parser.go", "syntax/nodes.go", "syntax/token.go"],
  [("state-function scanner", "syntax/scanner.go"), ("token parser", "syntax/parser.go")],
  ["syntax.Parse"])

p("C06", "Quoted and literal text reaches the SQL byte for byte",
  "Text inside single, double or backtick quotes (with '' inside single quotes) is never interpreted, whatever markers it contains, and is emitted unchanged together with its quotes; the doubled markers $$ and ?? are literal text and are emitted as written. Every other character outside markers, including NUL, control characters, multi-byte and invalid UTF-8, is emitted unchanged at its place. Text that fragments or tables contribute to an enclosing template is never interpreted a second time.",
  ["inputs"], "every literal text and quoting around every kind of marker, at every nesting depth",
  "Tests contain three quoted strings; losing or interpreting a byte depends on the exact neighbourhood of quotes and markers.",
  ["syntax/scanner.go", "syntax/lexer.go", "syntax/parser.go", "build.go", "sqlb/table.go"],
  [("quoted plain text state", "syntax/scanner.go scanQuotedPlain"), ("single expansion pass", "build.go buildClause")],
  ["query text of BuildQuery"])

p("C07", "Custom functions are vetted at registration and called faithfully",
  "Registering functions succeeds exactly when every name consists of letters A-Z, a-z and underscores and every value is a function that takes numbers, strings or bools (optionally a context first, optionally variadic) and returns nothing, a string, or a string and an error. A call in a template passes its literal arguments in order and converted to the parameter types, with the current build context where asked for, and is replaced by the returned string. Calls with a wrong number or kind of arguments, undefined names, returned errors and panics inside the function all make the build return an error (which still matches the returned or panicked error), never a panic.",
  ["inputs", "programs"], "every function signature, name, and literal argument list",
  "Tests register two functions; signatures x arguments is a large product driven through reflection.",
  ["func.go", "func_exec.go", "context_func.go", "syntax/parser.go"],
  [("signature checks", "func.go goodFunc/goodName"), ("argument conversion and recover", "func_exec.go evalCall/evalArg/safeCall")],
  ["sqlf.ContextWithFuncs", "(*sqlf.Fragment).BuildFragment"])

p("C08", "Functions are scoped to the context they were added to",
  "Adding functions to a context gives a new context in which a name resolves to the most recently added definition on its path to the root, built-ins included, while the original context and contexts derived from it elsewhere behave as before. The functions are visible in templates at every depth below the build started with that context, and a function that asks for the context can itself build fragments in it. A context and everything derived from it share one list of args, in the order they were committed.",
  ["histories", "programs"], "every tree of derived contexts and every interleaving of builds in them",
  "One test and one example derive a single child context; shadowing, siblings and later builds in ancestors are histories no test samples.",
  ["context.go", "contex_with.go", "context_func.go", "context_args.go", "context_fragment.go"],
  [("parent-chain lookup", "contex_with.go contextValue"), ("root arg store", "context_args.go")],
  ["sqlf.ContextWithFuncs", "Context.Args", "Context.CommitArg"],
  [dict(name="context chain", meaning="functions and args visible to a build", where="context.go")])

p("C09", "Building never panics",
  "Building any fragment or query builder returns a result or an error and never panics, whatever the template text, the argument values (byte slices, maps, structs holding them, NaN, nil and typed nils included), the literal arguments of function calls, and whatever items are missing: nil fragments, nil columns or columns of nil expressions, joins without condition, builders without tables or columns, nil builders. Panics raised by preprocessing functions, or by items referenced through them, surface as errors.",
  ["inputs", "programs", "fault_sequences"], "every template text, argument value, literal argument, and misuse of the builder API",
  "Crashes hide in combinations (unhashable arg with direct $1, number passed where a string is wanted, a builder with no FROM) that example tests do not visit.",
  ["build.go", "context_args.go", "func_exec.go", "func_builtin.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go"],
  [("recover around function calls", "func_exec.go safeCall"), ("nil receivers handled", "build.go, sqlb/query_builder_build.go")],
  ["BuildQuery / BuildFragment"])

p("C10", "Building is read-only and repeatable",
  "Building does not change anything the caller supplied: building the same fragment or query builder again, in either style, any number of times, with other builds of things that share parts of it in between, or concurrently from several goroutines each using its own build, gives the same query and args as a first build. Handing a fragment to a join, condition, column, CTE or union of a builder leaves what the fragment itself builds to unchanged. Turning on a builder's debug output does not change its result.",
  ["histories", "schedules", "programs"], "every sequence or concurrent set of builds over values that share parts",
  "Tests build each value once, except one example that builds a non-distinct, unordered query twice.",
  ["sqlb/query_builder_build.go", "sqlb/query_builder_order.go", "sqlb/query_builder_join.go", "build.go", "context_fragment.go"],
  [("all build state lives in the per-build context", "context.go, context_fragment.go"), ("ORDER BY select-list columns computed per build", "sqlb/query_builder_order.go")],
  ["BuildQuery called repeatedly, race detector"])

p("C11", "Argument merging keeps every value at a stable number",
  "In $n style, args committed in one build that are equal (same type and ==) share one placeholder and one entry while different args never do, and numbers are given 1, 2, 3, ... in order of first commit. Values Go cannot compare are committed as separate entries. In ? style every commit appends its own entry and yields ?; in both styles the args list contains exactly the committed values in that order.",
  ["histories", "inputs"], "every sequence of committed values of any dynamic types, through contexts directly or through templates",
  "One test merges two equal ints; type-distinct equals, uncomparable values and long histories are not sampled.",
  ["context_args.go", "properties.go"],
  [("dollarArgStore / questionArgStore", "context_args.go")],
  ["Context.CommitArg", "Context.Args", "BuildQuery"])

p("C12", "A query builder renders exactly its declared parts, in SQL order",
  "The SQL of a query builder consists of WITH, SELECT (DISTINCT if set) with the columns of the last Select, FROM with the joins, WHERE with all non-empty conditions joined by AND, GROUP BY, ORDER BY with the declared direction of each column, LIMIT and OFFSET when positive, and each non-empty UNION member in parentheses, in this order; a part is present if and only if something was declared for it, and items keep their declaration order. Each join shows its kind, the table with its alias, and ON with its condition unless that is empty. Columns of a table are qualified by its alias, or its name if it has none; anonymous columns are not qualified.",
  ["programs", "inputs"], "every program of builder calls over tables, columns, expressions, conditions, unions and nested builders",
  "Five queries are compared with strings; most clauses (RIGHT/FULL/CROSS JOIN, GROUP BY, ORDER BY, LIMIT, OFFSET, NOT IN) are in no test at all.",
  ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go", "sqlb/query_builder_where.go", "sqlb/query_builder_with.go", "sqlb/table.go", "sqlb/table_aliased.go", "sqlb/table_column.go"],
  [("buildInternal assembles clauses", "sqlb/query_builder_build.go")],
  ["(*sqlb.QueryBuilder).BuildQuery"])

p("C13", "Query builder args follow the placeholders of the final SQL",
  "For every query builder, in ? style the returned args are in the order in which their placeholders occur in the final SQL and as many as these, and in $n style each $n of the SQL denotes the value bound at that place, wherever values were bound: CTEs, selected expressions, join conditions, conditions, GROUP BY and ORDER BY expressions, nested builders and unions. When the builder is used inside a fragment or another builder the correspondence holds for the whole statement.",
  ["programs", "inputs"], "every builder program that binds values in any subset of clauses, both styles",
  "All tested builders bind values only in WHERE, CTE and UNION, and only one is built in ? style.",
  ["sqlb/query_builder_build.go", "context_args.go", "util/args.go"],
  [("clauses are built in the order they appear", "sqlb/query_builder_build.go buildInternal")],
  ["query and args of BuildQuery"])

p("C14", "Join elimination drops only joins nothing needs",
  "Under DISTINCT, an optional left join is left out if and only if no column or table of it is used by the selected, filtering, grouping or ordering expressions or, transitively, by the ON condition of a join that is kept; without DISTINCT, and for all other joins, nothing is left out. Consequently every table that an emitted clause uses is declared in the emitted FROM clause. Leaving a join out removes nothing else and reorders nothing.",
  ["programs", "configurations"], "every set of tables, aliases, optional and mandatory joins, and every reference graph between their ON conditions",
  "Tests cover one referenced and two unreferenced optional joins without chains; the claim is about a transitive closure over arbitrary graphs.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/table_column.go"],
  [("dependency closure", "sqlb/query_builder_dependecy.go")],
  ["FROM clause of the built query"],
  [dict(name="dependency set", meaning="tables needed by the emitted clauses", where="sqlb/query_builder_dependecy.go")])

p("C15", "Exactly the needed CTEs are emitted",
  "A declared CTE is emitted if and only if a table kept in the FROM clause (main table or join, under any alias or none) has its name, or it is a declared dependency, directly or through other CTEs, of an emitted one; cyclic declarations included. Emitted CTEs keep their declaration order and those whose body builds empty are skipped. CTEs of joins that were eliminated are not emitted on their account.",
  ["programs", "configurations"], "every set of CTEs, dependency graph, table aliases and join elimination outcome",
  "Two tests emit one CTE each and no test declares a dependency between CTEs.",
  ["sqlb/query_builder_with.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go"],
  [("collectDepsFromCTE", "sqlb/query_builder_dependecy.go"), ("buildCTEs", "sqlb/query_builder_build.go")],
  ["WITH clause of the built query"])

p("C16", "Table declarations end up in FROM whatever the call history",
  "Whatever the order of calls, the main table is the one given to the last From, and the joins are exactly those declared, one per applied name (alias, or name without alias): declaring a name again replaces the earlier join at its position with the new table, kind, condition and optional flag, and no declared join is lost or duplicated. A builder keeps accepting calls after it has been built, and a later build reflects all calls made so far.",
  ["histories"], "every sequence of From, join and build calls over tables with shared names and aliases",
  "Tests call From once, before the joins, and never redeclare a join or build between calls.",
  ["sqlb/query_builder_join.go", "sqlb/query_builder_build.go"],
  [("tables list and applied-name dictionary", "sqlb/query_builder_join.go")],
  ["FROM clause of the built query"],
  [dict(name="tables / tablesDict", meaning="declared tables in order and by applied name", where="sqlb/query_builder.go")])

p("C17", "Builder misuse is reported by the build, never papered over",
  "A build of a query builder, the first as well as later ones, returns an error and no SQL when a table with an empty name was given to From or a join, no From table was declared, one applied name is used for both the main table and a join, no column was selected, an ordering is not one of the defined constants, a selected, filtering, grouping or ordering expression uses a table that is not declared, or so does the ON condition of a join such an expression uses. An error in any nested expression, CTE, union member or nested builder also fails the build. No such mistake results in a query with the offending part missing.",
  ["programs", "histories"], "every otherwise valid builder program with one or more misuses injected anywhere",
  "No test builds an invalid query builder.",
  ["sqlb/query_builder_errors.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go"],
  [("collected errors checked at build", "sqlb/query_builder_errors.go"), ("undeclared table check", "sqlb/query_builder_dependecy.go")],
  ["error of (*sqlb.QueryBuilder).BuildQuery"])

p("C18", "Interpolation substitutes faithful SQL literals",
  "Interpolating args into a query replaces each bind variable outside quotes with the SQL literal of its argument and changes nothing else: nil is NULL, bools TRUE/FALSE, integers exact decimals, finite floats decimals that read back as the same value, strings and stringers single-quoted with every ' doubled so that any string reads back unchanged, times quoted in the format chosen last, rounded to microseconds (the zero time as '0000-00-00'), and values implementing the SQL driver value interface are resolved first, nil pointers among them as NULL. A space keeps the minus sign of a negative number apart from one in front of it. A bind variable without a corresponding argument, an unsupported argument type, a failing value and a preprocessing function in the query are errors, and it panics only if a value's own method does.",
  ["inputs"], "every query text, argument list and supported or unsupported value",
  "One example with a plain string and a time is executed.",
  ["util/interpolate.go", "syntax/parser.go"],
  [("encodeValue / quoteStringValue", "util/interpolate.go")],
  ["util.Interpolate"])

p("C19", "Scanning returns all rows or an error, and releases them",
  "Scanning a query either returns one element per row, in row order, each filled from its own row, or returns an error and no elements: an error from running the query, from reading any row (the end of the result included), or from converting any column is never swallowed. Columns beyond the scanned fields are dropped with the list of fields left as it was, fewer columns than fields is an error. The rows are released on every path, and when building the query fails nothing is sent to the database.",
  ["fault_sequences", "inputs"], "every result set (row count, column count, values) and every point at which the driver can fail",
  "The examples compile against a nil database and never run a query.",
  ["util/scan.go"],
  [("Scan / ScanRow / ScanBuilder", "util/scan.go")],
  ["util.Scan", "util.ScanBuilder", "util.ScanRow", "open rows of a fake driver"])

p("C20", "Counting wraps the very query and reports failures",
  "Counting a query asks the database for SELECT COUNT(1) over exactly that query as a subselect with exactly its args, and returns the number the database answers, or 0 if it answers with no row. Any other failure (query, row, conversion) is returned as an error that matches the database error, also when the query's placeholders do not fit the args; it never panics. Counting a builder sends what the builder builds in the requested style, and sends nothing if building fails.",
  ["fault_sequences", "inputs"], "every query text, arg list, answer and driver failure",
  "The examples compile against a nil database and never run a query.",
  ["util/scan.go", "util/interpolate.go"],
  [("Count / CountBuilder", "util/scan.go")],
  ["util.Count", "util.CountBuilder", "statements seen by a fake driver"])

p("C21", "Flattening args keeps every value, in order, one level deep",
  "Flattening a list of values yields, in order, each element of every slice, array or pointer to one, one level deep and with its own type, and each other value itself (nil, nil pointers, strings, maps, structs and pointers to non-lists included); nil and empty lists contribute nothing, the inputs are not modified, and converting one list to a list of any does the same for its elements. WhereIn and WhereNotIn emit the column, IN or NOT IN, and one placeholder per flattened element in parentheses, bound to the elements in order.",
  ["inputs"], "every list of values of any types, nested to any depth",
  "Eight lists are tested; there are ten specialised type branches for pointers and ten for slices plus a reflective one, most untested.",
  ["util/args.go", "sqlb/query_builder_where.go"],
  [("argsFrom type switch and reflective fallback", "util/args.go")],
  ["util.ArgsFlatted", "(*sqlb.QueryBuilder).WhereIn/WhereNotIn"])

p("C22", "Parsed nodes carry their true source position",
  "The position of every bind variable, function value and function call node of a parsed template is the 1-based line and 1-based column, counted in characters, of its first character in the input; the same holds for text nodes that do not begin with a line break. Positions of successive nodes never go backwards, and a position prints as line:column.",
  ["inputs"], "every accepted template, with any mix of line breaks and multi-byte characters",
  "Tests check columns of single-line ASCII templates only.",
  ["syntax/lexer.go", "syntax/pos.go", "syntax/scanner.go", "syntax/parser.go"],
  [("line/col bookkeeping", "syntax/lexer.go Next"), ("token start positions", "syntax/scanner.go emitToken")],
  ["syntax.Parse, Node.Pos()"])

p("C23", "ORDER BY under DISTINCT selects what it sorts by",
  "For a DISTINCT query, each ordering expression is appended to the select list, after the selected columns and in order, under an alias of its own, and ORDER BY refers to these aliases in declaration order with the declared directions; the selected columns keep their leading positions, so scanning them by position works unchanged. For other queries ordering expressions appear only in ORDER BY and the select list is exactly the selected columns. Building again adds nothing further.",
  ["programs", "histories"], "every list of ordering expressions and directions, distinct or not, built any number of times",
  "No test or example uses OrderBy.",
  ["sqlb/query_builder_order.go", "sqlb/query_builder_build.go", "util/scan.go"],
  [("order touches", "sqlb/query_builder_order.go"), ("ScanRow drops extra columns", "util/scan.go")],
  ["select list and ORDER BY of the built query"])

p("C24", "Shared property lists behave as 1-based global lists",
  "A list of args or fragments made once and served by a custom function can be referenced by index from any number of fragments and builds: index i from 1 to its length yields exactly what item i builds to in the build that asks (committing its arg there, merged with the other args), and every other index yields the invalid-index error that ends a #join and fails an explicit reference. An item reports being used exactly from its first build, or from being marked, on, and items never referenced cause no error.",
  ["histories", "inputs"], "every list, index, order of references and number of builds sharing the list",
  "One example serves three args to two fragments in one build.",
  ["properties.go", "property.go", "errors.go"],
  [("Properties.Build", "properties.go"), ("defaultProperty usage flag", "property.go")],
  ["sqlf.NewArgsProperties", "sqlf.NewFragmentProperties", "Properties.Build", "Property.Used"])

p("C25", "Changing one fragment never changes another",
  "Setting prefix, suffix, args or fragments on a fragment replaces them, appending extends them, and both return the same fragment and affect nothing but it. Fragments created from, or given, the same list of args or fragments stay independent: whatever is appended to one, every other fragment still builds with its own items, and the caller's list is unchanged. What is changed between two builds, the text of an item included, is in the second one.",
  ["histories"], "every sequence of creation, set, append and build calls on several fragments over shared lists",
  "Tests configure each fragment once and share no list between fragments.",
  ["fragment.go", "shortcut.go"],
  [("With*/Append* setters", "fragment.go")],
  ["BuildQuery of each fragment after the history", "the caller's slices"])

p("C26", "On a database, a built query returns what was declared",
  "Run on a SQL database, the query a builder builds returns exactly the rows its declaration means: the declared tables joined as declared, filtered by all conditions, grouped, made distinct, sorted with NULLs where declared, cut to offset and limit, with the rows of the union members, showing the selected expressions in order. It returns the same rows with its args in either placeholder style and with its args interpolated, by itself and as a subquery of a fragment that binds values of its own. Scanning the builder yields these rows, counting it their number.",
  ["inputs", "programs", "configurations"], "every content of the tables and every query that is valid without added parentheses, over columns, bound values and nested queries",
  "No test runs a query; equal strings in a few tests do not show that args, aliases, clause order and subqueries mean what was declared for all data.",
  ["build.go", "context_args.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go", "sqlb/query_builder_where.go", "sqlb/query_builder_with.go", "util/scan.go", "util/interpolate.go"],
  [("buildInternal assembles clauses in SQL order", "sqlb/query_builder_build.go"), ("args committed as text is produced", "context_args.go")],
  ["rows returned by a SQL engine for the built query and args", "util.ScanBuilder", "util.CountBuilder"])

p("C27", "Leaving out optional joins never changes a result",
  "A query without aggregates returns the same rows, in the same order as far as it is sorted, whether its left joins are declared optional or not. This holds for every content of the tables, with joins that other joins, orders, or conditions use, and with several rows of the joined table for one of the main table.",
  ["inputs", "programs", "configurations"], "every content of the tables and every set of optional and other joins, conditions and orders",
  "Tests compare the text of two queries with optional joins; that the shorter query means the same is a claim over all data.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go"],
  [("joins are left out only under DISTINCT and if nothing depends on them", "sqlb/query_builder_dependecy.go")],
  ["rows returned by a SQL engine for either query"])

p("C28", "Debug output shows the query that is run",
  "With debug output on, every successful build of a query builder, by itself or as a part of another query, writes one message to the standard log with exactly the SQL it contributes in which each placeholder is replaced by the literal of its own arg, whatever the style and however many args precede it. A failed build and a builder without debug output write nothing of the kind. When an arg has no literal the reason is written instead, and the build is not affected.",
  ["programs", "configurations"], "every builder program, nesting, style, and list of values bound before and in it",
  "No test turns debug output on; args bound before a nested builder, and merged ones, decide which value a placeholder stands for.",
  ["sqlb/query_builder_build.go", "util/interpolate.go", "context_args.go"],
  [("debug output at the end of a build", "sqlb/query_builder_build.go")],
  ["standard log"])

p("C29", "The error of a failed build matches its cause",
  "When an item supplied to a build fails with an error of its own, a fragment builder, a preprocessing function, a CTE, a union member or any expression, returned or raised by a panic of a function, the build of the whole fails with an error that matches that very error, through any nesting of fragments, #join calls, columns and query builders and through scanning and counting. Referring by #f, #fragment, #arg or the function of a shared list to an item that does not exist fails with an error that matches the invalid-index error; no failure with another cause does, be it of the template, of its functions or of a misused query builder.",
  ["programs", "fault_sequences"], "every failing item and every path of enclosing fragments, functions and query builder parts",
  "One test expects an error, of no particular kind; whether the cause survives each layer and combination is a universal claim.",
  ["build.go", "func_exec.go", "func_builtin.go", "properties.go", "errors.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go"],
  [("errors are wrapped", "build.go, func_exec.go, sqlb/query_builder_build.go"), ("an invalid index inside of a joined item is told from the end of the list", "func_builtin.go")],
  ["error of BuildQuery / BuildFragment, util.ScanBuilder, util.CountBuilder"])

p("C30", "The text of a query never depends on the values bound in it",
  "The text of a built query depends on its args not at all in ? style, and in $n style only by which of them are equal: replacing values by others anywhere, in fragments, conditions, lists of the same length, or custom builders, gives the same text with the new values at the same places of the args. The args returned are the very values supplied. A successful build without debug output never calls methods of args, converts or interprets them, even if they are nil, builders, valuers, or strings with markers and quotes.",
  ["inputs", "programs"], "every query and every two assignments of values to its args",
  "Tests bind a few numbers and strings; that no value of any type changes or leaks into the text is what protects from SQL injection, and is a claim over all values.",
  ["build.go", "context_args.go", "property.go", "shortcut.go", "sqlb/query_builder_where.go"],
  [("args are committed, never rendered", "context_args.go"), ("conditions bind their value", "sqlb/query_builder_where.go")],
  ["query and args returned by BuildQuery"])

p("C31", "Equivalent ways to write a query build the same query",
  "Calls that declare different parts of a query builder can be made in any order, and replaced or void ones leave no trace: an earlier From or Select, a join declared again under the same name, and calls given nothing, only nil or empty items, or a limit or offset that is not positive. Items given in one call, in one fragment or in several calls are the same, and so is calling the builder or what a call returned. How a reference or an arg is spelled (#f1, #f(1), #fragment and so on, a bind variable of either style or #arg), wrapping in a fragment that only references, and building by BuildQuery, by BuildFragment, or from another fragment, column, function or property list make no difference to text and args.",
  ["programs", "histories"], "every two programs and fragment trees that are equivalent in these ways",
  "Each test writes a query in one way; equivalence relates any two of unboundedly many programs.",
  ["build.go", "func_builtin.go", "fragment.go", "shortcut.go", "sqlb/query_builder.go", "sqlb/query_builder_join.go", "sqlb/query_builder_build.go"],
  [("parts are stored by kind and assembled at the build", "sqlb/query_builder_build.go")],
  ["BuildQuery and BuildFragment of both"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        import re
        n = len(re.findall(r"[.] (?=[A-Z#$?])", x["statement"])) + 1
        if n > 3: print(x["id"], n, "sentences")
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
