"""The checks: how many cases per test and shard in either tier, and what is generated."""


def c(quick, thorough, rule, technique, note, **more):
    return dict(quick=quick, thorough=thorough, rule=rule, technique=technique, note=note, **more)


TREES = ("random DAGs of fragments (templates made of text, bind variables of either style, #f/#fragment/#arg calls in several spellings, "
         "#join; args from a pool of look-alike, unhashable and nil values; tables, columns, custom and query builders as items). ")
PROGS = ("random query builder programs: From, joins of all kinds, selects, conditions, group by, order by, distinct, limits, CTEs, unions, "
         "nested builders, in any order of calls. ")

CHECKS = {
    "C01": c(22000, 440000, TREES + "Non-trivial: more than one fragment or a reference in the template.",
             "property-based testing against a reference model of fragment expansion",
             "Text of every generated tree equals that of a model which expands segments and never parses templates."),
    "C02": c(22000, 440000, TREES + "Non-trivial: at least two placeholders.",
             "property-based testing: placeholders resolved against the args, against a reference model and between styles",
             "Placeholders of both styles are resolved to values and compared with the model's and with each other."),
    "C03": c(30000, 600000, TREES + "One reference is made to dangle, or one item too many is given, at a random fragment or in a #join template; also in all parts of a query builder. Non-trivial: all of these.",
             "property-based testing: valid trees with one injected defect must fail, the originals must not",
             "Every injected dangling reference or unused item yields an error and no SQL."),
    "C04": c(80000, 1600000, "random #join calls: templates of several functions, bind variables and text, ranges, separators, lists of differing lengths, items that fail. Non-trivial: the #join visits something or fails.",
             "property-based testing against a reference model of #join",
             "Visited indexes, separators, end of list, errors and leftovers are compared with a model."),
    "C05": c(90000, 2000000, "templates of syntax pieces, of valid pieces, any strings, and all short strings over an alphabet of the syntax. Non-trivial: a character of the syntax is in it.",
             "property-based testing and bounded exhaustive enumeration against an independent reference parser",
             "Accepts and rejects as the reference parser does, and every byte is accounted for."),
    "C06": c(24000, 480000, "quoted strings, identifiers and text with markers, embedded in templates, tables, prefixes and function arguments. Non-trivial: a marker or quote inside.",
             "property-based testing: byte-for-byte comparison",
             "What was written is found in the output unchanged."),
    "C07": c(90000, 1800000, "random signatures (reflect.MakeFunc), names, literal arguments that fit or don't, functions that return, fail or panic. Non-trivial: all.",
             "property-based testing with generated function signatures",
             "Registration and calls are compared with the documented rules; parameters, results and errors arrive as given."),
    "C08": c(80000, 1600000, "trees of contexts with functions added at random, and lookups from each of them. Non-trivial: more than one context.",
             "model-based testing of context histories",
             "Each lookup is compared with a model of nested scopes; args are shared with the root."),
    "C09": c(18000, 360000, "fragments and query builders of anything: odd values and literals, nil and broken items, functions that panic. Non-trivial: something odd is in it.",
             "property-based testing (robustness): no panic whatever is built",
             "No build panicked."),
    "C10": c(1200, 30000, TREES + PROGS + "Several of them in one world that shares parts, built in random sequences, and concurrently with the race detector on. Non-trivial: more than two builds, some of them good.",
             "model-based testing of build histories against first builds of fresh copies; race detector",
             "Each build of a history equals the first build of a fresh copy, and nothing supplied has changed.",
             race=True, assumptions=["Concurrent schedules are sampled by the Go scheduler; the race detector reports unsynchronised accesses whatever the timing."]),
    "C11": c(70000, 1400000, "sequences of committed values, many of them equal, look-alike or unhashable, directly or by fragments. Non-trivial: at least two values.",
             "model-based testing of commit histories",
             "Each placeholder and the list of args equal those of a model of merging by Go equality."),
    "C12": c(10000, 200000, PROGS + "Non-trivial: more than one part.",
             "model-based testing against a reference renderer",
             "The SQL text equals that of an independent renderer."),
    "C13": c(5500, 110000, PROGS + "All values are unique and appear next to text that names them. Non-trivial: at least two args.",
             "property-based testing with marked values",
             "Every placeholder of the SQL is followed to its arg, which is the one the marker next to it names."),
    "C14": c(18000, 360000, PROGS + "Optional joins whose conditions use each other, in chains and webs. Non-trivial: distinct with at least two joins.",
             "model-based testing against a reachability model",
             "Joins kept are exactly those reachable from what the query uses."),
    "C15": c(18000, 360000, PROGS + "CTEs with dependencies of any shape, cycles included. Non-trivial: at least one CTE.",
             "model-based testing against a reachability model",
             "CTEs emitted are exactly those needed, once each, in declaration order."),
    "C16": c(7000, 140000, "histories of From, joins, selects and builds over few names, so that names are declared again. Non-trivial: a join, and a name declared again or more than one From.",
             "model-based (stateful) testing of call histories; differential against a builder not built in between",
             "FROM equals that of the model; every build equals one of the same calls without builds in between."),
    "C17": c(18000, 360000, PROGS + "One misuse is put into a valid program at a random place; the builder may be used inside of others. Non-trivial: a misuse.",
             "property-based testing: valid programs with one injected misuse must fail, the originals must not",
             "Every injected misuse yields an error and no SQL in every build."),
    "C18": c(90000, 1800000, "queries with placeholders and text that looks like it, and values of all supported kinds, their pointers, valuers and stringers. Non-trivial: a placeholder with a value.",
             "property-based testing with a reader of SQL literals; metamorphic relations",
             "The literals read back are the values, and all other text is unchanged.",
             assumptions=["Infinite and NaN floats have no SQL literal and are left out."]),
    "C19": c(35000, 700000, "result sets of random column types and rows, through a database/sql driver of the check, with a failure of the query, of reading a row, of converting a value or of closing at every position. Non-trivial: at least one row or a failure.",
             "property-based testing with fault injection in a fake database driver",
             "All rows, or an error; rows are closed on all paths.", level="fault_enumeration"),
    "C20": c(110000, 2200000, "queries and args, counts, and failures of the driver or the builder. Non-trivial: all.",
             "property-based testing with a fake database driver that records statements",
             "The statement run wraps the very query and args, and the count or the error is returned."),
    "C21": c(80000, 1600000, "lists of values, slices and arrays of all kinds of elements, pointers to them, nils. Non-trivial: a slice or array.",
             "property-based testing against a reference model",
             "Flattened values are identical to those of the model."),
    "C22": c(120000, 2400000, "valid templates over several lines, with runes of all widths. Non-trivial: more than one node.",
             "property-based testing: positions recomputed from the text",
             "Line and column of every node equal those computed from its offset in the text."),
    "C23": c(6000, 120000, PROGS + "Orders with and without DISTINCT, and more of both after a build. Non-trivial: at least one order.",
             "model-based testing: select list and ORDER BY of the output taken apart",
             "Under DISTINCT each ordering expression is selected under its own alias behind the selected columns."),
    "C24": c(90000, 1800000, "histories of lookups, builds, and marks on shared property lists. Non-trivial: at least two operations.",
             "model-based (stateful) testing",
             "Each result equals that of a model of 1-based lists with usage marks."),
    "C25": c(24000, 480000, "histories of derivations and changes of fragments that share slices. Non-trivial: at least one change of a fragment that shares.",
             "model-based (stateful) testing of aliasing",
             "After each change all other fragments hold and build to what they did."),
    "C26": c(10000, 200000, "tables of up to four rows with NULLs and odd strings; random queries over them, their expressions of binds, columns and nested builders, joins of all kinds, groups, orders, limits, CTEs and unions. Non-trivial: some rows, and a join or a condition.",
             "property-based testing: results of a SQL engine (SQLite) against an in-memory evaluator of the declared query",
             "Rows returned by SQLite for the built SQL, in both styles, interpolated, nested, scanned and counted, equal those of an evaluator that never sees SQL.",
             assumptions=["SQLite, of Python's standard library, stands for the database; it has no parentheses around union members, which are rewritten as subselects."]),
    "C27": c(15000, 300000, "the same tables and queries, with optional joins under DISTINCT in most of them. Non-trivial: a join was left out, and there are rows.",
             "metamorphic property-based testing on a SQL engine (SQLite): optional against plain left joins",
             "Rows of the query with optional joins equal those of the query with the same left joins kept.",
             assumptions=["SQLite, of Python's standard library, stands for the database."]),
    "C28": c(9000, 180000, PROGS + "Debug output is on for some of them, nested in others or after args of enclosing queries. Non-trivial: at least one message.",
             "property-based testing: captured log against the query built and literals of its args",
             "Log messages equal the SQL each builder contributes with its own args in place."),
    "C29": c(40000, 800000, "a failing item, function or dangling reference inside of up to five layers of fragments, #join calls, columns and parts of query builders. Non-trivial: at least one layer.",
             "property-based testing with fault injection at random depth",
             "The error of the build matches the injected cause, and no other.", level="fault_enumeration"),
    "C30": c(15000, 300000, TREES + PROGS + "Each is built with holes in place of its values, then with values: nil, numbers, strings with markers, builders, valuers, unhashable and NaN values, with methods that count their calls. Non-trivial: at least two values.",
             "metamorphic property-based testing: same text for different values",
             "Replacing values by others changes no text; the args are the values, at the same places, and no method of them is called."),
    "C31": c(9000, 180000, PROGS + TREES + "Each is written in two ways: calls of different parts in other orders, items in one call or several, replaced and void calls added, references and args spelled otherwise, wrapped in fragments, and built by another way. Non-trivial: the two differ.",
             "metamorphic property-based testing: equivalent programs build the same query",
             "Both ways to write a query give the same text and args in both styles."),
}
