import json,glob,collections,os
V='/verif'
head = r'''# Verification of qjebbs/go-sqlf by property-based testing and fuzzing

31 properties (`properties.jsonl`), all decided by generated-input search against explicit oracles.
No property of the list is out of reach of the technique, so `not_applicable` is empty.

## 1. How it works

* **Harness.** `/verif/harness` is a Go module of its own with `replace github.com/qjebbs/go-sqlf/v2 => /repo`.
  It uses the exported API only: nothing of it depends on how /repo is written, no file is overlaid and no
  hook is needed (`hooks` of the manifest is empty). One test file per property (`cNN_test.go`), with shared
  generators and models: `frag_test.go` (fragment trees, their model, resolution of placeholders),
  `refparse_test.go` (independent parser of templates), `builder_test.go` (query builder programs and the
  model that renders them), `relation_test.go` (tables, queries and an evaluator of relational meaning),
  `engine_test.go`/`engine.py` (SQLite over a pipe), `fakedb_test.go` (`database/sql` driver with faults).
* **Runner.** `check.py ID quick|thorough` builds the harness against /repo's current tree (vendored by the
  module cache, offline; `GOFLAGS=-mod=mod`), runs the tests `^TestID_` in 8 processes (shards), each with its
  own rapid seed derived from `VERIF_SEED`, collects notes, writes `evidence/ID.json`, and on a failure shrinks
  (rapid) and writes a replay file in `replays/`: the rapid fail file plus the shrunk message and the command to
  run it again. Exit 0 / 1 + `VIOLATION property=… replay=…`; 2 and `VERIF-ERROR` if the machinery itself could not decide
  (no Go toolchain, no build for reasons of the harness, no python3 sqlite).
  A /repo which doesn't compile is such an error, not a violation.
* **Generators.** All draws come from `pgregory.net/rapid`, biased toward pools of look-alikes (1, int64(1), "1",
  1.0, true, …), of text full of syntax (`?`, `$1`, `#f1`, quotes, `??`, `$$`, NUL, invalid UTF-8), nil and typed-nil
  values, unhashable values, duplicates, empties. Sizes are small on average, with rare large cases (lists of thousands,
  trees thousands deep, more than 10/64/100 args, webs of 24–40 CTEs or joins): every threshold a planted
  bug used became such a rare case.
* **Oracles** never call the code under test to predict itself, with the exception of the relations which are meant to
  (C10, C16, C25, C27, C30, C31: two runs of the code have to agree). Error *messages* are never compared, only
  `err != nil` and `errors.Is`/`As`.
* **Seeds.** rapid's seed is fixed from VERIF_SEED and the shard, so a check is deterministic for a seed up to
  goroutine schedules (C10). Quick checks run 10–60 s of wall time on 8 cores; thorough ones about twenty times as many cases.
* **Non-triviality** is stated per check in the evidence (`rule`), counted per distinct generated case, with class histograms
  and samples.

## 2. Per property

Format: *Generated* / *Oracle* / *Bounds* / *Why tests cannot settle it*.
Cases are those of the quick tier per shard (× 8 shards); thorough is × 20.

'''
S = collections.OrderedDict()
S['C01']='''*Generated*: DAGs of fragments: templates composed of segments (text with markers escaped, bind variables of either style, `#f1`/`#f(1)`/`#fragment(1)`/`#arg…` in five spellings, `#join`), args from the value pool, items being fragments, shared fragments, nil, tables, columns, text builders, query builders; prefixes, suffixes, bodies of blanks. Chains 20–3000 deep (`TestC01_Deep`).
*Oracle*: model that expands the segments it generated (it never parses), with the same trimming and prefix rules; placeholders of the output are resolved against the args before comparing, so a text with right shape and wrong pairing fails.
*Not judged*: prefix/suffix themselves are not trimmed by either; `#join` at an unspecified edge (see C04).'''
S['C02']='''*Generated*: as C01, more `#join`s with several functions, repeated and shared references, query builders as items; every bound value is different from every other in most trees.
*Oracle*: (a) `?`: number of placeholders outside quotes equals `len(args)`; `$n`: numbers within 1..len and each used; (b) values met in text order equal the model's; (c) the `?` and the `$n` build resolve to the same token stream.
*Why*: a wrong pairing needs combinations (lists of different length in one `#join`, nested fragment with own args inside).'''
S['C03']='''*Generated*: valid trees in which one defect is injected at a random fragment, depth or `#join` template: index one too high or 0, unknown function, function value outside `#join`, surplus arg or fragment; also into every part of a query builder; and histories of one fragment whose template, args and fragments change between builds.
*Oracle*: original builds, changed one has an error and `"", nil`. The injected defect is the only difference, so the expected outcome needs no model.'''
S['C04']='''*Generated*: one `#join` with 1–6 parts (functions of args, fragments, custom functions of all nine compatible signatures, fixed calls, bind variables, quoted text), 0–8 items per list, any `from`/`to` around the bounds, separators with quotes, markers, `%`; lists of up to 5000 items; compatible/incompatible functions; items that fail with errors of all kinds and texts.
*Oracle*: model of the iteration. *Unspecified, not judged (`amb`)*: an iteration that ends at its first index while the template also holds fixed references (used or not?), negative or zero `from`.'''
S['C05']='''*Generated*: pieces of syntax, valid pieces mutated (case flipped, replaced, deleted, inserted), arbitrary strings and bytes; exhaustive: all strings up to length 4–5 over the syntax alphabet (bounded enumeration; shard k takes every 8th). Thorough adds coverage-guided fuzzing (`FuzzParse`, see §6).
*Oracle*: independent reference parser (`refparse_test.go`): accept/reject and nodes; concatenated node texts account for every byte; a second parse is equal. *Not judged*: blanks behind bare args, a trailing comma, numbers out of range, unterminated quotes outside argument lists (accepted as literal text).'''
S['C06']='''*Generated*: quoted text with markers, doubled quotes and backslashes, identifiers in `"` and backticks, long and odd runes, in templates, in `#join` templates, in what nested fragments, tables, prefixes and functions contribute.
*Oracle*: byte-for-byte presence at the place where it was written.'''
S['C07']='''*Generated*: signatures by `reflect.FuncOf` (named types, variadic, context first or elsewhere, one to three results of any type), names, literal args that fit or not, numbers over the full ranges and precisions; functions that return, fail, panic.
*Oracle*: predicate over the signature (documented rules); recorded calls.'''
S['C08']='''*Generated*: histories over up to three roots: derive with functions (shadowing built-ins, functions of an index, functions that build fragments, functions which call functions added later), refuse bad maps, mutate the map afterwards, commit, build at depth 0–3 inside `#f`, `#fragment`, `#join`.
*Oracle*: map per context and parent lookup; list of args per root checked after every step in every context.'''
S['C09']='''*Generated*: everything odd: any text, any values, nil and typed-nil items, broken builders, missing parts, functions and items that panic, all API calls with nil arguments.
*Oracle*: no panic and no endless loop (a watchdog on CPU time, not wall time, so a busy machine raises no alarm). *Excluded*: fragments or builders containing themselves (stack exhaustion), zero `Context{}`, zero `QueryBuilder{}`, nil function values, `#join` over millions.'''
S['C10']='''*Generated*: worlds of fragments and builders which share parts; histories of builds in either style; the same concurrently from 2–8 goroutines under the race detector; debug turned on and off.
*Oracle*: first build of a fresh copy of the same declaration; snapshots of everything supplied. *Bounds*: schedules are the Go scheduler's, but the race detector reports unsynchronised accesses for any of them. *Excluded*: shared property lists in concurrent builds (they count usage by design).'''
S['C11']='''*Generated*: commit sequences via `CommitArg`, fragments, functions, of look-alikes, pointers, structs with unhashable fields, NaN; sometimes more than 64 or 1000.
*Oracle*: list model with Go `==` on equal dynamic types; `-0.0` is avoided (equal to 0 by ==).'''
S['C12']='''*Generated*: builder programs (joins of all kinds, aliases equal to names, conditions by Where/Where2/WhereIn/…, grouping, ordering with all seven directions, limits over the range of int64, CTEs, unions, nested builders, empty items), calls in any order.
*Oracle*: reference renderer over the declared program.'''
S['C13']='''*Generated*: as C12 with unique values, each written beside a marker naming it. *Oracle*: every placeholder of the SQL is followed to its arg, which must be the one its marker names; style agreement.'''
S['C14']='''*Generated*: DISTINCT programs with chains, stars and webs of optional joins whose ON conditions use each other through nested fragments. *Oracle*: reachability over the declared uses; every `name.` qualifier in the text of a clause is declared in FROM. *Bound*: tables used only inside a custom `FragmentBuilder` that hides them are not seen by the library (design), not generated.'''
S['C15']='''*Generated*: dependency graphs of 1–40 CTEs (cycles, undeclared names, names differing by case, aliases that are names of other CTEs, re-declared joins and Froms, empty bodies). *Oracle*: reachability, declaration order. *Not judged*: a CTE used only inside a nested or union builder is not emitted by the outer one (design); duplicate CTE names.'''
S['C16']='''*Generated*: histories of From, joins (all kinds), selects, builds and more calls over few names. *Oracle*: list model of FROM; a twin builder that gets the same calls without builds in between builds the same.'''
S['C17']='''*Generated*: a valid program with one misuse at a random place (empty names, no From, both From and join, no columns, undefined order, undeclared table in any clause or in an ON that is needed, failing nested part), possibly inside other builders. *Oracle*: error and no SQL, at first and later builds (also when the mistake is the last call after successful builds, or made several times); the original builds. *Not judged*: undeclared tables in the ON of a join nothing uses.'''
S['C18']='''*Generated*: query text of literals and markers, values of all kinds incl. named kinds, pointers, valuers of valuers, values which are valuer, stringer, marshaler at once, floats by bit pattern, times in zones, formats with quotes. *Oracle*: reader of SQL literals (inverse) plus unchanged text. *Excluded*: ±Inf, NaN (no literal); `*time.Time` (a Stringer, its String is used: not judged).'''
S['C19']='''*Generated*: result sets (0–5 columns and rows of driver values), scan targets, and one fault at each point in turn: query, columns, k-th Next, conversion, Close, panic in the callback, context cancelled. *Oracle*: all rows or error and nothing; rows closed exactly once; nothing sent if the build fails.'''
S['C20']='''*Generated*: queries, args, answers of the driver (0/1 rows, NULL, text, large numbers, failures). *Oracle*: the recorded statement's shape and args; result or matching error. `errors.Is(err, sql.ErrNoRows)` raised by a driver as *query* error is read as no row: not judged.'''
S['C21']='''*Generated*: nested lists of any element type, arrays, pointers, nils; conditions over them. *Oracle*: reflective flattening model; identity of the values.'''
S['C22']='''*Generated*: valid templates over several lines with runes of all widths and invalid bytes. *Oracle*: positions recomputed from byte offsets. Columns count characters; positions of text nodes that begin with a line break are not judged.'''
S['C23']='''*Generated*: builder programs with orders (repeats, same as selected columns), DISTINCT before or after, more orders after a build. *Oracle*: select list and ORDER BY taken apart at top-level commas. A user alias `_order_1` may collide: not generated.'''
S['C24']='''*Generated*: histories over a list of args or fragments (the same fragment twice, one arg that is a list) of lookups by direct call, explicit reference, `#join` with ranges, nested fragments, marks, new builds in either style. *Oracle*: list with usage marks, and the args model of C11.'''
S['C25']='''*Generated*: fragments made from slices with spare capacity, shared among fragments; Append/With/prefix calls; *Oracle*: copies of each fragment's lists; all others and the caller's slice unchanged after each step.'''
S['C26']='''*Generated*: tables of 0–4 rows with NULLs, duplicates and odd strings; queries over them with expressions, joins of five kinds, optional joins, groups, orders, limits, CTEs, unions, nested builders. *Oracle*: in-memory evaluator of the declared query (three-valued logic, never sees SQL) against SQLite's rows for the SQL built in both styles, interpolated, nested in a fragment which binds its own values, scanned and counted. *Assumption*: SQLite ≥ 3.39 of python3's stdlib stands for the database; `UNION (…)` is rewritten for it. *Avoided*: constants in GROUP/ORDER BY (ordinals).'''
S['C27']='''*Generated*: as C26, mostly DISTINCT with optional joins, joins declared twice with different kinds. *Oracle*: same rows as the query whose joins are all plain, and as the evaluator.'''
S['C28']='''*Generated*: builder programs with debug on, alone, nested after other args, twice, in CTEs and unions; values with `%`, quotes, line breaks. *Oracle*: captured log messages equal model text with model literals; none from failed builds.'''
S['C29']='''*Generated*: a cause (returned or panicked by item or function, or an index that does not exist) in up to five layers of 20 kinds. *Oracle*: `errors.Is/As` to the very cause; ErrInvalidIndex if and only if it is about an index; also through Scan and Count; nothing is sent to the database.'''
S['C30']='''*Generated*: trees and programs with holes, filled twice with unrelated values, some with methods that count calls. *Oracle*: same text (`$n` with equality pattern kept), args are the values at the holes, no method called.'''
S['C31']='''*Generated*: programs and trees written in two ways (order of calls of different parts, items in one call or several, replaced and void calls, spellings, wrapping, ways to build). *Oracle*: same text and args.'''
out=head
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
import sys
sys.path.insert(0,V+'/tools')
import checks
man=json.load(open(V+'/MANIFEST.json'))
for k,v in props.items():
    c=checks.CHECKS[k]
    out+="### %s %s\n\n%s\n*Why tests cannot settle it*: %s\n*Cost*: %d cases per shard quick, %d thorough.\n\n"%(k,v['title'],S[k],v['why_tests_cant'],c['quick'],c['thorough'])
out+=open(V+'/tools/design_tail.md').read()
m=collections.defaultdict(list)
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); m[d['property']].append((f.split('/')[-2],d['needs']))
out+="\n## 8. Planted bugs (%d) and the checks that catch them\n\nEach is caught by the quick check of its own property (run with `tools/seed.py catch`, which applies it to /repo, runs the check and undoes it).\nThose marked * were missed when first tried and led to a stronger generator or oracle.\n\n"%sum(map(len,m.values()))
missed=set(open(V+'/tools/bugs/missed_at_first.txt').read().split())
for k in sorted(m):
    out+="* **%s**: "%k+"; ".join("`%s`%s (%s)"%(i,'*' if i in missed else '',n) for i,n in m[k])+"\n"
open(V+'/DESIGN.md','w').write(out)
