package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C08: functions are scoped to the context they were added to.

// scopedFn is what a name stands for.
type scopedFn struct {
	text string
	// items is the number of items of a function of one index, 0 for others
	items int
	// calls is the function it calls in the context it is given, if any
	calls string
}

func (s scopedFn) item(i int) string { return s.text + strings.Repeat("i", i) + ">" }

func (s scopedFn) list(sep string) string {
	var out []string
	for i := 1; i <= s.items; i++ {
		out = append(out, s.item(i))
	}
	return strings.Join(out, sep)
}

func (s scopedFn) String() string {
	if s.calls != "" {
		return "calls " + s.calls
	}
	if s.items > 0 {
		return fmt.Sprintf("%s(%d items)", s.text, s.items)
	}
	return s.text
}

type mctx struct {
	id     int
	root   int
	parent *mctx
	defs   map[string]scopedFn // name -> what it returns
	ctx    *sqlf.Context
}

func (c *mctx) lookup(name string) (scopedFn, bool) {
	for ; c != nil; c = c.parent {
		if v, ok := c.defs[name]; ok {
			return v, true
		}
	}
	return scopedFn{}, false
}

type ctxRoot struct {
	style syntax.BindVarStyle
	args  []any
}

// commit is the model of committing an arg.
func (r *ctxRoot) commit(v any) string {
	if r.style == syntax.Question {
		r.args = append(r.args, v)
		return "?"
	}
	for i, a := range r.args {
		if goEqual(a, v) {
			return "$" + itoa(i+1)
		}
	}
	r.args = append(r.args, v)
	return "$" + itoa(len(r.args))
}

var scopeNames = []string{"fa", "fb", "fc", "ga", "gb", "f", "arg", "fragment", "join"}

func isBuiltin(name string) bool {
	return name == "f" || name == "arg" || name == "fragment" || name == "join"
}

func TestC08_Scopes(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		var (
			ctxs  []*mctx
			roots []*ctxRoot
			hist  []string
			marks []any // values bound by functions
		)
		log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		newRoot := func() {
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			roots = append(roots, &ctxRoot{style: style})
			ctxs = append(ctxs, &mctx{id: len(ctxs), root: len(roots) - 1, ctx: sqlf.NewContext(style)})
			log("c%d = NewContext(%s)", len(ctxs)-1, styleName(style))
		}
		newRoot()
		serial, builds, derived, shadowed := 0, 0, 0, 0
		steps := rapid.IntRange(3, 16).Draw(t, "steps")
		deep := rapid.Bool().Draw(t, "deep")
		last := "" // function called last
		for step := 0; step < steps; step++ {
			c := ctxs[rapid.IntRange(0, len(ctxs)-1).Draw(t, "ctx")]
			if deep && rapid.Bool().Draw(t, "latest") {
				c = ctxs[len(ctxs)-1]
			}
			switch rapid.SampledFrom([]string{"derive", "derive", "derive", "build", "build", "build", "build", "commit", "root", "args", "refused"}).Draw(t, "op") {
			case "root":
				if len(roots) < 3 {
					newRoot()
				}
			case "derive":
				n := &mctx{id: len(ctxs), root: c.root, parent: c, defs: map[string]scopedFn{}}
				funcs := sqlf.FuncMap{}
				k := rapid.IntRange(0, 3).Draw(t, "defs")
				if rapid.IntRange(0, 19).Draw(t, "manyDefs") == 0 {
					// more names than usual, most of them never used
					for i := 0; i < 12; i++ {
						funcs["unused_"+string(rune('a'+i))] = func() string { return "unused" }
					}
				}
				for i := 0; i < k; i++ {
					name := rapid.SampledFrom(scopeNames).Draw(t, "name")
					if isBuiltin(name) && rapid.IntRange(0, 2).Draw(t, "rarely") > 0 {
						name = "fa"
					}
					serial++
					result := fmt.Sprintf("<%s %s>", name, strings.Repeat("i", serial))
					n.defs[name] = scopedFn{text: result}
					if _, ok := c.lookup(name); ok || isBuiltin(name) {
						shadowed++
					}
					if name[0] == 'g' {
						// what it calls is what the context of the call knows by the name
						calls := rapid.SampledFrom([]string{"fa", "fb", "fc"}).Draw(t, "calls")
						n.defs[name] = scopedFn{calls: calls}
						funcs[name] = func(ctx *sqlf.Context, a ...string) (string, error) {
							return sqlf.F("{#" + calls + "()}").BuildFragment(ctx)
						}
						if rapid.Bool().Draw(t, "only a context") {
							funcs[name] = func(ctx *sqlf.Context) (string, error) {
								return sqlf.F("{#" + calls + "()}").BuildFragment(ctx)
							}
						}
						continue
					}
					switch rapid.IntRange(0, 5).Draw(t, "sig") {
					case 5:
						// derives a context of its own and builds a fragment with an arg in it
						v := genArg().Draw(t, "bound")
						marks = append(marks, v)
						mark := "\x01" + itoa(len(marks)-1) + "\x01"
						own := sqlf.FuncMap{
							"own":      func() string { return result },
							"fa":       func() string { return "of the function" },
							"fragment": func(a ...string) string { return "of the function" },
						}
						if rapid.Bool().Draw(t, "commits") {
							funcs[name] = func(ctx *sqlf.Context, a ...string) (string, error) {
								d, err := sqlf.ContextWithFuncs(ctx, own)
								if err != nil {
									return "", err
								}
								return "<" + d.CommitArg(v) + ">", nil
							}
							n.defs[name] = scopedFn{text: "<" + mark + ">"}
							break
						}
						funcs[name] = func(ctx *sqlf.Context, a ...string) (string, error) {
							d, err := sqlf.ContextWithFuncs(ctx, own)
							if err != nil {
								return "", err
							}
							return sqlf.Fa("<#own() ?>", v).BuildFragment(d)
						}
						n.defs[name] = scopedFn{text: "<" + result + " " + mark + ">"}
					case 0:
						funcs[name] = func(a ...string) string { return result }
					case 1:
						funcs[name] = func(ctx *sqlf.Context, a ...string) (string, error) { return result, nil }
					case 2:
						// builds a fragment in its context
						funcs[name] = func(ctx *sqlf.Context, a ...string) (string, error) {
							return sqlf.F("'" + result + "'").BuildFragment(ctx)
						}
						n.defs[name] = scopedFn{text: "'" + result + "'"}
					default:
						// an item of a list
						d := scopedFn{text: "<" + name + itoa(serial) + ":", items: rapid.IntRange(1, 4).Draw(t, "items")}
						funcs[name] = func(i int) (string, error) {
							if i < 1 || i > d.items {
								return "", invalidIndex(i)
							}
							return d.item(i), nil
						}
						n.defs[name] = d
					}
				}
				ctx, err := sqlf.ContextWithFuncs(c.ctx, funcs)
				if err != nil {
					t.Fatalf("deriving: %v", err)
				}
				n.ctx = ctx
				ctxs = append(ctxs, n)
				if rapid.Bool().Draw(t, "reuseMap") {
					// the map is the caller's, and so is what becomes of it
					for name := range funcs {
						if rapid.Bool().Draw(t, "delete") {
							delete(funcs, name)
						} else {
							funcs[name] = func(a ...any) string { return "changed later" }
						}
					}
					funcs["fa"] = func() string { return "added later" }
				}
				derived++
				log("c%d = c%d + %v", n.id, c.id, n.defs)
			case "refused":
				// functions of which one is not acceptable: no context, no change
				funcs := sqlf.FuncMap{
					"fa": func() string { return "refused" }, "fb": func() string { return "refused" }, "f": func() string { return "refused" },
					rapid.SampledFrom([]string{"", "zz", "a", "bad1"}).Draw(t, "badName"): 1,
				}
				if ctx, err := sqlf.ContextWithFuncs(c.ctx, funcs); err == nil {
					t.Fatalf("%s\nbad functions accepted: %v", strings.Join(hist, "\n"), ctx)
				}
				log("c%d refuses functions", c.id)
			case "commit":
				v := genArg().Draw(t, "val")
				want := roots[c.root].commit(v)
				got := c.ctx.CommitArg(v)
				log("c%d.CommitArg(%s)", c.id, show(v))
				if got != want {
					t.Fatalf("%s\nreturned %q, want %q", strings.Join(hist, "\n"), got, want)
				}
			case "build":
				builds++
				name := rapid.SampledFrom(scopeNames).Draw(t, "callee")
				if last != "" && rapid.Bool().Draw(t, "same callee") {
					name = last
				}
				last = name
				depth := rapid.IntRange(0, 3).Draw(t, "depth")
				def, ok := c.lookup(name)
				res := def.text
				if def.calls != "" {
					callee, ok := c.lookup(def.calls)
					if res = "{" + callee.text + "}"; !ok || callee.items > 0 {
						res = "ERR"
					}
				}
				call := "#" + name + "()"
				_, fOver := c.lookup("f")
				_, joinOver := c.lookup("join")
				_, fragOver := c.lookup("fragment")
				if isBuiltin(name) && !ok {
					// the built-in
					switch name {
					case "arg":
						call, res = "#arg1", "ARG"
					case "join":
						call, res = "#join('#arg', ',')", "ARG"
						if over, ok := c.lookup("arg"); ok {
							// the function named in the template is the custom one
							if res = "ERR"; over.items > 0 {
								res = over.list(",")
							}
						}
					default:
						call, res = "#"+name+"1", "inner"
					}
					ok = true
				} else if def.items > 0 {
					i := rapid.IntRange(0, def.items+1).Draw(t, "index")
					call = rapid.SampledFrom([]string{"#%s%d", "#%s(%d)"}).Draw(t, "spell")
					call, res = fmt.Sprintf(call, name, i), def.item(i)
					if i < 1 || i > def.items {
						res = "ERR"
					}
					if !joinOver && rapid.Bool().Draw(t, "joined") {
						call, res = "#join('#"+name+"', ',')", def.list(",")
					}
				} else if ok && !joinOver && rapid.IntRange(0, 5).Draw(t, "joined") == 0 {
					// not a function of an index
					call, res = "#join('#"+name+"', ',')", "ERR"
				}
				f := sqlf.F("(" + call + ")")
				want := "(" + res + ")"
				if res == "ARG" {
					v := genArg().Draw(t, "val")
					f.AppendArgs(v)
					want = "(" + roots[c.root].commit(v) + ")"
				}
				if res == "inner" {
					f.AppendFragments(sqlf.F("inner"))
				} else if ok && res != "ERR" && res != "ARG" && !joinOver && !fOver && rapid.IntRange(0, 4).Draw(t, "inTemplate") == 0 && !strings.ContainsAny(call, "'") {
					// in the template of a join over other items
					f.Raw = "#join('#f" + call + "', '|')"
					f.AppendFragments(sqlf.F("x"), sqlf.F("y"))
					want = "x" + res + "|y" + res
				}
				// nest it, unless the functions for nesting are redefined
				for i := 0; i < depth; i++ {
					switch k := rapid.IntRange(0, 2).Draw(t, "nest"); {
					case k == 0 && !fOver:
						f, want = sqlf.Ff("[#f1]", f), "["+want+"]"
					case k == 1 && !fragOver:
						f, want = sqlf.Ff("{#fragment1}", f), "{"+want+"}"
					case k == 2 && !joinOver && !fOver:
						f, want = sqlf.Ff("j #join('#f', ',')", f), "j "+want
					}
				}
				log("c%d builds %q (%s)", c.id, f.Raw, call)
				var (
					got string
					err error
				)
				guard(func() string { return strings.Join(hist, "\n") }, func() { got, err = f.BuildFragment(c.ctx) })
				for parts := strings.Split(want, "\x01"); len(parts) > 1; parts = strings.Split(want, "\x01") {
					var k int
					fmt.Sscan(parts[1], &k)
					want = parts[0] + roots[c.root].commit(marks[k]) + strings.Join(parts[2:], "\x01")
				}
				if !ok || res == "ERR" {
					if err == nil {
						t.Fatalf("%s\nno error, built %q", strings.Join(hist, "\n"), got)
					}
					continue
				}
				if err != nil || got != want {
					t.Fatalf("%s\nbuilt %q (%v), want %q", strings.Join(hist, "\n"), got, err, want)
				}
			case "args":
				// only what is checked after every step
			}
			for _, c := range ctxs {
				if got := c.ctx.Args(); !identicalLists(got, roots[c.root].args) {
					t.Fatalf("%s\nargs of c%d: %s, want %s", strings.Join(hist, "\n"), c.id, showList(got), showList(roots[c.root].args))
				}
			}
		}
		note(builds > 0 && derived > 0, strings.Join(hist, "; "), bucket("contexts", len(ctxs)), cond(shadowed > 0, "redefinitions"), cond(len(roots) > 1, "several roots"))
	})
}
