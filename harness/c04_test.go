package verifharness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C04: #join visits exactly the requested indexes.

// joinEnv is a set of custom functions together with their model.
type joinEnv struct {
	funcs sqlf.FuncMap
	model map[string]*mfunc
	desc  string
}

func invalidIndex(i any) error {
	return fmt.Errorf("%w: %v of custom function", sqlf.ErrInvalidIndex, i)
}

type myIndex int

// numFunc returns a function of n items in one of several signatures.
func numFunc(name string, n int, sig int, text func(i int) string) (any, *mfunc) {
	has := func(i int) bool { return i >= 1 && i <= n }
	mf := &mfunc{has: has, eval: func(_ *model, i int) ([]tok, error) {
		return mergeToks([]tok{{text: text(i)}}), nil
	}}
	body := func(i int) (string, error) {
		if !has(i) {
			return "garbage", invalidIndex(i)
		}
		return text(i), nil
	}
	switch sig % 9 {
	case 0:
		return func(i int) (string, error) { return body(i) }, mf
	case 1:
		return func(ctx *sqlf.Context, i int) (string, error) { return body(i) }, mf
	case 2:
		return func(i float64) (string, error) { return body(int(i)) }, mf
	case 3:
		return func(i int64) (string, error) { return body(int(i)) }, mf
	case 4:
		return func(i uint) (string, error) { return body(int(i)) }, mf
	case 5:
		return func(i ...int) (string, error) {
			if len(i) != 1 {
				return "", errors.New("want one index")
			}
			return body(i[0])
		}, mf
	case 6:
		return func(ctx *sqlf.Context, i ...int) (string, error) {
			if len(i) != 1 {
				return "", errors.New("want one index")
			}
			return body(i[0])
		}, mf
	case 7:
		return func(i myIndex) (string, error) { return body(int(i)) }, mf
	default:
		return func(ctx *sqlf.Context, i float32) (string, error) { return body(int(i)) }, mf
	}
}

const incompatibles = 21

// incompatible returns a function that can't be used in a #join template.
func incompatible(k int) (any, string) {
	upTo3 := func(i int) (string, error) {
		if i > 3 {
			return "", sqlf.ErrInvalidIndex
		}
		return "x", nil
	}
	other := func(i int) (string, error) {
		if i == 0 {
			return "", errors.New("other error")
		}
		return upTo3(i)
	}
	switch k % incompatibles {
	case 0:
		return func(i int) string { return "x" }, "no error returned"
	case 1:
		return func(i int) {}, "returns nothing"
	case 2:
		return func(s string) (string, error) { return "", sqlf.ErrInvalidIndex }, "takes a string"
	case 3:
		return func(a, b int) (string, error) { return "", sqlf.ErrInvalidIndex }, "takes two numbers"
	case 4:
		return func() (string, error) { return "", sqlf.ErrInvalidIndex }, "takes nothing"
	case 5:
		return upTo3, "accepts 0"
	case 6:
		return other, "other error for 0"
	case 7:
		return func(ctx *sqlf.Context) (string, error) { return "", sqlf.ErrInvalidIndex }, "takes a context only"
	case 8:
		return func(ctx *sqlf.Context, a int, b ...int) (string, error) { return "", sqlf.ErrInvalidIndex }, "takes a context and two numbers"
	case 9:
		return func(_ *sqlf.Context, i int) (string, error) { return upTo3(i) }, "takes a context, accepts 0"
	case 10:
		return func(_ *sqlf.Context, i ...int) (string, error) { return upTo3(i[0]) }, "takes a context and a list, accepts 0"
	case 11:
		return func(_ *sqlf.Context, i int64) (string, error) { return other(int(i)) }, "takes a context, other error for 0"
	case 12:
		return func(i ...float64) (string, error) { return other(int(i[0])) }, "takes a list, other error for 0"
	case 13:
		return func(i uint) (string, error) { return upTo3(int(i)) }, "takes an uint, accepts 0"
	case 14:
		return func(_ *sqlf.Context, i int) string { return "x" }, "takes a context, no error returned"
	case 15:
		return func(i myIndex) (string, error) { return other(int(i)) }, "takes a named type, other error for 0"
	case 16, 17:
		return func(i int) string {
			if s, err := upTo3(i); i > 0 && err == nil {
				return s
			}
			panic(sqlf.ErrInvalidIndex)
		}, "no error returned, panics for 0"
	case 18:
		return func(i int) {
			if i < 1 || i > 3 {
				panic(sqlf.ErrInvalidIndex)
			}
		}, "returns nothing, panics for 0"
	case 19:
		return func(_ *sqlf.Context, i uint8) string {
			if i < 1 || i > 3 {
				panic(fmt.Errorf("at %d: %w", i, sqlf.ErrInvalidIndex))
			}
			return "x"
		}, "takes a context, no error returned, panics for 0"
	default:
		return func(b bool) (string, error) { return "", sqlf.ErrInvalidIndex }, "takes a bool"
	}
}

func genJoinEnv(t *rapid.T, big bool) *joinEnv {
	lo, hi := 0, 5
	if big {
		lo, hi = 8, 14
	}
	e := &joinEnv{funcs: sqlf.FuncMap{}, model: map[string]*mfunc{}}
	for _, name := range []string{"num", "Other_fn"} {
		n := rapid.IntRange(lo, hi).Draw(t, name+" items")
		sig := rapid.IntRange(0, 8).Draw(t, name+" signature")
		empty := rapid.IntRange(0, hi+1).Draw(t, name+" empty")
		text := func(i int) string {
			if i == empty {
				return ""
			}
			return fmt.Sprintf("%s<%s>", name, strings.Repeat("i", i))
		}
		e.funcs[name], e.model[name] = numFunc(name, n, sig, text)
		e.desc += fmt.Sprintf(" #%s(%d items, signature %d, empty %d)", name, n, sig, empty)
	}
	// a function failing with an error that is not about the index
	failAt := rapid.IntRange(1, hi+1).Draw(t, "failAt")
	items := rapid.IntRange(lo, hi).Draw(t, "failItems")
	e.funcs["failing"] = func(i int) (string, error) {
		if i < 1 || i > items {
			return "", sqlf.ErrInvalidIndex
		}
		if i == failAt {
			return "text", errors.New("failed")
		}
		return "ok", nil
	}
	e.model["failing"] = &mfunc{
		has: func(i int) bool { return i >= 1 && i <= items },
		eval: func(_ *model, i int) ([]tok, error) {
			if i == failAt {
				return nil, errModel
			}
			return text("ok"), nil
		},
	}
	e.desc += fmt.Sprintf(" #failing(%d items, fails at %d)", items, failAt)
	// shared lists
	var vals []any
	for i, n := 0, rapid.IntRange(lo, hi-1).Draw(t, "gargs"); i < n; i++ {
		vals = append(vals, 5000+i)
	}
	gargs := sqlf.NewArgsProperties(vals...)
	e.funcs["gargs"] = func(ctx *sqlf.Context, i int) (string, error) { return gargs.Build(ctx, i) }
	e.model["gargs"] = &mfunc{
		has:  func(i int) bool { return i >= 1 && i <= len(vals) },
		eval: func(_ *model, i int) ([]tok, error) { return []tok{{ph: true, v: vals[i-1]}}, nil },
	}
	e.desc += fmt.Sprintf(" #gargs(%d items)", len(vals))
	bad, why := incompatible(rapid.IntRange(0, incompatibles-1).Draw(t, "incompatible"))
	e.funcs["bad"] = bad
	e.model["bad"] = &mfunc{noJoin: true}
	e.desc += " #bad(" + why + ")"
	return e
}

func TestC04_Join(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		big := rapid.IntRange(0, 7).Draw(t, "big") == 0
		lo, hi := 0, 5
		if big {
			lo, hi = 8, 14
		}
		env := genJoinEnv(t, big)
		f := &fragN{how: rapid.IntRange(0, 4).Draw(t, "how")}
		na := rapid.IntRange(lo, hi).Draw(t, "na")
		for i := 0; i < na; i++ {
			f.args = append(f.args, 1000+i)
		}
		nf := rapid.IntRange(lo, hi).Draw(t, "nf")
		for i := 0; i < nf; i++ {
			var n node
			switch rapid.IntRange(0, 5).Draw(t, "item") {
			case 0:
				n = &fragN{}
			case 1:
				n = nilN{}
			case 2:
				n = &fragN{args: []any{2000 + i}, segs: []seg{{kind: sText, text: "own "}, {kind: sBind, style: syntax.Question}}}
			case 3:
				n = &fragN{segs: []seg{{kind: sText, text: " trimmed \n"}}, prefix: "pre", suffix: "suf"}
			case 4:
				n = &textN{rapid.SampledFrom([]string{"t", "", " ", " t "}).Draw(t, "tbl")}
			default:
				n = &fragN{segs: []seg{{kind: sText, text: "frag-" + string(rune('a'+i))}}}
			}
			f.frs = append(f.frs, n)
		}
		j := &joinSeg{
			sep:   rapid.SampledFrom([]string{", ", ",", "", " AND ", " ", "%", "%d", " %s ", "%%", "\\", "\x00", "é", "''", "'", "#f", "\n", ")", "x(", "\"", ", '"}).Draw(t, "sep"),
			spell: rapid.IntRange(0, 2).Draw(t, "spell"),
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		question, ranges := 0, 0
		fns := []string{"arg", "arg", "arg", "f", "f", "f", "fragment", "num", "num", "Other_fn", "gargs", "failing"}
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 6}).Draw(t, "parts"); i < n; i++ {
			switch rapid.SampledFrom([]string{"func", "func", "func", "text", "bind", "call", "odd"}).Draw(t, "part") {
			case "func":
				j.segs = append(j.segs, seg{kind: sFunc, fn: rapid.SampledFrom(fns).Draw(t, "fn")})
				ranges++
			case "text":
				j.segs = append(j.segs, seg{kind: sText, text: rapid.SampledFrom([]string{" ", "=", "(", ")", "'q'", "'#arg'", "\"#f\"", " AND ", "'it''s'", "\n", ",", "é", "%", "%d", "%!s"}).Draw(t, "text")})
			case "bind":
				if style == syntax.Question {
					if question < na {
						question++
						j.segs = append(j.segs, seg{kind: sBind, style: style})
					}
				} else if na > 0 {
					j.segs = append(j.segs, seg{kind: sBind, style: style, idx: rapid.IntRange(1, na).Draw(t, "idx")})
				}
			case "call":
				fn := rapid.SampledFrom([]string{"arg", "f", "num", "gargs"}).Draw(t, "callfn")
				j.segs = append(j.segs, seg{kind: sCall, fn: fn, idx: rapid.IntRange(0, hi+1).Draw(t, "callidx"), spell: rapid.IntRange(0, 4).Draw(t, "cspell")})
				if !f.has(&model{funcs: env.model}, fn, j.segs[len(j.segs)-1].idx) && rapid.IntRange(0, 3).Draw(t, "keepBad") > 0 {
					j.segs = j.segs[:len(j.segs)-1]
				}
			case "odd":
				if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
					j.segs = append(j.segs, seg{kind: sFunc, fn: rapid.SampledFrom([]string{"bad", "nope", "join"}).Draw(t, "oddfn")})
				}
			}
		}
		if ranges == 0 && rapid.IntRange(0, 9).Draw(t, "nofunc") > 0 {
			j.segs = append(j.segs, seg{kind: sFunc, fn: rapid.SampledFrom(fns).Draw(t, "fn")})
		}
		j.segs = fixAdjacency(j.segs)
		j.nargs = rapid.IntRange(0, 2).Draw(t, "nargs")
		j.from = rapid.IntRange(-2, hi+1).Draw(t, "from")
		j.to = rapid.IntRange(-2, hi+1).Draw(t, "to")
		f.segs = []seg{
			{kind: sText, text: rapid.SampledFrom([]string{"", "IN (", "a "}).Draw(t, "before")},
			{kind: sJoin, join: j},
			{kind: sText, text: rapid.SampledFrom([]string{"", ") end", " b"}).Draw(t, "after")},
		}
		if rapid.IntRange(0, 3).Draw(t, "complete") > 0 {
			// reference everything, so that surplus items are no error
			for i := range f.args {
				f.segs = append(f.segs, seg{kind: sText, text: " a"}, seg{kind: sCall, fn: "arg", idx: i + 1})
			}
			for i := range f.frs {
				f.segs = append(f.segs, seg{kind: sText, text: " f"}, seg{kind: sCall, fn: "f", idx: i + 1})
			}
		}
		f.segs = fixAdjacency(f.segs)
		m := &model{funcs: env.model}
		want, werr := f.eval(m)
		if m.amb {
			class("not judged: unspecified")
			return
		}
		key := f.String() + env.desc
		outcome := "error"
		if werr == nil {
			tr := m.joins[0]
			outcome = bucket("iterations", tr.iterations)
			if tr.empties > 0 {
				class("with empty items")
			}
			if tr.ended {
				class("ended by a missing item")
			}
		}
		note(true, key, outcome, bucket("functions", ranges), "range args "+itoa(j.nargs))
		buildStyle := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(buildStyle), env.funcs)
		if err != nil {
			t.Fatalf("registering functions: %v", err)
		}
		var q string
		guard(func() string { return key }, func() { q, err = f.frag().BuildFragment(ctx) })
		if werr != nil {
			if err == nil {
				t.Fatalf("no error\nfragment: %s\nfunctions:%s\nbuilt: %q args %s", f, env.desc, q, showList(ctx.Args()))
			}
			return
		}
		if err != nil {
			t.Fatalf("unexpected error: %v\nfragment: %s\nfunctions:%s\nexpected: %s", err, f, env.desc, toksString(want))
		}
		if g, w := skeleton(q), skeletonToks(want); g != w {
			t.Fatalf("fragment: %s\nfunctions:%s\nbuilt:    %q\nexpected: %q", f, env.desc, g, w)
		}
		got, err := resolve(q, ctx.Args(), buildStyle)
		if err != nil || !sameToks(got, want) {
			t.Fatalf("fragment: %s\nfunctions:%s\nbuilt:    %q args %s (%v)\nexpected: %s", f, env.desc, q, showList(ctx.Args()), err, toksString(want))
		}
	})
}

// Functions are accepted by #join if and only if they are compatible with it.
func TestC04_Compatibility(t *testing.T) {
	check(t, 0.2, func(t *rapid.T) {
		funcs := sqlf.FuncMap{}
		var (
			fn   any
			desc string
			want bool
		)
		n := rapid.IntRange(1, 4).Draw(t, "items")
		if rapid.Bool().Draw(t, "compatible") {
			sig := rapid.IntRange(0, 8).Draw(t, "sig")
			fn, _ = numFunc("fn", n, sig, func(i int) string { return strings.Repeat("x", i) })
			desc, want = fmt.Sprintf("%T", fn), true
		} else {
			fn, desc = incompatible(rapid.IntRange(0, incompatibles-1).Draw(t, "k"))
		}
		funcs["fn"] = fn
		prefix := rapid.SampledFrom([]string{"", "#arg ", "a "}).Draw(t, "prefix")
		first, last, rng := 1, n, ""
		if rapid.Bool().Draw(t, "range") {
			first = rapid.IntRange(1, n).Draw(t, "from")
			rng = fmt.Sprintf(", %d", first)
			if rapid.Bool().Draw(t, "end") {
				last = rapid.IntRange(first, n).Draw(t, "to")
				rng += fmt.Sprintf(", %d", last)
			}
		}
		f := sqlf.F("#join('" + prefix + "#fn', ','" + rng + ")")
		if prefix == "#arg " {
			for i := 0; i < n; i++ {
				f.AppendArgs(i)
			}
			f.Raw += " -- #join('#arg', ',')"
		}
		key := fmt.Sprintf("%s in %q, %d items", desc, f.Raw, n)
		note(true, key, cond(want, "compatible"), cond(!want, "incompatible: "+desc))
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), funcs)
		if err != nil {
			t.Fatalf("registering: %v", err)
		}
		var q string
		guard(func() string { return key }, func() { q, err = f.BuildFragment(ctx) })
		if want {
			var parts []string
			for i := first; i <= last; i++ {
				parts = append(parts, strings.ReplaceAll(prefix, "#arg", "?")+strings.Repeat("x", i))
			}
			w := strings.Join(parts, ",")
			if len(f.Args) > 0 {
				w += " -- ?" + strings.Repeat(",?", n-1)
			}
			if err != nil || q != w {
				t.Fatalf("%s: built %q (%v), want %q", key, q, err, w)
			}
		} else if err == nil {
			t.Fatalf("%s: no error, built %q", key, q)
		}
	})
}

// Lists of any length are joined, however long.
func TestC04_Long(t *testing.T) {
	check(t, 0.01, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(60, 300), rapid.IntRange(900, 1300), rapid.IntRange(4000, 5000)).Draw(t, "items")
		fn := rapid.SampledFrom([]string{"arg", "f", "num"}).Draw(t, "fn")
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		call, first, last := "#join('<#"+fn+">', ',')", 1, n
		if fn != "arg" && rapid.Bool().Draw(t, "range") {
			first = rapid.SampledFrom([]int{1, 2, n / 2, n - 1}).Draw(t, "from")
			call = fmt.Sprintf("#join('<#%s>', ',', %d)", fn, first)
			if rapid.Bool().Draw(t, "end") {
				last = rapid.SampledFrom([]int{n - 1, n}).Draw(t, "to")
				call = fmt.Sprintf("#join('<#%s>', ',', %d, %d)", fn, first, last)
			}
		}
		f := sqlf.F(call)
		var (
			want []string
			args []any
		)
		for i := 1; i <= n; i++ {
			s := "i" + itoa(i)
			switch fn {
			case "arg":
				f.AppendArgs(i)
				args = append(args, i)
				if s = "?"; style == syntax.Dollar {
					s = "$" + itoa(i)
				}
			case "f":
				f.AppendFragments(sqlf.F(s))
				if i < first || i > last {
					f.Raw += fmt.Sprintf(" #f%d", i)
				}
			}
			if first <= i && i <= last {
				want = append(want, "<"+s+">")
			}
		}
		key := fmt.Sprintf("%d items, %s (%s)", n, call, styleName(style))
		note(true, key, "long list of "+fn)
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"num": func(i int) (string, error) {
			if i < 1 || i > n {
				return "", invalidIndex(i)
			}
			return "i" + itoa(i), nil
		}})
		if err != nil {
			t.Fatal(err)
		}
		q, err := f.BuildFragment(ctx)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		w := strings.Join(want, ",")
		if !strings.HasPrefix(q, w) || len(q) > len(w) && q[len(w)] != ' ' {
			t.Fatalf("%s: built %d bytes ending in %q, want %d ending in %q", key, len(q), q[max(0, len(q)-30):], len(w), w[max(0, len(w)-30):])
		}
		if got := ctx.Args(); !identicalLists(got, args) {
			t.Fatalf("%s: %d args, want %d", key, len(got), len(args))
		}
	})
}

// Calls of #join that are no such calls are errors.
func TestC04_Calls(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		fits := rapid.IntRange(0, 4).Draw(t, "fits") == 0
		tmpl := rapid.SampledFrom([]string{"#f", "#arg", "#f=#arg", "a #fragment b", "'?' #f"}).Draw(t, "template")
		sep := rapid.SampledFrom([]string{",", "", "''", " AND "}).Draw(t, "sep")
		args := []string{"'" + strings.ReplaceAll(tmpl, "'", "''") + "'", "'" + sep + "'", "1", "2"}
		args = args[:rapid.IntRange(2, 4).Draw(t, "n")]
		why := "good"
		if !fits {
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				n := rapid.IntRange(0, 1).Draw(t, "n")
				args, why = args[:n], "too few"
			case 1:
				for why = "too many"; len(args) < 5 || rapid.Bool().Draw(t, "one more"); {
					args = append(args, rapid.SampledFrom([]string{"1", "2", "''", "nil", "true"}).Draw(t, "surplus"))
				}
			case 2:
				i := rapid.IntRange(0, 1).Draw(t, "which")
				args[i], why = rapid.SampledFrom([]string{"1", "true", "false", "nil", "null", "-1"}).Draw(t, "no string"), "no string"
			case 3:
				for len(args) < 3 {
					args = append(args, "1")
				}
				i := rapid.IntRange(2, len(args)-1).Draw(t, "which")
				args[i], why = rapid.SampledFrom([]string{"'1'", "true", "nil", "''", "'#f'"}).Draw(t, "no number"), "no number"
			case 4:
				bad := rapid.SampledFrom([]string{"#f(", "#f #", "#f ? $1", "#f $1 ?", "#f $0", "#f #f(1", "#f $", "#f ?1", "#arg #f(,)", "#f #nope", "#nope", "#f #nope()", "#f #arg(1, 2)"}).Draw(t, "malformed")
				args[0], why = "'"+bad+"'", "malformed template"
			case 5:
				args[0], why = rapid.SampledFrom([]string{"''", "' '", "'a'", "'#f1'", "'?'", "'$1'", "'''#f'''", "'#arg(1)'"}).Draw(t, "fixed"), "no function"
			}
		}
		raw := "(#join(" + strings.Join(args, ", ") + "))"
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		mk := func() *sqlf.Fragment {
			return sqlf.F(raw+" #f1 #f2 #arg1 #arg2").WithArgs(1, 2).WithFragments(sqlf.F("x"), sqlf.F("y"))
		}
		note(true, raw+styleName(style), why)
		for _, f := range []*sqlf.Fragment{mk(), sqlf.Ff("#f1", mk()), sqlf.Ff("#join('#f', ',')", sqlf.F("a"), mk())} {
			q, a, err := f.BuildQuery(style)
			if fits != (err == nil) || err != nil && (q != "" || len(a) != 0) {
				t.Fatalf("%s in %q (%s): built %q %s, %v", raw, f.Raw, why, q, showList(a), err)
			}
		}
	})
}

// A call of #join in the template of another #join is one of its fixed parts.
func TestC04_Nested(t *testing.T) {
	check(t, 0.15, func(t *rapid.T) {
		nf := rapid.IntRange(1, 6).Draw(t, "fragments")
		na := rapid.IntRange(0, 4).Draw(t, "args")
		f := sqlf.F("")
		for i := 1; i <= nf; i++ {
			f.AppendFragments(sqlf.F("f" + itoa(i)))
		}
		for i := 1; i <= na; i++ {
			f.AppendArgs(100 + i)
		}
		quote := func(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }
		// returns the call, and what it builds
		var gen func(depth int) (string, string)
		gen = func(depth int) (string, string) {
			sep := rapid.SampledFrom([]string{",", ", ", " AND ", "", "''", ";"}).Draw(t, "sep")
			from, to := 1, nf
			overArgs := na > 0 && rapid.Bool().Draw(t, "args")
			if overArgs {
				to = na
			}
			tail := ""
			if rapid.Bool().Draw(t, "range") {
				from = rapid.IntRange(1, to).Draw(t, "from")
				tail = fmt.Sprintf(", %d", from)
				if rapid.Bool().Draw(t, "end") {
					to = rapid.IntRange(from, to).Draw(t, "to")
					tail += fmt.Sprintf(", %d", to)
				}
			}
			tmpl, mk := "", []func(i int) string{}
			for k, n := 0, rapid.IntRange(1, 3).Draw(t, "parts"); k < n; k++ {
				if depth < 2 && rapid.Bool().Draw(t, "nest") {
					c, w := gen(depth + 1)
					tmpl += "[" + c + "]"
					mk = append(mk, func(int) string { return "[" + w + "]" })
				} else {
					tmpl += "x "
					mk = append(mk, func(int) string { return "x " })
				}
				if k == 0 {
					if overArgs {
						tmpl += "#arg "
						mk = append(mk, func(i int) string { return "¿" + itoa(100+i) + " " })
					} else {
						tmpl += "#f "
						mk = append(mk, func(i int) string { return "f" + itoa(i) + " " })
					}
				}
			}
			var parts []string
			for i := from; i <= to; i++ {
				s := ""
				for _, m := range mk {
					s += m(i)
				}
				parts = append(parts, s)
			}
			return "#join(" + quote(tmpl) + ", " + quote(sep) + tail + ")", strings.Join(parts, sep)
		}
		call, want := gen(0)
		f.Raw = "(" + call + ") all"
		want = "(" + want + ") all"
		for i := 1; i <= nf; i++ {
			f.Raw += fmt.Sprintf(" #f%d", i)
			want += " f" + itoa(i)
		}
		for i := 1; i <= na; i++ {
			f.Raw += fmt.Sprintf(" #arg%d", i)
			want += " ¿" + itoa(100+i)
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		key := fmt.Sprintf("%s with %d fragments and %d args (%s)", f.Raw, nf, na, styleName(style))
		note(strings.Count(f.Raw, "#join") > 1, key, bucket("#join calls", strings.Count(f.Raw, "#join")))
		q, args, err := f.BuildQuery(style)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		toks, err := resolve(q, args, style)
		if err != nil {
			t.Fatalf("%s: built %q with %s: %v", key, q, showList(args), err)
		}
		got := ""
		for _, tk := range toks {
			if tk.ph {
				got += fmt.Sprintf("¿%v", tk.v)
			} else {
				got += tk.text
			}
		}
		if got != want {
			t.Fatalf("%s:\nbuilt %q with %s\nmeaning  %q\nexpected %q", key, q, showList(args), got, want)
		}
	})
}

// The template is built once for each index, so are its functions called.
func TestC04_CalledOnce(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(t, "items")
		from, to, tail := 1, n, ""
		if rapid.Bool().Draw(t, "range") {
			from = rapid.IntRange(1, n).Draw(t, "from")
			tail = fmt.Sprintf(", %d", from)
			if rapid.Bool().Draw(t, "end") {
				to = rapid.IntRange(from, n).Draw(t, "to")
				tail += fmt.Sprintf(", %d", to)
			}
		}
		tmpl, want := "", map[string][]int{}
		funcs := sqlf.FuncMap{}
		calls := map[string][]int{}
		for k, m := 0, rapid.IntRange(1, 3).Draw(t, "functions"); k < m; k++ {
			name := string(rune('a'+k)) + "_next"
			sig := rapid.IntRange(0, 2).Draw(t, "signature")
			body := func(i int) (string, error) {
				if i < 1 || i > n {
					return "", invalidIndex(i)
				}
				calls[name] = append(calls[name], i)
				return itoa(i) + ":" + itoa(len(calls[name])), nil
			}
			switch sig {
			case 0:
				funcs[name] = body
			case 1:
				funcs[name] = func(_ *sqlf.Context, i int) (string, error) { return body(i) }
			default:
				funcs[name] = func(i ...float64) (string, error) { return body(int(i[0])) }
			}
			tmpl += "<#" + name + ">"
			for i := from; i <= to; i++ {
				want[name] = append(want[name], i)
			}
		}
		f := sqlf.F("#join('" + tmpl + "', ','" + tail + ")")
		if rapid.Bool().Draw(t, "nested") {
			f = sqlf.Ff("(#f1)", f)
		}
		key := fmt.Sprintf("%s of %d items", tmpl+tail, n)
		note(n > 1, key, "calls counted", cond(tail != "", "with a range"))
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), funcs)
		if err != nil {
			t.Fatal(err)
		}
		q, err := f.BuildFragment(ctx)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		if fmt.Sprint(calls) != fmt.Sprint(want) {
			t.Fatalf("%s: built %q by calls %v, want %v", key, q, calls, want)
		}
	})
}

// An error that is not an invalid index fails the #join, whatever it says.
func TestC04_FailingItem(t *testing.T) {
	texts := []string{sqlf.ErrInvalidIndex.Error(), sqlf.ErrInvalidIndex.Error() + ": 3", "error calling: " + sqlf.ErrInvalidIndex.Error(), "Invalid Index", "", "EOF", "index out of range", "end", "no such item", "#fn", "%w"}
	check(t, 0.3, func(t *rapid.T) {
		n := rapid.IntRange(1, 6).Draw(t, "items")
		bad := rapid.IntRange(1, n).Draw(t, "bad")
		text := rapid.SampledFrom(texts).Draw(t, "text")
		fail := errors.New(text)
		switch rapid.IntRange(0, 3).Draw(t, "error") {
		case 0:
			fail = fmt.Errorf("wrapped: %w", fail)
		case 1:
			fail = fmt.Errorf("%s: %w", sqlf.ErrInvalidIndex, fail)
		}
		panics := rapid.IntRange(0, 3).Draw(t, "panics") == 0
		item := func(i int) (string, error) {
			if i < 1 || i > n {
				return "", invalidIndex(i)
			}
			if i == bad {
				if panics {
					panic(fail)
				}
				return "garbage", fail
			}
			return "x" + itoa(i), nil
		}
		var items []sqlf.FragmentBuilder
		for i := 1; i <= n; i++ {
			if i == bad {
				items = append(items, sqlf.Ff("#f1", &failingB{fail}))
			} else {
				items = append(items, sqlf.F("x"+itoa(i)))
			}
		}
		first, last, rng := 1, n, ""
		if rapid.Bool().Draw(t, "range") {
			first = rapid.IntRange(1, n).Draw(t, "from")
			rng = fmt.Sprintf(", %d", first)
			if rapid.Bool().Draw(t, "end") {
				last = rapid.IntRange(first, n).Draw(t, "to")
				rng += fmt.Sprintf(", %d", last)
			}
		}
		fn := rapid.SampledFrom([]string{"fn", "ctx_fn", "f", "fragment"}).Draw(t, "fn")
		f := sqlf.F("[#join('#" + fn + "', ','" + rng + ")]")
		if fn == "f" || fn == "fragment" {
			f.WithFragments(items...)
			if first > 1 || last < n {
				for i := range items {
					if i+1 != bad && (i+1 < first || i+1 > last) {
						f.Raw += fmt.Sprintf("#f%d", i+1)
					}
				}
			}
		}
		key := fmt.Sprintf("%q of %d items, %d fails with %q", f.Raw, n, bad, fail)
		visited := bad >= first && bad <= last
		note(visited, key, cond(visited, "failing item visited"), cond(!visited, "failing item not visited"))
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{
			"fn":     item,
			"ctx_fn": func(_ *sqlf.Context, i int) (string, error) { return item(i) },
		})
		if err != nil {
			t.Fatalf("registering: %v", err)
		}
		var q string
		guard(func() string { return key }, func() { q, err = f.BuildFragment(ctx) })
		if visited {
			if err == nil {
				t.Fatalf("%s: no error, built %q", key, q)
			}
			return
		}
		if fn == "f" || fn == "fragment" {
			return // the item is unused
		}
		var parts []string
		for i := first; i <= last; i++ {
			parts = append(parts, "x"+itoa(i))
		}
		if want := "[" + strings.Join(parts, ",") + "]"; err != nil || q != want {
			t.Fatalf("%s: built %q (%v), want %q", key, q, err, want)
		}
	})
}

type failingB struct{ err error }

func (f *failingB) BuildFragment(*sqlf.Context) (string, error) { return "", f.err }
