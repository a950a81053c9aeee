package verifharness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C24: shared property lists behave as 1-based global lists.

func TestC24_History(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		n := rapid.IntRange(0, 6).Draw(t, "len")
		if n == 6 && rapid.Bool().Draw(t, "many") {
			n = rapid.IntRange(7, 14).Draw(t, "len")
		}
		ofArgs := rapid.Bool().Draw(t, "args")
		var (
			props sqlf.Properties
			vals  []any
			frags []*fragN // nil for a broken one
			desc  []string
		)
		if ofArgs {
			for i := 0; i < n; i++ {
				vals = append(vals, genArg().Draw(t, "val"))
				desc = append(desc, show(vals[i]))
			}
			if n == 1 && rapid.IntRange(0, 2).Draw(t, "list") == 0 {
				// one arg, that is a list
				vals[0] = rapid.SampledFrom([]any{[]any{1, "a"}, []any{}, []any{nil}, []int{1, 2}, [2]any{1, 2}, map[string]any{"a": 1}}).Draw(t, "val")
				desc[0] = show(vals[0])
			}
			props = sqlf.NewArgsProperties(vals...)
		} else {
			var builders []sqlf.FragmentBuilder
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 5).Draw(t, "again") == 0 {
					// the same fragment is another property all the same
					k := rapid.IntRange(0, i-1).Draw(t, "which")
					frags, builders, desc = append(frags, frags[k]), append(builders, builders[k]), append(desc, "item "+itoa(k+1)+" again")
					continue
				}
				k := rapid.IntRange(0, 3).Draw(t, "kind")
				f := &fragN{}
				switch k {
				case 0:
					f.segs = []seg{{kind: sText, text: "text" + strings.Repeat("x", i)}}
				case 1:
					f.segs = []seg{{kind: sText, text: "v="}, {kind: sBind, style: syntax.Question, idx: 1}}
					f.args = []any{genArg().Draw(t, "val")}
				case 2:
					f.segs = []seg{{kind: sText, text: " "}} // empty
				case 3:
					f.segs = []seg{{kind: sText, text: "a="}, {kind: sBind, style: syntax.Dollar, idx: 2}, {kind: sText, text: " b="}, {kind: sBind, style: syntax.Dollar, idx: 1}}
					f.args = []any{genArg().Draw(t, "val"), genArg().Draw(t, "val")}
				}
				frags = append(frags, f)
				builders = append(builders, f.frag())
				desc = append(desc, f.String())
			}
			props = sqlf.NewFragmentProperties(builders...)
		}
		used := make([]bool, n)
		hist := []string{fmt.Sprintf("list(args=%v) [%s]", ofArgs, strings.Join(desc, ", "))}
		log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s", strings.Join(hist, "\n"), fmt.Sprintf(f, a...))
		}
		if len(props) != n {
			fail("list has %d properties", len(props))
		}
		type build struct {
			ctx  *sqlf.Context
			root *ctxRoot
		}
		newBuild := func() *build {
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			b := &build{root: &ctxRoot{style: style}}
			ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{
				"prop": func(c *sqlf.Context, i int) (string, error) { return props.Build(c, i) },
			})
			if err != nil {
				fail("%v", err)
			}
			b.ctx = ctx
			return b
		}
		// item is what item i builds to in b.
		item := func(b *build, i int) string {
			used[i-1] = true
			if ofArgs {
				return b.root.commit(vals[i-1])
			}
			toks, err := frags[i-1].eval(&model{})
			if err != nil {
				fail("model: %v", err)
			}
			s := ""
			for _, k := range toks {
				if k.ph {
					s += b.root.commit(k.v)
				} else {
					s += k.text
				}
			}
			return s
		}
		cur := newBuild()
		steps := rapid.IntRange(2, 12).Draw(t, "steps")
		refs, builds, invalid := 0, 1, 0
		for s := 0; s < steps; s++ {
			switch rapid.SampledFrom([]string{"direct", "direct", "explicit", "explicit", "join", "range", "nested", "mark", "new", "unreferenced", "item"}).Draw(t, "op") {
			case "new":
				cur = newBuild()
				builds++
				log("new build (%s)", styleName(cur.root.style))
			case "direct":
				i := rapid.IntRange(-2, n+2).Draw(t, "i")
				if rapid.IntRange(0, 9).Draw(t, "far") == 0 {
					i += rapid.SampledFrom([]int{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, -1 << 8, -1 << 16, -1 << 32}).Draw(t, "far")
				}
				log("Build(%d)", i)
				got, err := props.Build(cur.ctx, i)
				refs++
				if i < 1 || i > n {
					invalid++
					if !errors.Is(err, sqlf.ErrInvalidIndex) {
						fail("got %q, %v", got, err)
					}
				} else if want := item(cur, i); err != nil || got != want {
					fail("got %q, %v, want %q", got, err, want)
				}
			case "item":
				if n == 0 {
					continue
				}
				i := rapid.IntRange(1, n).Draw(t, "i")
				log("item %d built", i)
				got, err := props[i-1].BuildFragment(cur.ctx)
				refs++
				if want := item(cur, i); err != nil || got != want {
					fail("got %q, %v, want %q", got, err, want)
				}
			case "mark":
				if n == 0 {
					continue
				}
				i := rapid.IntRange(1, n).Draw(t, "i")
				log("mark %d", i)
				props[i-1].ReportUsed()
				used[i-1] = true
			case "explicit":
				i := rapid.IntRange(0, n+1).Draw(t, "i")
				log("template #prop%d", i)
				got, err := sqlf.F(fmt.Sprintf("<#prop(%d)>", i)).BuildFragment(cur.ctx)
				refs++
				if i < 1 || i > n {
					invalid++
					if err == nil {
						fail("got %q", got)
					}
				} else if want := "<" + item(cur, i) + ">"; err != nil || got != want {
					fail("got %q, %v, want %q", got, err, want)
				}
			case "nested":
				if n == 0 {
					continue
				}
				i, k := rapid.IntRange(1, n).Draw(t, "i"), rapid.IntRange(1, n).Draw(t, "k")
				v := genArg().Draw(t, "own")
				if ofArgs && rapid.Bool().Draw(t, "same") {
					v = rapid.SampledFrom(vals).Draw(t, "own") // a value of the list
				}
				if rapid.Bool().Draw(t, "wide") {
					// a template with fragments, and no args of its own
					more := rapid.SampledFrom([]string{"", "x", " "}).Draw(t, "more")
					log("nested #prop%d ?, %q, #prop%d", i, more, k)
					got, err := sqlf.Ff(fmt.Sprintf("<#f1#f2#prop%d>", k), sqlf.Fa(fmt.Sprintf("[#prop%d] ?", i), v), sqlf.F(more)).BuildFragment(cur.ctx)
					refs += 2
					want := "<[" + item(cur, i) + "] " + cur.root.commit(v) + strings.TrimSpace(more) + item(cur, k) + ">"
					if err != nil || got != want {
						fail("got %q, %v, want %q", got, err, want)
					}
					continue
				}
				log("nested #prop%d ? #prop%d", i, k)
				got, err := sqlf.Ff(fmt.Sprintf("(#f1) #prop%d", k), sqlf.Fa(fmt.Sprintf("[#prop%d] ?", i), v)).BuildFragment(cur.ctx)
				refs += 2
				want := "([" + item(cur, i) + "] " + cur.root.commit(v) + ") " + item(cur, k)
				if want = strings.TrimSpace(want); err != nil || got != want {
					fail("got %q, %v, want %q", got, err, want)
				}
			case "join", "range":
				from, to := 1, 0
				tmpl := "#join('#prop', ', ')"
				if rapid.Bool().Draw(t, "range") {
					from = rapid.IntRange(1, n+2).Draw(t, "from")
					tmpl = fmt.Sprintf("#join('#prop', ', ', %d)", from)
					if rapid.Bool().Draw(t, "to") {
						to = rapid.IntRange(from, n+2).Draw(t, "to")
						tmpl = fmt.Sprintf("#join('#prop', ', ', %d, %d)", from, to)
					}
				}
				log("template %s", tmpl)
				got, err := sqlf.F("<" + tmpl + ">").BuildFragment(cur.ctx)
				refs++
				end := n
				if to > 0 {
					end = to
				}
				explicit := tmpl != "#join('#prop', ', ')"
				if explicit && (from > n || to > n) {
					invalid++
					if err == nil {
						fail("got %q", got)
					}
					// what the failed build has committed by then is no matter
					for i := from; i <= n; i++ {
						used[i-1] = used[i-1] || props[i-1].Used()
					}
					cur = newBuild()
					builds++
					log("new build (%s)", styleName(cur.root.style))
					continue
				}
				var parts []string
				for i := from; i <= end; i++ {
					if p := item(cur, i); p != "" {
						parts = append(parts, p)
					}
				}
				if want := "<" + strings.Join(parts, ", ") + ">"; err != nil || got != want {
					fail("got %q, %v, want %q", got, err, want)
				}
			case "unreferenced":
				log("a fragment that doesn't reference the list")
				if _, err := sqlf.F("x").BuildFragment(cur.ctx); err != nil {
					fail("%v", err)
				}
			}
			for i, p := range props {
				if p.Used() != used[i] {
					fail("item %d: used is %v, want %v", i+1, p.Used(), used[i])
				}
			}
			if got := cur.ctx.Args(); !identicalLists(got, cur.root.args) {
				fail("args %s, want %s", showList(got), showList(cur.root.args))
			}
		}
		note(n > 0 && refs > 1, strings.Join(hist, "; "), bucket("items", n), cond(ofArgs, "args"), cond(!ofArgs, "fragments"), cond(builds > 1, "several builds"), cond(invalid > 0, "invalid indexes"))
	})
}

// An invalid index inside of what an item builds to is an error of the item,
// not the end of a #join over the list.
func TestC24_NestedInvalid(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(t, "len")
		bad := rapid.IntRange(1, n).Draw(t, "bad")
		var bs []sqlf.FragmentBuilder
		for i := 1; i <= n; i++ {
			raw := "ok" + itoa(i)
			if i == bad {
				raw = rapid.SampledFrom([]string{"?", "#f1", "#arg2", "#prop(9)", "$3", "#prop(0)", "#join('#prop', '', 8)"}).Draw(t, "raw")
			}
			bs = append(bs, sqlf.F(raw))
		}
		props := sqlf.NewFragmentProperties(bs...)
		style := rapid.SampledFrom([]syntax.BindVarStyle{syntax.Dollar, syntax.Question}).Draw(t, "style")
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"prop": props.Build})
		if err != nil {
			t.Fatal(err)
		}
		tmpl := rapid.SampledFrom([]string{"#join('#prop', ',')", "#join('#prop', ',', 1)", fmt.Sprintf("#prop%d", bad), fmt.Sprintf("#join('x#prop', ',', %d, %d)", bad, n)}).Draw(t, "tmpl")
		note(true, fmt.Sprintf("%d items, %d is %q, %s", n, bad, bs[bad-1].(*sqlf.Fragment).Raw, tmpl), "dangling reference in an item")
		if q, err := sqlf.F(tmpl).BuildFragment(ctx); err == nil {
			t.Fatalf("%s of %d items, %d is %q: no error, built %q", tmpl, n, bad, bs[bad-1].(*sqlf.Fragment).Raw, q)
		}
	})
}

// Lists of any length are served to their end.
func TestC24_Long(t *testing.T) {
	check(t, 0.02, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(15, 130), rapid.IntRange(99, 130), rapid.IntRange(250, 260), rapid.IntRange(1000, 1100)).Draw(t, "n")
		ofArgs := rapid.Bool().Draw(t, "args")
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		var (
			props sqlf.Properties
			vals  []any
			want  []string
		)
		if ofArgs {
			for i := 0; i < n; i++ {
				vals = append(vals, i)
				if want = append(want, "?"); style == syntax.Dollar {
					want[i] = "$" + itoa(i+1)
				}
			}
			props = sqlf.NewArgsProperties(vals...)
		} else {
			var bs []sqlf.FragmentBuilder
			for i := 0; i < n; i++ {
				want = append(want, "item "+itoa(i))
				bs = append(bs, sqlf.F(want[i]))
			}
			props = sqlf.NewFragmentProperties(bs...)
		}
		key := fmt.Sprintf("%d items, args=%v, %s", n, ofArgs, styleName(style))
		note(true, key, "long list")
		if len(props) != n {
			t.Fatalf("%s: list of %d", key, len(props))
		}
		newCtx := func() *sqlf.Context {
			ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"prop": props.Build})
			if err != nil {
				t.Fatal(err)
			}
			return ctx
		}
		for k := 0; k < 2; k++ {
			ctx := newCtx()
			s, err := sqlf.F("#join('#prop', ',')").BuildFragment(ctx)
			if err != nil || s != strings.Join(want, ",") || !identicalLists(ctx.Args(), vals) {
				t.Fatalf("%s: built %d bytes with %d args (%v), want %d", key, len(s), len(ctx.Args()), err, len(strings.Join(want, ",")))
			}
			for _, i := range []int{1, n / 2, n - 1, n, n + 1, n + 100, 0, -1, 1<<8 + n, 1<<15 + 1, 1<<16 + 1, 1<<16 + n, 1<<31 + 1, 1<<32 + 1, 1<<32 + n, 1<<63 - 1, -1 << 63, -1<<32 + 1, -n} {
				s, err := props.Build(ctx, i)
				if i < 1 || i > n {
					if !errors.Is(err, sqlf.ErrInvalidIndex) {
						t.Fatalf("%s: item %d builds %q (%v)", key, i, s, err)
					}
				} else if err != nil || s != want[i-1] {
					t.Fatalf("%s: item %d builds %q (%v), want %q", key, i, s, err, want[i-1])
				}
			}
		}
		for i, p := range props {
			if !p.Used() {
				t.Fatalf("%s: item %d not used", key, i+1)
			}
		}
	})
}
