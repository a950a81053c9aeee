package verifharness

import (
	"fmt"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C01: a fragment tree expands to exactly its composed SQL text.
func TestC01_Tree(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{})
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		m := &model{}
		want, err := root.eval(m)
		if m.amb {
			class("unspecified, not judged")
			return
		}
		key := styleName(style) + " " + root.String()
		depth, frags, joins, refs, shared := treeStats(root)
		if err != nil {
			// e.g. a nested join that does not fit, valid trees are the subject here
			class("invalid tree, not judged")
			return
		}
		note(frags > 1 && refs+joins > 1, key,
			"depth "+itoa(depth), cond(joins > 0, "with #join"), cond(shared, "shared fragments"),
			cond(len(want) == 0, "builds empty"), styleName(style))
		q, args, err := buildFrag(root, style)
		if err != nil {
			t.Fatalf("unexpected error: %v\ntree: %s\nwant: %s", err, root, toksString(want))
		}
		got, err := resolve(q, args, style)
		if err != nil {
			// placeholders and args don't fit, compare the text alone
			class("placeholders don't fit args")
			if g, w := skeleton(q), skeletonToks(want); g != w {
				t.Fatalf("tree: %s\nbuilt:    %q\nexpected: %q", root, g, w)
			}
			return
		}
		if !sameToks(got, want) {
			t.Fatalf("tree: %s\nstyle:    %s\nbuilt:    %q args %s\nmeaning:  %s\nexpected: %s",
				root, styleName(style), q, showList(args), toksString(got), toksString(want))
		}
	})
}

// skeleton replaces all placeholders with ¿.
func skeleton(q string) string {
	out := []byte{}
	for i := 0; i < len(q); i++ {
		switch q[i] {
		case '?':
			out = append(out, "¿"...)
		case '$':
			for i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9' {
				i++
			}
			out = append(out, "¿"...)
		default:
			out = append(out, q[i])
		}
	}
	return string(out)
}

func skeletonToks(toks []tok) string {
	s := ""
	for _, t := range toks {
		if t.ph {
			s += "¿"
		} else {
			s += t.text
		}
	}
	return s
}

// Indexes are local to the fragment whose template contains them, also when
// the nested fragment is built by #join of the parent.
func TestC01_Scopes(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		// a chain of fragments, each with own args of unique values at the same indexes
		n := rapid.IntRange(2, 6).Draw(t, "depth")
		var cur *fragN
		next := 1000
		for i := 0; i < n; i++ {
			f := &fragN{how: rapid.IntRange(0, 4).Draw(t, "how")}
			na := rapid.IntRange(1, 3).Draw(t, "na")
			for k := 0; k < na; k++ {
				f.args = append(f.args, next)
				next++
			}
			if cur != nil {
				f.frs = append(f.frs, cur)
			}
			for k := na; k >= 1; k-- {
				f.segs = append(f.segs, seg{kind: sBind, style: syntax.Dollar, idx: k}, seg{kind: sText, text: " "})
				if cur != nil && rapid.Bool().Draw(t, "ref") {
					f.segs = append(f.segs, seg{kind: sCall, fn: "f", idx: 1, spell: rapid.IntRange(0, 4).Draw(t, "spell")}, seg{kind: sText, text: "|"})
				}
			}
			if cur != nil && rapid.Bool().Draw(t, "join") {
				f.segs = append(f.segs, seg{kind: sJoin, join: &joinSeg{segs: []seg{{kind: sFunc, fn: "f"}, {kind: sText, text: "="}, {kind: sBind, style: syntax.Dollar, idx: 1}}, sep: ","}})
			}
			f.segs = append(f.segs, seg{kind: sText, text: " end"})
			completeUsage(t, f)
			f.segs = fixAdjacency(f.segs)
			cur = f
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		m := &model{}
		want, err := cur.eval(m)
		if err != nil || m.amb {
			return
		}
		note(true, styleName(style)+" "+cur.String(), "chain of scopes")
		q, args, err := buildFrag(cur, style)
		if err != nil {
			t.Fatalf("unexpected error: %v\ntree: %s", err, cur)
		}
		got, err := resolve(q, args, style)
		if err != nil || !sameToks(got, want) {
			t.Fatalf("tree: %s\nbuilt:    %q args %s (%v)\nexpected: %s", cur, q, showList(args), err, toksString(want))
		}
	})
}

// Building with a context gives the same text as building a query.
func TestC01_BuildFragment(t *testing.T) {
	check(t, 0.2, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{})
		m := &model{}
		want, err := root.eval(m)
		if m.amb || err != nil {
			return
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		note(len(root.frs) > 0, "ctx "+styleName(style)+" "+root.String(), "built with a context")
		var q string
		ctx := sqlf.NewContext(style)
		guard(root.String, func() { q, err = root.frag().BuildFragment(ctx) })
		if err != nil {
			t.Fatalf("unexpected error: %v\ntree: %s", err, root)
		}
		if g, w := skeleton(q), skeletonToks(want); g != w {
			t.Fatalf("tree: %s\nbuilt:    %q\nexpected: %q", root, g, w)
		}
	})
}

// Trees of any depth are composed, however deep.
func TestC01_Deep(t *testing.T) {
	check(t, 0.01, func(t *rapid.T) {
		depth := rapid.OneOf(rapid.IntRange(20, 150), rapid.IntRange(150, 1200), rapid.IntRange(1200, 3000)).Draw(t, "depth")
		var wraps []string
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "wraps"); i < n; i++ {
			wraps = append(wraps, rapid.SampledFrom([]string{"(#f1)", "#fragment1", "[#f(1)]", "#join('#f', ',')", "a #f1 b"}).Draw(t, "wrap"))
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		f := sqlf.Fa("x=?", 1)
		want := "x=?"
		if style == syntax.Dollar {
			want = "x=$1"
		}
		var pre, post []string
		for i := 0; i < depth; i++ {
			w := wraps[i%len(wraps)]
			f = sqlf.Ff(w, f)
			switch w[0] {
			case '(':
				pre, post = append(pre, "("), append(post, ")")
			case '[':
				pre, post = append(pre, "["), append(post, "]")
			case 'a':
				pre, post = append(pre, "a "), append(post, " b")
			}
		}
		for i := range pre {
			want = pre[i] + want + post[i]
		}
		key := fmt.Sprintf("%v nested %d deep (%s)", wraps, depth, styleName(style))
		note(true, key, "deep chain", styleName(style))
		q, args, err := f.BuildQuery(style)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		if q != want || len(args) != 1 || args[0] != 1 {
			t.Fatalf("%s: built %q with %s, want %q", key, q, showList(args), want)
		}
	})
}

// Lists of any length are reached by number, in any order.
func TestC01_Wide(t *testing.T) {
	check(t, 0.01, func(t *rapid.T) {
		nf := rapid.OneOf(rapid.IntRange(20, 150), rapid.IntRange(250, 300), rapid.IntRange(900, 1200)).Draw(t, "fragments")
		na := rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(250, 300), rapid.IntRange(900, 1200)).Draw(t, "args")
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		spells := rapid.IntRange(0, 1000).Draw(t, "spells")
		step := rapid.SampledFrom([]int{1, 7, 101, 211, 307}).Draw(t, "step") // coprime to most lengths
		f := sqlf.F("start")
		var (
			want []string
			vals []any
		)
		for i := 0; i < nf; i++ {
			f.AppendFragments(sqlf.F("<i" + itoa(i+1) + ">"))
		}
		for i := 0; i < na; i++ {
			f.AppendArgs(i + 1)
		}
		ref := func(names []string, i, k int) string {
			name := names[(spells+k)%len(names)]
			if (spells/7+k)%3 == 0 {
				return fmt.Sprintf(" #%s%d", name, i)
			}
			return fmt.Sprintf(" #%s(%d)", name, i)
		}
		// every item once, in the order of the steps, then some again
		var raw []byte
		raw = append(raw, "start"...)
		visit := func(n int, names []string, get func(i int) string) {
			seen := make([]bool, n)
			for k, i := 0, 0; k < n; k++ {
				for seen[i] {
					i = (i + 1) % n
				}
				seen[i] = true
				raw = append(raw, ref(names, i+1, k)...)
				want = append(want, get(i+1))
				i = (i + step) % n
			}
		}
		num := map[int]int{}
		visit(nf, []string{"f", "fragment"}, func(i int) string { return "<i" + itoa(i) + ">" })
		visit(na, []string{"arg"}, func(i int) string {
			if num[i] == 0 {
				num[i] = len(num) + 1
				if style == syntax.Dollar {
					vals = append(vals, i)
				}
			}
			if style == syntax.Question {
				vals = append(vals, i)
				return "?"
			}
			return "$" + itoa(num[i])
		})
		for _, i := range []int{nf, 1, (nf + 1) / 2, min(nf, 256), min(nf, 257)} {
			raw = append(raw, ref([]string{"f"}, i, i)...)
			want = append(want, "<i"+itoa(i)+">")
		}
		f.Raw = string(raw)
		w := "start"
		for _, x := range want {
			w += " " + x
		}
		key := fmt.Sprintf("%d fragments, %d args, step %d, spelling %d, %s", nf, na, step, spells, styleName(style))
		note(true, key, "wide lists", cond(nf > 256, "more than 256 fragments"), cond(na > 256, "more than 256 args"))
		q, args, err := f.BuildQuery(style)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		if q != w || !identicalLists(args, vals) {
			for i := range w {
				if i >= len(q) || q[i] != w[i] {
					t.Fatalf("%s: differs at byte %d: built %q, want %q", key, i, q[max(0, i-20):min(len(q), i+20)], w[max(0, i-20):min(len(w), i+20)])
				}
			}
			t.Fatalf("%s: built %d bytes with %d args, want %d bytes with %d args", key, len(q), len(args), len(w), len(vals))
		}
	})
}
