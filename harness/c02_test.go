package verifharness

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C02: emitted placeholders and returned args always correspond.
func TestC02_Correspondence(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{})
		m := &model{}
		want, err := root.eval(m)
		if m.amb || err != nil {
			class("not judged")
			return
		}
		vals := phValues(want)
		_, _, joins, _, shared := treeStats(root)
		ended := false
		for _, j := range m.joins {
			ended = ended || (j.ended && j.funcs > 1)
		}
		note(len(vals) > 1, root.String(), bucket("placeholders", len(vals)), cond(joins > 0, "with #join"),
			cond(shared, "shared fragments"), cond(ended, "#join of several functions ended by one"))
		for _, style := range bothStyles {
			q, args, err := buildFrag(root, style)
			if err != nil {
				class("build failed")
				return
			}
			got, err := resolve(q, args, style)
			if err != nil {
				t.Fatalf("tree: %s\nstyle: %s\nbuilt: %q args %s\n%v", root, styleName(style), q, showList(args), err)
			}
			if !identicalLists(phValues(got), vals) {
				t.Fatalf("tree: %s\nstyle: %s\nbuilt: %q args %s\nplaceholders denote %s\nexpected            %s",
					root, styleName(style), q, showList(args), showList(phValues(got)), showList(vals))
			}
		}
	})
}

// The surplus of lists of different lengths, items with own args and #join
// templates with several functions: what an unfinished iteration built is gone.
func TestC02_JoinRagged(t *testing.T) {
	check(t, 0.6, func(t *rapid.T) {
		f := &fragN{how: rapid.IntRange(0, 4).Draw(t, "how")}
		next := 0
		val := func() any {
			if rapid.IntRange(0, 3).Draw(t, "dup") == 0 {
				return rapid.SampledFrom(argPool).Draw(t, "pool")
			}
			next++
			return 10000 + next
		}
		na := rapid.IntRange(0, 5).Draw(t, "na")
		for i := 0; i < na; i++ {
			f.args = append(f.args, val())
		}
		nf := rapid.IntRange(0, 5).Draw(t, "nf")
		for i := 0; i < nf; i++ {
			c := &fragN{how: i}
			k := rapid.IntRange(0, 2).Draw(t, "k")
			for x := 1; x <= k; x++ {
				c.args = append(c.args, val())
				c.segs = append(c.segs, seg{kind: sText, text: "v="}, seg{kind: sBind, style: syntax.Dollar, idx: x}, seg{kind: sText, text: ";"})
			}
			f.frs = append(f.frs, c)
		}
		j := &joinSeg{sep: ", "}
		n := rapid.IntRange(2, 5).Draw(t, "parts")
		funcs := 0
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "part") {
			case 0, 1:
				j.segs = append(j.segs, seg{kind: sFunc, fn: "arg"})
				funcs++
			case 2, 3:
				j.segs = append(j.segs, seg{kind: sFunc, fn: "f"})
				funcs++
			case 4:
				if na > 0 {
					j.segs = append(j.segs, seg{kind: sBind, style: syntax.Dollar, idx: rapid.IntRange(1, na).Draw(t, "i")})
				}
			}
			j.segs = append(j.segs, seg{kind: sText, text: " "})
		}
		if funcs == 0 {
			j.segs = append(j.segs, seg{kind: sFunc, fn: "arg"})
		}
		f.segs = []seg{{kind: sJoin, join: j}, {kind: sText, text: " after "}}
		if rapid.Bool().Draw(t, "twice") {
			f.segs = append(f.segs, seg{kind: sJoin, join: j}, seg{kind: sText, text: " / "})
		}
		for i := na; i >= 1; i-- {
			f.segs = append(f.segs, seg{kind: sBind, style: syntax.Dollar, idx: i}, seg{kind: sText, text: " "})
		}
		for i := nf; i >= 1; i-- {
			f.segs = append(f.segs, seg{kind: sCall, fn: "f", idx: i}, seg{kind: sText, text: " "})
		}
		f.segs = fixAdjacency(f.segs)
		m := &model{}
		want, err := f.eval(m)
		if err != nil || m.amb {
			class("not judged")
			return
		}
		vals := phValues(want)
		note(na != nf && funcs > 1, f.String(), "ragged #join", cond(na > nf, "more args"), cond(nf > na, "more fragments"))
		for _, style := range bothStyles {
			q, args, err := buildFrag(f, style)
			if err != nil {
				class("build failed")
				return
			}
			got, err := resolve(q, args, style)
			if err != nil || !identicalLists(phValues(got), vals) {
				t.Fatalf("tree: %s\nstyle: %s\nbuilt: %q args %s (%v)\nplaceholders should denote %s",
					f, styleName(style), q, showList(args), err, showList(vals))
			}
		}
	})
}

func bucket(name string, n int) string {
	switch {
	case n <= 3:
		return name + " " + itoa(n)
	case n <= 6:
		return name + " 4-6"
	case n <= 12:
		return name + " 7-12"
	case n <= 30:
		return name + " 13-30"
	}
	return name + " >30"
}

// Any number of args corresponds to its placeholders.
// quadratic reports whether building lists of many args is so slow, that the
// longest ones would take longer than a check can wait.
var quadratic = sync.OnceValue(func() bool {
	args := make([]any, 3000)
	for i := range args {
		args[i] = i
	}
	best := time.Hour
	for i := 0; i < 5; i++ {
		start := time.Now()
		_, _, _ = sqlf.Fa("#join('#arg', ',')", args...).BuildQuery(syntax.Dollar)
		best = min(best, time.Since(start))
	}
	return best > 20*time.Millisecond
})

func TestC02_Many(t *testing.T) {
	check(t, 0.004, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(100, 2000), rapid.IntRange(32760, 33000), rapid.IntRange(65530, 70000)).Draw(t, "args")
		if n > 2000 && quadratic() {
			// how fast a build is, isn't what this property is about
			n = 2000
		}
		dups := rapid.SampledFrom([]int{0, 0, 1, 3, 100}).Draw(t, "duplicates of every nth")
		nested := rapid.Bool().Draw(t, "nested")
		f := sqlf.F("#join('#arg', ',')")
		want := make([]any, 0, n)
		for i := 0; i < n; i++ {
			v := i
			if dups > 0 && i%(dups+2) == dups {
				v = i / 2
			}
			want = append(want, v)
		}
		f.WithArgs(want...)
		if nested {
			f = sqlf.Ff("IN (#f1)", f)
		}
		key := fmt.Sprintf("%d args, duplicates %d, nested %v", n, dups, nested)
		note(true, key, "many args", cond(n > 65535, "more than 65535 args"))
		for _, style := range bothStyles {
			q, args, err := f.BuildQuery(style)
			if err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			got, err := resolve(q, args, style)
			if err != nil {
				t.Fatalf("%s (%s): %d args: %v", key, styleName(style), len(args), err)
			}
			if !identicalLists(phValues(got), want) {
				t.Fatalf("%s (%s): %d placeholders with %d args don't denote the values bound", key, styleName(style), len(phValues(got)), len(args))
			}
		}
	})
}
