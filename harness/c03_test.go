package verifharness

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

func insertSeg(segs []seg, at int, s ...seg) []seg {
	return append(segs[:at:at], append(append([]seg(nil), s...), segs[at:]...)...)
}

// reachable returns the fragments of the tree, the root last.
func reachable(root *fragN) []*fragN {
	seen := map[*fragN]bool{}
	var out []*fragN
	var walk func(n node)
	walk = func(n node) {
		switch n := n.(type) {
		case *fragN:
			if seen[n] {
				return
			}
			seen[n] = true
			for _, c := range n.frs {
				walk(c)
			}
			out = append(out, n)
		case *exprN:
			walk(n.f)
		case *queryN:
			walk(n.sel)
			walk(n.where)
		}
	}
	walk(root)
	return out
}

// breakFrag makes one reference of f dangle or hands it an item too many.
func breakFrag(t *rapid.T, f *fragN) (what string) {
	target := &f.segs
	level := "template"
	// sometimes in a #join template
	var joins []int
	for i, s := range f.segs {
		if s.kind == sJoin {
			joins = append(joins, i)
		}
	}
	if len(joins) > 0 && rapid.Bool().Draw(t, "inJoin") {
		i := rapid.SampledFrom(joins).Draw(t, "join")
		j := *f.segs[i].join
		f.segs = append([]seg(nil), f.segs...)
		f.segs[i].join = &j
		target = &j.segs
		level = "#join template"
	}
	at := rapid.IntRange(0, len(*target)).Draw(t, "at")
	far := rapid.IntRange(1, 3).Draw(t, "far")
	switch k := rapid.IntRange(0, 12).Draw(t, "break"); k {
	case 0:
		*target = insertSeg(*target, at, seg{kind: sCall, fn: "f", idx: len(f.frs) + far, spell: rapid.IntRange(0, 4).Draw(t, "spell")})
		what = "missing fragment"
	case 1:
		*target = insertSeg(*target, at, seg{kind: sCall, fn: "arg", idx: len(f.args) + far, spell: rapid.IntRange(0, 4).Draw(t, "spell")})
		what = "missing arg (#arg)"
	case 2:
		*target = insertSeg(*target, at, seg{kind: sCall, fn: rapid.SampledFrom([]string{"f", "arg", "fragment"}).Draw(t, "fn"), idx: 0, spell: rapid.IntRange(0, 1).Draw(t, "spell")})
		what = "index 0"
	case 3:
		*target = insertSeg(*target, at, seg{kind: sCall, fn: rapid.SampledFrom([]string{"f", "arg", "fragment"}).Draw(t, "fn"), idx: -far, spell: 1})
		what = "negative index"
	case 4:
		// a bind variable without arg, in the style of the template
		style, binds := syntax.Dollar, 0
		for _, s := range *target {
			if s.kind == sBind {
				style = s.style
				binds++
			}
		}
		if style == syntax.Dollar {
			*target = insertSeg(*target, at, seg{kind: sBind, style: style, idx: len(f.args) + far})
		} else {
			for i := binds; i <= len(f.args); i++ {
				*target = insertSeg(*target, at, seg{kind: sBind, style: style}, seg{kind: sText, text: " "})
			}
		}
		what = "bind variable without arg"
	case 5:
		*target = insertSeg(*target, at, seg{kind: sCall, fn: rapid.SampledFrom([]string{"nope", "F", "Arg", "fragments", "args", "_"}).Draw(t, "fn"), idx: 1})
		what = "unknown function"
	case 6:
		if level == "template" {
			*target = insertSeg(*target, at, seg{kind: sFunc, fn: rapid.SampledFrom([]string{"f", "arg", "join"}).Draw(t, "fn")})
			what = "function not called"
		} else {
			*target = insertSeg(*target, at, seg{kind: sFunc, fn: "nope"})
			what = "unknown function"
		}
	case 7, 8:
		f.args = append(f.args[:len(f.args):len(f.args)], "surplus")
		what = "surplus arg"
	case 9, 10:
		f.frs = append(f.frs[:len(f.frs):len(f.frs)], &fragN{segs: []seg{{kind: sText, text: "surplus"}}})
		what = "surplus fragment"
	case 11:
		f.frs = append(f.frs[:len(f.frs):len(f.frs)], &customN{err: errors.New("failing item")})
		*target = insertSeg(*target, at, seg{kind: sCall, fn: "f", idx: len(f.frs)})
		what = "failing item"
	case 12:
		*target = insertSeg(*target, at, seg{kind: sJoin, join: &joinSeg{
			segs: []seg{{kind: sFunc, fn: "arg"}}, sep: ",", nargs: 1, from: len(f.args) + far}})
		what = "#join from a missing item"
	}
	f.segs = fixAdjacency(f.segs)
	*target = fixAdjacency(*target)
	return what + " in " + level
}

// C03: no reference dangles and nothing supplied is silently dropped.
func TestC03_Broken(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{})
		m := &model{}
		if _, err := root.eval(m); err != nil || m.amb {
			class("not judged: invalid before the change")
			return
		}
		all := reachable(root)
		victim := all[rapid.IntRange(0, len(all)-1).Draw(t, "victim")]
		what := breakFrag(t, victim)
		m = &model{}
		_, err := root.eval(m)
		if m.amb {
			class("not judged: unspecified")
			return
		}
		if err == nil {
			class("not judged: not reached by the build")
			return
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		where := "in a nested fragment"
		if victim == root {
			where = "in the root"
		}
		note(true, styleName(style)+" "+root.String(), what, where)
		q, args, err := buildFrag(root, style)
		if err == nil {
			t.Fatalf("no error for %s\nfragment: %s\ntree: %s\nbuilt: %q args %s", what, victim, root, q, showList(args))
		}
		if q != "" || len(args) != 0 {
			t.Fatalf("the failed build returned %q, %s\ntree: %s\nerror: %v", q, showList(args), root, err)
		}
	})
}

// Trees with references that may be invalid anywhere.
func TestC03_Wild(t *testing.T) {
	check(t, 0.7, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{wild: true, maxNodes: 4})
		m := &model{}
		_, err := root.eval(m)
		if m.amb {
			class("not judged: unspecified")
			return
		}
		if err == nil {
			class("valid")
			return
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		depth, _, _, _, _ := treeStats(root)
		note(depth > 1, styleName(style)+" "+root.String(), "wild")
		q, args, err := buildFrag(root, style)
		if err == nil {
			t.Fatalf("no error\ntree: %s\nbuilt: %q args %s", root, q, showList(args))
		}
		if q != "" || len(args) != 0 {
			t.Fatalf("the failed build returned %q, %s\ntree: %s\nerror: %v", q, showList(args), root, err)
		}
	})
}

// The same for what is nested in parts of a query builder.
func TestC03_InQueryBuilder(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		root, _ := genTree(t, treeOpts{maxNodes: 4, simple: true})
		m := &model{}
		if _, err := root.eval(m); err != nil || m.amb || root.usesTables() {
			class("not judged: invalid before the change")
			return
		}
		all := reachable(root)
		victim := all[rapid.IntRange(0, len(all)-1).Draw(t, "victim")]
		what := breakFrag(t, victim)
		m = &model{}
		_, err := root.eval(m)
		if m.amb || err == nil {
			class("not judged: not reached by the build")
			return
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "buildStyle")
		tbl := sqlb.NewTableAliased("tbl", "t")
		b := sqlb.NewQueryBuilder().From(tbl).Select(tbl.Column("id"))
		where := rapid.SampledFrom([]string{"select", "where", "on", "group", "order", "cte", "union", "nested"}).Draw(t, "where")
		b = putInto(b, where, root.frag())
		note(true, styleName(style)+" "+where+" "+root.String(), "query builder: "+where, what)
		var (
			q    string
			args []any
		)
		guard(root.String, func() { q, args, err = b.BuildQuery(style) })
		if err == nil {
			t.Fatalf("no error for %s in %s of a query builder\ntree: %s\nbuilt: %q args %s", what, where, root, q, showList(args))
		}
		if q != "" || len(args) != 0 {
			t.Fatalf("the failed build returned %q, %s\ntree: %s\nerror: %v", q, showList(args), root, err)
		}
	})
}

// putInto hands f to one part of the query builder, such that it's built.
func putInto(b *sqlb.QueryBuilder, where string, f *sqlf.Fragment) *sqlb.QueryBuilder {
	tbl := sqlb.NewTableAliased("tbl", "t")
	other := sqlb.NewTableAliased("other", "o")
	switch where {
	case "select":
		b.Select(tbl.Column("id"), sqlb.ExprColumn(f))
	case "where":
		b.Where(sqlf.F("1=1")).Where(f)
	case "on":
		b.LeftJoin(other, f)
	case "group":
		b.GroupBy(sqlb.ExprColumn(f))
	case "order":
		b.OrderBy(sqlb.ExprColumn(f), sqlb.Desc)
	case "cte":
		b.With("tbl", f)
	case "union":
		b.Union(f)
	case "nested":
		b.Union(sqlb.NewQueryBuilder().From(other).Select(other.Column("id")).Where(f))
	default:
		panic(where)
	}
	return b
}

// What is referenced and what is supplied, of a fragment that changes between builds.
func TestC03_Later(t *testing.T) {
	check(t, 0.4, func(t *rapid.T) {
		type refs struct{ args, frs map[int]bool }
		f := sqlf.F("x")
		r := refs{map[int]bool{}, map[int]bool{}}
		style := rapid.SampledFrom(bothStyles).Draw(t, "refs")
		var hist []string
		var b sqlf.FragmentBuilder = f
		depth := rapid.IntRange(0, 3).Draw(t, "depth")
		for i := 0; i < depth; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "around") {
			case 0:
				b = sqlf.Ff("(#f1)", b)
			case 1:
				b = sqlf.Ff("#join('#fragment', ' AND ')", sqlf.F("y"), b)
			case 2:
				b = sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.ExprColumn(sqlf.Ff("#f1", b)))
			}
		}
		good, bad := 0, 0
		for i, n := 0, rapid.IntRange(2, 10).Draw(t, "steps"); i < n; i++ {
			switch op := rapid.SampledFrom([]string{"arg", "arg", "fragment", "fragment", "refer", "refer", "refer", "reset raw", "refer all", "refer all", "drop arg", "drop fragment"}).Draw(t, "op"); op {
			case "arg":
				f.AppendArgs(len(f.Args))
			case "fragment":
				f.AppendFragments(sqlf.F("f" + itoa(len(f.Fragments))))
			case "drop arg":
				if n := len(f.Args); n > 0 {
					f.WithArgs(f.Args[:n-1]...)
				}
			case "drop fragment":
				if n := len(f.Fragments); n > 0 {
					f.WithFragments(f.Fragments[:n-1]...)
				}
			case "reset raw":
				f.Raw, r = "x", refs{map[int]bool{}, map[int]bool{}}
			case "refer":
				k := rapid.IntRange(1, 4).Draw(t, "k")
				if rapid.Bool().Draw(t, "to arg") {
					f.Raw += " #arg" + itoa(k)
					if style == syntax.Dollar {
						f.Raw = strings.TrimSuffix(f.Raw, "#arg"+itoa(k)) + "$" + itoa(k)
					}
					r.args[k] = true
				} else {
					f.Raw += " #f" + itoa(k)
					r.frs[k] = true
				}
			case "refer all":
				f.Raw = "x"
				r = refs{map[int]bool{}, map[int]bool{}}
				for k := range f.Args {
					f.Raw += " #arg" + itoa(k+1)
					r.args[k+1] = true
				}
				for k := range f.Fragments {
					f.Raw += " #f" + itoa(k+1)
					r.frs[k+1] = true
				}
			}
			hist = append(hist, fmt.Sprintf("%q with %d args and %d fragments", f.Raw, len(f.Args), len(f.Fragments)))
			if rapid.IntRange(0, 2).Draw(t, "skip") == 0 {
				continue
			}
			ok := len(r.args) == len(f.Args) && len(r.frs) == len(f.Fragments)
			for k := range r.args {
				ok = ok && k <= len(f.Args)
			}
			for k := range r.frs {
				ok = ok && k <= len(f.Fragments)
			}
			if ok {
				good++
			} else {
				bad++
			}
			buildStyle := rapid.SampledFrom(bothStyles).Draw(t, "style")
			q, args, err := sqlf.Ff("#f1", b).BuildQuery(buildStyle)
			if ok && err != nil {
				t.Fatalf("%s\n%v", strings.Join(hist, "\n"), err)
			}
			if !ok && (err == nil || q != "" || len(args) != 0) {
				t.Fatalf("%s\nwant an error only, built %q %v (%v)", strings.Join(hist, "\n"), q, args, err)
			}
		}
		note(good > 0 && bad > 0, strings.Join(hist, "; "), cond(good > 0 && bad > 0, "good and bad at different times"))
	})
}
