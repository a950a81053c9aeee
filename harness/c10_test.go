package verifharness

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C10: building is read-only and repeatable.

func cloneNode(c cloner, n node) node {
	switch n := n.(type) {
	case *fragN:
		return cloneOnce(c, n, func() *fragN {
			d := *n
			d.f = nil
			d.frs = append([]node(nil), n.frs...)
			d.args = c.vals(n.args)
			for i, x := range d.frs {
				d.frs[i] = cloneNode(c, x)
			}
			return &d
		})
	case *exprN:
		return &exprN{cloneNode(c, n.f).(*fragN)}
	case *queryN:
		return &queryN{sel: cloneNode(c, n.sel).(*fragN), where: cloneNode(c, n.where).(*fragN)}
	case *customN:
		if len(n.vals) > 0 && n.err == nil {
			return cloneOnce(c, n, func() *customN { return &customN{vals: c.vals(n.vals)} })
		}
	}
	return n
}

// part is a fragment of a world used in a builder of it.
type part struct {
	where string
	frag  int
}

// plan tells how to make a world: fragments, builders which use them, and builders
// which use builders. All worlds of a plan are alike and share nothing but values.
type plan struct {
	frags    []*fragN
	builders [][]part
	nested   []int // builder that is used by the one of the same index, if not negative
	progs    []*bq
	debug    []bool
}

type world struct {
	frags    []*sqlf.Fragment
	builders []*sqlb.QueryBuilder
	cols     [][]*sqlb.Column // slices given to builders, with spare capacity
}

func genPlan(t *rapid.T) *plan {
	p := new(plan)
	_, p.frags = genTree(t, treeOpts{wild: rapid.IntRange(0, 4).Draw(t, "wild") == 0, maxNodes: 5})
	for _, f := range p.frags {
		for i, n := range f.frs {
			if _, ok := n.(*textN); ok {
				f.frs[i] = &textN{"t"} // the builders below have one
			}
		}
	}
	parts := []string{"select", "where", "where", "on", "full", "optional", "cross", "group", "order", "cte", "union", "where2", "expr twice"}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "builders"); i < n; i++ {
		var l []part
		for k, m := 0, rapid.IntRange(1, 3).Draw(t, "parts"); k < m; k++ {
			l = append(l, part{rapid.SampledFrom(parts).Draw(t, "where"), rapid.IntRange(0, len(p.frags)-1).Draw(t, "frag")})
		}
		p.builders = append(p.builders, l)
		p.nested = append(p.nested, rapid.IntRange(-1, i-1).Draw(t, "nested"))
	}
	for i, n := 0, rapid.IntRange(0, 1).Draw(t, "programs"); i < n; i++ {
		p.progs = append(p.progs, genBQ(t, bopts{maxJoins: 2, ctes: 2, unions: true, nested: true, optional: true, distinct: 5, orders: true, emptyParts: true, depth: 1}))
	}
	for i := 0; i < len(p.builders)+len(p.progs); i++ {
		p.debug = append(p.debug, rapid.IntRange(0, 4).Draw(t, "debug") == 0)
	}
	return p
}

func (p *plan) String() string {
	b := new(strings.Builder)
	for i, f := range p.frags {
		fmt.Fprintf(b, "f%d=%s; ", i, f)
	}
	for i, l := range p.builders {
		fmt.Fprintf(b, "b%d uses %v and b%d; ", i, l, p.nested[i])
	}
	for _, q := range p.progs {
		fmt.Fprintf(b, "q{%s}; ", q)
	}
	return b.String()
}

var spareColumn = sqlb.ExprColumn(sqlf.F("spare"))

func (p *plan) make(debug bool) *world {
	w := new(world)
	c := cloner{}
	for _, f := range p.frags {
		w.frags = append(w.frags, cloneNode(c, f).(*fragN).frag())
	}
	for i, l := range p.builders {
		tbl := sqlb.NewTableAliased("tbl", "t")
		other := sqlb.NewTableAliased("other", "")
		users := sqlb.NewTableAliased("users", "u")
		users2 := sqlb.NewTableAliased("users", "")
		// the tables fragments use
		b := sqlb.NewQueryBuilder().From(tbl).InnerJoin(users, nil).InnerJoin(users2, nil)
		cols := make([]*sqlb.Column, 1, 4)
		cols[0] = tbl.Column("id")
		all := cols[:4]
		for k := 1; k < 4; k++ {
			all[k] = spareColumn
		}
		for k, part := range l {
			f := w.frags[part.frag]
			switch part.where {
			case "select":
				if len(cols) < 3 {
					cols = append(cols, sqlb.ExprColumn(f))
				}
			case "where":
				b.Where(f)
			case "where2":
				b.Where2(sqlb.ExprColumn(f), "=", k)
			case "on":
				b.LeftJoin(other, f)
			case "full":
				b.FullJoin(sqlb.NewTableAliased("full", ""), f)
			case "optional":
				b.Distinct()
				b.LeftJoinOptional(sqlb.NewTableAliased("opt", sqlb.Table("o"+itoa(k))), f)
				if k == 1 {
					b.Where(sqlf.Ff("#f1 > 0", sqlb.Table("o1").Column("x")))
				}
			case "cross":
				b.CrossJoin(sqlb.NewTableAliased("cr", "")).Where(sqlf.Ff("x IN (#f1)", f))
			case "group":
				b.GroupBy(sqlb.ExprColumn(f))
			case "order":
				b.OrderBy(sqlb.ExprColumn(f), sqlb.Order(k))
			case "cte":
				b.With(sqlb.Table("c"+itoa(k)), f)
				b.With("tbl", sqlf.F("SELECT 1"), sqlb.Table("c"+itoa(k)))
			case "union":
				b.Union(f)
			case "expr twice":
				x := sqlb.ExprColumn(f)
				b.GroupBy(x).OrderBy(x, sqlb.Desc)
			}
		}
		b.Select(cols...)
		if n := p.nested[i]; n >= 0 {
			switch n % 3 {
			case 0:
				b.Union(w.builders[n])
			case 1:
				b.Where(sqlf.Ff("EXISTS (#f1)", w.builders[n]))
			case 2:
				b.With("users", w.builders[n])
			}
		}
		w.builders = append(w.builders, b)
		w.cols = append(w.cols, all)
	}
	for _, q := range p.progs {
		w.builders = append(w.builders, q.copy(c).b)
	}
	if debug {
		for i, b := range w.builders {
			if p.debug[i] {
				b.Debug()
			}
		}
	}
	return w
}

// result is what an item of a world builds to.
type result struct {
	s    string
	args []any
	err  error
}

func (r result) same(o result) bool {
	return r.s == o.s && (r.err != nil) == (o.err != nil) && identicalLists(r.args, o.args)
}

func (r result) String() string { return fmt.Sprintf("%q %s (%v)", r.s, showList(r.args), r.err) }

var concurrentFuncs = sqlf.FuncMap{
	"up": func(s string) string { return strings.ToUpper(s) },
	"num": func(ctx *sqlf.Context, i int) (string, error) {
		if i < 1 || i > 3 {
			return "", sqlf.ErrInvalidIndex
		}
		return ctx.CommitArg(i), nil
	},
}

// items are fragments, then fragments built with functions, then builders.
func (p *plan) items() int { return 2*len(p.frags) + len(p.builders) + len(p.progs) }

func (w *world) build(i int, style syntax.BindVarStyle) (r result) {
	n := len(w.frags)
	switch {
	case i < n:
		r.s, r.args, r.err = w.frags[i].BuildQuery(style)
	case i < 2*n:
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), concurrentFuncs)
		if err != nil {
			return result{err: err}
		}
		f := sqlf.Ff("#up('x') #f1 #join('#num', '+')", w.frags[i-n])
		r.s, r.err = f.BuildFragment(ctx)
		if r.err != nil {
			r.s = ""
		} else {
			r.args = ctx.Args()
		}
	default:
		r.s, r.args, r.err = w.builders[i-2*n].BuildQuery(style)
	}
	return
}

type ref struct {
	item  int
	style syntax.BindVarStyle
}

// first builds an item of a new world where nothing was built.
func (p *plan) first(refs map[ref]result, r ref) result {
	if have, ok := refs[r]; ok {
		return have
	}
	q := p
	if r.item < 2*len(p.frags) {
		// nor given to anything
		q = &plan{frags: p.frags}
	}
	refs[r] = q.make(false).build(r.item, r.style)
	return refs[r]
}

// snapshot is what the exported fields of fragments hold.
type snapshot struct {
	f    *sqlf.Fragment
	copy sqlf.Fragment
	args []any                  // up to the capacity
	frs  []sqlf.FragmentBuilder // up to the capacity
}

func snap(frags []*sqlf.Fragment) (out []snapshot) {
	seen := map[*sqlf.Fragment]bool{}
	var walk func(f *sqlf.Fragment)
	walk = func(f *sqlf.Fragment) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, snapshot{
			f: f, copy: *f,
			args: append([]any(nil), f.Args[:cap(f.Args)]...),
			frs:  append([]sqlf.FragmentBuilder(nil), f.Fragments[:cap(f.Fragments)]...),
		})
		for _, x := range f.Fragments {
			if x, ok := x.(*sqlf.Fragment); ok {
				walk(x)
			}
		}
	}
	for _, f := range frags {
		walk(f)
	}
	return
}

func (s *snapshot) changed() bool {
	f, c := s.f, &s.copy
	if f.Raw != c.Raw || f.Prefix != c.Prefix || f.Suffix != c.Suffix || len(f.Args) != len(c.Args) || len(f.Fragments) != len(c.Fragments) ||
		cap(f.Args) != cap(c.Args) || cap(f.Fragments) != cap(c.Fragments) {
		return true
	}
	if !identicalLists(f.Args[:cap(f.Args)], s.args) {
		return true
	}
	for i, x := range f.Fragments[:cap(f.Fragments)] {
		if !identical(x, s.frs[i]) {
			return true
		}
	}
	return false
}

func sharedValuesIntact() bool {
	return string(sharedBytes) == "bytes" && string(sharedBytes2) == "bytes" && fmt.Sprint(sharedInts) == "[1 2]" &&
		fmt.Sprint(sharedMap) == "map[a:1]" && *sharedPtr == cmpStruct{1, "p"}
}

func (w *world) colsIntact(p *plan) error {
	for i, cols := range w.cols {
		n := 1
		for _, part := range p.builders[i] {
			if part.where == "select" && n < 3 {
				n++
			}
		}
		for _, c := range cols[n:] {
			if c != spareColumn {
				return fmt.Errorf("the columns given to b%d were written behind", i)
			}
		}
	}
	return nil
}

func TestC10_Repeat(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		p := genPlan(t)
		var hist []ref
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "n"); i < n; i++ {
			hist = append(hist, ref{rapid.IntRange(0, p.items()-1).Draw(t, "item"), rapid.SampledFrom(bothStyles).Draw(t, "style")})
		}
		desc := fmt.Sprintf("%sbuilds %v", p, hist)
		w := p.make(true)
		frags := append([]*sqlf.Fragment(nil), w.frags...)
		snaps := snap(frags)
		refs := map[ref]result{}
		repeated, good := false, 0
		for i, r := range hist {
			if _, ok := refs[r]; ok {
				repeated = true
			}
			want := p.first(refs, r)
			var got result
			guard(func() string { return desc }, func() { got = w.build(r.item, r.style) })
			if want.err == nil {
				good++
			}
			if !got.same(want) {
				t.Fatalf("%s\nbuild %d, of item %d: %s\nwhile a first build gives %s", desc, i, r.item, got, want)
			}
			for _, s := range snaps {
				if s.changed() {
					t.Fatalf("%s\nbuild %d, of item %d, changed the fragment %+v to %+v", desc, i, r.item, s.copy, *s.f)
				}
			}
			if err := w.colsIntact(p); err != nil {
				t.Fatalf("%s\nbuild %d: %v", desc, i, err)
			}
			if !sharedValuesIntact() {
				t.Fatalf("%s\nbuild %d changed what an arg holds", desc, i)
			}
		}
		note(len(hist) > 2 && good > 1, desc, bucket("builders", len(w.builders)), cond(repeated, "an item repeated"), cond(good < len(hist), "with failing builds"))
	})
}

// genWork generates what each of several goroutines builds.
func genWork(t *rapid.T, p *plan) [][]ref {
	work := make([][]ref, rapid.IntRange(2, 6).Draw(t, "workers"))
	same := rapid.Bool().Draw(t, "same item")
	item := rapid.IntRange(0, p.items()-1).Draw(t, "item")
	for i := range work {
		for k, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); k < n; k++ {
			if !same {
				item = rapid.IntRange(0, p.items()-1).Draw(t, "item")
			}
			work[i] = append(work[i], ref{item, rapid.SampledFrom(bothStyles).Draw(t, "style")})
		}
	}
	return work
}

// concurrently builds, and compares what comes out to refs, which may be made afterwards.
func (p *plan) concurrently(desc string, work [][]ref, refs func(ref) result) error {
	w := p.make(true)
	start := make(chan struct{})
	results := make([][]result, len(work))
	panics := make([]any, len(work))
	var wg sync.WaitGroup
	for i := range work {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			for _, r := range work[i] {
				results[i] = append(results[i], w.build(r.item, r.style))
			}
		}()
	}
	guard(func() string { return desc }, func() {
		close(start)
		wg.Wait()
	})
	for i := range work {
		if panics[i] != nil {
			return fmt.Errorf("panic: %v", panics[i])
		}
		for k, r := range work[i] {
			if want := refs(r); !results[i][k].same(want) {
				return fmt.Errorf("item %d: %s\nwhile a first build gives %s", r.item, results[i][k], want)
			}
		}
	}
	return nil
}

func TestC10_Concurrent(t *testing.T) {
	check(t, 0.25, func(t *rapid.T) {
		p := genPlan(t)
		work := genWork(t, p)
		refs := map[ref]result{}
		for _, l := range work {
			for _, r := range l {
				p.first(refs, r)
			}
		}
		desc := fmt.Sprintf("%sconcurrent builds %v", p, work)
		note(true, desc, "concurrent")
		if err := p.concurrently(desc, work, func(r ref) result { return refs[r] }); err != nil {
			t.Fatalf("%s\n%v", desc, err)
		}
	})
}

type coldCase struct {
	p    *plan
	work [][]ref
}

var genCold = rapid.Custom(func(t *rapid.T) coldCase {
	p := genPlan(t)
	return coldCase{p, genWork(t, p)}
})

// Concurrent builds are the first thing a process does, when whatever is made on
// first use is made.
func TestC10_Cold(t *testing.T) {
	check(t, 0.005, func(t *rapid.T) {
		seed := rapid.IntRange(1, 1<<30).Draw(t, "seed")
		cmd := exec.Command(os.Args[0], "-test.run", "^TestC10_ColdChild$", "-test.count=1")
		cmd.Env = append(os.Environ(), "VERIF_COLD="+itoa(seed), "VERIF_STATS_OUT=")
		out, err := cmd.CombinedOutput()
		note(true, fmt.Sprintf("concurrent builds in a new process, plan of seed %d", seed), "cold start")
		if err != nil {
			t.Fatalf("concurrent builds in a new process, plan of seed %d: %v\n%s", seed, err, clipStr(string(out), 6000))
		}
	})
}

func TestC10_ColdChild(t *testing.T) {
	seed, err := strconv.Atoi(os.Getenv("VERIF_COLD"))
	if err != nil {
		t.Skip("run by TestC10_Cold")
	}
	c := genCold.Example(seed)
	desc := fmt.Sprintf("%sconcurrent builds %v", c.p, c.work)
	refs := map[ref]result{}
	if err := c.p.concurrently(desc, c.work, func(r ref) result { return c.p.first(refs, r) }); err != nil {
		t.Fatalf("%s\n%v", desc, err)
	}
}
