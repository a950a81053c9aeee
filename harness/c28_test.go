package verifharness

import (
	"fmt"
	"io"
	"log"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C28: debug output shows the query with its own args.

// messages collects what is logged, the logger writes each message at once.
type messages struct{ list []string }

func (m *messages) Write(p []byte) (int, error) {
	m.list = append(m.list, string(p))
	return len(p), nil
}

// logged returns the messages fn logs.
func logged(fn func()) []string {
	m := &messages{}
	flags := log.Flags()
	log.SetOutput(m)
	log.SetFlags(0)
	defer func() {
		log.SetOutput(io.Discard)
		log.SetFlags(flags)
	}()
	fn()
	return m.list
}

type debugLit struct {
	v   any
	lit string
}

var debugLits = []debugLit{
	{1, "1"}, {int64(1), "1"}, {2, "2"}, {70000, "70000"}, {uint8(7), "7"}, {0.5, "0.5"}, {true, "TRUE"}, {false, "FALSE"}, {nil, "NULL"},
	{"a", "'a'"}, {"it's", "'it''s'"}, {"?", "'?'"}, {"$1", "'$1'"}, {"", "''"}, {"--", "'--'"}, {"#f1", "'#f1'"}, {"x\ny", "'x\ny'"}, {"(", "'('"},
	{"100%", "'100%'"}, {"%d items", "'%d items'"}, {"%%", "'%%'"}, {"a\nb\n", "'a\nb\n'"}, {"\\", "'\\'"},
}

func litOf(v any) string {
	for _, l := range debugLits {
		if identical(l.v, v) {
			return l.lit
		}
	}
	return fmt.Sprintf("%d", v)
}

func litText(toks []tok) string {
	b := new(strings.Builder)
	for _, t := range toks {
		if t.ph {
			b.WriteString(litOf(t.v))
		} else {
			b.WriteString(t.text)
		}
	}
	return b.String()
}

func TestC28_Debug(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		value := func(t *rapid.T) any {
			if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
				return rapid.IntRange(100, 1<<20).Draw(t, "int")
			}
			return rapid.SampledFrom(debugLits).Draw(t, "val").v
		}
		o := bopts{maxJoins: 2, ctes: 2, unions: true, nested: true, optional: true, distinct: 4, orders: true, emptyParts: true, depth: 1}
		o.cteNeeded = rapid.Bool().Draw(t, "needed")
		o.val = func(t *rapid.T) (string, any) {
			return rapid.SampledFrom([]string{"x=", "n=", "id="}).Draw(t, "pre"), value(t)
		}
		o.inVals = func(t *rapid.T) (string, []any) {
			var vals []any
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "vals"); i < n; i++ {
				vals = append(vals, value(t))
			}
			return "y", vals
		}
		q := genBQ(t, o)
		debug := rapid.IntRange(0, 5).Draw(t, "debug") > 0
		if debug {
			for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "debug times"); i < n; i++ {
				q.b.Debug()
			}
		}
		own := litText(q.toks())
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		where := rapid.SampledFrom([]string{"alone", "fragment", "twice", "condition", "cte", "union", "debugged too"}).Draw(t, "where")
		var b sqlf.QueryBuilder
		var want []string
		if debug {
			want = append(want, own)
		}
		v, w := value(t), value(t)
		users := sqlb.NewTableAliased("users", "")
		outer := func() *sqlb.QueryBuilder { return sqlb.NewQueryBuilder().Select(users.Column("id")).From(users) }
		inner := func(raw string) *sqlf.Fragment { return sqlf.F(raw).WithArgs(v, w).WithFragments(q.b) }
		switch where {
		case "alone":
			b = q.b
		case "fragment":
			b = inner("a = ? AND b IN (#f1) AND c = ?")
		case "twice":
			b = inner("a = ? AND b IN (#f1) AND c = ? AND d IN (#f1)")
			want = append(want, want...)
		case "condition":
			b = outer().Where2(users.Column("k"), "=", w).Where(inner("a = ? AND b IN (#f1) AND c = ?"))
		case "cte":
			b = outer().With("c_one", sqlf.Fa("SELECT ?", v)).With("users", q.b, "c_one").Where2(users.Column("k"), "=", w)
		case "union":
			b = outer().Where2(users.Column("k"), "=", w).Union(q.b, sqlf.Fa("SELECT ?", v))
		case "debugged too":
			ob := outer().Where2(users.Column("k"), "=", w).Where(inner("a = $1 AND b IN (#f1) AND c = $2"))
			ob.Debug()
			b = ob
			want = append(want, fmt.Sprintf("SELECT users.id FROM users WHERE users.k=%s AND a = %s AND b IN (%s) AND c = %s", litOf(w), litOf(v), own, litOf(w)))
		}
		_, qArgs := render(q.toks(), style)
		key := fmt.Sprintf("%s; %s, %s, debug=%v", q, where, styleName(style), debug)
		note(debug && len(qArgs) > 0, key, where, styleName(style), cond(debug && len(qArgs) > 0, "debug with args"), cond(!debug, "no debug output"))
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "builds"); i < n; i++ {
			var err error
			var got []string
			guard(func() string { return key }, func() {
				got = logged(func() { _, _, err = b.BuildQuery(style) })
			})
			if err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			if len(got) != len(want) {
				t.Fatalf("%s\nlogged %d messages, want %d\n%q", key, len(got), len(want), got)
			}
			left := append([]string(nil), got...)
		next:
			for _, w := range want {
				for i, g := range left {
					if strings.TrimSuffix(g, "\n") == w {
						left = append(left[:i], left[i+1:]...)
						continue next
					}
				}
				t.Fatalf("%s\nlogged %q\nbut not %q", key, got, w)
			}
		}
	})
}

// A failed build, and an arg without a literal.
func TestC28_NotShown(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		tb := sqlb.NewTableAliased("users", "")
		b := sqlb.NewQueryBuilder().Select(tb.Column("id")).From(tb)
		b.Debug()
		how := rapid.SampledFrom([]string{"failing", "no literal"}).Draw(t, "how")
		var v any = 1
		if how == "no literal" {
			v = rapid.SampledFrom([]any{[]byte("x"), struct{ x int }{1}, []int{1}, map[string]int{}}).Draw(t, "v")
		}
		b.Where2(tb.Column("a"), "=", v)
		if how == "failing" {
			switch rapid.IntRange(0, 3).Draw(t, "bad") {
			case 0:
				b.Where(sqlf.F("#f9"))
			case 1:
				b.OrderBy(tb.Column("a"), 77)
			case 2:
				b.Union(sqlf.F("#nope()"))
			case 3:
				b.GroupBy(nil)
			}
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		note(true, fmt.Sprintf("%s %s %s", how, show(v), styleName(style)), how)
		var s string
		var args []any
		var err error
		var got []string
		r, stack := noPanic(func() { got = logged(func() { s, args, err = b.BuildQuery(style) }) })
		if r != nil {
			t.Fatalf("%s: panic %v\n%s", how, r, stack)
		}
		if how == "failing" {
			if err == nil || len(got) > 0 {
				t.Fatalf("a failing build (%v) logged %q", err, got)
			}
			return
		}
		ph := "?"
		if style == syntax.Dollar {
			ph = "$1"
		}
		if err != nil || s != "SELECT users.id FROM users WHERE users.a="+ph || !identicalLists(args, []any{v}) {
			t.Fatalf("built %q %s (%v)", s, showList(args), err)
		}
		if len(strings.TrimSpace(strings.Join(got, ""))) == 0 {
			t.Fatalf("nothing logged about an arg without literal, %s", show(v))
		}
	})
}

func TestC28_Fixed(t *testing.T) {
	note(true, "a nested builder in debug mode", "fixed defect")
	in := rq().Where2(rFoo.Column("a"), "=", 2)
	in.Debug()
	for _, style := range bothStyles {
		got := logged(func() { sqlf.F("x = ? AND y IN (#f1)").WithArgs(1).WithFragments(in).BuildQuery(style) })
		if want := "SELECT f.id FROM foo AS f WHERE f.a=2\n"; len(got) != 1 || got[0] != want {
			t.Errorf("logged %q, want %q", got, want)
		}
	}
	note(true, "no context", "fixed defect")
	if s, err := in.BuildFragment(nil); err == nil {
		t.Errorf("built %q without context", s)
	}
}

// Queries of any length are shown in full, build after build.
func TestC28_Long(t *testing.T) {
	check(t, 0.05, func(t *rapid.T) {
		tb := sqlb.NewTableAliased("users", "u")
		size := rapid.SampledFrom([]int{100, 1000, 3000, 5000, 9000, 40000, 70000}).Draw(t, "size")
		b := sqlb.NewQueryBuilder().From(tb)
		want := "SELECT u.id FROM users AS u"
		how := rapid.SampledFrom([]string{"text", "value", "list", "conditions", "quoted text", "blanks"}).Draw(t, "how")
		b.Select(tb.Column("id"))
		switch how {
		case "text":
			b.Select(tb.Column(strings.Repeat("x", size)))
			want = "SELECT u." + strings.Repeat("x", size) + " FROM users AS u"
		case "value":
			b.Where2(tb.Column("x"), "=", strings.Repeat("it's ", size/5))
			want += " WHERE u.x='" + strings.Repeat("it''s ", size/5) + "'"
		case "quoted text":
			b.Where(sqlf.F("x = '" + strings.Repeat("it''s ? ", size/8) + "'"))
			want += " WHERE x = '" + strings.Repeat("it''s ? ", size/8) + "'"
		case "blanks":
			s := strings.Repeat("a \t b\n  ", size/9) + "c"
			b.Where(sqlf.F(s))
			want += " WHERE " + s
		case "list":
			var list, lits []string
			for i := 0; i < size/8; i++ {
				list, lits = append(list, "v"+itoa(i)), append(lits, "'v"+itoa(i)+"'")
			}
			b.WhereIn(tb.Column("x"), list)
			want += " WHERE u.x IN (" + strings.Join(lits, ", ") + ")"
		case "conditions":
			var conds []string
			for i := 0; i < size/20; i++ {
				b.Where2(tb.Column("c"+itoa(i)), "=", i)
				conds = append(conds, fmt.Sprintf("u.c%d=%d", i, i))
			}
			want += " WHERE " + strings.Join(conds, " AND ")
		}
		b.Debug()
		n := rapid.IntRange(1, 4).Draw(t, "builds")
		key := fmt.Sprintf("%s of %d, %d builds", how, size, n)
		note(true, key, "long "+how)
		for i := 0; i < n; i++ {
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			var err error
			got := logged(func() { _, _, err = b.BuildQuery(style) })
			if err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			if len(got) != 1 || got[0] != want+"\n" {
				t.Fatalf("%s: build %d logged %d messages of %d bytes, want %d bytes\n%.300q\n%.300q", key, i+1, len(got), len(strings.Join(got, "")), len(want)+1, got, want)
			}
		}
	})
}
