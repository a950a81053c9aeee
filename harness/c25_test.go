package verifharness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"pgregory.net/rapid"
)

// C25: changing one fragment never changes another.

func TestC25_History(t *testing.T) {
	type mfrag struct {
		f              *sqlf.Fragment
		args           []any
		frs            []sqlf.FragmentBuilder
		prefix, suffix string
		sep            string
	}
	check(t, 1, func(t *rapid.T) {
		serial := 0
		next := func() string { serial++; return fmt.Sprintf("v%d", serial) }
		const tmpl = "#join('#arg', ' ') / #join('#f', ' ')"
		// an arg, of any kind
		nextArg := func() any {
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0:
				return nil
			case 1:
				return []any{next(), next()}
			case 2:
				return (*string)(nil)
			case 3:
				return sqlf.F(next())
			}
			return next()
		}
		// a fragment, and what it builds to
		texts := map[sqlf.FragmentBuilder]string{}
		var plain []*sqlf.Fragment // which are nothing but their text
		nextFr := func() sqlf.FragmentBuilder {
			var f *sqlf.Fragment
			s := next()
			switch rapid.IntRange(0, 7).Draw(t, "kind") {
			case 0:
				x := next()
				f, s = sqlf.Ff(tmpl, sqlf.F(s), sqlf.F(x)), "/ "+s+" "+x
			case 1:
				f = sqlf.Ff("#f1", sqlf.F(s))
			case 2:
				f = sqlf.F(" " + s + " ")
			case 3:
				f, s = sqlf.F(""), ""
			case 4:
				f, s = nil, ""
			default:
				f = sqlf.F(s)
				plain = append(plain, f)
			}
			texts[f] = s
			return f
		}
		// lists with spare capacity that several fragments are made from
		mkLen := func(l string) (n, c int) {
			n = rapid.IntRange(0, 4).Draw(t, l)
			return n, n + rapid.SampledFrom([]int{0, 1, 3, 8}).Draw(t, "spare")
		}
		type argList struct{ real, want []any }
		type frList struct{ real, want []sqlf.FragmentBuilder }
		var argLists []*argList
		var frLists []*frList
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "lists"); i < k; i++ {
			n, c := mkLen("len")
			l := make([]any, n, c)
			for i := range l {
				l[i] = nextArg()
			}
			// the whole array has contents, what is behind the list included
			full := l[:c]
			for i := n; i < c; i++ {
				full[i] = "spare" + itoa(i)
			}
			argLists = append(argLists, &argList{l, append([]any(nil), full...)})
			n, c = mkLen("flen")
			fl := make([]sqlf.FragmentBuilder, n, c)
			ffull := fl[:c]
			for i := range ffull {
				ffull[i] = nextFr()
			}
			frLists = append(frLists, &frList{fl, append([]sqlf.FragmentBuilder(nil), ffull...)})
		}
		var (
			all  []*mfrag
			hist []string
		)
		// args as given and as a plain copy
		pickArgs := func() (given, plain []any, d string) {
			switch k := rapid.IntRange(0, len(argLists)*2+1).Draw(t, "argsFrom"); {
			case k < len(argLists):
				l := argLists[k].real
				return l, append([]any(nil), l...), fmt.Sprintf("L%d...", k)
			case k < 2*len(argLists):
				l := argLists[k-len(argLists)].real
				n := rapid.IntRange(0, len(l)).Draw(t, "head")
				return l[:n], append([]any(nil), l[:n]...), fmt.Sprintf("L%d[:%d]...", k-len(argLists), n)
			case k == 2*len(argLists) && len(all) > 0:
				o := all[rapid.IntRange(0, len(all)-1).Draw(t, "of")]
				return o.f.Args, append([]any(nil), o.args...), "other.Args..."
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				plain = append(plain, nextArg())
			}
			return append([]any(nil), plain...), plain, fmt.Sprint(plain)
		}
		pickFrs := func() (given, plain []sqlf.FragmentBuilder, d string) {
			switch k := rapid.IntRange(0, len(frLists)*2+1).Draw(t, "frsFrom"); {
			case k < len(frLists):
				l := frLists[k].real
				return l, append([]sqlf.FragmentBuilder(nil), l...), fmt.Sprintf("M%d...", k)
			case k < 2*len(frLists):
				l := frLists[k-len(frLists)].real
				n := rapid.IntRange(0, len(l)).Draw(t, "head")
				return l[:n], append([]sqlf.FragmentBuilder(nil), l[:n]...), fmt.Sprintf("M%d[:%d]...", k-len(frLists), n)
			case k == 2*len(frLists) && len(all) > 0:
				o := all[rapid.IntRange(0, len(all)-1).Draw(t, "of")]
				return o.f.Fragments, append([]sqlf.FragmentBuilder(nil), o.frs...), "other.Fragments..."
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				plain = append(plain, nextFr())
			}
			return append([]sqlf.FragmentBuilder(nil), plain...), plain, fmt.Sprint(len(plain), " new")
		}
		// what they build to
		verify := func() {
			for i, m := range all {
				for _, style := range bothStyles {
					root := &ctxRoot{style: style}
					var a, f []string
					for _, v := range m.args {
						a = append(a, root.commit(v))
					}
					for _, v := range m.frs {
						if s := texts[v]; s != "" {
							f = append(f, s)
						}
					}
					want := strings.TrimSpace(strings.Join(a, " ") + " " + m.sep + " " + strings.Join(f, " "))
					if m.prefix != "" {
						want = m.prefix + " " + want
					}
					if m.suffix != "" {
						want += " " + m.suffix
					}
					q, args, err := m.f.BuildQuery(style)
					if err != nil || q != want || !identicalLists(args, root.args) {
						t.Fatalf("%s\nf%d builds to %q %s (%v), want %q %s", strings.Join(hist, "\n"), i, q, showList(args), err, want, showList(root.args))
					}
				}
			}
		}
		steps := rapid.IntRange(3, 16).Draw(t, "steps")
		shared, appends := 0, 0
		for s := 0; s < steps; s++ {
			op := rapid.IntRange(0, 12).Draw(t, "op")
			switch {
			case op == 10:
				hist = append(hist, "build")
				verify()
				continue
			case op == 11 && len(plain) > 0:
				// a fragment used in others gets another text
				f := rapid.SampledFrom(plain).Draw(t, "item")
				f.Raw = next()
				texts[f] = f.Raw
				hist = append(hist, "an item becomes "+f.Raw)
				continue
			case op == 12 && len(all) > 0:
				m := rapid.SampledFrom(all).Draw(t, "frag")
				m.sep = rapid.SampledFrom([]string{"/", "+", "(plus)"}).Draw(t, "sep")
				m.f.Raw = strings.Replace(tmpl, "/", m.sep, 1)
				hist = append(hist, "template "+m.f.Raw)
				continue
			}
			if op > 9 || len(all) == 0 {
				op = op % 4
			}
			var m *mfrag
			if op > 3 {
				m = all[rapid.IntRange(0, len(all)-1).Draw(t, "frag")]
			}
			var ret *sqlf.Fragment
			d := ""
			switch op {
			case 0:
				g, p, desc := pickArgs()
				m = &mfrag{f: sqlf.Fa(tmpl, g...), args: p}
				d = "Fa " + desc
			case 1:
				g, p, desc := pickFrs()
				m = &mfrag{f: sqlf.Ff(tmpl, g...), frs: p}
				d = "Ff " + desc
			case 2:
				m = &mfrag{f: sqlf.F(tmpl)}
				d = "F"
			case 3:
				ga, pa, da := pickArgs()
				gf, pf, df := pickFrs()
				m = &mfrag{f: &sqlf.Fragment{Raw: tmpl, Args: ga, Fragments: gf}, args: pa, frs: pf}
				d = "literal " + da + " " + df
			case 4:
				g, p, desc := pickArgs()
				ret, m.args, d = m.f.WithArgs(g...), p, "WithArgs "+desc
			case 5:
				g, p, desc := pickFrs()
				ret, m.frs, d = m.f.WithFragments(g...), p, "WithFragments "+desc
			case 6:
				g, p, desc := pickArgs()
				ret, m.args, d = m.f.AppendArgs(g...), append(append([]any(nil), m.args...), p...), "AppendArgs "+desc
				appends++
			case 7:
				g, p, desc := pickFrs()
				ret, m.frs, d = m.f.AppendFragments(g...), append(append([]sqlf.FragmentBuilder(nil), m.frs...), p...), "AppendFragments "+desc
				appends++
			case 8:
				v := rapid.SampledFrom([]string{"", "p", "q r"}).Draw(t, "prefix")
				ret, m.prefix, d = m.f.WithPrefix(v), v, "WithPrefix "+v
			case 9:
				v := rapid.SampledFrom([]string{"", "s", "t u"}).Draw(t, "suffix")
				ret, m.suffix, d = m.f.WithSuffix(v), v, "WithSuffix "+v
			}
			if strings.Contains(d, "...") {
				shared++
			}
			if op <= 3 {
				m.sep = "/"
				all = append(all, m)
				hist = append(hist, fmt.Sprintf("f%d = %s", len(all)-1, d))
			} else {
				for i := range all {
					if all[i] == m {
						hist = append(hist, fmt.Sprintf("f%d.%s", i, d))
					}
				}
				if ret != m.f {
					t.Fatalf("%s\nreturned another fragment", strings.Join(hist, "\n"))
				}
			}
			// every fragment still is what it is in the model
			for i, m := range all {
				if !identicalLists(m.f.Args, m.args) {
					t.Fatalf("%s\nf%d has args %s, want %s", strings.Join(hist, "\n"), i, showList(m.f.Args), showList(m.args))
				}
				if len(m.f.Fragments) != len(m.frs) {
					t.Fatalf("%s\nf%d has %d fragments, want %d", strings.Join(hist, "\n"), i, len(m.f.Fragments), len(m.frs))
				}
				for k := range m.frs {
					if m.f.Fragments[k] != m.frs[k] {
						t.Fatalf("%s\nf%d has another fragment %d", strings.Join(hist, "\n"), i, k)
					}
				}
				if m.f.Prefix != m.prefix || m.f.Suffix != m.suffix || m.f.Raw != strings.Replace(tmpl, "/", m.sep, 1) {
					t.Fatalf("%s\nf%d is %+v", strings.Join(hist, "\n"), i, *m.f)
				}
			}
			for i, l := range argLists {
				if !identicalLists(l.real[:cap(l.real)], l.want) {
					t.Fatalf("%s\nlist L%d and what is behind it is now %s, was %s", strings.Join(hist, "\n"), i, showList(l.real[:cap(l.real)]), showList(l.want))
				}
			}
			for i, l := range frLists {
				for k, f := range l.real[:cap(l.real)] {
					if f != l.want[k] {
						t.Fatalf("%s\nitem %d of list M%d (length %d) changed", strings.Join(hist, "\n"), k, i, len(l.real))
					}
				}
			}
		}
		note(len(all) > 1, strings.Join(hist, "; "), cond(shared > 0, "shared lists"), cond(appends > 0, "appends"), bucket("fragments", len(all)))
		verify()
	})
}

// Every call of a constructor makes a fragment of its own, however alike.
func TestC25_Constructors(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		raw := rapid.SampledFrom([]string{"", " ", "?", "$1", "#f1", "#arg1", "a", "NULL", "1=1", "SELECT 1", "#join('#f', ', ')", "#join('#arg', ', ')"}).Draw(t, "raw")
		n := rapid.IntRange(2, 6).Draw(t, "n")
		var (
			all  []*sqlf.Fragment
			want []sqlf.Fragment
			hist []string
		)
		shared := sqlf.F("shared")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0, 1, 2:
				all, want = append(all, sqlf.F(raw)), append(want, sqlf.Fragment{})
				hist = append(hist, "F")
			case 3:
				args := []any{1, "a"}[:rapid.IntRange(0, 2).Draw(t, "args")]
				all, want = append(all, sqlf.Fa(raw, args...)), append(want, sqlf.Fragment{Args: append([]any(nil), args...)})
				hist = append(hist, fmt.Sprint("Fa", len(args)))
			case 4:
				frs := []sqlf.FragmentBuilder{shared, nil}[:rapid.IntRange(0, 2).Draw(t, "frs")]
				all, want = append(all, sqlf.Ff(raw, frs...)), append(want, sqlf.Fragment{Fragments: append([]sqlf.FragmentBuilder(nil), frs...)})
				hist = append(hist, fmt.Sprint("Ff", len(frs)))
			case 5:
				// building one before others are made
				if len(all) > 0 {
					all[0].BuildQuery(rapid.SampledFrom(bothStyles).Draw(t, "style"))
					hist = append(hist, "build")
				}
			}
			if len(want) > 0 {
				want[len(want)-1].Raw = raw
			}
		}
		verify := func() {
			for i, f := range all {
				w := want[i]
				ok := f.Raw == w.Raw && f.Prefix == w.Prefix && f.Suffix == w.Suffix && identicalLists(f.Args, w.Args) && len(f.Fragments) == len(w.Fragments)
				for k := range w.Fragments {
					ok = ok && f.Fragments[k] == w.Fragments[k]
				}
				if !ok {
					t.Fatalf("%q: %s\nfragment %d is %+v, want %+v", raw, strings.Join(hist, "; "), i, *f, w)
				}
				for k := range all[:i] {
					if all[k] == f {
						t.Fatalf("%q: %s\nfragments %d and %d are one", raw, strings.Join(hist, "; "), k, i)
					}
				}
			}
		}
		verify()
		for s := 0; s < 6 && len(all) > 0; s++ {
			i := rapid.IntRange(0, len(all)-1).Draw(t, "which")
			f, w := all[i], &want[i]
			v := "v" + itoa(s)
			op := rapid.IntRange(0, 7).Draw(t, "op")
			switch op {
			case 0:
				f.WithPrefix(v)
				w.Prefix = v
			case 1:
				f.WithSuffix(v)
				w.Suffix = v
			case 2:
				f.WithArgs(v)
				w.Args = []any{v}
			case 3:
				f.AppendArgs(v)
				w.Args = append(w.Args, v)
			case 4:
				f.WithFragments(shared)
				w.Fragments = []sqlf.FragmentBuilder{shared}
			case 5:
				f.AppendFragments(shared)
				w.Fragments = append(w.Fragments, shared)
			case 6:
				f.Raw, w.Raw = v, v
			case 7:
				f.BuildQuery(rapid.SampledFrom(bothStyles).Draw(t, "style"))
			}
			hist = append(hist, fmt.Sprintf("%d on fragment %d", op, i))
			verify()
		}
		note(len(all) > 1, raw+": "+strings.Join(hist, "; "), bucket("alike fragments", len(all)))
	})
}
