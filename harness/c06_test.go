package verifharness

import (
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C06: quoted and literal text reaches the SQL byte for byte.

var markerish = []string{"?", "??", "$1", "$", "$$", "#f1", "#f", "#", "#join('#arg', ',')", "#join(", "#nope(1)", "a", " ", "\n", "\x00", "\x01", "\x7f", "\xff", "\xe4\xb8", "é", "世", "🙂", "1", ",", "(", ")", "\\", "--", "/*", "\r", "\u2028", "%s", "%!d", "'", "''", "\"", "`"}

// genQuoted generates quoted text with markers in it.
func genQuoted() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		q := rapid.SampledFrom([]string{"'", "\"", "`"}).Draw(t, "quote")
		b := new(strings.Builder)
		b.WriteString(q)
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			p := rapid.SampledFrom(markerish).Draw(t, "p")
			if rapid.IntRange(0, 99).Draw(t, "long") == 0 {
				p = strings.Repeat(p, longCount(t))
			}
			if strings.Contains(p, q) {
				// a quote ends the text, unless it's a doubled '
				if q != "'" {
					continue
				}
				p = strings.ReplaceAll(strings.ReplaceAll(p, "''", "'"), "'", "''")
			}
			b.WriteString(p)
		}
		b.WriteString(q)
		return b.String()
	})
}

// genLiteral generates template text without any bind variable or reference.
func genLiteral() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		b := new(strings.Builder)
		for i, n := 0, rapid.IntRange(1, 7).Draw(t, "n"); i < n; i++ {
			switch rapid.IntRange(0, 8).Draw(t, "kind") {
			case 0, 1, 2:
				b.WriteString(genQuoted().Draw(t, "quoted"))
			case 8:
				// several that are alike
				s := genQuoted().Draw(t, "quoted")
				q := s[:1]
				s = strings.TrimSuffix(s[1:], q) + rapid.SampledFrom([]string{"2024-01-01T00:00:00Z", "abcdefghijklmnopqrstuvwxyz", "", "x"}).Draw(t, "more")
				for i, n := 0, rapid.IntRange(2, 5).Draw(t, "alike"); i < n; i++ {
					x := []byte(s)
					for i, n := 0, rapid.IntRange(0, 2).Draw(t, "changes"); i < n && len(x) > 0; i++ {
						if k := rapid.IntRange(0, len(x)-1).Draw(t, "at"); x[k] != '\'' {
							x[k] = rapid.SampledFrom([]byte("0aA?$# \n\xff")).Draw(t, "byte")
						}
					}
					b.WriteString(q + string(x) + q + rapid.SampledFrom([]string{", ", ",", " ", "+"}).Draw(t, "between"))
				}
			case 3:
				b.WriteString(rapid.SampledFrom([]string{"??", "$$", "????", "$$$$", "??$$"}).Draw(t, "pair"))
			case 4:
				s := string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes"))
				b.WriteString(strings.Map(func(r rune) rune { return r }, dropMarkers(s)))
			case 5:
				b.WriteString(dropMarkers(rapid.String().Draw(t, "any")))
			default:
				k := 1
				if rapid.IntRange(0, 99).Draw(t, "long") == 0 {
					k = longCount(t)
				}
				b.WriteString(strings.Repeat(rapid.SampledFrom([]string{"SELECT ", "a", "1", " ", "\n", "\t", "\x00", "\xff", "\xc3", "é", "世界", "🙂", ",", "(", ")", "=", "::", "\\", "-- x", "@>", "->>", "|", "&", "!"}).Draw(t, "text"), k))
			}
		}
		return b.String()
	})
}

// dropMarkers removes what is not literal text outside of quotes, byte-wise.
func dropMarkers(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("#?$'\"`", rune(s[i])) {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// Templates of literal text only: what is built is what is written.
func TestC06_Literal(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		raw := genLiteral().Draw(t, "raw")
		open := ""
		if rapid.IntRange(0, 9).Draw(t, "open") == 0 {
			// quoted text that never ends
			open = rapid.SampledFrom([]string{"'", "\"", "`"}).Draw(t, "quote")
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				open += strings.ReplaceAll(rapid.SampledFrom(markerish).Draw(t, "p"), open[:1], "")
			}
			raw += open
		}
		want := strings.TrimSpace(raw)
		note(strings.ContainsAny(raw, "'\"`?$"), "literal "+raw, "literal", cond(open != "", "unterminated quote"),
			cond(strings.ContainsRune(raw, 0), "with NUL"), cond(strings.ToValidUTF8(raw, "") != raw, "invalid UTF-8"))
		for _, style := range bothStyles {
			var (
				q    string
				args []any
				err  error
			)
			guard(func() string { return raw }, func() { q, args, err = sqlf.F(raw).BuildQuery(style) })
			if err != nil || q != want || len(args) != 0 {
				t.Fatalf("template %q\nbuilt %q args %v error %v\nwant  %q", raw, q, args, err, want)
			}
		}
	})
}

// Literal text between references, in fragments at any depth, in #join templates
// and separators, and text of tables with anything in it.
func TestC06_Tree(t *testing.T) {
	check(t, 0.7, func(t *rapid.T) {
		// binds can't be told from literal text in the result, so there are none
		n := rapid.IntRange(1, 4).Draw(t, "depth")
		var cur node
		mk := func() node {
			s := ""
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
				s += rapid.SampledFrom(markerish).Draw(t, "p")
			}
			return &textN{s}
		}
		cur = mk()
		for i := 0; i < n; i++ {
			f := &fragN{how: rapid.IntRange(0, 4).Draw(t, "how"), frs: []node{cur}}
			if rapid.Bool().Draw(t, "second") {
				f.frs = append(f.frs, mk())
			}
			f.prefix = rapid.SampledFrom(append([]string{"", ""}, markerish...)).Draw(t, "prefix")
			f.suffix = rapid.SampledFrom(append([]string{"", ""}, markerish...)).Draw(t, "suffix")
			f.segs = append(f.segs, seg{kind: sText, text: genLiteral().Draw(t, "lit")})
			if rapid.Bool().Draw(t, "join") {
				j := &joinSeg{sep: rapid.SampledFrom(markerish).Draw(t, "sep"), spell: rapid.IntRange(0, 2).Draw(t, "spell")}
				j.segs = fixAdjacency([]seg{
					{kind: sText, text: genLiteral().Draw(t, "jlit")},
					{kind: sFunc, fn: "f"},
					{kind: sText, text: genLiteral().Draw(t, "jlit2")},
				})
				f.segs = append(f.segs, seg{kind: sJoin, join: j}, seg{kind: sText, text: genLiteral().Draw(t, "lit2")})
			}
			for k := range f.frs {
				f.segs = append(f.segs, seg{kind: sCall, fn: "f", idx: k + 1, spell: rapid.IntRange(0, 4).Draw(t, "spell")},
					seg{kind: sText, text: genLiteral().Draw(t, "lit3")})
			}
			f.segs = fixAdjacency(f.segs)
			cur = f
		}
		root := cur.(*fragN)
		m := &model{}
		want, err := root.eval(m)
		if err != nil || m.amb {
			t.Fatalf("model: %v", err)
		}
		note(true, root.String(), bucket("depth", n))
		q, args, err := buildFrag(root, rapid.SampledFrom(bothStyles).Draw(t, "style"))
		if err != nil || len(args) != 0 || q != toksString(want) {
			t.Fatalf("tree: %s\nbuilt %q args %v error %v\nwant  %q", root, q, args, err, toksString(want))
		}
	})
}

// Literal text around bind variables: it stays in place.
func TestC06_AroundBinds(t *testing.T) {
	check(t, 0.7, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		build := rapid.SampledFrom(bothStyles).Draw(t, "build")
		n := rapid.IntRange(1, 5).Draw(t, "n")
		f := &fragN{}
		want := ""
		for i := 1; i <= n; i++ {
			lit := genLiteral().Draw(t, "lit")
			f.segs = append(f.segs, seg{kind: sText, text: lit}, seg{kind: sBind, style: style, idx: i})
			f.args = append(f.args, i)
		}
		f.segs = append(f.segs, seg{kind: sText, text: genLiteral().Draw(t, "lit")})
		f.segs = fixAdjacency(f.segs)
		k := 0
		for _, s := range f.segs {
			if s.kind == sText {
				want += s.text
				continue
			}
			k++
			if build == syntax.Question {
				want += "?"
			} else {
				want += "$" + itoa(k)
			}
		}
		want = strings.TrimSpace(want)
		note(true, styleName(build)+f.String(), "around bind variables")
		q, args, err := buildFrag(f, build)
		if err != nil || q != want || len(args) != n {
			t.Fatalf("template %q\nbuilt %q args %v error %v\nwant  %q", f.raw(), q, args, err, want)
		}
	})
}

// Quoted table, alias and column names of a query builder.
func TestC06_QueryBuilder(t *testing.T) {
	check(t, 0.4, func(t *rapid.T) {
		id := func(label string) string {
			if rapid.Bool().Draw(t, label+" plain") {
				return rapid.SampledFrom([]string{"tbl", "t", "Other", "x_1"}).Draw(t, label)
			}
			for i := 0; ; i++ {
				s := genQuoted().Draw(t, label)
				if len(s) > 2 && strings.TrimSpace(s) == s {
					return s
				}
				if i > 20 {
					return "\"#f1?\""
				}
			}
		}
		from := sqlb.NewTableAliased(sqlb.Table(id("name")), sqlb.Table(id("alias")))
		join := sqlb.NewTableAliased(sqlb.Table(id("jname")), sqlb.Table(id("jalias")))
		if from.AppliedName() == join.AppliedName() {
			join = join.WithAlias(join.Alias + "_j")
		}
		c1, c2 := id("col1"), id("col2")
		b := sqlb.NewQueryBuilder().
			Select(from.Column(c1), join.AnonymousColumn(c2)).
			From(from).
			InnerJoin(join, sqlf.Ff("#f1=#f2", from.Column(c2), join.Column(c1))).
			Where(sqlf.Ff("#f1 IS NOT NULL", join))
		fa, ja := string(from.Alias), string(join.Alias)
		want := "SELECT " + fa + "." + c1 + ", " + c2 + " FROM " + string(from.Name) + " AS " + fa +
			" INNER JOIN " + string(join.Name) + " AS " + ja + " ON " + fa + "." + c2 + "=" + ja + "." + c1 +
			" WHERE " + ja + " IS NOT NULL"
		note(true, want, "query builder")
		var (
			q   string
			err error
		)
		guard(func() string { return want }, func() { q, _, err = b.BuildQuery(syntax.Dollar) })
		if err != nil || q != want {
			t.Fatalf("built %q error %v\nwant  %q", q, err, want)
		}
	})
}
