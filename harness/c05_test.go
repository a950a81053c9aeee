package verifharness

import (
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// pieces of templates, valid and broken ones
var templatePieces = []string{
	"?", "?", "??", "???", "$", "$$", "$1", "$2", "$12", "$0", "$01", "$$1", "?1", "?0", "$a", "?a",
	"#", "#f", "#f1", "#f12", "#join", "#f(", "#f()", "#f( )", "#f(1)", "#f( 1, 2 )", "#f(1,2)", "#f('a')", "#f('a','b')", "#f('it''s')", "#f('',1)", "#f('?$1#f''')",
	"#f(true)", "#f(false,nil,null)", "#f(-1.5e3)", "#f(1,)", "#f(,1)", "#f(,)", "#f(1 2)", "#f('a' 'b')", "#f('a'b)", "#f(a)", "#f(\"a\")", "#f('a", "#f(1", "#f('a',", "#f(true", "#f(tru)", "#f(True)", "#f(TRUE)", "#f(FALSE)", "#f(NULL)", "#f(NIL)", "#f(Nil)", "#f(False)", "#f(t)", "#f(none)", "#f(undefined)", "#f(.5)", "#f(+1)", "#f(1.)", "#f(--1)", "#f(0x10)", "#f(\n1,\t'x')", "#f('\n')", "#f(1)2", "#f1(2)", "#_", "#a_b3", "#é", "##", "#1", "#f#f", "#f#f1#f(2)", "#f01", "#f1.5",
	"(", ")", ",", "'", "\"", "`", "''", "'a'", "\"b\"", "`c`", "'it''s'", "'?$1#f'", "\"?$1#f''\"", "`?#f(`",
	" ", "  ", "\n", "\t", "\r\n", "\u2028", "\u00a0", "a", "b", "SELECT", "=", "1", "0", "23", "true", "nil", "é", "世", "🙂", "\x00", "\xff", "\xc3", "\xe4\xb8", "\\", "\\'", "--", "/*",
}

func genTemplate() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 5, 6, 8, 12}).Draw(t, "n")
		b := new(strings.Builder)
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 19).Draw(t, "kind") {
			case 0:
				b.WriteString(rapid.String().Draw(t, "any"))
			case 1:
				b.WriteString(string(rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "bytes")))
			case 2, 3:
				b.WriteByte(rapid.SampledFrom([]byte("#?$'\"`(),123 fa\n\x00")).Draw(t, "c"))
			default:
				b.WriteString(rapid.SampledFrom(templatePieces).Draw(t, "piece"))
			}
		}
		return b.String()
	})
}

// genValidTemplate generates mostly valid templates, so that long ones are too.
func genValidTemplate() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		n := rapid.IntRange(1, 14).Draw(t, "n")
		b := new(strings.Builder)
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 7).Draw(t, "kind") {
			case 0, 1:
				if style == syntax.Question {
					b.WriteString("?")
				} else {
					b.WriteString("$" + itoa(rapid.IntRange(1, 30).Draw(t, "idx")))
				}
			case 2:
				b.WriteString("#" + rapid.SampledFrom([]string{"f", "arg", "join", "a_B", "_"}).Draw(t, "name"))
			case 3:
				b.WriteString("#f" + itoa(rapid.IntRange(0, 120).Draw(t, "idx")))
			case 4:
				b.WriteString("#fn(")
				for k, m := 0, rapid.IntRange(0, 4).Draw(t, "nargs"); k < m; k++ {
					if k > 0 {
						b.WriteString(",")
					}
					b.WriteString(rapid.SampledFrom([]string{"", " ", "\n", "\u00a0"}).Draw(t, "sp"))
					b.WriteString(rapid.SampledFrom([]string{"1", "-2", "3.25", "1e2", "true", "false", "nil", "null", "''", "'a'", "'it''s'", "'#f1 ? $1'", "'\"'", "'é\n'", "' '''", "''''"}).Draw(t, "arg"))
				}
				b.WriteString(")")
			default:
				b.WriteString(rapid.SampledFrom([]string{" ", "\n", "a", "0", "世界", "'q'", "\"?\"", "`#`", "''", "??", "$$", ",", "(", ")", "\x00", "\xfe", "\r\n", "\t", "=", "'a''b'"}).Draw(t, "text"))
			}
		}
		return b.String()
	})
}

func safeParse(in string) (c *syntax.Clause, err error, panicked any) {
	guard(func() string { return "parse " + itoa(len(in)) + " bytes: " + in }, func() {
		panicked, _ = noPanic(func() { c, err = syntax.Parse(in) })
	})
	return
}

func isInteresting(in string) bool { return strings.ContainsAny(in, "#?$'\"`") }

func checkParse(t tLike, in string) (accepted bool) {
	c, err, panicked := safeParse(in)
	if panicked != nil {
		t.Fatalf("parse %q panicked: %v", in, panicked)
	}
	want, bad, unspec := refParse(in)
	switch {
	case unspec != "":
		class("unspecified: " + unspec)
	case bad != "":
		class("rejected: " + bad)
	default:
		class("accepted")
	}
	if err == nil && c == nil {
		t.Fatalf("parse %q returned neither a clause nor an error", in)
	}
	if unspec == "" {
		if bad != "" && err == nil {
			got, _ := parsedNodes(c)
			t.Fatalf("parse %q: malformed (%s), but accepted as %s", in, bad, showNodes(got))
		}
		if bad == "" && err != nil {
			t.Fatalf("parse %q: rejected (%v), should be %s", in, err, showNodes(want))
		}
		if err == nil {
			got, err := parsedNodes(c)
			if err != nil {
				t.Fatalf("parse %q: %v", in, err)
			}
			same := len(got) == len(want)
			for i := 0; same && i < len(got); i++ {
				same = sameNode(got[i], want[i], false)
			}
			if !same {
				t.Fatalf("parse %q\nread as   %s\nshould be %s", in, showNodes(got), showNodes(want))
			}
		}
	}
	// a second parse doesn't differ
	c2, err2, panicked := safeParse(in)
	if panicked != nil || (err == nil) != (err2 == nil) {
		t.Fatalf("parse %q again: %v, was %v", in, err2, err)
	}
	if err == nil {
		a, _ := parsedNodes(c)
		b, _ := parsedNodes(c2)
		if showNodes(a) != showNodes(b) {
			t.Fatalf("parse %q again: %s, was %s", in, showNodes(b), showNodes(a))
		}
	}
	return err == nil
}

type tLike interface {
	Fatalf(format string, args ...any)
}

// C05: template parsing is total and accounts for every byte.
func TestC05_Pieces(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		in := genTemplate().Draw(t, "in")
		note(isInteresting(in), in, "pieces")
		checkParse(t, in)
	})
}

func TestC05_Valid(t *testing.T) {
	check(t, 0.7, func(t *rapid.T) {
		in := genValidTemplate().Draw(t, "in")
		if rapid.IntRange(0, 3).Draw(t, "mutate") == 0 && in != "" {
			// one byte off
			i := rapid.IntRange(0, len(in)-1).Draw(t, "at")
			switch rapid.IntRange(0, 6).Draw(t, "how") {
			case 3:
				in = strings.ToUpper(in)
			case 4:
				in = strings.ToLower(in)
			case 5:
				in = in[:i] + strings.ToUpper(in[i:i+1]) + in[i+1:]
			case 6:
				in = in[:i] + rapid.SampledFrom([]string{"#", "?", "$", "'", "(", ")", ",", "1", "0", ".", " ", "x", "\"", "-"}).Draw(t, "replaced") + in[i+1:]
			case 0:
				in = in[:i] + in[i+1:]
			case 1:
				in = in[:i] + rapid.SampledFrom([]string{"#", "?", "$", "'", "(", ")", ",", "1", " ", "\x00"}).Draw(t, "ins") + in[i:]
			case 2:
				in = in[:i]
			}
		}
		note(isInteresting(in), in, "mostly valid")
		checkParse(t, in)
	})
}

func TestC05_AnyString(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		var in string
		if rapid.Bool().Draw(t, "bytes") {
			in = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "in"))
		} else {
			in = rapid.String().Draw(t, "in")
		}
		note(isInteresting(in), in, "any string")
		checkParse(t, in)
	})
}

// Long templates: of many nodes, lines, columns, arguments, long names and texts.
func TestC05_Long(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		b := new(strings.Builder)
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "parts"); i < n; i++ {
			var unit string
			switch rapid.IntRange(0, 5).Draw(t, "unit") {
			case 0:
				unit = rapid.SampledFrom([]string{"?", "$1 ", "#f1", "#f(1)", "#f('a','it''s')", "\n", "a", "??", "$$", "'it''s'", "'?'", "\"#\"", "é", "世", "\xff", " ", "(", "#join('#f1', ',')", "\r\n", "ab\n"}).Draw(t, "u")
			case 1:
				unit = rapid.SampledFrom(templatePieces).Draw(t, "u")
			case 2:
				unit = "#fn(" + strings.Repeat(rapid.SampledFrom([]string{"1,", "'a',", "true,\n", "nil, ", "'it''s',"}).Draw(t, "arg"), longCount(t)) + "1)"
			case 3:
				unit = rapid.SampledFrom([]string{"#", "'", "#f('", "#f(", "#f1", "$1", "\"", "#f(true"}).Draw(t, "open") +
					strings.Repeat(rapid.SampledFrom([]string{"a", "A_", "1", "''", "?", " ", "\n", "é"}).Draw(t, "fill"), longCount(t)) +
					rapid.SampledFrom([]string{"", "'", "')", ")", "\"", "(1)", "?"}).Draw(t, "close")
			default:
				unit = genValidTemplate().Draw(t, "u")
			}
			k := 1
			if rapid.Bool().Draw(t, "repeated") {
				if k = longCount(t); len(unit)*k > 6000 {
					k = 6000/(len(unit)+1) + 1
				}
			}
			b.WriteString(strings.Repeat(unit, k))
		}
		in := b.String()
		note(isInteresting(in), in, "long", bucket("bytes/256", len(in)/256))
		checkParse(t, in)
	})
}

// longCount is a count around those where something may overflow.
func longCount(t *rapid.T) int {
	c := rapid.SampledFrom([]int{9, 15, 31, 63, 99, 127, 255, 300, 511, 999, 1023, 2047, 4095}).Draw(t, "count")
	return c + rapid.IntRange(-1, 3).Draw(t, "more")
}

// What a template is parsed to depends on nothing but the template: not on what
// was parsed or built before.
func TestC05_History(t *testing.T) {
	check(t, 0.2, func(t *rapid.T) {
		n := rapid.IntRange(1, 3).Draw(t, "templates")
		ins := make([]string, n)
		for i := range ins {
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				ins[i] = rapid.SampledFrom([]string{"#join('#arg', ',')", "#arg", "#f", " #f,", "#join('#f=#arg', ' AND ')", "#join('#join(''#arg'', '','')#f', ',')", "#f1#arg", "?#arg", "(#f)", "#f1"}).Draw(t, "joinable")
			case 1:
				ins[i] = genTemplate().Draw(t, "in")
			default:
				ins[i] = genValidTemplate().Draw(t, "in")
			}
		}
		hist := ""
		for i, ops := 0, rapid.IntRange(2, 8).Draw(t, "ops"); i < ops; i++ {
			in := ins[rapid.IntRange(0, n-1).Draw(t, "which")]
			op := rapid.SampledFrom([]string{"parse", "build", "template", "separator"}).Draw(t, "op")
			hist += op + " " + in + "\n"
			if op == "parse" {
				checkParse(t, in)
				continue
			}
			args := []any{1, 2, 3}[:rapid.IntRange(0, 3).Draw(t, "args")]
			f := sqlf.Fa(in, args...)
			switch op {
			case "template":
				f.Raw = "#join(" + quoteArg(in) + ", ',')"
			case "separator":
				f.Raw = "#join('#arg', " + quoteArg(in) + ")"
			}
			for j, k := 0, rapid.IntRange(0, 2).Draw(t, "frs"); j < k; j++ {
				f.AppendFragments(sqlf.F("x" + itoa(j)))
			}
			style := rapid.SampledFrom(bothStyles).Draw(t, "style")
			guard(func() string { return hist }, func() { noPanic(func() { f.BuildQuery(style) }) })
		}
		note(true, hist, "history")
		for _, in := range ins {
			checkParse(t, in)
		}
	})
}

// All short strings of the characters that matter.
func TestC05_Exhaustive(t *testing.T) {
	chars := []string{"#", "f", "1", "(", ")", ",", "'", "?", "$", " ", "\"", "0", "\n", "é", "`"}
	max := 4
	if thorough() {
		max = 6
	}
	si, sn := shard()
	count := 0
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		if n == 0 {
			count++
			if count%sn == si {
				note(true, prefix, "exhaustive")
				checkParse(t, prefix)
			}
			return
		}
		for _, c := range chars {
			rec(prefix+c, n-1)
		}
	}
	for n := 0; n <= max; n++ {
		rec("", n)
	}
	// and argument lists around them
	argChars := []string{"1", "'", ",", ")", " ", "a", "nil", ".", "-", "true"}
	var rec2 func(prefix string, n int)
	rec2 = func(prefix string, n int) {
		count++
		if count%sn == si {
			note(true, prefix, "exhaustive argument lists")
			checkParse(t, prefix)
		}
		if n == 0 {
			return
		}
		for _, c := range argChars {
			rec2(prefix+c, n-1)
		}
	}
	n := 4
	if thorough() {
		n = 6
	}
	rec2("#f(", n)
	rec2("'a'#f('',", n-1)
}
