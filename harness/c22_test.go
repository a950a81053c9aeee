package verifharness

import (
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C22: parsed nodes carry their true source position.

func checkPositions(t tLike, in string) (nodes int) {
	want, bad, unspec := refParse(in)
	if bad != "" || unspec != "" {
		return 0
	}
	c, err, panicked := safeParse(in)
	if err != nil || panicked != nil {
		class("not judged: rejected")
		return 0
	}
	// the raw list first: never backwards
	lastLine, lastCol := uint(0), uint(0)
	for _, e := range c.ExprList {
		p := e.Pos()
		if p.Line() < lastLine || (p.Line() == lastLine && p.Col() < lastCol) {
			if pl, ok := e.(*syntax.PlainExpr); !ok || !strings.HasPrefix(pl.Text, "\n") {
				t.Fatalf("parse %q: position goes back from %d:%d to %s", in, lastLine, lastCol, p)
			}
		}
		lastLine, lastCol = p.Line(), p.Col()
		if s := p.String(); p.Line() > 0 && p.Col() > 0 && s != itoa(int(p.Line()))+":"+itoa(int(p.Col())) {
			t.Fatalf("position %d:%d prints as %q", p.Line(), p.Col(), s)
		}
	}
	got, err := parsedNodes(c)
	if err != nil || len(got) != len(want) {
		class("not judged: other nodes")
		return 0
	}
	for i := range got {
		if !sameNode(got[i], want[i], false) {
			class("not judged: other nodes")
			return 0
		}
	}
	for i := range got {
		if got[i].kind == "plain" && strings.HasPrefix(got[i].text, "\n") {
			class("text node beginning with a line break, not judged")
			continue
		}
		if got[i].line != want[i].line || got[i].col != want[i].col {
			t.Fatalf("parse %q\nnode %d is at %d:%d, reported at %d:%d: %s", in, i, want[i].line, want[i].col, got[i].line, got[i].col, showNodes(got))
		}
	}
	return len(got)
}

func notePos(in string, n int) {
	note(n > 1, in, bucket("nodes", n), cond(strings.Contains(in, "\n"), "several lines"),
		cond(strings.ToValidUTF8(in, "") != in, "invalid UTF-8"), cond(hasMultibyte(in), "multi-byte characters"))
}

func hasMultibyte(s string) bool {
	for _, r := range s {
		if r > 127 {
			return true
		}
	}
	return false
}

func TestC22_Valid(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		in := genValidTemplate().Draw(t, "in")
		notePos(in, checkPositions(t, in))
	})
}

func TestC22_Pieces(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		in := genTemplate().Draw(t, "in")
		notePos(in, checkPositions(t, in))
	})
}

// Lines: text, quotes and argument lists that span lines before the nodes.
func TestC22_Lines(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		in := ""
		for i := 0; i < n; i++ {
			in += rapid.SampledFrom([]string{"\n", "\n\n", "\r\n", "\r", " ", "é", "世", "🙂", "a", "'\n'", "\"\n世\"", "`\n\n`", "\xff", "\xe4\xb8", "\u2028", "\x00", "\t", "'é'", "??", "$$"}).Draw(t, "text")
			in += rapid.SampledFrom([]string{"?", "?", "#f", "#f1", "#f(1)", "#f(\n1,\n'\n\n')", "#f('世')", "#arg(\n)", ""}).Draw(t, "node")
		}
		notePos(in, checkPositions(t, in))
	})
}

// Far into a template: many lines, long lines.
func TestC22_Long(t *testing.T) {
	check(t, 0.1, func(t *rapid.T) {
		in := ""
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			fill := rapid.SampledFrom([]string{"\n", "a", "é", "世", "🙂", "'a\n'", "#f(1)\n", "#f1 ", "?", "$1 ", "#f('\n')", "ab\n", "??", "\xff", "'é' ", "\r\n", "\"\n\""}).Draw(t, "fill")
			in += strings.Repeat(fill, min(longCount(t), 5000/len(fill))) +
				rapid.SampledFrom([]string{"?", "#f", "#f1", "#f(\n1,\n'\n\n')", "a ? b"}).Draw(t, "node")
		}
		notePos(in, checkPositions(t, in))
	})
}

func TestC22_Exhaustive(t *testing.T) {
	chars := []string{"?", "#f", "#f1", "#f(1)", "\n", "a", "é", "'", "\xff", "#f(\n'é')", "$1"}
	max := 4
	if thorough() {
		max = 6
	}
	si, sn := shard()
	count := 0
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		if n == 0 {
			if count++; count%sn == si {
				notePos(prefix, checkPositions(t, prefix))
			}
			return
		}
		for _, c := range chars {
			rec(prefix+c, n-1)
		}
	}
	for n := 1; n <= max; n++ {
		rec("", n)
	}
}
