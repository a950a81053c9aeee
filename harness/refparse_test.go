package verifharness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// An independent recursive descent reader of the template language, written
// from the documentation, against which syntax.Parse is compared.

type rnode struct {
	kind      string // plain, bind, func, call
	text      string // plain
	style     syntax.BindVarStyle
	index     int
	name      string
	args      []any
	start     int // byte offset
	line, col int
}

func (n rnode) String() string {
	switch n.kind {
	case "plain":
		return fmt.Sprintf("%d:%d %q", n.line, n.col, n.text)
	case "bind":
		return fmt.Sprintf("%d:%d bind(%s %d)", n.line, n.col, styleName(n.style), n.index)
	case "func":
		return fmt.Sprintf("%d:%d func(%s)", n.line, n.col, n.name)
	}
	return fmt.Sprintf("%d:%d call(%s %s)", n.line, n.col, n.name, showList(n.args))
}

func showNodes(nodes []rnode) string {
	parts := make([]string, len(nodes))
	for i, n := range nodes {
		parts[i] = n.String()
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

type refParser struct {
	in      string
	off     int
	nodes   []rnode
	pending int // start of pending plain text, -1 if none
	bad     string
	// unspec: whether the input is accepted is not specified
	unspec string
	binds  int
	style  syntax.BindVarStyle
}

// position returns the 1-based line and column in runes of the byte offset.
func position(in string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; {
		r, w := utf8.DecodeRuneInString(in[i:])
		if r == '\n' {
			line++
			col = 1
		} else {
			col++
		}
		i += w
	}
	return
}

func (p *refParser) add(n rnode, start int) {
	n.start = start
	p.nodes = append(p.nodes, n)
}

func (p *refParser) flush() {
	if p.pending >= 0 && p.pending < p.off {
		p.add(rnode{kind: "plain", text: p.in[p.pending:p.off]}, p.pending)
	}
	p.pending = -1
}

func refParse(in string) (nodes []rnode, bad, unspec string) {
	p := &refParser{in: in, pending: -1}
	p.parse()
	if p.bad == "" {
		line, col, at := 1, 1, 0
		for i := range p.nodes {
			for at < p.nodes[i].start {
				r, w := utf8.DecodeRuneInString(in[at:])
				if r == '\n' {
					line++
					col = 1
				} else {
					col++
				}
				at += w
			}
			p.nodes[i].line, p.nodes[i].col = line, col
		}
	}
	return p.nodes, p.bad, p.unspec
}

func (p *refParser) rest() string { return p.in[p.off:] }

func (p *refParser) parse() {
	for p.off < len(p.in) && p.bad == "" {
		c := p.in[p.off]
		switch c {
		case '\'', '"', '`':
			if p.pending < 0 {
				p.pending = p.off
			}
			p.quoted(c)
		case '$', '?':
			if strings.HasPrefix(p.in[p.off+1:], string(c)) {
				if p.pending < 0 {
					p.pending = p.off
				}
				p.off += 2
				continue
			}
			p.flush()
			p.bind(c)
		case '#':
			p.flush()
			p.fn()
		default:
			if p.pending < 0 {
				p.pending = p.off
			}
			p.off++
		}
	}
	p.flush()
}

// quoted skips quoted text, to the end if it's unterminated.
func (p *refParser) quoted(q byte) {
	p.off++
	for p.off < len(p.in) {
		if p.in[p.off] == q {
			if q == '\'' && strings.HasPrefix(p.in[p.off:], "''") {
				p.off += 2
				continue
			}
			p.off++
			return
		}
		p.off++
	}
}

func digits(s string) int {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	return n
}

func (p *refParser) bind(c byte) {
	start := p.off
	p.off++
	style := syntax.Dollar
	if c == '?' {
		style = syntax.Question
	}
	p.binds++
	if p.binds == 1 {
		p.style = style
	}
	if p.style != style {
		p.bad = "mixed bind variables"
		return
	}
	n := digits(p.rest())
	if style == syntax.Question {
		if n > 0 && p.rest()[0] != '0' {
			p.bad = "? followed by a digit"
			return
		}
		p.add(rnode{kind: "bind", style: style, index: p.binds}, start)
		return
	}
	if n == 0 || p.rest()[0] == '0' {
		p.bad = "$ without number"
		return
	}
	i, err := strconv.ParseInt(p.rest()[:n], 10, 32)
	if err != nil {
		p.unspec = "huge bind variable number"
	}
	p.off += n
	p.add(rnode{kind: "bind", style: style, index: int(i)}, start)
}

func (p *refParser) fn() {
	start := p.off
	p.off++
	n := 0
	for n < len(p.rest()) {
		c := p.rest()[n]
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			n++
			continue
		}
		break
	}
	if n == 0 {
		p.bad = "# without name"
		return
	}
	name := p.rest()[:n]
	p.off += n
	if d := digits(p.rest()); d > 0 {
		v, err := strconv.ParseFloat(p.rest()[:d], 64)
		if err != nil || d > 15 {
			p.unspec = "huge index"
		}
		p.off += d
		p.add(rnode{kind: "call", name: name, args: []any{v}}, start)
		return
	}
	if !strings.HasPrefix(p.rest(), "(") {
		p.add(rnode{kind: "func", name: name}, start)
		return
	}
	p.off++
	args := []any{}
	for {
		p.space()
		if p.off >= len(p.in) {
			p.bad = "unclosed argument list"
			return
		}
		if p.in[p.off] == ')' {
			if len(args) > 0 {
				p.unspec = "trailing comma"
			}
			p.off++
			break
		}
		if p.in[p.off] == ',' {
			p.bad = "missing argument"
			return
		}
		v, ok := p.arg()
		if !ok {
			return
		}
		args = append(args, v)
		p.space()
		if p.off >= len(p.in) {
			p.bad = "unclosed argument list"
			return
		}
		if p.in[p.off] == ')' {
			p.off++
			break
		}
		if p.in[p.off] != ',' {
			p.bad = "arguments not separated by a comma"
			return
		}
		p.off++
	}
	p.add(rnode{kind: "call", name: name, args: args}, start)
}

func (p *refParser) space() {
	for p.off < len(p.in) {
		r, w := utf8.DecodeRuneInString(p.rest())
		if !unicode.IsSpace(r) {
			return
		}
		p.off += w
	}
}

var decimalRE = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]{1,2})?$`)

func (p *refParser) arg() (any, bool) {
	if p.in[p.off] == '\'' {
		start := p.off
		p.off++
		for {
			i := strings.IndexByte(p.rest(), '\'')
			if i < 0 {
				p.bad = "unclosed string argument"
				return nil, false
			}
			p.off += i + 1
			if !strings.HasPrefix(p.rest(), "'") {
				break
			}
			p.off++
		}
		return strings.ReplaceAll(p.in[start+1:p.off-1], "''", "'"), true
	}
	n := strings.IndexAny(p.rest(), ",)")
	if n < 0 {
		// whatever it is, the list is not closed
		p.bad = "unclosed argument list"
		return nil, false
	}
	bare := p.rest()[:n]
	p.off += n
	// whether blanks are allowed behind an argument is not specified
	if trimmed := strings.TrimRightFunc(bare, unicode.IsSpace); trimmed != bare {
		if _, ok := bareLiteral(trimmed); ok || trimmed == "" {
			p.unspec = "blanks behind an argument"
		}
	}
	switch v, ok := bareLiteral(bare); {
	case !ok && p.unspec == "":
		if _, err := strconv.ParseFloat(bare, 64); err == nil {
			p.unspec = "number in unusual notation"
			return nil, true
		} else if decimalLike(bare) {
			p.unspec = "number out of range"
			return nil, true
		}
		p.bad = "argument is not a literal"
		return nil, false
	default:
		return v, true
	}
}

var anyDecimalRE = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// decimalLike reports whether s is a decimal number, of any magnitude.
func decimalLike(s string) bool { return anyDecimalRE.MatchString(s) }

func bareLiteral(s string) (any, bool) {
	switch s {
	case "true":
		return true, true
	case "false":
		return false, true
	case "null", "nil":
		return nil, true
	}
	if decimalRE.MatchString(s) && len(s) < 40 {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return v, true
		}
	}
	return nil, false
}

// parsedNodes converts the parsed clause to nodes to compare with. How literal
// text is split into several nodes is not specified, so it's merged.
func parsedNodes(c *syntax.Clause) ([]rnode, error) {
	var out []rnode
	for _, e := range c.ExprList {
		pos := e.Pos()
		n := rnode{line: int(pos.Line()), col: int(pos.Col())}
		switch e := e.(type) {
		case *syntax.PlainExpr:
			n.kind, n.text = "plain", e.Text
			if e.Text == "" {
				continue
			}
			if k := len(out); k > 0 && out[k-1].kind == "plain" {
				out[k-1].text += e.Text
				continue
			}
		case *syntax.BindVarExpr:
			n.kind, n.style, n.index = "bind", e.Type, e.Index
		case *syntax.FuncExpr:
			n.kind, n.name = "func", e.Name
		case *syntax.FuncCallExpr:
			n.kind, n.name, n.args = "call", e.Name, e.Args
		default:
			return nil, fmt.Errorf("unknown node %T", e)
		}
		out = append(out, n)
	}
	return out, nil
}

func sameNode(a, b rnode, pos bool) bool {
	if a.kind != b.kind || a.text != b.text || a.style != b.style || a.index != b.index || a.name != b.name || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if !sameLiteral(a.args[i], b.args[i]) {
			return false
		}
	}
	return !pos || (a.line == b.line && a.col == b.col)
}

// sameLiteral compares literal arguments, of whatever number type.
func sameLiteral(a, b any) bool {
	fa, oka := toFloat(a)
	fb, okb := toFloat(b)
	if oka || okb {
		return oka && okb && fa == fb
	}
	return a == b
}

func toFloat(v any) (float64, bool) {
	switch v := v.(type) {
	case int:
		return float64(v), true
	case int64:
		return float64(v), true
	case uint64:
		return float64(v), true
	case uint:
		return float64(v), true
	case float64:
		return v, true
	case float32:
		return float64(v), true
	}
	return 0, false
}
