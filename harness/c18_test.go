package verifharness

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C18: interpolation substitutes faithful SQL literals.

type (
	stringerVal   struct{ s string }
	stringerPtr   struct{ s string }
	stringerInt   int
	valuerVal     struct{ v any }
	valuerPtr     struct{ v any }
	valuerStr     string
	valuerNilOK   struct{ v any }
	namedTime     time.Time
	named8        int8
	namedU64      uint64
	namedF32      float32
	namedF64      float64
	namedTrue     bool
	stringerBytes []byte
	stringerMap   map[string]int
)

func (s stringerVal) String() string   { return s.s }
func (s *stringerPtr) String() string  { return s.s }
func (s stringerInt) String() string   { return fmt.Sprintf("#%d'", int(s)) }
func (s stringerBytes) String() string { return string(s) }
func (s stringerMap) String() string   { return fmt.Sprint(len(s), "'") }

func (v valuerVal) Value() (driver.Value, error) {
	if e, ok := v.v.(error); ok {
		return nil, e
	}
	return v.v, nil
}
func (v *valuerPtr) Value() (driver.Value, error) { return v.v, nil }
func (v valuerStr) Value() (driver.Value, error)  { return "<" + string(v) + ">", nil }

// String is not what counts if there is a Value.
func (v valuerStr) String() string { return "not this" }

func (v *valuerNilOK) Value() (driver.Value, error) {
	if v == nil {
		return nil, nil
	}
	return v.v, nil
}

// manyWays can be read in many ways, and Value is what counts.
type manyWays struct {
	v    any
	zero bool
}

func (m manyWays) Value() (driver.Value, error)  { return m.v, nil }
func (m manyWays) String() string                { return "string" }
func (m manyWays) GoString() string              { return "gostring" }
func (m manyWays) IsZero() bool                  { return m.zero }
func (m manyWays) IsNull() bool                  { return m.zero }
func (m manyWays) MarshalJSON() ([]byte, error)  { return []byte("json"), nil }
func (m manyWays) MarshalText() ([]byte, error)  { return []byte("text"), nil }
func (m manyWays) Format(s fmt.State, verb rune) { s.Write([]byte("format")) }
func (m manyWays) Int64() (int64, error)         { return 7, nil }
func (m manyWays) Float64() (float64, error)     { return 7, nil }

// sqlValue is an arg and what its literal has to be.
type sqlValue struct {
	arg  any
	kind string // null, bool, number, float, string, error
	text string // of bools and numbers; content of strings
	f    float64
	bits int
	desc string
}

func genSQLString() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			return rapid.String().Draw(t, "any")
		case 1:
			return string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes"))
		}
		s := ""
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			s += rapid.SampledFrom([]string{"'", "''", "\\", "\\'", "?", "$1", "??", "$$", "#f1", "#", "a", "1", " ", "\n", "\x00", "\xff", "é", "--", "; DROP TABLE x", "\"", "`", "%s", "%d", "NULL", "\x1a"}).Draw(t, "p")
		}
		if rapid.IntRange(0, 49).Draw(t, "long") == 0 && s != "" {
			s = strings.Repeat(s, 1+rapid.SampledFrom([]int{4000, 4000, 9000, 17000, 33000, 70000}).Draw(t, "bytes")/len(s))
		}
		return s
	})
}

func genFloat() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		var f float64
		switch rapid.IntRange(0, 4).Draw(t, "float") {
		case 0:
			f = rapid.Float64().Draw(t, "f")
		case 1:
			f = float64(rapid.Float32().Draw(t, "f"))
		case 2:
			f = math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
		case 3:
			f = rapid.SampledFrom([]float64{0, 1, -1, 0.1, 0.1 + 0.2, 1e-7, 1e21, 1e100, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, math.Pi, 1e-300, 5e-324}).Draw(t, "f")
		case 4:
			f = float64(rapid.Int64().Draw(t, "i")) / math.Pow(10, float64(rapid.IntRange(0, 20).Draw(t, "e")))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0.5
		}
		return f
	})
}

func genTime() *rapid.Generator[time.Time] {
	zones := []*time.Location{time.UTC, time.FixedZone("", 8*3600), time.FixedZone("X", -5*3600-1800), time.Local}
	return rapid.Custom(func(t *rapid.T) time.Time {
		if rapid.IntRange(0, 7).Draw(t, "zero") == 0 {
			return time.Time{}.In(rapid.SampledFrom(zones).Draw(t, "zone"))
		}
		sec := rapid.Int64Range(-2208988800, 4102444800).Draw(t, "sec")
		switch rapid.IntRange(0, 9).Draw(t, "far") {
		case 0:
			// about the zero time, and before
			sec = time.Time{}.Unix() + rapid.SampledFrom([]int64{-86400 * 366, -86400, -3600, -2, 1, 2, 59, 3600, 86399, 86400, 86400 * 366}).Draw(t, "sec")
		case 1:
			sec = rapid.Int64Range(-400000000000, 400000000000).Draw(t, "sec")
		case 2:
			// within the second of the zero time
			us := rapid.Int64Range(1, 999999).Draw(t, "us")
			return time.Time{}.Add(time.Duration(us) * time.Microsecond).In(rapid.SampledFrom(zones).Draw(t, "zone"))
		}
		ns := rapid.SampledFrom([]int64{0, 1, 499, 500, 501, 999, 1000, 1499, 1500, 999999499, 999999500, 999999999, 123456789}).Draw(t, "ns")
		return time.Unix(sec, ns).In(rapid.SampledFrom(zones).Draw(t, "zone"))
	})
}

func strVal(arg any, s, desc string) sqlValue {
	return sqlValue{arg: arg, kind: "string", text: s, desc: desc}
}

func genSQLValue(t *rapid.T, format string, depth int) sqlValue {
	intVal := func(arg any) sqlValue { return sqlValue{arg: arg, kind: "number", text: fmt.Sprint(arg), desc: "int"} }
	fval := func(arg any, f float64, bits int) sqlValue {
		return sqlValue{arg: arg, kind: "float", f: f, bits: bits, desc: "float"}
	}
	switch rapid.IntRange(0, 24).Draw(t, "value") {
	case 0:
		return sqlValue{arg: nil, kind: "null", desc: "nil"}
	case 1:
		b := rapid.Bool().Draw(t, "b")
		arg := any(b)
		if rapid.Bool().Draw(t, "named") {
			arg = namedTrue(b)
		}
		return sqlValue{arg: arg, kind: "bool", text: strings.ToUpper(fmt.Sprint(b)), desc: "bool"}
	case 2:
		i := rapid.Int64().Draw(t, "i")
		return rapid.SampledFrom([]sqlValue{intVal(i), intVal(int(i)), intVal(int32(i)), intVal(int16(i)), intVal(int8(i)), intVal(named8(i)), intVal(myInt(i))}).Draw(t, "int")
	case 3:
		i := rapid.Uint64().Draw(t, "u")
		return rapid.SampledFrom([]sqlValue{intVal(i), intVal(uint(i)), intVal(uint32(i)), intVal(uint16(i)), intVal(uint8(i)), intVal(namedU64(i))}).Draw(t, "uint")
	case 4:
		return intVal(rapid.SampledFrom([]any{int64(math.MinInt64), int64(math.MaxInt64), uint64(math.MaxUint64), int8(-128), 0, 1 << 53, 1<<53 + 1, -1}).Draw(t, "edge"))
	case 5, 6:
		f := genFloat().Draw(t, "f")
		if rapid.Bool().Draw(t, "named") {
			return fval(namedF64(f), f, 64)
		}
		return fval(f, f, 64)
	case 7:
		f := float32(genFloat().Draw(t, "f"))
		if math.IsInf(float64(f), 0) {
			f = math.MaxFloat32
		}
		if rapid.Bool().Draw(t, "named") {
			return fval(namedF32(f), float64(f), 32)
		}
		return fval(f, float64(f), 32)
	case 8, 9, 10:
		s := genSQLString().Draw(t, "s")
		if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
			return strVal(myStr(s), s, "string")
		}
		return strVal(s, s, "string")
	case 11:
		s := genSQLString().Draw(t, "s")
		return rapid.SampledFrom([]sqlValue{strVal(stringerVal{s}, s, "stringer"), strVal(&stringerVal{s}, s, "stringer"), strVal(&stringerPtr{s}, s, "stringer"), strVal(stringerBytes(s), s, "stringer")}).Draw(t, "stringer")
	case 12:
		return rapid.SampledFrom([]sqlValue{strVal(stringerInt(5), "#5'", "stringer"), strVal(time.Duration(90)*time.Second, "1m30s", "stringer"), strVal(stringerMap{"a": 1}, "1'", "stringer"), strVal(time.March, "March", "stringer")}).Draw(t, "stringer")
	case 13, 14, 15:
		tm := genTime().Draw(t, "time")
		if tm.IsZero() {
			return strVal(tm, "0000-00-00", "zero time")
		}
		return strVal(tm, tm.Round(time.Microsecond).Format(format), "time")
	case 16:
		return rapid.SampledFrom([]sqlValue{
			{arg: (*valuerVal)(nil), kind: "null"}, {arg: (*valuerNilOK)(nil), kind: "null"}, {arg: (*sql.NullString)(nil), kind: "null"}, {arg: (*valuerStr)(nil), kind: "null"},
			{arg: sql.NullString{}, kind: "null"}, {arg: sql.NullInt64{}, kind: "null"}, {arg: &sql.NullTime{}, kind: "null"}, {arg: sql.NullBool{}, kind: "null"},
			{arg: (*stringerVal)(nil), kind: "null"}, {arg: (*stringerPtr)(nil), kind: "null"},
		}).Draw(t, "nullvaluer")
	case 17, 18, 19:
		if depth <= 0 {
			return sqlValue{arg: nil, kind: "null", desc: "nil"}
		}
		v := genSQLValue(t, format, depth-1)
		if _, isErr := v.arg.(error); isErr {
			return v
		}
		inner := v.arg
		v.desc = "valuer"
		switch rapid.IntRange(0, 4).Draw(t, "valuer") {
		case 3:
			v.arg = manyWays{inner, rapid.Bool().Draw(t, "zero")}
		case 0:
			v.arg = valuerVal{inner}
		case 1:
			v.arg = &valuerPtr{inner}
		case 2:
			v.arg = &valuerVal{inner}
		default:
			v.arg = &valuerNilOK{inner}
		}
		return v
	case 20:
		s := genSQLString().Draw(t, "s")
		i := rapid.Int64().Draw(t, "i")
		return rapid.SampledFrom([]sqlValue{strVal(valuerStr(s), "<"+s+">", "valuer"), strVal(sql.NullString{String: s, Valid: true}, s, "valuer"), {arg: sql.NullInt64{Int64: i, Valid: true}, kind: "number", text: fmt.Sprint(i)}, {arg: sql.NullBool{Bool: true, Valid: true}, kind: "bool", text: "TRUE"}}).Draw(t, "sqlvaluer")
	case 21:
		if rapid.Bool().Draw(t, "rarely") {
			return strVal("x", "x", "string")
		}
		return sqlValue{arg: rapid.SampledFrom([]any{[]byte("x"), []byte(nil), []int{1}, []string{}, map[string]int{}, struct{}{}, anyStruct{1}, func() {}, make(chan int), complex(1, 2), complex64(1), new(int), new(string), [2]int{}, namedTime(time.Now()), errors.New("x"), uintptr(1)}).Draw(t, "unsupported"), kind: "error", desc: "unsupported type"}
	case 22:
		return sqlValue{arg: rapid.SampledFrom([]any{valuerVal{errSentinel}, &valuerVal{errSentinel}, valuerVal{valuerVal{errSentinel}}}).Draw(t, "failing"), kind: "fails", desc: "failing valuer"}
	default:
		return strVal("it's", "it's", "string")
	}
}

var numberLit = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?`)

// readLiteral reads the literal s begins with.
func readLiteral(s string) (kind, text, rest string) {
	switch {
	case strings.HasPrefix(s, "NULL"):
		return "null", "", s[4:]
	case strings.HasPrefix(s, "TRUE"):
		return "bool", "TRUE", s[4:]
	case strings.HasPrefix(s, "FALSE"):
		return "bool", "FALSE", s[5:]
	case strings.HasPrefix(s, "'"):
		var b []byte
		for i := 1; i < len(s); i++ {
			if s[i] != '\'' {
				b = append(b, s[i])
				continue
			}
			if i+1 < len(s) && s[i+1] == '\'' {
				b = append(b, '\'')
				i++
				continue
			}
			return "string", string(b), s[i+1:]
		}
		return "unterminated string", "", ""
	}
	if m := numberLit.FindString(s); m != "" {
		return "number", m, s[len(m):]
	}
	return "unknown", "", s
}

func (v sqlValue) fits(kind, text string) bool {
	switch v.kind {
	case "float":
		if kind != "number" {
			return false
		}
		f, err := strconv.ParseFloat(text, v.bits)
		return err == nil && f == v.f
	case "null":
		return kind == "null"
	}
	return kind == v.kind && text == v.text
}

func TestC18_Interpolate(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		format := rapid.SampledFrom([]string{time.RFC3339, time.RFC3339, "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999", time.RFC3339Nano, "02 Jan 06 15:04:05.000000 MST", "02 Jan '06", "3 o'clock PM'", "''2006''", "", " ", "'", "? $1"}).Draw(t, "format")
		var opts []util.InterpolateOption
		if format != time.RFC3339 || rapid.Bool().Draw(t, "explicit") {
			if rapid.IntRange(0, 3).Draw(t, "replaced") == 0 {
				// of several formats the last one counts
				opts = append(opts, util.WithTimeFormat(time.Kitchen))
			}
			opts = append(opts, util.WithTimeFormat(format))
		}
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		var vals []sqlValue
		nargs, nbinds := rapid.IntRange(0, 5).Draw(t, "args"), rapid.IntRange(0, 6).Draw(t, "binds")
		switch rapid.IntRange(0, 49).Draw(t, "many") {
		case 0, 1, 2, 3:
			nargs, nbinds = rapid.IntRange(8, 14).Draw(t, "args"), rapid.IntRange(8, 16).Draw(t, "binds")
		case 4:
			nargs, nbinds = rapid.IntRange(98, 120).Draw(t, "args"), rapid.IntRange(98, 125).Draw(t, "binds")
		}
		for i := 0; i < nargs; i++ {
			vals = append(vals, genSQLValue(t, format, 2))
		}
		var segs []seg
		text := func() {
			if rapid.IntRange(0, 3).Draw(t, "text") > 0 {
				segs = append(segs, seg{kind: sText, text: genLiteral().Draw(t, "lit")})
			} else {
				segs = append(segs, seg{kind: sText, text: rapid.SampledFrom([]string{" ", " AND x = ", "(", ")", ", ", "\n", "=", "::text ", " 5-", "x - ", "-", "--"}).Draw(t, "sep")})
			}
		}
		missing := false
		text()
		binds := 0
		for i := 0; i < nbinds; i++ {
			k := i + 1
			if style == syntax.Dollar {
				if len(vals) > 0 && rapid.IntRange(0, 9).Draw(t, "inrange") > 0 {
					k = rapid.IntRange(1, len(vals)).Draw(t, "k")
				} else {
					k = rapid.SampledFrom([]int{1, len(vals) + 1, 9, 10, 11, 99, 100}).Draw(t, "k")
				}
			} else if k > len(vals) && rapid.IntRange(0, 9).Draw(t, "missing") > 0 {
				break
			}
			binds++
			missing = missing || k > len(vals)
			segs = append(segs, seg{kind: sBind, style: style, idx: k})
			text()
		}
		if rapid.IntRange(0, 2).Draw(t, "surplus") > 0 && style == syntax.Question && binds < len(vals) {
			vals = vals[:binds]
		}
		// a literal ends where the text goes on
		for i := range segs {
			if i > 0 && segs[i-1].kind == sBind && (segs[i].text == "" || strings.ContainsRune("0123456789.eE'?", rune(segs[i].text[0]))) {
				segs[i].text = " " + segs[i].text
			}
		}
		query := rawSegs(segs)
		args := make([]any, len(vals))
		var kinds []string
		for i, v := range vals {
			args[i] = v.arg
			kinds = append(kinds, v.desc)
		}
		fails, bad := false, false
		for _, s := range segs {
			if s.kind == sBind && s.idx <= len(vals) {
				fails = fails || vals[s.idx-1].kind == "fails"
				bad = bad || vals[s.idx-1].kind == "error"
			}
		}
		classes := append(kinds, styleName(style), cond(missing, "missing arg"), cond(binds > 0 && !missing && !fails && !bad, "literals substituted"))
		key := fmt.Sprintf("%q %s %s", query, showList(args), format)
		note(binds > 0, key, classes...)
		var got string
		var err error
		r, stack := noPanic(func() { got, err = util.Interpolate(query, args, opts...) })
		if r != nil {
			t.Fatalf("%s: panic %v\n%s", key, r, stack)
		}
		if missing || fails || bad {
			if err == nil {
				t.Fatalf("%s\nmissing arg %v, failing valuer %v, unsupported %v, but interpolated to %q", key, missing, fails, bad, got)
			}
			if fails && !bad && !missing && !errors.Is(err, errSentinel) {
				t.Fatalf("%s\nthe error is not that of the value: %v", key, err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		rest := got
		for i, s := range segs {
			if s.kind == sText {
				if !strings.HasPrefix(rest, s.text) {
					t.Fatalf("%s\ninterpolated to %q\nwhere %q is in the place of %q", key, got, rest, s.text)
				}
				rest = rest[len(s.text):]
				continue
			}
			v := vals[s.idx-1]
			if i > 0 && strings.HasSuffix(segs[i-1].text, "-") {
				// a negative number is kept from making the minus sign a comment
				if strings.HasPrefix(rest, "-") && !strings.HasSuffix(segs[i-1].text, "--") {
					t.Fatalf("%s\ninterpolated to %q\nwhere bindvar %d starts a comment", key, got, i)
				}
				if strings.HasPrefix(rest, " -") {
					rest = rest[1:]
				}
			}
			kind, text, r := readLiteral(rest)
			if !v.fits(kind, text) {
				t.Fatalf("%s\ninterpolated to %q\nwhere bindvar %d reads as %s %q, want %s %q %v", key, got, i, kind, text, v.kind, v.text, v.f)
			}
			rest = r
		}
		if rest != "" {
			t.Fatalf("%s\ninterpolated to %q\nwith surplus %q", key, got, rest)
		}
	})
}

// Queries with functions or malformed parts are errors, not results.
func TestC18_NotAQuery(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		pre, post := genLiteral().Draw(t, "pre"), genLiteral().Draw(t, "post")
		bad := rapid.SampledFrom([]string{" #f1 ", " #join('#arg', ',') ", " #f ", " #fn() ", " # ", " $ ", " ? $1 ", " $1 ? ", " $0 ", " #f('x ", " #f(1"}).Draw(t, "bad")
		if strings.HasPrefix(bad, " #f(") {
			post = ""
		}
		query := pre + bad + post
		note(true, fmt.Sprintf("%q", query), "not a query")
		var got string
		var err error
		r, stack := noPanic(func() { got, err = util.Interpolate(query, []any{1, 2}) })
		if r != nil {
			t.Fatalf("%q: panic %v\n%s", query, r, stack)
		}
		if err == nil {
			t.Fatalf("%q: no error, interpolated to %q", query, got)
		}
	})
}

// Any string and any args: no panic.
func TestC18_Total(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		query := genTemplate().Draw(t, "query")
		var args []any
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				args = append(args, genSQLValue(t, time.RFC3339, 2).arg)
			case 1:
				args = append(args, genCommitValue().Draw(t, "v"))
			default:
				args = append(args, genFlatInput(t))
			}
		}
		note(isInteresting(query), fmt.Sprintf("%q %s", query, showList(args)), "any string")
		r, stack := noPanic(func() { util.Interpolate(query, args) })
		if r != nil {
			t.Fatalf("%q %s: panic %v\n%s", query, showList(args), r, stack)
		}
	})
}

// On a database, the interpolated query returns what the query does with its args.
func TestC18_Engine(t *testing.T) {
	check(t, 0.05, func(t *rapid.T) {
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		value := func() any {
			switch rapid.IntRange(0, 6).Draw(t, "value") {
			case 0:
				return nil
			case 1:
				return rapid.Bool().Draw(t, "bool")
			case 2, 3:
				return rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(math.MinInt64+2, math.MaxInt64-2)).Draw(t, "int")
			case 4:
				return float64(rapid.IntRange(-2000, 2000).Draw(t, "f")) / 8
			}
			s := strings.ToValidUTF8(genSQLString().Draw(t, "s"), "\uFFFD")
			return strings.ReplaceAll(s, "\x00", "")
		}
		var args []any
		bind := func() string {
			if style == syntax.Question {
				args = append(args, value())
				return "?"
			}
			if len(args) == 0 || rapid.IntRange(0, 2).Draw(t, "new") > 0 {
				args = append(args, value())
			}
			return "$" + itoa(rapid.IntRange(1, len(args)).Draw(t, "index"))
		}
		var cols []string
		for i, n := 0, rapid.SampledFrom([]int{1, 2, 3, 5, 12}).Draw(t, "cols"); i < n; i++ {
			switch rapid.IntRange(0, 6).Draw(t, "col") {
			case 0:
				cols = append(cols, "'?$1''"+rapid.SampledFrom([]string{"", "??", "$$", "#", "--"}).Draw(t, "lit")+"'")
			case 1:
				cols = append(cols, bind()+" IS NULL")
			case 2:
				cols = append(cols, bind()+" IN ("+bind()+","+bind()+")")
			case 3:
				cols = append(cols, "0 < 1"+rapid.SampledFrom([]string{"-", "+", " - ", "- "}).Draw(t, "op")+bind())
			case 4:
				cols = append(cols, "COALESCE("+bind()+", "+bind()+")")
			default:
				cols = append(cols, bind())
			}
		}
		query := "SELECT " + strings.Join(cols, ", ")
		key := fmt.Sprintf("%q %s", query, showList(args))
		note(len(args) > 0, key, bucket("args", len(args)))
		out, err := util.Interpolate(query, args)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		r := sqlEngine().run(nil, engineQuery{SQL: query, Args: append([]any(nil), args...), Named: style == syntax.Dollar}, engineQuery{SQL: out})
		if r[0].Err != "" {
			t.Fatalf("%s\nthe check's own query fails: %s", key, r[0].Err)
		}
		if r[1].Err != "" || len(r[1].Rows) != 1 {
			t.Fatalf("%s\ninterpolated %q\nfails: %s", key, out, r[1].Err)
		}
		if a, b := rowKey(r[0].Rows[0]), rowKey(r[1].Rows[0]); a != b {
			t.Fatalf("%s\ninterpolated %q\nreturns %s\nwith args %s", key, out, b, a)
		}
	})
}
