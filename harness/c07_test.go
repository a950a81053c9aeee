package verifharness

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"pgregory.net/rapid"
)

// C07: custom functions are vetted at registration and called faithfully.

type (
	namedInt    int
	namedUint8  uint8
	namedFloat  float32
	namedString string
	namedBool   bool
	customErr   struct{ s string }
)

func (e *customErr) Error() string { return e.s }

var (
	ctxType = reflect.TypeOf((*sqlf.Context)(nil))
	errType = reflect.TypeOf((*error)(nil)).Elem()
	strType = reflect.TypeOf("")

	goodParams = []reflect.Type{
		reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), strType, strType, reflect.TypeOf(true), reflect.TypeOf(true),
		reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedUint8(0)), reflect.TypeOf(namedFloat(0)), reflect.TypeOf(namedString("")), reflect.TypeOf(namedBool(true)),
	}
	badParams = []reflect.Type{
		reflect.TypeOf([]int{}), reflect.TypeOf([]byte{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(new(int)), reflect.TypeOf(new(string)),
		errType, reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf([2]int{}), reflect.TypeOf(complex128(0)),
		reflect.TypeOf(sqlf.Context{}), reflect.TypeOf((*sqlf.Fragment)(nil)), reflect.TypeOf((*sqlf.FragmentBuilder)(nil)).Elem(), reflect.TypeOf([]string{}),
	}
	goodOuts = [][]reflect.Type{{}, {strType}, {strType, errType}}
	badOuts  = [][]reflect.Type{
		{reflect.TypeOf(0)}, {errType}, {reflect.TypeOf(namedString(""))}, {reflect.TypeOf([]byte{})}, {reflect.TypeOf((*any)(nil)).Elem()},
		{strType, strType}, {errType, strType}, {strType, reflect.TypeOf(0)}, {strType, reflect.TypeOf((*customErr)(nil))}, {reflect.TypeOf(0), errType}, {reflect.TypeOf(namedString("")), errType},
		{strType, errType, errType}, {strType, strType, errType}, {strType, errType, reflect.TypeOf(0)}, {strType, reflect.TypeOf((*any)(nil)).Elem()},
	}
	goodNames = []string{"fn", "a", "Z", "_", "my_Func", "FN", "__x__", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
	badNames  = []string{"", "fn1", "1fn", "f-n", "f n", "fñ", "é", "f.n", "#fn", "fn(", "函数", "f\x00", "f\xff", "f\n", " fn", "fn ", "[", "`", "@", "{", "^", "\\", "Å", "ſ", "\u212a", "²"}
)

type sig struct {
	ctxFirst bool
	params   []reflect.Type // without the context
	variadic bool
	outs     []reflect.Type
}

func (s *sig) fnType() reflect.Type {
	var in []reflect.Type
	if s.ctxFirst {
		in = append(in, ctxType)
	}
	in = append(in, s.params...)
	if s.variadic {
		in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
	}
	return reflect.FuncOf(in, s.outs, s.variadic)
}

func genSig(t *rapid.T) *sig {
	s := &sig{ctxFirst: rapid.Bool().Draw(t, "ctx")}
	n := rapid.IntRange(0, 4).Draw(t, "nparams")
	if n == 4 && rapid.Bool().Draw(t, "many") {
		n = rapid.IntRange(5, 12).Draw(t, "manyParams")
	}
	for i := 0; i < n; i++ {
		s.params = append(s.params, rapid.SampledFrom(goodParams).Draw(t, "param"))
	}
	s.variadic = len(s.params) > 0 && rapid.IntRange(0, 2).Draw(t, "variadic") == 0
	s.outs = rapid.SampledFrom(goodOuts).Draw(t, "outs")
	return s
}

func zeroFn(typ reflect.Type) any {
	return reflect.MakeFunc(typ, func([]reflect.Value) []reflect.Value {
		var out []reflect.Value
		for i := 0; i < typ.NumOut(); i++ {
			out = append(out, reflect.Zero(typ.Out(i)))
		}
		return out
	}).Interface()
}

func TestC07_Registration(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		funcs := sqlf.FuncMap{}
		n := rapid.IntRange(1, 3).Draw(t, "n")
		badAt := -1
		if rapid.IntRange(0, 2).Draw(t, "bad") > 0 {
			badAt = rapid.IntRange(0, n-1).Draw(t, "badAt")
		}
		why, desc := "", ""
		used := map[string]bool{}
		if rapid.IntRange(0, 19).Draw(t, "manyFuncs") == 0 {
			// among many others
			m := rapid.IntRange(5, 80).Draw(t, "others")
			for i := 0; i < m; i++ {
				funcs["other_"+string(rune('a'+i%26))+string(rune('a'+i/26))] = func(int) string { return "" }
			}
			desc = fmt.Sprintf(" %d others", m)
		}
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom(goodNames).Filter(func(s string) bool { return !used[s] }).Draw(t, "name")
			s := genSig(t)
			var fn any
			if i == badAt {
				switch rapid.IntRange(0, 6).Draw(t, "how") {
				case 0:
					name = rapid.SampledFrom(badNames).Draw(t, "badName")
					why = "name"
				case 1:
					s.outs = rapid.SampledFrom(badOuts).Draw(t, "badOuts")
					why = "results"
				case 2:
					k := rapid.IntRange(0, len(s.params)).Draw(t, "at")
					s.params = append(s.params[:k:k], append([]reflect.Type{rapid.SampledFrom(badParams).Draw(t, "badParam")}, s.params[k:]...)...)
					why = "parameter type"
				case 3:
					if len(s.params) == 0 && !s.ctxFirst {
						s.params = append(s.params, rapid.SampledFrom(goodParams).Draw(t, "param"))
					}
					s.params = append(s.params, ctxType)
					s.variadic = rapid.Bool().Draw(t, "variadic")
					why = "context not first"
				case 4:
					fn = rapid.SampledFrom([]any{nil, 1, "fn", []any{}, struct{}{}, new(int), errors.New("x"), reflect.ValueOf(func() string { return "" })}).Draw(t, "value")
					why = "not a function"
				case 5:
					if len(s.params) == 0 {
						s.params = append(s.params, strType)
					}
					s.params[len(s.params)-1] = rapid.SampledFrom(badParams).Draw(t, "badParam")
					s.variadic = true
					why = "variadic parameter type"
				case 6:
					s.ctxFirst, s.variadic = false, true
					s.params = []reflect.Type{ctxType}
					why = "variadic context"
				}
			}
			if fn == nil && why != "not a function" || i != badAt {
				fn = zeroFn(s.fnType())
			}
			used[name] = true
			funcs[name] = fn
			desc += fmt.Sprintf(" %q: %T", name, fn)
		}
		note(true, desc, cond(badAt < 0, "legal"), cond(badAt >= 0, "illegal: "+why))
		var (
			err error
			ctx *sqlf.Context
		)
		r, stack := noPanic(func() { ctx, err = sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), funcs) })
		if r != nil {
			t.Fatalf("registering%s panicked: %v\n%s", desc, r, stack)
		}
		if badAt >= 0 && err == nil {
			t.Fatalf("registering%s: accepted despite of its %s", desc, why)
		}
		if badAt < 0 && (err != nil || ctx == nil) {
			t.Fatalf("registering%s: %v", desc, err)
		}
	})
}

// Any name and its verdict.
func TestC07_Names(t *testing.T) {
	check(t, 0.5, func(t *rapid.T) {
		var name string
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			name = rapid.String().Draw(t, "name")
		case 1:
			name = rapid.StringMatching("[a-zA-Z_]{0,5}").Draw(t, "name")
		default:
			name = rapid.StringMatching("[a-zA-Z_]{0,3}").Draw(t, "head") +
				string(rune(rapid.IntRange(0, 0x250).Draw(t, "rune"))) + rapid.StringMatching("[a-zA-Z_]{0,3}").Draw(t, "tail")
		}
		want := name != ""
		for i := 0; i < len(name); i++ {
			c := name[i]
			want = want && (c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
		}
		note(name != "", fmt.Sprintf("name %q", name), cond(want, "legal name"), cond(!want, "illegal name"))
		_, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{name: func() string { return "" }})
		if want != (err == nil) {
			t.Fatalf("registering %q: %v", name, err)
		}
	})
}

type literal struct {
	src  string
	kind string // number, string, bool, nil
	num  float64
	str  string
	b    bool
}

func isFloatType(typ reflect.Type) bool {
	return typ.Kind() == reflect.Float32 || typ.Kind() == reflect.Float64
}

func kindOf(typ reflect.Type) string {
	switch typ.Kind() {
	case reflect.String:
		return "string"
	case reflect.Bool:
		return "bool"
	}
	return "number"
}

func genLiteralFor(t *rapid.T, typ reflect.Type) literal {
	switch kindOf(typ) {
	case "string":
		s := rapid.SampledFrom([]string{"", "a", "it's", "#f1", "?", "$1", ",", ")", "(", " x ", "\"", "é\n世", "''", "true", "nil", "1", "\x00\xff"}).Draw(t, "str")
		return literal{src: quoteArg(s), kind: "string", str: s}
	case "bool":
		b := rapid.Bool().Draw(t, "bool")
		return literal{src: fmt.Sprint(b), kind: "bool", b: b}
	}
	var v float64
	large := rapid.IntRange(0, 3).Draw(t, "large") == 0
	bits := typ.Bits()
	if bits > 54 {
		bits = 54 // what a literal can carry exactly
	}
	switch {
	case isFloatType(typ) && large && typ.Kind() == reflect.Float32:
		v = float64(rapid.Float32Range(-1e30, 1e30).Draw(t, "float32"))
	case isFloatType(typ) && large:
		v = rapid.Float64Range(-1e100, 1e100).Draw(t, "float64")
	case isFloatType(typ):
		v = float64(rapid.IntRange(-4000, 4000).Draw(t, "quarter")) / 4
	case typ.Kind() >= reflect.Uint && typ.Kind() <= reflect.Uint64 && large:
		max := int64(1)<<bits - 1
		if bits == 54 {
			max = 1<<53 - 1
		}
		v = float64(max - rapid.Int64Range(0, 99).Draw(t, "uint"))
	case typ.Kind() >= reflect.Uint && typ.Kind() <= reflect.Uint64:
		v = float64(rapid.IntRange(0, 255).Draw(t, "uint"))
	case large:
		max := int64(1)<<(bits-1) - 1
		v = float64(max - rapid.Int64Range(0, 99).Draw(t, "int"))
		if rapid.Bool().Draw(t, "negative") {
			v = -v
		}
	default:
		v = float64(rapid.IntRange(-128, 127).Draw(t, "int"))
	}
	if v == 0 {
		v = 0 // not the negative one
	}
	src := strconv.FormatFloat(v, 'f', -1, 64)
	if v == float64(int(v)) && math.Abs(v) < 1<<53 {
		switch rapid.IntRange(0, 5).Draw(t, "spell") {
		case 0:
			src += ".0"
		case 1:
			src = strconv.FormatFloat(v, 'e', -1, 64)
		case 2:
			if v >= 0 {
				src = "+" + src
			}
		}
	}
	return literal{src: src, kind: "number", num: v}
}

func (l literal) matches(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String:
		return l.kind == "string" && v.String() == l.str
	case reflect.Bool:
		return l.kind == "bool" && v.Bool() == l.b
	case reflect.Float32, reflect.Float64:
		return l.kind == "number" && v.Float() == l.num
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return l.kind == "number" && float64(v.Int()) == l.num
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return l.kind == "number" && float64(v.Uint()) == l.num
	}
	return false
}

type nilError struct{}

func (*nilError) Error() string { return "nil error" }

var errSentinel = errors.New("sentinel")

func TestC07_Call(t *testing.T) {
	check(t, 1, func(t *rapid.T) {
		s := genSig(t)
		// literal arguments that fit
		var lits []literal
		fixed := len(s.params)
		if s.variadic {
			fixed--
		}
		for i := 0; i < fixed; i++ {
			lits = append(lits, genLiteralFor(t, s.params[i]))
		}
		if s.variadic {
			n := rapid.IntRange(0, 4).Draw(t, "nvar")
			if n == 4 {
				n = rapid.IntRange(4, 20).Draw(t, "many")
			}
			for i := 0; i < n; i++ {
				lits = append(lits, genLiteralFor(t, s.params[fixed]))
			}
		}
		paramAt := func(i int) reflect.Type {
			if i >= fixed {
				return s.params[fixed]
			}
			return s.params[i]
		}
		wrong := ""
		switch rapid.SampledFrom([]string{"fits", "fits", "fits", "kind", "kind", "more", "fewer", "nil", "undefined"}).Draw(t, "fit") {
		case "kind", "nil":
			if len(lits) == 0 {
				break
			}
			i := rapid.IntRange(0, len(lits)-1).Draw(t, "at")
			var other []literal
			for _, l := range []literal{{src: "'1'", kind: "string"}, {src: "'12'", kind: "string"}, {src: "'true'", kind: "string"}, {src: "'0.5'", kind: "string"}, {src: "''", kind: "string"}, {src: "false", kind: "bool"}, {src: "-3", kind: "number"}, {src: "true", kind: "bool"}, {src: "1", kind: "number"}, {src: "0", kind: "number"}, {src: "65", kind: "number"}, {src: "nil", kind: "nil"}, {src: "null", kind: "nil"}} {
				if l.kind != kindOf(paramAt(i)) {
					other = append(other, l)
				}
			}
			lits[i] = rapid.SampledFrom(other).Draw(t, "lit")
			wrong = lits[i].kind + " for " + kindOf(paramAt(i))
		case "more":
			if s.variadic {
				break
			}
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "surplus"); i < n; i++ {
				lits = append(lits, literal{src: rapid.SampledFrom([]string{"1", "''", "true", "nil"}).Draw(t, "lit"), kind: "any"})
			}
			wrong = "too many args"
		case "fewer":
			if fixed == 0 {
				break
			}
			lits = lits[:rapid.IntRange(0, fixed-1).Draw(t, "keep")]
			wrong = "too few args"
		case "undefined":
			wrong = "undefined function"
		}
		// what the function does
		does := "return"
		if wrong == "" {
			does = rapid.SampledFrom([]string{"return", "return", "return", "error", "nil error", "panic", "panic error", "panic nil map", "panic wrapped"}).Draw(t, "does")
			if (does == "error" || does == "nil error") && len(s.outs) < 2 {
				does = "return"
			}
		}
		result := rapid.SampledFrom([]string{"text", "", " spaced ", "#f1 ?", "'"}).Draw(t, "result")
		if len(s.outs) == 0 {
			result = ""
		}
		calls := 0
		var problem string
		fn := reflect.MakeFunc(s.fnType(), func(in []reflect.Value) []reflect.Value {
			calls++
			if s.ctxFirst {
				c, ok := in[0].Interface().(*sqlf.Context)
				if !ok || c == nil {
					problem = "no context"
				} else if does == "return" {
					if got, err := sqlf.F("[#helper_()]").BuildFragment(c); err != nil || got != "[help]" {
						problem = fmt.Sprintf("calling a function in the context: %q %v", got, err)
					}
					c.CommitArg("committed by the function")
				}
				in = in[1:]
			}
			var flat []reflect.Value
			for i, v := range in {
				if s.variadic && i == len(in)-1 {
					for k := 0; k < v.Len(); k++ {
						flat = append(flat, v.Index(k))
					}
					continue
				}
				flat = append(flat, v)
			}
			if len(flat) != len(lits) {
				problem = fmt.Sprintf("got %d args", len(flat))
			} else {
				for i, v := range flat {
					if !lits[i].matches(v) {
						problem = fmt.Sprintf("arg %d is %s(%v)", i, v.Type(), v)
					}
				}
			}
			switch does {
			case "panic":
				panic("text")
			case "panic error":
				panic(errSentinel)
			case "panic wrapped":
				panic(fmt.Errorf("wrapped: %w", errSentinel))
			case "panic nil map":
				var m map[string]int
				m["x"] = 1
			}
			var out []reflect.Value
			for i := range s.outs {
				switch i {
				case 0:
					out = append(out, reflect.ValueOf(result))
				case 1:
					e := reflect.Zero(errType)
					if does == "error" {
						e = reflect.ValueOf(&errSentinel).Elem()
					}
					if does == "nil error" { // an error all the same
						var err error = (*nilError)(nil)
						e = reflect.ValueOf(&err).Elem()
					}
					out = append(out, e)
				}
			}
			return out
		}).Interface()
		srcs := make([]string, len(lits))
		for i, l := range lits {
			srcs[i] = rapid.SampledFrom([]string{"", " ", "\n\t"}).Draw(t, "sp") + l.src
		}
		name := rapid.SampledFrom(goodNames).Draw(t, "name")
		called := name
		if wrong == "undefined function" {
			called = rapid.SampledFrom([]string{name + "_", "_" + name, strings.ToUpper(name) + "x", "nope"}).Draw(t, "called")
		}
		call := "#" + called + "(" + strings.Join(srcs, ",") + ")"
		if len(lits) == 1 && lits[0].kind == "number" && rapid.Bool().Draw(t, "short") && lits[0].num >= 0 && !strings.ContainsAny(lits[0].src, ".e+-") {
			call = "#" + called + lits[0].src
		}
		// where it's called
		var (
			f    *sqlf.Fragment
			want string
		)
		nCalls := 1
		where := rapid.SampledFrom([]string{"template", "nested", "join", "twice"}).Draw(t, "where")
		switch where {
		case "template":
			f, want = sqlf.F("a "+call+" z"), "a "+result+" z"
		case "nested":
			f, want = sqlf.Ff("[#f1]", sqlf.Ff("(#f1)", sqlf.F("<"+call+">"))), "[(<"+result+">)]"
		case "join":
			f = sqlf.Ff("#join("+quoteArg("#f:"+call+";")+", ',')", sqlf.F("x"), sqlf.F("y"))
			want = "x:" + result + ";,y:" + result + ";"
			nCalls = 2
		case "twice":
			f, want = sqlf.F("a "+call+"-"+call+" z"), "a "+result+"-"+result+" z"
			nCalls = 2
		}
		key := fmt.Sprintf("%T %s in %s", fn, call, where)
		note(true, key+does+result, cond(wrong != "", "misfit: "+wrong), cond(wrong == "", "does: "+does), "in "+where, cond(s.variadic, "variadic"), cond(s.ctxFirst, "with context"))
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{name: fn, "helper_": func() string { return "help" }})
		if err != nil {
			t.Fatalf("registering %T: %v", fn, err)
		}
		var q string
		var r any
		var stack string
		guard(func() string { return key }, func() { r, stack = noPanic(func() { q, err = f.BuildFragment(ctx) }) })
		if r != nil {
			t.Fatalf("%s panicked: %v\n%s", key, r, stack)
		}
		if wrong != "" {
			if err == nil {
				t.Fatalf("%s: %s, but built %q", key, wrong, q)
			}
			if calls > 0 {
				t.Fatalf("%s: %s, but the function was called", key, wrong)
			}
			return
		}
		if problem != "" {
			t.Fatalf("%s: %s", key, problem)
		}
		switch does {
		case "return":
			if err != nil || q != want {
				t.Fatalf("%s: built %q (%v), want %q", key, q, err, want)
			}
			if calls != nCalls {
				t.Fatalf("%s: called %d times", key, calls)
			}
			wantArgs := 0
			if s.ctxFirst {
				wantArgs = nCalls
				if style == syntax.Dollar {
					wantArgs = 1
				}
			}
			if len(ctx.Args()) != wantArgs {
				t.Fatalf("%s: %d args committed by the function, want %d", key, len(ctx.Args()), wantArgs)
			}
		default:
			if err == nil {
				t.Fatalf("%s: function failed with %s, but built %q", key, does, q)
			}
			if (does == "error" || does == "panic error" || does == "panic wrapped") && !errors.Is(err, errSentinel) {
				t.Fatalf("%s: function failed with %s, but the error is another one: %v", key, does, err)
			}
		}
	})
}
