package verifharness

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// Coverage-guided fuzzing, of the thorough tier. $VERIF_FUZZ is the property.

// capture, if not nil, gets the properties check is called with, in place of running them.
var capture *[]func(*rapid.T)

// FuzzProps fuzzes the choices the generators of the property's checks make.
func FuzzProps(f *testing.F) {
	id := os.Getenv("VERIF_FUZZ")
	if len(fuzzTests[id]) == 0 {
		f.Skip("nothing to fuzz")
	}
	props := fuzzProps(id)
	rnd := rand.New(rand.NewSource(seedOf(id)))
	for i := 0; i < 64; i++ {
		data := make([]byte, 4096<<(i%4))
		rnd.Read(data)
		f.Add(byte(i), data)
		dumpSeed(i, fmt.Sprintf("byte(%q)\n[]byte(%q)", rune(byte(i)), data))
	}
	f.Fuzz(func(t *testing.T, which byte, data []byte) {
		fuzzProp(t, props, which, data)
	})
}

// dumpSeed writes the input the fuzzer starts with to $VERIF_DUMP, if it is the one of
// the number there.
func dumpSeed(i int, values string) {
	if at := os.Getenv("VERIF_DUMP"); at != "" && strings.HasSuffix(at, "#"+strconv.Itoa(i)) {
		if err := os.WriteFile(at, []byte("go test fuzz v1\n"+values+"\n"), 0o644); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
}

func fuzzProps(id string) (props []func(*rapid.T)) {
	capture = &props
	for _, test := range fuzzTests[id] {
		test(&testing.T{})
	}
	capture = nil
	return props
}

func fuzzProp(t *testing.T, props []func(*rapid.T), which byte, data []byte) {
	prop := props[int(which)%len(props)]
	rapid.MakeFuzz(func(rt *rapid.T) { guard(func() string { return "fuzzed" }, func() { prop(rt) }) })(t, data)
}

// textJudge is what FuzzText judges texts with.
func textJudge(id string) func(t *testing.T, in string) {
	switch id {
	case "C05":
		return func(t *testing.T, in string) { checkParse(t, in) }
	case "C22":
		return func(t *testing.T, in string) { checkPositions(t, in) }
	case "C09":
		return fuzzBuild
	case "C18":
		return fuzzInterpolate
	}
	return nil
}

// TestFuzzMinimize makes a failing input, which the file VERIF_MINIMIZE holds as the
// fuzzer writes it, smaller for as long as it fails. The file always holds the
// smallest one so far.
func TestFuzzMinimize(t *testing.T) {
	file, id := os.Getenv("VERIF_MINIMIZE"), os.Getenv("VERIF_FUZZ")
	if file == "" {
		t.Skip("nothing to minimize")
	}
	text, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var which byte
	var data []byte
	isText := false
	for _, l := range strings.Split(string(text), "\n") {
		switch {
		case strings.HasPrefix(l, "byte("):
			c, _, _, err := strconv.UnquoteChar(strings.TrimSuffix(strings.TrimPrefix(l, "byte('"), "')"), '\'')
			if err != nil {
				t.Fatal(err)
			}
			which = byte(c)
		case strings.HasPrefix(l, "[]byte("), strings.HasPrefix(l, "string("):
			isText = l[0] == 's'
			s, err := strconv.Unquote(l[strings.Index(l, "(")+1 : len(l)-1])
			if err != nil {
				t.Fatal(err)
			}
			data = []byte(s)
		}
	}
	props := fuzzProps(id)
	step := 8 // what a choice takes
	if isText {
		step = 1
	}
	tries, end := 0, time.Now().Add(40*time.Second)
	fails := func(d []byte) bool {
		tries++
		return !t.Run("try", func(t *testing.T) {
			if isText {
				textJudge(id)(t, string(d))
			} else {
				fuzzProp(t, props, which, d)
			}
		})
	}
	keep := func(d []byte) bool {
		if time.Now().After(end) || !fails(d) {
			return false
		}
		data = append([]byte(nil), d...)
		out := fmt.Sprintf("go test fuzz v1\nbyte(%q)\n[]byte(%q)\n", rune(which), data)
		if isText {
			out = fmt.Sprintf("go test fuzz v1\nstring(%q)\n", data)
		}
		if err := os.WriteFile(file, []byte(out), 0o644); err != nil {
			t.Fatal(err)
		}
		return true
	}
	if !keep(data) {
		return
	}
	for before := -1; before != len(data); {
		before = len(data)
		size := step
		for size*2 <= len(data) {
			size *= 2
		}
		for ; size >= step; size /= 2 {
			for at := len(data) - size; at >= 0; at -= size {
				if at+size <= len(data) {
					keep(append(append([]byte(nil), data[:at]...), data[at+size:]...))
				}
			}
		}
	}
	if isText {
		return
	}
	// smaller choices
	for at := 0; at+8 <= len(data); at += 8 {
		if z := append([]byte(nil), data...); string(z[at:at+8]) != "\x00\x00\x00\x00\x00\x00\x00\x00" {
			copy(z[at:], make([]byte, 8))
			keep(z)
		}
	}
}

func seedOf(id string) int64 {
	h := int64(17)
	for _, c := range id + "/" + os.Getenv("VERIF_SEED") {
		h = h*31 + int64(c)
	}
	return h
}

// FuzzText fuzzes the text of templates itself.
func FuzzText(f *testing.F) {
	judge := textJudge(os.Getenv("VERIF_FUZZ"))
	if judge == nil {
		f.Skip("no text to fuzz")
	}
	n := 0
	add := func(s string) {
		f.Add(s)
		dumpSeed(n, fmt.Sprintf("string(%q)", s))
		n++
	}
	for _, p := range templatePieces {
		add(p)
	}
	for i := 0; i < 200; i++ {
		add(genValidTemplate().Example(i + int(seedOf("")&0xffff)))
		add(genTemplate().Example(i + int(seedOf("")&0xffff)))
	}
	f.Fuzz(func(t *testing.T, in string) {
		if len(in) < 1<<16 {
			judge(t, in)
		}
	})
}

// fuzzBuild builds anything with a template of the text.
func fuzzBuild(t *testing.T, in string) {
	mk := func() *sqlf.Fragment {
		return sqlf.F(in).WithArgs(1, nil, []byte("x"), map[string]int{}, "s").WithFragments(nil, sqlf.F("ok"), sqlf.Fa("?", 1), (*sqlf.Fragment)(nil))
	}
	for _, style := range bothStyles {
		for i, f := range []sqlf.QueryBuilder{mk(), sqlf.F(in), sqlf.Ff("#join('#f', ',')", sqlf.F(in), mk()), sqlf.Ff("#join('"+strings.ReplaceAll(in, "'", "''")+"', ',')", sqlf.F("a"), sqlf.F("b")).WithArgs(1, 2)} {
			var s string
			var args []any
			var err error
			r, stack := noPanic(func() {
				guard(func() string { return "build " + in }, func() { s, args, err = f.BuildQuery(style) })
			})
			if r != nil {
				t.Fatalf("%q built as %d: panic %v\n%s", in, i, r, stack)
			}
			if err != nil && (s != "" || len(args) != 0) {
				t.Fatalf("%q built as %d: %q %s with error %v", in, i, s, showList(args), err)
			}
		}
	}
}

// fuzzInterpolate interpolates into the text.
func fuzzInterpolate(t *testing.T, in string) {
	args := []any{11, "it's ?", nil, true, uint8(5), 0.25, "$1"}
	lits := []string{"11", "'it''s ?'", "NULL", "TRUE", "5", "0.25", "'$1'"}
	var got string
	var err error
	r, stack := noPanic(func() {
		guard(func() string { return "interpolate " + in }, func() { got, err = util.Interpolate(in, args) })
	})
	if r != nil {
		t.Fatalf("%q: panic %v\n%s", in, r, stack)
	}
	nodes, bad, unspec := refParse(in)
	if unspec != "" {
		return
	}
	want, fails := "", bad != ""
	for _, n := range nodes {
		switch {
		case n.kind == "plain":
			want += n.text
		case n.kind == "bind" && n.index >= 1 && n.index <= len(args):
			want += lits[n.index-1]
		default:
			fails = true
		}
	}
	if fails != (err != nil) || err == nil && got != want {
		t.Fatalf("%q: interpolated to %q (%v), want %q, error %v", in, got, err, want, fails)
	}
}
