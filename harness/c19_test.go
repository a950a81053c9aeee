package verifharness

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"pgregory.net/rapid"
)

// C19: scanning returns all rows or an error, and releases them.

// colType is a column: how its values are made, and what a field of it is.
type colType struct {
	name  string
	value func(t *rapid.T) driver.Value
	field func() any
	want  func(v driver.Value) any // what the field points to
	bad   driver.Value             // a value that can't be converted
}

type scannerField struct {
	v     any
	calls int
}

func (s *scannerField) Scan(v any) error {
	if e, ok := v.(string); ok && e == "bad" {
		return errors.New("scanner: bad value")
	}
	if b, ok := v.([]byte); ok {
		v = string(b)
	}
	s.v, s.calls = v, s.calls+1
	return nil
}

var colTypes = []colType{
	{"int64", func(t *rapid.T) driver.Value { return rapid.Int64().Draw(t, "v") }, func() any { return new(int64) }, func(v driver.Value) any { return v }, "x"},
	{"int", func(t *rapid.T) driver.Value { return int64(rapid.Int32().Draw(t, "v")) }, func() any { return new(int) }, func(v driver.Value) any { return int(v.(int64)) }, nil},
	{"int8", func(t *rapid.T) driver.Value { return int64(rapid.Int8().Draw(t, "v")) }, func() any { return new(int8) }, func(v driver.Value) any { return int8(v.(int64)) }, int64(1000)},
	{"string", func(t *rapid.T) driver.Value { return rapid.String().Draw(t, "v") }, func() any { return new(string) }, func(v driver.Value) any { return v }, nil},
	{"bool", func(t *rapid.T) driver.Value { return rapid.Bool().Draw(t, "v") }, func() any { return new(bool) }, func(v driver.Value) any { return v }, "maybe"},
	{"float64", func(t *rapid.T) driver.Value { return float64(rapid.Int32().Draw(t, "v")) / 4 }, func() any { return new(float64) }, func(v driver.Value) any { return v }, "1.x"},
	{"bytes", func(t *rapid.T) driver.Value {
		return rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "v")
	}, func() any { return new([]byte) }, func(v driver.Value) any { return v }, struct{}{}},
	{"null string", func(t *rapid.T) driver.Value {
		if rapid.Bool().Draw(t, "null") {
			return nil
		}
		return rapid.String().Draw(t, "v")
	}, func() any { return new(sql.NullString) }, func(v driver.Value) any {
		if v == nil {
			return sql.NullString{}
		}
		return sql.NullString{String: v.(string), Valid: true}
	}, struct{}{}},
	{"*int64", func(t *rapid.T) driver.Value {
		if rapid.Bool().Draw(t, "null") {
			return nil
		}
		return rapid.Int64().Draw(t, "v")
	}, func() any { return new(*int64) }, func(v driver.Value) any {
		if v == nil {
			return (*int64)(nil)
		}
		n := v.(int64)
		return &n
	}, "x"},
	{"any", func(t *rapid.T) driver.Value {
		return rapid.SampledFrom([]driver.Value{nil, int64(1), "s", true, 1.5}).Draw(t, "v")
	}, func() any { return new(any) }, func(v driver.Value) any { return v }, nil},
	{"scanner", func(t *rapid.T) driver.Value {
		return rapid.SampledFrom([]driver.Value{nil, int64(1), "s", []byte("b")}).Draw(t, "v")
	}, func() any { return &scannerField{} }, func(v driver.Value) any {
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		return scannerField{v, 1}
	}, "bad"},
	{"time", func(t *rapid.T) driver.Value { return time.Unix(rapid.Int64Range(0, 1<<32).Draw(t, "v"), 0).UTC() }, func() any { return new(time.Time) }, func(v driver.Value) any { return v }, "yesterday"},
}

type destRow struct{ fields []any }

func (d *destRow) values() []any {
	var out []any
	for _, f := range d.fields {
		out = append(out, reflect.ValueOf(f).Elem().Interface())
	}
	return out
}

type stubBuilder struct {
	q      string
	args   []any
	err    error
	styles []syntax.BindVarStyle
}

func (b *stubBuilder) BuildQuery(s syntax.BindVarStyle) (string, []any, error) {
	b.styles = append(b.styles, s)
	if b.err != nil {
		return "", nil, b.err
	}
	return b.q, b.args, nil
}

var errDriver = errors.New("driver failure")

type scanPlan struct {
	cols    []colType
	names   int // number of names of columns, 0 if they all differ
	nFields int
	rows    [][]driver.Value
}

func (p *scanPlan) String() string {
	b := new(strings.Builder)
	for i, c := range p.cols {
		if i == p.nFields {
			b.WriteString("| ")
		}
		b.WriteString(c.name + " ")
	}
	if p.nFields > len(p.cols) {
		fmt.Fprintf(b, "+%d fields ", p.nFields-len(p.cols))
	}
	for _, r := range p.rows {
		b.WriteString(showList(toAny(r)))
	}
	return b.String()
}

func toAny(v []driver.Value) []any {
	out := make([]any, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

func genScanPlan(t *rapid.T) *scanPlan {
	p := &scanPlan{}
	nCols := rapid.IntRange(1, 5).Draw(t, "cols")
	p.names = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "names")
	if rapid.IntRange(0, 19).Draw(t, "wide") == 0 {
		nCols = rapid.IntRange(6, 20).Draw(t, "cols")
	}
	for i := 0; i < nCols; i++ {
		p.cols = append(p.cols, rapid.SampledFrom(colTypes).Draw(t, "col"))
	}
	p.nFields = rapid.IntRange(0, nCols).Draw(t, "fields")
	if rapid.Bool().Draw(t, "all") {
		p.nFields = nCols
	}
	nRows := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 7, 7, 20}).Draw(t, "rows")
	if rapid.IntRange(0, 49).Draw(t, "long") == 0 {
		nRows = rapid.SampledFrom([]int{33, 64, 65, 100, 129, 257}).Draw(t, "rows")
	}
	for r := 0; r < nRows; r++ {
		var row []driver.Value
		for _, c := range p.cols {
			row = append(row, c.value(t))
		}
		p.rows = append(p.rows, row)
	}
	return p
}

func (p *scanPlan) answer() fakeAnswer {
	a := fakeAnswer{}
	for i := range p.cols {
		name := fmt.Sprintf("c%d", i)
		if p.names > 0 {
			name = fmt.Sprintf("c%d", i%p.names) // several of one name
		}
		a.cols = append(a.cols, name)
	}
	for _, r := range p.rows {
		a.rows = append(a.rows, append([]driver.Value(nil), r...))
	}
	return a
}

// scanRun runs one scan against a fresh database.
type scanRun struct {
	results []*destRow
	err     error
	panicV  any
	db      *fakeDB
	inUse   int
	tooLong bool
}

func (p *scanPlan) run(a fakeAnswer, nFields int, viaBuilder, viaTx, panicAt int, b *stubBuilder, q string, args []any) *scanRun {
	r := &scanRun{db: &fakeDB{answer: a}}
	sdb := r.db.open()
	defer sdb.Close()
	var db util.QueryAble = sdb
	if viaTx == 1 {
		tx, err := sdb.Begin()
		if err != nil {
			r.err = err
			return r
		}
		defer tx.Rollback()
		db = tx
	}
	calls := 0
	buf := make([]any, len(p.cols)+nFields) // shared by all rows
	fn := func() (*destRow, []any) {
		calls++
		if calls == panicAt {
			panic("fn")
		}
		d := &destRow{}
		for i := 0; i < nFields; i++ {
			c := p.cols[i%len(p.cols)]
			d.fields = append(d.fields, c.field())
		}
		if viaTx == 0 {
			// fields in a longer list
			copy(buf, d.fields)
			return d, buf[:nFields]
		}
		return d, d.fields
	}
	func() {
		defer func() { r.panicV = recover() }()
		if viaBuilder == 1 {
			r.results, r.err = util.ScanBuilder[*destRow](db, b, syntax.Question, fn)
		} else {
			r.results, r.err = util.Scan[*destRow](db, q, args, fn)
		}
	}()
	for _, v := range buf[nFields:] {
		r.tooLong = r.tooLong || v != nil
	}
	if viaTx == 0 {
		r.inUse = sdb.Stats().InUse
	}
	return r
}

func (r *scanRun) released() error {
	r.db.mu.Lock()
	defer r.db.mu.Unlock()
	if r.db.opened != r.db.closed {
		return fmt.Errorf("%d rows opened, %d closed", r.db.opened, r.db.closed)
	}
	if r.inUse != 0 {
		return fmt.Errorf("%d connections still in use", r.inUse)
	}
	return nil
}

func TestC19_Scan(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		p := genScanPlan(t)
		viaBuilder := rapid.IntRange(0, 1).Draw(t, "builder")
		viaTx := rapid.IntRange(0, 1).Draw(t, "tx")
		q := rapid.SampledFrom([]string{"SELECT 1", "SELECT ? FROM x WHERE a=$1", "", "%s"}).Draw(t, "query")
		var args []any
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "args"); i < n; i++ {
			args = append(args, genArg().Draw(t, "arg"))
		}
		stub := func() *stubBuilder { return &stubBuilder{q: q, args: args} }
		desc := fmt.Sprintf("%s builder=%d tx=%d %q %s", p, viaBuilder, viaTx, q, showList(args))
		run := func(a fakeAnswer, nFields, panicAt int) *scanRun {
			return p.run(a, nFields, viaBuilder, viaTx, panicAt, stub(), q, args)
		}
		check := func(r *scanRun, what string) {
			t.Helper()
			if err := r.released(); err != nil {
				t.Fatalf("%s\n%s: %v", desc, what, err)
			}
			if r.tooLong {
				t.Fatalf("%s\n%s: wrote behind the fields", desc, what)
			}
			log := r.db.statements()
			if len(log) != 1 || log[0].query != q || !identicalLists(log[0].args, args) {
				t.Fatalf("%s\n%s: statements %+v", desc, what, log)
			}
		}
		fails := func(r *scanRun, what string) {
			t.Helper()
			note(true, desc+" "+what, "fault: "+strings.SplitN(what, " at ", 2)[0])
			if r.panicV != nil {
				t.Fatalf("%s\n%s: panic %v", desc, what, r.panicV)
			}
			if r.err == nil || len(r.results) > 0 {
				t.Fatalf("%s\n%s: %d elements, error %v", desc, what, len(r.results), r.err)
			}
			check(r, what)
		}
		// no fault
		r := run(p.answer(), p.nFields, 0)
		note(len(p.rows) > 0, desc, "no fault", bucket("rows", len(p.rows)), cond(p.nFields < len(p.cols), "extra columns"))
		if r.panicV != nil || r.err != nil {
			t.Fatalf("%s\nerror %v, panic %v", desc, r.err, r.panicV)
		}
		if len(r.results) != len(p.rows) {
			t.Fatalf("%s\n%d elements of %d rows", desc, len(r.results), len(p.rows))
		}
		for i, d := range r.results {
			var want []any
			for k := 0; k < p.nFields; k++ {
				want = append(want, p.cols[k].want(p.rows[i][k]))
			}
			if got := d.values(); !reflect.DeepEqual(got, want) {
				t.Fatalf("%s\nelement %d is %s, want %s", desc, i, showList(got), showList(want))
			}
		}
		check(r, "no fault")
		// the query fails
		a := p.answer()
		a.queryErr = errDriver
		fails(run(a, p.nFields, 0), "query fails")
		// reading row k fails, k = len is the end of the result
		// of long results a part of the rows
		here := func(k int) bool {
			return len(p.rows) < 30 || k > len(p.rows)-2 || k%31 == 0
		}
		for k := 0; k <= len(p.rows); k++ {
			if !here(k) {
				continue
			}
			a := p.answer()
			a.nextErr, a.nextAt = errDriver, k
			fails(run(a, p.nFields, 0), fmt.Sprintf("reading fails at row %d of %d", k, len(p.rows)))
		}
		// converting column c of row k fails
		for k := range p.rows {
			if !here(k) {
				continue
			}
			for c := 0; c < p.nFields; c++ {
				bad := p.cols[c].bad
				if bad == nil && p.cols[c].name == "any" {
					continue
				}
				a := p.answer()
				a.rows[k][c] = bad
				fails(run(a, p.nFields, 0), fmt.Sprintf("conversion fails at row %d of %d column %d", k, len(p.rows), c))
			}
		}
		// a bad value in a column that is not scanned is none
		if p.nFields < len(p.cols) && len(p.rows) > 0 {
			a := p.answer()
			a.rows[len(p.rows)-1][len(p.cols)-1] = rapid.SampledFrom([]driver.Value{nil, "x", int64(1 << 40), []byte("b"), 1.5, true, time.Unix(0, 0)}).Draw(t, "odd")
			r := run(a, p.nFields, 0)
			if r.err != nil || len(r.results) != len(p.rows) {
				t.Fatalf("%s\nodd value in a dropped column: %d elements, error %v", desc, len(r.results), r.err)
			}
			check(r, "odd value")
		}
		// fewer columns than fields
		if len(p.rows) > 0 {
			fails(run(p.answer(), len(p.cols)+rapid.IntRange(1, 3).Draw(t, "more"), 0), "fewer columns than fields")
		}
		// the function for the destination panics
		if len(p.rows) > 0 {
			at := rapid.IntRange(1, len(p.rows)).Draw(t, "panicAt")
			r := run(p.answer(), p.nFields, at)
			note(true, desc+" panic", "fault: fn panics")
			check(r, "fn panics")
		}
		// building fails
		s := stub()
		s.err = errSentinel
		r = p.run(p.answer(), p.nFields, 1, viaTx, 0, s, q, args)
		note(true, desc+" build fails", "fault: build fails")
		if r.err == nil || len(r.results) > 0 || len(r.db.statements()) > 0 {
			t.Fatalf("%s\nbuild fails: %d elements, error %v, statements %v", desc, len(r.results), r.err, r.db.statements())
		}
	})
}

// Scanning real builders, and rows one by one.
func TestC19_Builders(t *testing.T) {
	check(t, 0.3, func(t *rapid.T) {
		p := genScanPlan(t)
		style := rapid.SampledFrom(bothStyles).Draw(t, "style")
		v := genArg().Draw(t, "v")
		bad := rapid.Bool().Draw(t, "bad")
		raw := "SELECT x WHERE y = $1"
		if bad {
			raw = rapid.SampledFrom([]string{"SELECT $2", "SELECT x", "SELECT $1 #nope1", "SELECT $1 #f1"}).Draw(t, "raw")
		}
		note(true, fmt.Sprintf("%s %q %s", p, raw, show(v)), cond(bad, "failing builder"), "real builder")
		fdb := &fakeDB{answer: p.answer()}
		sdb := fdb.open()
		defer sdb.Close()
		res, err := util.ScanBuilder[*destRow](sdb, sqlf.Fa(raw, v), style, func() (*destRow, []any) {
			d := &destRow{}
			for i := 0; i < p.nFields; i++ {
				d.fields = append(d.fields, p.cols[i].field())
			}
			return d, d.fields
		})
		if bad {
			if err == nil || len(res) > 0 || len(fdb.statements()) > 0 {
				t.Fatalf("%q: %d elements, error %v, statements %v", raw, len(res), err, fdb.statements())
			}
			return
		}
		wantQ := "SELECT x WHERE y = $1"
		if style == syntax.Question {
			wantQ = "SELECT x WHERE y = ?"
		}
		log := fdb.statements()
		if err != nil || len(res) != len(p.rows) || len(log) != 1 || log[0].query != wantQ || !identicalLists(log[0].args, []any{v}) {
			t.Fatalf("%s: %d elements, error %v, statements %v", p, len(res), err, log)
		}
		// row by row
		rows, err := sdb.Query("rows")
		if err != nil {
			t.Fatal(err)
		}
		defer rows.Close()
		for i := 0; rows.Next(); i++ {
			n := rapid.IntRange(0, len(p.cols)+1).Draw(t, "n")
			d := &destRow{}
			for k := 0; k < n; k++ {
				d.fields = append(d.fields, p.cols[k%len(p.cols)].field())
			}
			err := util.ScanRow(rows, d.fields...)
			if n > len(p.cols) {
				if err == nil {
					t.Fatalf("%s: row %d scanned to %d fields", p, i, n)
				}
				continue
			}
			var want []any
			for k := 0; k < n; k++ {
				want = append(want, p.cols[k].want(p.rows[i][k]))
			}
			if got := d.values(); err != nil || !reflect.DeepEqual(got, want) {
				t.Fatalf("%s: row %d with %d fields: %s (%v), want %s", p, i, n, showList(got), err, showList(want))
			}
		}
	})
}

// Results of any length are scanned to their end.
func TestC19_Long(t *testing.T) {
	check(t, 0.01, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(100, 1100), rapid.IntRange(1000, 1100), rapid.IntRange(4000, 9000)).Draw(t, "rows")
		failAt := rapid.SampledFrom([]int{-1, -1, n, n - 1, n / 2, 1000}).Draw(t, "fails at")
		a := fakeAnswer{cols: []string{"n", "name"}}
		for i := 0; i < n; i++ {
			a.rows = append(a.rows, []driver.Value{int64(i), "row " + itoa(i)})
		}
		if failAt >= 0 {
			a.nextErr, a.nextAt = errDriver, failAt
		}
		fdb := &fakeDB{answer: a}
		sdb := fdb.open()
		defer sdb.Close()
		type row struct {
			n    int
			name string
		}
		key := fmt.Sprintf("%d rows, fails at %d", n, failAt)
		note(true, key, "long result", cond(failAt >= 0, "long result that fails"))
		got, err := util.Scan(sdb, "SELECT", nil, func() (*row, []any) {
			r := &row{}
			return r, []any{&r.n, &r.name}
		})
		if failAt >= 0 && failAt <= n {
			if err == nil || len(got) > 0 {
				t.Fatalf("%s: %d elements, error %v", key, len(got), err)
			}
		} else {
			if err != nil || len(got) != n {
				t.Fatalf("%s: %d elements, error %v", key, len(got), err)
			}
			for i, r := range got {
				if r.n != i || r.name != "row "+itoa(i) {
					t.Fatalf("%s: element %d is %v", key, i, *r)
				}
			}
		}
		if fdb.opened != fdb.closed || sdb.Stats().InUse != 0 {
			t.Fatalf("%s: %d rows opened, %d closed, %d connections in use", key, fdb.opened, fdb.closed, sdb.Stats().InUse)
		}
	})
}
