BUGS = []

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

FAKE = '''
type drv struct {
	cols   []string
	rows   [][]driver.Value
	qerr   error
	end    error
	query  string
	args   []driver.NamedValue
	closed int
	sent   int
}

func (d *drv) Connect(context.Context) (driver.Conn, error) { return &conn{d}, nil }
func (d *drv) Driver() driver.Driver                        { return nil }

type conn struct{ d *drv }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return nil, errors.New("no tx") }
func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.d.sent++
	c.d.query, c.d.args = q, args
	if c.d.qerr != nil {
		return nil, c.d.qerr
	}
	return &rws{d: c.d}, nil
}

type rws struct {
	d *drv
	i int
}

func (r *rws) Columns() []string { return r.d.cols }
func (r *rws) Close() error      { r.d.closed++; return nil }
func (r *rws) Next(dest []driver.Value) error {
	if r.i == len(r.d.rows) {
		if r.d.end != nil {
			return r.d.end
		}
		return io.EOF
	}
	copy(dest, r.d.rows[r.i])
	r.i++
	return nil
}
'''

bug("c18-uint-as-int", "C18",
    "an unsigned integer above the largest int64",
    "Unsigned integers are written as signed ones.",
    [("util/interpolate.go", 'fmt.Sprintf("%d", primative.Uint())', 'strconv.FormatInt(int64(primative.Uint()), 10)')], '''
func main() {
	s, err := util.Interpolate("?", []any{uint64(1<<64 - 1)})
	if err != nil {
		fail("%s", err)
	}
	same("literal", s, "18446744073709551615")
}
''')

bug("c18-truncated-times", "C18",
    "a time with more than half a microsecond left, in a format with fractions",
    "Times are truncated to microseconds instead of rounded.",
    [("util/interpolate.go", "v = v.Round(time.Microsecond)", "v = v.Truncate(time.Microsecond)")], '''
func main() {
	s, err := util.Interpolate("?", []any{time.Date(2020, 1, 2, 3, 4, 5, 1999, time.UTC)}, util.WithTimeFormat(time.RFC3339Nano))
	if err != nil {
		fail("%s", err)
	}
	same("literal", s, "'2020-01-02T03:04:05.000002Z'")
}
''')

bug("c18-quoted-already", "C18",
    "a string arg that begins and ends with a single quote",
    "A string with quotes around it is taken for a literal already, its inner quotes are not doubled.",
    [("util/interpolate.go", """	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
""", """	if n := len(s); n > 2 && strings.HasPrefix(s, "''") {
		s = s[1:]
	}
	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
""")], '''
func main() {
	s, err := util.Interpolate("?", []any{"''a"})
	if err != nil {
		fail("%s", err)
	}
	same("literal", s, "'"+strings.Repeat("'", 4)+"a'")
}
''')

bug("c19-partial-rows", "C19",
    "a row past the first that can not be converted",
    "The rows read before the failing one are returned with the error.",
    [("util/scan.go", """		err = ScanRow(rows, fields...)
		if err != nil {
			return nil, err
		}
""", """		err = ScanRow(rows, fields...)
		if err != nil {
			return results, err
		}
""")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}, {"x"}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err == nil || len(r) != 0 {
		fail("%v %v", r, err)
	}
}
''')

bug("c19-fields-beyond-columns", "C19",
    "a scan destination with more fields than the query has columns",
    "Fields beyond the columns are left as they are instead of being reported.",
    [("util/scan.go", "	return rows.Scan(dest...)\n", "	return rows.Scan(dest[:len(cols)]...)\n")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) { i := new(int); return i, []any{i, new(int)} })
	if err == nil {
		fail("%v", r)
	}
}
''')

bug("c19-rows-left-open", "C19",
    "a scan that fails in the middle of the rows",
    "The rows are not released if a row can not be scanned.",
    [("util/scan.go", """	defer rows.Close()

""", ""), ("util/scan.go", "		results = append(results, dest)\n	}\n", "		results = append(results, dest)\n	}\n	rows.Close()\n")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{"x"}, {int64(1)}}}
	_, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) { i := new(int); return i, []any{i} })
	if err == nil || d.closed != 1 {
		fail("%v closed %d", err, d.closed)
	}
}
''')

bug("c20-interpolation-error", "C20",
    "a failing count of a query whose placeholders do not fit its args",
    "The error of the interpolation for the message replaces the one of the database.",
    [("util/scan.go", """		query, _ := Interpolate(query, args)
""", """		query, e := Interpolate(query, args)
		if e != nil {
			return 0, e
		}
""")], FAKE + '''
func main() {
	boom := errors.New("boom")
	_, err := util.Count(sql.OpenDB(&drv{qerr: boom}), "SELECT $2", []any{1})
	if !errors.Is(err, boom) {
		fail("%v", err)
	}
}
''')

bug("c20-percent", "C20",
    "a query with a percent sign",
    "The query is used as a format, which mangles percent signs.",
    [("util/scan.go", "	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)\n", "	query = fmt.Sprintf(\"SELECT COUNT(1) FROM (\" + query + \") list\")\n")], FAKE + '''
func main() {
	d := &drv{cols: []string{"a"}, rows: [][]driver.Value{{int64(1)}}}
	_, err := util.Count(sql.OpenDB(d), "SELECT a LIKE 'x%d'", nil)
	if err != nil {
		fail("%s", err)
	}
	same("query", d.query, "SELECT COUNT(1) FROM (SELECT a LIKE 'x%d') list")
}
''')

bug("c21-pointer-to-pointer", "C21",
    "a pointer to a pointer to a slice, which is a plain value",
    "Pointers are followed through any number of levels.",
    [("util/args.go", "	if rv.Kind() == reflect.Pointer {\n", "	for rv.Kind() == reflect.Pointer {\n")], '''
func main() {
	p := &[]int8{1, 2}
	same("flattened", util.ArgsFlatted(&p), []any{&p})
}
''')

bug("c21-shared-result", "C21",
    "a single []any with spare capacity whose flattened list is appended to",
    "A single list is returned as it is, so appending to the result writes to the array of the input.",
    [("util/args.go", """	args := make([]any, 0, 10)
""", """	if len(valueOrSlices) == 1 {
		return argsFrom(valueOrSlices[0])
	}
	args := make([]any, 0, 10)
"""), ("util/args.go", "	for _, v := range valueOrSlices {\n		args = append(args, argsFrom(v)...)\n	}\n", "	for i := range valueOrSlices {\n		args = append(args, argsFrom(valueOrSlices[i])...)\n	}\n")], '''
func main() {
	list := []any{1, 2, 3}
	_ = append(util.ArgsFlatted(list[:2]), 9)
	same("input", list, []any{1, 2, 3})
}
''')

bug("c21-bytes-as-value", "C21",
    "a list of bytes",
    "A []byte is kept as one value.",
    [("util/args.go", "	default:\n		return convertArrayReflect(v)\n", "	case []byte:\n		return []any{a}\n	default:\n		return convertArrayReflect(a)\n")], '''
func main() {
	same("flattened", util.ArgsFlatted([]byte{1, 2}), []any{byte(1), byte(2)})
}
''')
