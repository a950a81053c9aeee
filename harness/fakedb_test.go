package verifharness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"sync"
)

// A database whose answers and failures are given by the test.

type fakeAnswer struct {
	cols     []string
	rows     [][]driver.Value
	queryErr error // of running the query
	nextErr  error // of reading row number nextAt, counted from 0
	nextAt   int
	closeErr error
}

type fakeStatement struct {
	query string
	args  []any
}

type fakeDB struct {
	mu      sync.Mutex
	answer  fakeAnswer
	log     []fakeStatement
	opened  int
	closed  int
	readOff bool // rows read after they were closed
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) { return &fakeConn{d}, nil }
func (d *fakeDB) Driver() driver.Driver                        { return fakeDriver{} }

type fakeDriver struct{}

func (fakeDriver) Open(string) (driver.Conn, error) { return nil, errors.New("not used") }

func (d *fakeDB) statements() []fakeStatement {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]fakeStatement(nil), d.log...)
}

func (d *fakeDB) open() *sql.DB { return sql.OpenDB(d) }

type fakeConn struct{ d *fakeDB }

func (c *fakeConn) Prepare(q string) (driver.Stmt, error)       { return &fakeStmt{c.d, q}, nil }
func (c *fakeConn) Close() error                                { return nil }
func (c *fakeConn) Begin() (driver.Tx, error)                   { return fakeTx{}, nil }
func (c *fakeConn) CheckNamedValue(nv *driver.NamedValue) error { return nil }

func (c *fakeConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	return c.d.query(q, args)
}

func (d *fakeDB) query(q string, args []driver.NamedValue) (driver.Rows, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	st := fakeStatement{query: q}
	for _, a := range args {
		st.args = append(st.args, a.Value)
	}
	d.log = append(d.log, st)
	if d.answer.queryErr != nil {
		return nil, d.answer.queryErr
	}
	d.opened++
	return &fakeRows{d: d}, nil
}

type fakeTx struct{}

func (fakeTx) Commit() error   { return nil }
func (fakeTx) Rollback() error { return nil }

type fakeStmt struct {
	d *fakeDB
	q string
}

func (s *fakeStmt) Close() error                                    { return nil }
func (s *fakeStmt) NumInput() int                                   { return -1 }
func (s *fakeStmt) Exec(args []driver.Value) (driver.Result, error) { return driver.ResultNoRows, nil }
func (s *fakeStmt) CheckNamedValue(nv *driver.NamedValue) error     { return nil }
func (s *fakeStmt) Query(args []driver.Value) (driver.Rows, error) {
	var nv []driver.NamedValue
	for i, a := range args {
		nv = append(nv, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return s.d.query(s.q, nv)
}

type fakeRows struct {
	d      *fakeDB
	at     int
	closed bool
}

func (r *fakeRows) Columns() []string { return r.d.answer.cols }

func (r *fakeRows) Close() error {
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	if !r.closed {
		r.closed = true
		r.d.closed++
	}
	return r.d.answer.closeErr
}

func (r *fakeRows) Next(dest []driver.Value) error {
	a := &r.d.answer
	if r.closed {
		r.d.readOff = true
	}
	if a.nextErr != nil && r.at == a.nextAt {
		return a.nextErr
	}
	if r.at >= len(a.rows) {
		return io.EOF
	}
	copy(dest, a.rows[r.at])
	r.at++
	return nil
}
