package world

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

// Store is one simulated MySQL server. Its tables live in an in-memory SQLite database that
// outlives the nodes using it; committed statements are durable.
type Store struct {
	Addr string
	w    *World
	conn driver.Conn
	tx   *dbConn // the connection holding the open transaction
	wait []*rt.G

	Skew  time.Duration // server clock minus simulated wall clock
	Down  bool
	Quiet bool

	PErr, PLost, PLostReq, PRows, PSlow, PConn, PBad float64
	PTorn                                            float64 // a record comes back cut short

	// Script, when set, may name a fault for a statement: "", "err", "lost", "lostreq", "rows".
	Script func(query string) string
	// Log receives every statement that was applied.
	Log func(query string, args []driver.NamedValue, err error)
}

func (w *World) Store(addr string) *Store {
	s := w.Stores[addr]
	if s == nil {
		s = &Store{Addr: addr, w: w}
		d := &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
			now := func() string { return rt.WallNow().Add(s.Skew).UTC().Format("2006-01-02 15:04:05") }
			if err := c.RegisterFunc("simnow", now, false); err != nil {
				return err
			}
			if err := c.RegisterFunc("now", now, false); err != nil {
				return err
			}
			return c.RegisterFunc("field", func(a string, l ...string) int64 {
				for i, x := range l {
					if x == a {
						return int64(i + 1)
					}
				}
				return 0
			}, true)
		}}
		c, err := d.Open(":memory:")
		if err != nil {
			panic(err)
		}
		s.conn = c
		w.Stores[addr] = s
	}
	return s
}

// CloseAll releases the stores.
func (w *World) CloseAll() {
	for _, s := range w.Stores {
		s.conn.Close()
	}
}

var (
	reDefTS  = regexp.MustCompile(`(?i)DEFAULT\s+CURRENT_TIMESTAMP(\(\d*\))?(\s+ON\s+UPDATE\s+CURRENT_TIMESTAMP(\(\d*\))?)?`)
	reTS     = regexp.MustCompile(`(?i)CURRENT_TIMESTAMP(\(\d*\))?`)
	reIgnore = regexp.MustCompile(`(?i)\bINSERT\s+IGNORE\b`)
	reUpd    = regexp.MustCompile(`(?i)\bFOR\s+(UPDATE|SHARE)\b`)
	reDup    = regexp.MustCompile(`(?i)\bON\s+DUPLICATE\s+KEY\s+UPDATE\b`)
	reVals   = regexp.MustCompile(`(?i)\bVALUES\(\s*(\w+)\s*\)`)
	reAuto   = regexp.MustCompile(`(?i)\bBIGINT\s+(NOT\s+NULL\s+)?AUTO_INCREMENT\s+PRIMARY\s+KEY`)
	reEngine = regexp.MustCompile(`(?i)\)\s*ENGINE\s*=\s*\w+[^;]*`)
	reTable  = regexp.MustCompile(`(?i)^\s*CREATE\s+TABLE\b`)
	reCol    = regexp.MustCompile("(?i)(`?\\b\\w+`?)\\s+(VARCHAR\\s*\\(\\s*(\\d+)\\s*\\)|TINYTEXT|MEDIUMTEXT|LONGTEXT|TEXT|TINYBLOB|MEDIUMBLOB|LONGBLOB|BLOB)")
	reCreate = regexp.MustCompile(`(?i)^\s*CREATE\s+(DATABASE|SCHEMA)\b`)
)

// limits makes the engine refuse what does not fit a column, as a server in strict mode does.
func limits(m string) string {
	l := reCol.FindStringSubmatch(m)
	name, typ := l[1], strings.ToUpper(l[2])
	if l[3] != "" {
		return fmt.Sprintf("%s CHECK(length(%s)<=%s)", m, name, l[3])
	}
	max := 65535
	switch {
	case strings.HasPrefix(typ, "TINY"):
		max = 255
	case strings.HasPrefix(typ, "MEDIUM"):
		max = 1<<24 - 1
	case strings.HasPrefix(typ, "LONG"):
		return m
	}
	return fmt.Sprintf("%s CHECK(length(CAST(%s AS BLOB))<=%d)", m, name, max)
}

func translate(q string) string {
	if reTable.MatchString(q) {
		q = reCol.ReplaceAllStringFunc(q, limits)
	}
	q = reDefTS.ReplaceAllString(q, "DEFAULT (simnow())")
	q = reTS.ReplaceAllString(q, "simnow()")
	q = reIgnore.ReplaceAllString(q, "INSERT OR IGNORE")
	q = reUpd.ReplaceAllString(q, "")
	if i := reDup.FindStringIndex(q); i != nil {
		q = q[:i[0]] + "ON CONFLICT DO UPDATE SET" + reVals.ReplaceAllString(q[i[1]:], "excluded.$1")
	}
	q = reAuto.ReplaceAllString(q, "INTEGER PRIMARY KEY AUTOINCREMENT")
	q = reEngine.ReplaceAllString(q, ")")
	return q
}

// MySQLError looks like the error of the MySQL driver.
type MySQLError struct {
	Number  uint16
	Message string
}

func (e *MySQLError) Error() string { return fmt.Sprintf("Error %d: %s", e.Number, e.Message) }

var errInvalidConn = errors.New("invalid connection")

func mysqlErr(err error) error {
	if err == nil {
		return nil
	}
	var se sqlite3.Error
	if errors.As(err, &se) {
		switch se.ExtendedCode {
		case sqlite3.ErrConstraintPrimaryKey, sqlite3.ErrConstraintUnique:
			return &MySQLError{1062, "Duplicate entry for key: " + se.Error()}
		case sqlite3.ErrConstraintCheck:
			return &MySQLError{1406, "Data too long for column: " + se.Error()}
		}
		if strings.Contains(se.Error(), "no such table") {
			return &MySQLError{1146, se.Error()}
		}
		return &MySQLError{1064, se.Error()}
	}
	return &MySQLError{1064, err.Error()}
}

// Exec runs a statement directly on the server, for oracles and set-up.
func (s *Store) Exec(q string, args ...driver.Value) error {
	nv := make([]driver.NamedValue, len(args))
	for i, a := range args {
		nv[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	_, err := s.conn.(driver.ExecerContext).ExecContext(context.Background(), translate(q), nv)
	return err
}

// Rows reads a query directly from the server, for oracles.
func (s *Store) Rows(q string, args ...driver.Value) ([][]driver.Value, error) {
	nv := make([]driver.NamedValue, len(args))
	for i, a := range args {
		nv[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	_, rows, err := s.query(q, nv)
	return rows, err
}

func (s *Store) query(q string, args []driver.NamedValue) ([]string, [][]driver.Value, error) {
	r, err := s.conn.(driver.QueryerContext).QueryContext(context.Background(), translate(q), args)
	if err != nil {
		return nil, nil, mysqlErr(err)
	}
	defer r.Close()
	cols := r.Columns()
	var out [][]driver.Value
	for {
		row := make([]driver.Value, len(cols))
		if err := r.Next(row); err == io.EOF {
			return cols, out, nil
		} else if err != nil {
			return nil, nil, mysqlErr(err)
		}
		for i, v := range row {
			if b, ok := v.([]byte); ok {
				row[i] = append([]byte(nil), b...)
			}
		}
		out = append(out, row)
	}
}

// Driver is registered as "mysql" in the transformed database/sql.
type Driver struct{}

func (Driver) Open(dsn string) (driver.Conn, error) {
	i, j := strings.Index(dsn, "tcp("), strings.LastIndex(dsn, ")/")
	if i < 0 || j < i {
		return nil, errors.New("invalid DSN: missing the slash separating the database name")
	}
	s := W.Store(dsn[i+4 : j])
	c := &dbConn{s: s, schema: dsn[j+2:], g: rt.Cur().Node, gen: rt.Cur().Node.Gen}
	rt.P()
	rt.Sleep(time.Millisecond)
	if s.Down {
		W.Count("db.refused")
		return nil, fmt.Errorf("dial tcp %s: connect: connection refused", s.Addr)
	}
	if !s.Quiet && W.S.Chance("db:"+s.Addr, s.PConn) {
		W.Count("db.connfail")
		return nil, &MySQLError{1040, "Too many connections"}
	}
	return c, nil
}

type dbConn struct {
	s      *Store
	schema string
	g      *rt.Node
	gen    int
	bad    bool
	inTx   bool
	used   bool
}

func (c *dbConn) dead() bool { return c.g.Dead || c.g.Gen != c.gen }

// enter waits for the server to be reachable and for another connection's transaction to end.
func (c *dbConn) enter() {
	s := c.s
	for s.tx != nil && s.tx != c {
		if s.tx.dead() {
			s.tx.end(false)
			break
		}
		s.wait = append(s.wait, rt.Cur())
		rt.Park("db lock")
	}
}

func (c *dbConn) end(commit bool) {
	s := c.s
	if s.tx != c {
		return
	}
	s.tx, c.inTx = nil, false
	if commit {
		s.Exec("COMMIT")
	} else {
		s.Exec("ROLLBACK")
	}
	l := s.wait
	s.wait = nil
	for _, g := range l {
		rt.S.Ready(g)
	}
}

// NodeDied rolls back what a dead node left open.
func (w *World) NodeDied() {
	for _, s := range w.Stores {
		if s.tx != nil && s.tx.dead() {
			s.tx.end(false)
		}
	}
}

// fault draws the fault of one statement.
func (c *dbConn) fault(q string) string {
	s := c.s
	if s.Script != nil {
		if f := s.Script(q); f != "" {
			W.Count("db." + f)
			return f
		}
	}
	if s.Quiet {
		return ""
	}
	d := func(p float64) bool { return p > 0 && W.S.Chance("db:"+s.Addr, p) }
	f := ""
	switch {
	case !c.inTx && c.used && d(s.PBad):
		f = "bad"
	case d(s.PErr):
		f = "err"
	case d(s.PLost):
		f = "lost"
	case d(s.PLostReq):
		f = "lostreq"
	case d(s.PRows):
		f = "rows"
	case d(s.PTorn):
		f = "torn"
	}
	if f != "" {
		W.Count("db." + f)
	}
	return f
}

func (c *dbConn) run(q string, args []driver.NamedValue, isQuery bool) (cols []string, rows [][]driver.Value, res driver.Result, rerr error, err error) {
	s := c.s
	rt.P()
	if c.bad {
		err = driver.ErrBadConn
		return
	}
	if !s.Quiet && s.PSlow > 0 {
		if k := W.S.Decide("db:"+s.Addr, 16, s.PSlow); k > 0 {
			W.Count("db.slow")
			rt.Sleep(time.Duration(k) * 250 * time.Millisecond)
		}
	}
	rt.Sleep(500 * time.Microsecond)
	f := c.fault(q)
	c.enter()
	if s.Down || f == "bad" {
		c.bad = true
		if c.inTx {
			c.end(false)
		}
		if f == "bad" || c.used {
			err = driver.ErrBadConn // a dead idle connection is noticed before anything is sent
		} else {
			err = errInvalidConn
		}
		return
	}
	c.used = true
	if f == "err" {
		err = &MySQLError{1205, "Lock wait timeout exceeded; try restarting transaction"}
		return
	}
	if f == "lostreq" {
		c.bad = true
		c.end(false)
		err = errInvalidConn
		return
	}
	if c.schema == "" || reCreate.MatchString(q) {
		if reCreate.MatchString(q) {
			res = driver.RowsAffected(1)
			return
		}
		err = &MySQLError{1046, "No database selected"}
		return
	}
	if isQuery {
		cols, rows, err = s.query(q, args)
		if err == nil && f == "rows" {
			if len(rows) > 0 {
				rows = rows[:W.S.Decide("dbrow:"+s.Addr, len(rows), 1)]
			}
			rerr = errInvalidConn
			c.bad = true
		}
		if err == nil && f == "torn" && len(rows) > 0 {
			row := rows[W.S.Decide("dbrow:"+s.Addr, len(rows), 1)]
			for i, v := range row {
				if b, ok := v.([]byte); ok && len(b) > 1 && b[0] == '{' {
					row[i] = b[:1+W.S.Decide("dbcut:"+s.Addr, len(b)-1, 1)]
				}
			}
		}
	} else {
		res, err = s.conn.(driver.ExecerContext).ExecContext(context.Background(), translate(q), args)
		if err == nil {
			n, _ := res.RowsAffected()
			id, _ := res.LastInsertId()
			res = result{id, n}
		}
		err = mysqlErr(err)
	}
	if s.Log != nil {
		s.Log(q, args, err)
	}
	if f == "lost" && err == nil {
		c.bad = true
		if c.inTx {
			c.end(false)
		}
		err = errInvalidConn
		return
	}
	rt.Sleep(500 * time.Microsecond)
	return
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func (c *dbConn) Prepare(q string) (driver.Stmt, error) {
	if c.bad {
		return nil, driver.ErrBadConn
	}
	return &dbStmt{c, q}, nil
}
func (c *dbConn) Close() error { c.end(false); return nil }
func (c *dbConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *dbConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	rt.P()
	if c.bad || c.s.Down {
		c.bad = true
		return nil, driver.ErrBadConn
	}
	c.enter()
	if err := c.s.Exec("BEGIN"); err != nil {
		return nil, mysqlErr(err)
	}
	c.s.tx, c.inTx = c, true
	return &dbTx{c}, nil
}
func (c *dbConn) Ping(ctx context.Context) error {
	rt.Sleep(time.Millisecond)
	if c.bad || c.s.Down {
		return driver.ErrBadConn
	}
	return nil
}
func (c *dbConn) ResetSession(ctx context.Context) error {
	if c.bad {
		return driver.ErrBadConn
	}
	return nil
}
func (c *dbConn) IsValid() bool { return !c.bad }
func (c *dbConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, _, res, _, err := c.run(q, args, false)
	return res, err
}
func (c *dbConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	cols, rows, _, rerr, err := c.run(q, args, true)
	if err != nil {
		return nil, err
	}
	return &dbRows{cols, rows, 0, rerr}, nil
}

type dbTx struct{ c *dbConn }

func (t *dbTx) Commit() error {
	rt.Sleep(500 * time.Microsecond)
	f := t.c.fault("COMMIT")
	if t.c.s.tx != t.c {
		return errInvalidConn
	}
	if f == "err" || f == "lostreq" || t.c.s.Down {
		t.c.end(false)
		t.c.bad = true
		return errInvalidConn
	}
	t.c.end(true)
	if f == "lost" {
		t.c.bad = true
		return errInvalidConn
	}
	return nil
}
func (t *dbTx) Rollback() error { t.c.end(false); return nil }

type dbStmt struct {
	c *dbConn
	q string
}

func (s *dbStmt) Close() error  { return nil }
func (s *dbStmt) NumInput() int { return -1 }
func named(a []driver.Value) []driver.NamedValue {
	r := make([]driver.NamedValue, len(a))
	for i, v := range a {
		r[i] = driver.NamedValue{Ordinal: i + 1, Value: v}
	}
	return r
}
func (s *dbStmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *dbStmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func (s *dbStmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *dbStmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

type dbRows struct {
	cols []string
	rows [][]driver.Value
	i    int
	err  error
}

func (r *dbRows) Columns() []string { return r.cols }
func (r *dbRows) Close() error      { return nil }
func (r *dbRows) Next(dst []driver.Value) error {
	if r.i >= len(r.rows) {
		if r.err != nil {
			return r.err
		}
		return io.EOF
	}
	copy(dst, r.rows[r.i])
	r.i++
	return nil
}
