// Package run drives gobinlog.Streamer against the fake master and compares
// what the handler received with the reference model.
package run

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Breeze0806/gobinlog"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/wire"
)

// Limit is the bound of every "within bounded time" oracle.
const Limit = 20 * time.Second

// T is what checks report to.
type T interface {
	Fatalf(format string, args ...any)
	Helper()
}

// ---- table mapper ----

// Column implements gobinlog.MysqlColumn.
type Column struct {
	Name     string
	Unsigned bool
}

// Field is the column name.
func (c Column) Field() string { return c.Name }

// IsUnSignedInt tells the signedness.
func (c Column) IsUnSignedInt() bool { return c.Unsigned }

// Table implements gobinlog.MysqlTable.
type Table struct {
	N    gobinlog.MysqlTableName
	Cols []gobinlog.MysqlColumn
}

// Name is the table name.
func (t *Table) Name() gobinlog.MysqlTableName { return t.N }

// Columns lists the columns.
func (t *Table) Columns() []gobinlog.MysqlColumn { return t.Cols }

// Mapper implements gobinlog.MysqlTableMapper.
type Mapper struct {
	mu     sync.Mutex
	tables map[gobinlog.MysqlTableName]*Table
	calls  []gobinlog.MysqlTableName
	// FailAt makes the call with this number (from 1, counted by Arm) fail with
	// Fail, or return a table with the wrong number of columns when Wrong != 0.
	failAt int
	fail   error
	wrong  int
	armed  int
	with   bool
	leave  func() // how the failing call ends instead
	slowAt int
	slow   time.Duration
}

// Slow makes the n-th call (from 1) take d.
func (m *Mapper) Slow(n int, d time.Duration) {
	m.mu.Lock()
	m.slowAt, m.slow = n, d
	m.mu.Unlock()
}

// NewMapper knows the tables of a history.
func NewMapper(tbs []*hist.Table) *Mapper {
	m := &Mapper{tables: map[gobinlog.MysqlTableName]*Table{}}
	for _, tb := range tbs {
		m.Add(tb)
	}
	return m
}

// Add makes a table known.
func (m *Mapper) Add(tb *hist.Table) {
	n := gobinlog.MysqlTableName{DbName: tb.DB, TableName: tb.Name}
	t := &Table{N: n}
	for _, c := range tb.Cols {
		t.Cols = append(t.Cols, Column{c.Name, c.Kind.Unsigned})
	}
	m.mu.Lock()
	m.tables[n] = t
	m.mu.Unlock()
}

// Arm plans a failure of the n-th call from now; wrong is added to the number
// of columns when it is not zero.
func (m *Mapper) Arm(n int, err error, wrong int) {
	m.mu.Lock()
	m.failAt, m.fail, m.wrong, m.armed, m.with, m.leave = n, err, wrong, 0, false, nil
	m.mu.Unlock()
}

// WithTable makes the failing call return the table along with its error.
func (m *Mapper) WithTable(v bool) {
	m.mu.Lock()
	m.with = v
	m.mu.Unlock()
}

// Leave makes the failing call end by f, which does not return.
func (m *Mapper) Leave(f func()) {
	m.mu.Lock()
	m.leave = f
	m.mu.Unlock()
}

// Calls lists the looked-up names.
func (m *Mapper) Calls() []gobinlog.MysqlTableName {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]gobinlog.MysqlTableName(nil), m.calls...)
}

// MysqlTable implements the lookup.
func (m *Mapper) MysqlTable(name gobinlog.MysqlTableName) (gobinlog.MysqlTable, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.calls = append(m.calls, name)
	if m.slowAt > 0 && len(m.calls) == m.slowAt {
		time.Sleep(m.slow)
	}
	m.armed++
	t := m.tables[name]
	if m.failAt > 0 && m.armed == m.failAt {
		m.failAt = -1
		if m.leave != nil {
			m.leave()
		}
		if m.wrong == 0 {
			if m.with && t != nil {
				return t, m.fail
			}
			return nil, m.fail
		}
		if t != nil {
			w := &Table{N: t.N, Cols: append([]gobinlog.MysqlColumn(nil), t.Cols...)}
			for k := m.wrong; k > 0; k-- {
				w.Cols = append(w.Cols, Column{fmt.Sprintf("extra%d", k), false})
			}
			for k := m.wrong; k < 0 && len(w.Cols) > 0; k++ {
				w.Cols = w.Cols[:len(w.Cols)-1]
			}
			return w, nil
		}
	}
	if t == nil {
		return nil, fmt.Errorf("table %q.%q does not exist", name.DbName, name.TableName)
	}
	return t, nil
}

// Fired tells whether a planned failure happened.
func (m *Mapper) Fired() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.failAt == -1
}

// ---- snapshots ----

// Snap is a deep copy of a transaction.
func Snap(t *gobinlog.Transaction) *gobinlog.Transaction {
	c := *t
	c.NowPosition.Filename = strings.Clone(t.NowPosition.Filename)
	c.NextPosition.Filename = strings.Clone(t.NextPosition.Filename)
	c.Events = nil
	for _, e := range t.Events {
		if e == nil {
			c.Events = append(c.Events, nil)
			continue
		}
		x := *e
		x.Table.DbName, x.Table.TableName = strings.Clone(e.Table.DbName), strings.Clone(e.Table.TableName)
		x.Query.SQL, x.Query.Database = strings.Clone(e.Query.SQL), strings.Clone(e.Query.Database)
		if e.Query.Charset != nil {
			cs := *e.Query.Charset
			x.Query.Charset = &cs
		}
		x.RowValues, x.RowIdentifies = snapRows(e.RowValues), snapRows(e.RowIdentifies)
		c.Events = append(c.Events, &x)
	}
	return &c
}

func snapRows(rs []*gobinlog.RowData) []*gobinlog.RowData {
	var out []*gobinlog.RowData
	for _, r := range rs {
		if r == nil {
			out = append(out, nil)
			continue
		}
		n := &gobinlog.RowData{}
		for _, c := range r.Columns {
			x := *c
			x.Filed = strings.Clone(c.Filed)
			if c.Data != nil {
				x.Data = append(make([]byte, 0, len(c.Data)), c.Data...)
			}
			n.Columns = append(n.Columns, &x)
		}
		out = append(out, n)
	}
	return out
}

// Same compares two transactions in full.
func Same(a, b *gobinlog.Transaction) error {
	if a.NowPosition != b.NowPosition || a.NextPosition != b.NextPosition || a.Timestamp != b.Timestamp {
		return fmt.Errorf("%v..%v at %d against %v..%v at %d", a.NowPosition, a.NextPosition, a.Timestamp, b.NowPosition, b.NextPosition, b.Timestamp)
	}
	if len(a.Events) != len(b.Events) {
		return fmt.Errorf("%d events against %d", len(a.Events), len(b.Events))
	}
	for i, x := range a.Events {
		y := b.Events[i]
		if x.Type != y.Type || x.Table != y.Table || x.Timestamp != y.Timestamp || x.Query.SQL != y.Query.SQL || x.Query.Database != y.Query.Database || (x.Query.Charset == nil) != (y.Query.Charset == nil) || (x.Query.Charset != nil && *x.Query.Charset != *y.Query.Charset) {
			return fmt.Errorf("event %d: %v %v %q at %d against %v %v %q at %d", i, x.Type, x.Table, x.Query, x.Timestamp, y.Type, y.Table, y.Query, y.Timestamp)
		}
		for _, p := range []struct {
			n    string
			a, b []*gobinlog.RowData
		}{{"RowValues", x.RowValues, y.RowValues}, {"RowIdentifies", x.RowIdentifies, y.RowIdentifies}} {
			if len(p.a) != len(p.b) {
				return fmt.Errorf("event %d: %s has %d rows against %d", i, p.n, len(p.a), len(p.b))
			}
			for j := range p.a {
				if len(p.a[j].Columns) != len(p.b[j].Columns) {
					return fmt.Errorf("event %d: %s row %d has %d columns against %d", i, p.n, j, len(p.a[j].Columns), len(p.b[j].Columns))
				}
				for k, c := range p.a[j].Columns {
					d := p.b[j].Columns[k]
					if c.Filed != d.Filed || c.Type != d.Type || c.IsEmpty != d.IsEmpty || (c.Data == nil) != (d.Data == nil) || !bytes.Equal(c.Data, d.Data) {
						return fmt.Errorf("event %d: %s row %d column %d: %q %v absent %v %s against %q %v absent %v %s", i, p.n, j, k, c.Filed, c.Type, c.IsEmpty, data(c.Data), d.Filed, d.Type, d.IsEmpty, data(d.Data))
					}
				}
			}
		}
	}
	return nil
}

func data(b []byte) string {
	if b == nil {
		return "nil"
	}
	return wire.Trunc(b)
}

// ---- comparison with the model ----

// Kinds maps the model's change kinds to the library's.
var Kinds = map[string]gobinlog.StatementType{
	"insert": gobinlog.StatementInsert, "update": gobinlog.StatementUpdate, "delete": gobinlog.StatementDelete,
	"create": gobinlog.StatementCreate, "alter": gobinlog.StatementAlter, "drop": gobinlog.StatementDrop,
	"truncate": gobinlog.StatementTruncate, "rename": gobinlog.StatementRename, "set": gobinlog.StatementSet,
}

func pos(p gobinlog.Position) hist.Pos { return hist.Pos{File: p.Filename, Off: p.Offset} }

// Match compares a delivered transaction with the expected one.
func Match(got *gobinlog.Transaction, want *hist.Txn) error {
	if pos(got.NowPosition) != want.Now || pos(got.NextPosition) != want.Next {
		return fmt.Errorf("labels %v..%v, should be %v..%v", pos(got.NowPosition), pos(got.NextPosition), want.Now, want.Next)
	}
	return MatchContent(got, want)
}

// MatchContent is Match without the labels.
func MatchContent(got *gobinlog.Transaction, want *hist.Txn) error {
	if got.Timestamp != want.Timestamp {
		return fmt.Errorf("transaction timestamp %d, should be %d", got.Timestamp, want.Timestamp)
	}
	if len(got.Events) != len(want.Events) {
		return fmt.Errorf("%d changes, should be %d (%s)", len(got.Events), len(want.Events), want.Note)
	}
	for i := range want.Events {
		if got.Events[i] == nil {
			return fmt.Errorf("change %d is nil", i)
		}
		if err := matchEvent(got.Events[i], &want.Events[i]); err != nil {
			return fmt.Errorf("change %d: %w", i, err)
		}
	}
	return nil
}

func matchEvent(g *gobinlog.StreamEvent, w *hist.ExpEvent) error {
	if g.Type != Kinds[w.Kind] {
		return fmt.Errorf("kind %v, should be %s", g.Type, w.Kind)
	}
	if g.Timestamp != w.Timestamp {
		return fmt.Errorf("timestamp %d, should be %d", g.Timestamp, w.Timestamp)
	}
	if !w.IsRows {
		if g.Query.SQL != w.SQL || g.Query.Database != w.QDB {
			return fmt.Errorf("statement %q in %q, should be %q in %q", g.Query.SQL, g.Query.Database, w.SQL, w.QDB)
		}
		if (g.Query.Charset == nil) != (w.Charset == nil) || (w.Charset != nil && (g.Query.Charset.Client != w.Charset[0] || g.Query.Charset.Conn != w.Charset[1] || g.Query.Charset.Server != w.Charset[2])) {
			return fmt.Errorf("statement %q has charset %v, should be %v", w.SQL, g.Query.Charset, w.Charset)
		}
		if len(g.RowValues) != 0 || len(g.RowIdentifies) != 0 {
			return fmt.Errorf("statement %q comes with rows", w.SQL)
		}
		return nil
	}
	if g.Table.DbName != w.DB || g.Table.TableName != w.Table {
		return fmt.Errorf("table %q.%q, should be %q.%q", g.Table.DbName, g.Table.TableName, w.DB, w.Table)
	}
	if g.Query.SQL != "" {
		return fmt.Errorf("row change comes with the statement %q", g.Query.SQL)
	}
	if err := matchRows(g.RowIdentifies, w.Before); err != nil {
		return fmt.Errorf("%s on %s, before images: %w", w.Kind, w.Table, err)
	}
	if err := matchRows(g.RowValues, w.After); err != nil {
		return fmt.Errorf("%s on %s, after images: %w", w.Kind, w.Table, err)
	}
	return nil
}

func matchRows(g []*gobinlog.RowData, w []hist.ExpRow) error {
	if len(g) != len(w) {
		return fmt.Errorf("%d rows, should be %d", len(g), len(w))
	}
	for i := range w {
		if g[i] == nil || len(g[i].Columns) != len(w[i]) {
			return fmt.Errorf("row %d has the wrong number of columns (should be %d)", i, len(w[i]))
		}
		for c, e := range w[i] {
			if err := MatchColumn(g[i].Columns[c], e); err != nil {
				return fmt.Errorf("row %d column %d (%s): %w", i, c, e.Name, err)
			}
		}
	}
	return nil
}

// MatchColumn compares one column of a row.
func MatchColumn(c *gobinlog.ColumnData, e hist.ExpCol) error {
	if c == nil {
		return errors.New("is nil")
	}
	if c.Filed != e.Name {
		return fmt.Errorf("is named %q", c.Filed)
	}
	if int(c.Type) != int(e.Type) {
		return fmt.Errorf("has type %d, should be %d", c.Type, e.Type)
	}
	switch e.State {
	case hist.Absent:
		if !c.IsEmpty || len(c.Data) != 0 {
			return fmt.Errorf("is absent from the image, delivered absent flag %v, data %s", c.IsEmpty, data(c.Data))
		}
	case hist.Null:
		if c.IsEmpty || c.Data != nil {
			return fmt.Errorf("is NULL, delivered absent flag %v, data %s", c.IsEmpty, data(c.Data))
		}
	default:
		if c.IsEmpty {
			return fmt.Errorf("has a value but is flagged absent")
		}
		if c.Data == nil {
			return fmt.Errorf("has a value (%s) but no data, like NULL", e.Val.Desc)
		}
		if err := e.Val.Match(c.Data); err != nil {
			return err
		}
	}
	return nil
}

// MatchAll compares a sequence of deliveries.
func MatchAll(got []*gobinlog.Transaction, want []*hist.Txn) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("transaction %d (%v..%v, %d changes) was delivered, the binlog has only %d", i, pos(got[i].NowPosition), pos(got[i].NextPosition), len(got[i].Events), len(want))
		}
		if err := Match(got[i], want[i]); err != nil {
			return fmt.Errorf("transaction %d (%s, expected %v..%v): %w", i, want[i].Note, want[i].Now, want[i].Next, err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d transactions were delivered, the binlog has %d; the first missing one is %v..%v (%s)", len(got), len(want), want[len(got)].Now, want[len(got)].Next, want[len(got)].Note)
	}
	return nil
}

// ---- attempts ----

// Env is a streamer with its master.
type Env struct {
	Srv *master.Server
	M   *Mapper
	S   *gobinlog.Streamer
	ID  uint32
	DSN string // goes behind the data source name: schema and parameters

	base   map[string]bool // library goroutines that were there before
	misuse atomic.Value    // how the handler was called wrongly
}

// NewEnv starts a master and makes a streamer for it.
func NewEnv(t T, tables []*hist.Table, start hist.Pos) *Env {
	t.Helper()
	srv, err := master.New()
	if err != nil {
		cov.Infra("cannot listen: %v", err)
	}
	e := &Env{Srv: srv, M: NewMapper(tables), ID: hist.OwnID}
	e.base = libGoroutines(nil)
	e.NewStreamer(t, start)
	return e
}

// NewStreamer replaces the streamer.
func (e *Env) NewStreamer(t T, start hist.Pos) {
	t.Helper()
	s, err := gobinlog.NewStreamer(e.Srv.DSN()+e.DSN, e.ID, e.M)
	if err != nil {
		t.Fatalf("NewStreamer: %v", err)
	}
	s.SetBinlogPosition(gobinlog.Position{Filename: start.File, Offset: start.Off})
	e.S = s
}

// Close ends the master.
func (e *Env) Close() { e.Srv.Close() }

// Delivery is one handler call.
type Delivery struct {
	Tx   *gobinlog.Transaction
	Snap *gobinlog.Transaction
	Err  error // what the handler returned
}

// Out is the outcome of one Stream call.
type Out struct {
	Stream  error // what Stream returned
	Error   error // what Error() returned afterwards
	Error2  error // and once more
	Calls   []*Delivery
	Panic   string // what a planned panic of a callback made of the call
	Conns   []*master.Conn
	Elapsed time.Duration
}

// Accepted lists the transactions whose handler call succeeded.
func (o *Out) Accepted() []*gobinlog.Transaction {
	var out []*gobinlog.Transaction
	for _, d := range o.Calls {
		if d.Err == nil {
			out = append(out, d.Tx)
		}
	}
	return out
}

// Snaps lists the copies taken at delivery.
func (o *Out) Snaps() []*gobinlog.Transaction {
	var out []*gobinlog.Transaction
	for _, d := range o.Calls {
		out = append(out, d.Snap)
	}
	return out
}

// Describe is for messages.
func (o *Out) Describe() string {
	if o.Panic != "" {
		return fmt.Sprintf("Stream was left by a %s, Error() %v then %v, %d handler calls, %d accepted", o.Panic, o.Error, o.Error2, len(o.Calls), len(o.Accepted()))
	}
	return fmt.Sprintf("Stream returned %v, Error() %v then %v, %d handler calls, %d accepted", o.Stream, o.Error, o.Error2, len(o.Calls), len(o.Accepted()))
}

// Attempt describes a Stream call.
type Attempt struct {
	Script  master.Script
	Ctx     context.Context
	Handler func(i int, tx *gobinlog.Transaction) error
	// OnStart runs in its own goroutine when Stream is about to be called.
	OnStart func()
	// NoError leaves Error() uncalled.
	NoError bool
	// Panics allows Stream to end by a callback's Panic or by its Goexit.
	Panics bool
	// Wait is how long the script and the callbacks take on purpose; it is added
	// to Limit.
	Wait time.Duration
}

// Panic is what callbacks panic with when it is planned.
type Panic struct{ Where string }

// ErrPanic is how a handler call ended that did not return.
var ErrPanic = errors.New("panic or Goexit")

// Stacks returns all goroutine stacks.
func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// libGoroutines lists goroutines with frames of the library or its driver.
func libGoroutines(except map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, g := range strings.Split(Stacks(), "\n\n") {
		if !strings.Contains(g, "github.com/Breeze0806/gobinlog") && !strings.Contains(g, "github.com/Breeze0806/mysql") {
			continue
		}
		id := g
		if i := strings.IndexByte(g, '['); i > 0 {
			id = g[:i]
		}
		if except == nil || !except[id] {
			out[id] = true
		}
	}
	return out
}

// Leaks waits until no goroutine of the library is left.
func (e *Env) Leaks() error {
	end := time.Now().Add(Limit)
	for d := time.Millisecond; ; d *= 2 {
		l := libGoroutines(e.base)
		if len(l) == 0 {
			return nil
		}
		if time.Now().After(end) {
			var s []string
			for _, g := range strings.Split(Stacks(), "\n\n") {
				for id := range l {
					if strings.HasPrefix(g, id+"[") {
						s = append(s, g)
					}
				}
			}
			return fmt.Errorf("%d goroutines of the library remain %v after Stream returned:\n%s", len(l), Limit, strings.Join(s, "\n\n"))
		}
		if d > 50*time.Millisecond {
			d = 50 * time.Millisecond
		}
		time.Sleep(d)
	}
}

// Closed waits until the replica closed all its connections.
func (o *Out) Closed() error {
	end := time.After(Limit)
	for i, c := range o.Conns {
		select {
		case <-c.PeerClosed():
		case <-end:
			return fmt.Errorf("connection %d is still open %v after Stream returned", i, Limit)
		}
	}
	return nil
}

// Timed runs f and reports whether it ended in time.
func Timed(f func()) (string, bool) { return timed(Limit, f) }

func timed(limit time.Duration, f func()) (string, bool) {
	done := make(chan string, 1)
	go func() {
		returned := false
		defer func() {
			r := recover()
			if p, ok := r.(Panic); ok {
				done <- "planned panic of " + p.Where
				return
			}
			if r == nil && !returned {
				done <- "Goexit"
				return
			}
			if r != nil {
				b := make([]byte, 16<<10)
				done <- fmt.Sprintf("panic: %v\n%s", r, b[:runtime.Stack(b, false)])
				return
			}
			done <- ""
		}()
		f()
		returned = true
	}()
	select {
	case p := <-done:
		return p, true
	case <-time.After(limit):
		return "", false
	}
}

// Run performs one Stream call.
func (e *Env) Run(t T, a Attempt) *Out {
	t.Helper()
	if a.Ctx == nil {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		a.Ctx = ctx
	}
	o := &Out{}
	e.Srv.SetScript(func(i int) master.Script { return a.Script })
	var running, returned atomic.Bool
	var mu sync.Mutex
	h := func(tx *gobinlog.Transaction) error {
		if returned.Load() {
			e.misuse.Store("the handler was called after Stream had returned")
		}
		if !running.CompareAndSwap(false, true) {
			e.misuse.Store("two handler calls overlap")
		}
		defer running.Store(false)
		d := &Delivery{Tx: tx, Snap: Snap(tx)}
		mu.Lock()
		o.Calls = append(o.Calls, d)
		i := len(o.Calls) - 1
		mu.Unlock()
		if a.Handler != nil {
			mu.Lock()
			d.Err = ErrPanic
			mu.Unlock()
			err := a.Handler(i, tx)
			mu.Lock()
			d.Err = err
			mu.Unlock()
		}
		return d.Err
	}
	if a.OnStart != nil {
		go a.OnStart()
	}
	start := time.Now()
	var serr error
	p, ok := timed(Limit+a.Wait, func() {
		defer returned.Store(true)
		serr = e.S.Stream(a.Ctx, h)
	})
	o.Elapsed = time.Since(start)
	if !ok {
		t.Fatalf("Stream did not return within %v\n%s", Limit+a.Wait, Stacks())
	}
	if p != "" && !(a.Panics && (p == "Goexit" || strings.HasPrefix(p, "planned panic"))) {
		t.Fatalf("Stream ended with a %s", p)
	}
	o.Panic = p
	o.Stream = serr
	if running.Load() {
		t.Fatalf("Stream returned while a handler call was running")
	}
	o.Conns = e.Srv.Conns()
	if !a.NoError {
		e.Errors(t, o)
	}
	e.Misuse(t)
	return o
}

// Misuse fails when the handler has been called wrongly.
func (e *Env) Misuse(t T) {
	t.Helper()
	if m := e.misuse.Load(); m != nil {
		t.Fatalf("%v", m)
	}
}

// Errors calls Error() twice.
func (e *Env) Errors(t T, o *Out) {
	t.Helper()
	for i, dst := range []*error{&o.Error, &o.Error2} {
		var err error
		p, ok := Timed(func() { err = e.S.Error() })
		if !ok {
			t.Fatalf("call %d of Error() did not return within %v (Stream had returned %v)\n%s", i+1, Limit, o.Stream, Stacks())
		}
		if p != "" {
			t.Fatalf("Error() ended with a %s", p)
		}
		*dst = err
	}
}

// SendAll serves a list of packets, then ends the stream with EOF.
func SendAll(ps []*hist.Packet) func(d *master.Dump, w *master.Writer) {
	return func(d *master.Dump, w *master.Writer) {
		for _, p := range ps {
			if w.Event(p.Bytes) != nil {
				return
			}
		}
		w.EOF()
		w.WaitClosedFor(Limit)
	}
}

// Serve answers the dump request it receives from the history.
func Serve(h *hist.History) func(d *master.Dump, w *master.Writer) {
	return func(d *master.Dump, w *master.Writer) {
		ps, err := h.Serve(d.File, d.Pos)
		if err != nil {
			w.Err(1236, "HY000", err.Error())
			w.WaitClosedFor(Limit)
			return
		}
		SendAll(ps)(d, w)
	}
}
