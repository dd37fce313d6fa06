// Package hist generates binlog histories (files of events as a master writes
// them) together with the reference model: the transactions a consumer must
// receive, and their labels.
package hist

import (
	"encoding/binary"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verifharness/vals"
	"verifharness/wire"
)

// Pos is a binlog coordinate.
type Pos struct {
	File string
	Off  int64
}

func (p Pos) String() string { return fmt.Sprintf("%s:%d", p.File, p.Off) }

// Column is a table column.
type Column struct {
	Name string
	Kind vals.Kind
}

// Table is a table as the master has it.
type Table struct {
	DB, Name string
	Cols     []Column
}

// State of a column in a row image.
type State int

// States.
const (
	Present State = iota
	Null
	Absent
)

func (s State) String() string { return [...]string{"value", "NULL", "absent"}[s] }

// ExpCol is an expected column of a row.
type ExpCol struct {
	Name  string
	Type  byte
	State State
	Val   vals.Val
}

// ExpRow is an expected row image.
type ExpRow []ExpCol

// ExpEvent is an expected change.
type ExpEvent struct {
	Kind      string // insert update delete, or the statement keyword in lower case
	IsRows    bool
	DB, Table string
	SQL, QDB  string
	Charset   *[3]int32
	Timestamp int64
	Before    []ExpRow
	After     []ExpRow
}

// Txn is an expected transaction.
type Txn struct {
	Now, Next Pos
	Timestamp int64
	Events    []ExpEvent
	Note      string
	Defs      []*Table // tables as they are defined after this transaction, where it changes them
}

// Event is one event of a file.
type Event struct {
	Start, End uint32 // offsets in the file; equal for events that are not in it
	Bytes      []byte
	Type       byte
	Desc       string
	Txn        *Txn // set on commit events
	InTxn      bool // a transaction is open after this event
	Rotate     *Pos // set on rotate events
	Change     bool // carries a change
}

// File is one binlog file.
type File struct {
	Name   string
	Format wire.Format
	FDE    []byte
	Base   uint32 // offset of the first event after the format description
	Events []*Event
	End    uint32
	Mode   string
}

// History is a whole binlog.
type History struct {
	Files  []*File
	Tables []*Table
	Start  Pos
	Server uint32 // the server id of the master
}

// Opts bounds and biases a history.
type Opts struct {
	Files       int  // max files
	Units       int  // max units per file
	Tables      int  // max tables
	Cols        int  // max columns
	Rows        int  // max rows per event
	Simple      bool // only int and short string columns
	Boundary    bool // bias to boundary statements, casing, noise
	ReuseIDs    bool // table ids may be announced again for other tables / types
	BigOffset   bool // the first file may start at a huge offset
	NoNoise     bool
	Remember    bool // rows may belong to a table map of an earlier statement or transaction
	Alter       bool // statements that alter tables; Txn.Defs tells the new definitions
	WideNames   bool // names with characters that JSON must escape
	MinTxn      int  // at least this many transactions
	Kinds       func(t *rapid.T) vals.Kind
	Big         int // size of an occasional big value (0: none)
	FixedFormat *wire.Format
	Bulk        int // size of bulk units: many events, rows, tables, transactions or statements (0: none)
}

type gen struct {
	o       Opts
	h       *History
	f       *File
	cur     uint32
	ts      uint32
	nextID  uint64
	ids     map[*Table]uint64
	open    map[*Table]uint64 // as announced in this file
	held    []*Table          // tables announced for the statement at hand
	tables  []*Table          // as they are now
	fields  int
	gtids   int
	gno     uint64
	txns    int
	bulks   int
	bg      *vals.Rand // nil: background fields have their plain values
	relay   bool       // events of several servers
	wrapped bool
	tag     string // in front of statements
	serial  int
	last    map[string]vals.Val // the last value of every kind
}

// OwnID is the server id the consumer has in most checks.
const OwnID = 4242

// Fields that describe an event, or its origin, without bearing on what has
// been changed: server ids, header flags, thread ids, error codes and so on.

func (g *gen) any(n int) int {
	if g.bg == nil {
		return 0
	}
	return int(g.bg.Next() % uint64(n))
}

// serverID is where the next event stems from.
func (g *gen) serverID() uint32 {
	if g.relay && g.any(3) == 0 {
		return [...]uint32{1, OwnID, 0, 2, 1 << 31, 1<<32 - 1, uint32(g.bg.Next())}[g.any(7)]
	}
	return g.h.Server
}

// flags adds header flags that have no bearing on the content: thread
// specific, suppress use, no filter, MTS isolation, skipped by other replicas.
func (g *gen) flags(typ byte, f uint16) uint16 {
	if g.bg == nil || g.any(3) > 0 {
		return f
	}
	if typ == wire.EvQuery {
		return f | [...]uint16{4, 8, 0xc, 0x100, 0x200, 0x10, 0x8000}[g.any(7)]
	}
	if typ == wire.EvRotate || typ == wire.EvHeartbeat {
		return f
	}
	return f | [...]uint16{0x100, 0x200, 4, 0x40, 0x8000}[g.any(5)]
}

// origin fills in who ran a statement, for how long and with what outcome; a
// statement that failed half way, or was killed, is logged with its error.
func (g *gen) origin(q *wire.QuerySpec) {
	if g.bg == nil {
		return
	}
	q.ThreadID = [...]uint32{7, 0, 1, 1 << 31, 1<<32 - 1, uint32(g.bg.Next())}[g.any(6)]
	q.ExecTime = [...]uint32{0, 0, 1, 3600, 1<<32 - 1, uint32(g.bg.Next())}[g.any(6)]
	switch strings.ToUpper(q.SQL) {
	case "BEGIN", "COMMIT", "ROLLBACK":
	default:
		q.ErrCode = [...]uint16{0, 0, 1051, 1317, 1, 65535}[g.any(6)]
	}
}

func (g *gen) rowFlags(f uint16) uint16 { return f | [...]uint16{0, 0, 2, 4, 8, 0xe}[g.any(6)] }

func (g *gen) mapFlags() uint16 { return [...]uint16{1, 1, 0, 3, 4, 0x4000, 0xffff}[g.any(7)] }

// Generate draws a history.
func Generate(t *rapid.T, o Opts) *History {
	if o.Kinds == nil {
		o.Kinds = vals.GenKind
		if o.Simple {
			o.Kinds = SimpleKind
		}
	}
	g := &gen{o: o, h: &History{}, ids: map[*Table]uint64{}, last: map[string]vals.Val{}}
	g.h.Server = 1
	if seed := rapid.Uint64().Draw(t, "background"); seed > 0 {
		g.bg = vals.PRNG(seed)
		g.h.Server = [...]uint32{1, 1, OwnID, 0, 1<<32 - 1}[g.any(5)]
		g.relay = g.any(2) == 0
		if g.any(3) == 0 {
			g.tag = "/* " + padding("application=shop;host=10.0.0.17;trace=4bf92f3577b34da6;", 1+g.any(400)) + " */ "
		}
	}
	n := rapid.IntRange(1, o.Tables).Draw(t, "tables")
	for i := 0; i < n; i++ {
		tb := genTable(t, o, i)
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "twin") == 0 {
			twin(t, o, tb, g.tables)
		}
		g.tables = append(g.tables, tb)
	}
	for _, tb := range g.tables {
		if o.Alter {
			tb = tb.copy()
		}
		g.h.Tables = append(g.h.Tables, tb)
	}
	g.nextID = rapid.SampledFrom([]uint64{1, 100, 0xff, 0xffff, 0xfffffff0}).Draw(t, "firstid")
	g.ts = rapid.SampledFrom([]uint32{1600000000, 0, 1, 2147483600, 4294967000}).Draw(t, "ts")
	files := rapid.IntRange(1, o.Files).Draw(t, "files")
	prefix := rapid.SampledFrom([]string{"mysql-bin.", "b.", "a-b_c.d.", "bin log ", " b.", "名.", "\tB."}).Draw(t, "prefix")
	seq := rapid.SampledFrom([]int{1, 9, 99, 999998}).Draw(t, "seq")
	for i := 0; i < files; i++ {
		g.file(t, i, i == files-1, fmt.Sprintf("%s%06d", prefix, seq+i), fmt.Sprintf("%s%06d", prefix, seq+i+1))
	}
	g.h.Start = Pos{g.h.Files[0].Name, 4}
	if g.h.Files[0].Base > 100000 {
		g.h.Start.Off = int64(g.h.Files[0].Base)
	}
	if g.wrapped {
		t.Skip("a file of more than 4 GiB")
	}
	return g.h
}

// SimpleKind draws a small column kind.
func SimpleKind(t *rapid.T) vals.Kind {
	switch rapid.IntRange(0, 3).Draw(t, "skind") {
	case 0:
		return vals.Int(4, false)
	case 1:
		return vals.Int(8, true)
	case 2:
		return vals.VarcharCap(15, 60, 20)
	default:
		return vals.BlobCap(252, 2, 30)
	}
}

var wideNames = []string{"a\"b", "tab\tname", "back\\slash", "名前", "<b>&", "\u2028x", "new\nline", "é"}

func genTable(t *rapid.T, o Opts, i int) *Table {
	tb := &Table{DB: rapid.SampledFrom([]string{"db", "d", "shop", "x_y", "mysql", "sys", "test", "information_schema", "performance_schema", "#mysql50#db"}).Draw(t, "db"), Name: fmt.Sprintf("t%d", i)}
	if rapid.IntRange(0, 2).Draw(t, "oddname") == 0 { // of a tool, of the server
		tb.Name = fmt.Sprintf(rapid.SampledFrom([]string{"#sql-1a_%d", "_t%d_gho", "_t%d_new", "t%d_bak", "rds_heartbeat%d", "heartbeat%d", "TMP%d", "%d", "proc%d", "gtid_executed%d", "t%d_ghc", "__%d"}).Draw(t, "odd"), i)
	}
	if o.WideNames && rapid.Bool().Draw(t, "wide") {
		tb.Name += rapid.SampledFrom(wideNames).Draw(t, "wn")
		tb.DB += rapid.SampledFrom(wideNames).Draw(t, "wn")
	}
	if rapid.IntRange(0, 9).Draw(t, "longname") == 0 {
		tb.Name += strings.Repeat("n", rapid.SampledFrom([]int{60, 190, 250}).Draw(t, "ln"))
		if rapid.Bool().Draw(t, "longdb") {
			tb.DB += strings.Repeat("d", rapid.SampledFrom([]int{60, 190, 250}).Draw(t, "ld"))
		}
	}
	if len(tb.Name) > 255 { // the names' lengths are one byte
		tb.Name = tb.Name[:255]
	}
	if len(tb.DB) > 255 {
		tb.DB = tb.DB[:255]
	}
	n := rapid.IntRange(1, o.Cols).Draw(t, "cols")
	cols := rapid.SampledFrom([]string{"c", "Col_" + (tb.Name + "_")[:2] + "_"}).Draw(t, "colname")
	for c := 0; c < n; c++ {
		name := fmt.Sprintf("%s%d", cols, c)
		if o.WideNames && rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
			name += rapid.SampledFrom(wideNames).Draw(t, "wn")
		}
		tb.Cols = append(tb.Cols, Column{name, o.Kinds(t)})
	}
	return tb
}

// twin gives a table a name that is easily taken for that of another table,
// and mostly as many columns.
func twin(t *rapid.T, o Opts, tb *Table, prev []*Table) {
	p := rapid.SampledFrom(prev).Draw(t, "twinof")
	db, name := tb.DB, tb.Name
	pdb, pname := p.DB, p.Name
	switch rapid.IntRange(0, 6).Draw(t, "twinhow") {
	case 0, 1:
		db, name = "2"+p.DB, p.Name
	case 2:
		db, name = p.DB, strings.ToUpper(p.Name)
	case 3:
		db, name = strings.ToUpper(p.DB), p.Name
	case 4:
		pname, db, name = "x."+p.Name, p.DB+".x", p.Name
	case 5:
		db, name = p.DB+p.Name[:1], p.Name[1:]
	case 6:
		db, name = p.Name, p.DB
	}
	if len(db) > 255 || len(name) > 255 || len(pname) > 255 || name == "" {
		return
	}
	for _, x := range prev {
		if x.DB == db && x.Name == name || x != p && x.DB == pdb && x.Name == pname {
			return
		}
	}
	if db == pdb && name == pname {
		return
	}
	tb.DB, tb.Name, p.Name = db, name, pname
	if rapid.IntRange(0, 3).Draw(t, "twincols") > 0 {
		for len(tb.Cols) < len(p.Cols) {
			tb.Cols = append(tb.Cols, Column{fmt.Sprintf("more%d", len(tb.Cols)), o.Kinds(t)})
		}
		tb.Cols = tb.Cols[:len(p.Cols)]
	}
}

var versions = []string{"5.7.30-log", "5.6.40", "8.0.21", "5.5.5-10.1.0-MariaDB", "8.4.0", "9.1.0", "10.11.6-MariaDB-log", "5.7.44-48-log", "8.0.36-28.1.amzn2023-percona-xtradb-cluster-log-db", "11.4.2-MariaDB-ubu2404"}

func (g *gen) file(t *rapid.T, i int, last bool, name, next string) {
	f := &File{Name: name}
	g.f = f
	f.Format = wire.Format{ServerVersion: rapid.SampledFrom(versions).Draw(t, "version"), HeaderLen: 19}
	if rapid.Bool().Draw(t, "crc") {
		f.Format.Alg = wire.AlgCRC32
	}
	f.Format.ID4 = rapid.IntRange(0, 3).Draw(t, "id4") == 0
	f.Format.Sizes = wire.PostHeaderSizes(f.Format.ID4, rapid.SampledFrom([]int{38, 40, 41, 35}).Draw(t, "sizes"))
	if g.o.FixedFormat != nil {
		f.Format = *g.o.FixedFormat
	}
	f.FDE = f.Format.FDE(wire.Header{Timestamp: g.ts, ServerID: g.h.Server, NextPos: uint32(4 + 19 + len(f.Format.FDEBody(4, 0)) + 4)}, 4, g.ts)
	f.Base = uint32(4 + len(f.FDE))
	if i == 0 && g.o.BigOffset && rapid.IntRange(0, 2).Draw(t, "bigoffset") == 0 {
		f.Base = rapid.SampledFrom([]uint32{1 << 31, 1<<31 - 300, 3000000000, 4000000000, 1<<32 - 1<<22}).Draw(t, "base")
		if g.o.Big > 1<<19 && f.Base > 1<<32-1<<28 { // keep positions below 4 GiB
			f.Base = 4000000000
		}
	}
	g.cur = f.Base
	g.open = map[*Table]uint64{}
	g.h.Files = append(g.h.Files, f)
	if i > 0 && (g.o.ReuseIDs && rapid.Bool().Draw(t, "restart")) {
		// a server restart starts numbering tables again
		g.nextID = 1
		g.ids = map[*Table]uint64{}
	}
	g.gtids = rapid.SampledFrom([]int{0, 0, wire.EvGTID, wire.EvAnonGTID}).Draw(t, "gtids")
	if g.gtids != 0 && f.Base < 100000 {
		g.emit(t, wire.EvPrevGTIDs, 0x80, wire.U64(0), "PREVIOUS_GTIDS")
	}
	n := rapid.IntRange(0, g.o.Units).Draw(t, "units")
	for g.txns+n < g.o.MinTxn && last {
		n++
	}
	for u := 0; u < n; u++ {
		g.unit(t)
	}
	if !last {
		switch rapid.IntRange(0, 3).Draw(t, "fileend") {
		case 0:
			g.emit(t, wire.EvStop, 0, nil, "STOP")
			f.Mode = "stop"
		case 1:
			f.Mode = "crash"
		default:
			e := g.emit(t, wire.EvRotate, 0, wire.RotateBody(4, next), "ROTATE to "+next)
			e.Rotate = &Pos{next, 4}
			f.Mode = "rotate"
		}
	}
	f.End = g.cur
}

// emit appends an event to the current file.
func (g *gen) emit(t *rapid.T, typ byte, flags uint16, body []byte, desc string) *Event {
	if rapid.IntRange(0, 5).Draw(t, "tick") == 0 {
		g.ts += uint32(rapid.IntRange(0, 100000).Draw(t, "dt"))
	}
	if g.relay && g.any(8) == 0 { // the clocks of servers differ, sessions set theirs
		g.ts = [...]uint32{g.ts - 1, g.ts - 100000, 1, 1<<31 + 7, uint32(g.bg.Next()), 0}[g.any(6)]
	}
	return g.put(typ, flags, body, desc)
}

func (g *gen) put(typ byte, flags uint16, body []byte, desc string) *Event {
	size := g.f.Format.Size(typ, len(body))
	e := &Event{Start: g.cur, End: g.cur + uint32(size), Type: typ, Desc: desc}
	e.Bytes = g.f.Format.Frame(wire.Header{Timestamp: g.ts, Type: typ, ServerID: g.serverID(), NextPos: e.End, Flags: g.flags(typ, flags)}, body)
	g.wrapped = g.wrapped || e.End < g.cur
	g.cur = e.End
	g.f.Events = append(g.f.Events, e)
	return e
}

// virtual appends an event the master sends but does not keep in the file.
func (g *gen) virtual(typ byte, ts uint32, flags uint16, body []byte, desc string) *Event {
	e := &Event{Start: g.cur, End: g.cur, Type: typ, Desc: desc}
	e.Bytes = g.f.Format.Frame(wire.Header{Timestamp: ts, Type: typ, ServerID: g.h.Server, NextPos: g.cur, Flags: flags}, body)
	g.f.Events = append(g.f.Events, e)
	return e
}

// IgnorableTypes are event types a consumer must skip: unknown ones, and known
// ones without effect on the data.
var IgnorableTypes = []byte{0, wire.EvIgnorable, 36, 37, 41, 44, 99, 100, 160, 161, 163, 200, 255}

// UnknownStatements are SQL texts that are neither boundaries nor changes.
var UnknownStatements = []string{"SAVEPOINT `sp1`", "savepoint sp", "RELEASE SAVEPOINT sp", "GRANT ALL ON *.* TO 'a'@'b'", "REVOKE ALL ON x.* FROM y", "FLUSH TABLES", "ANALYZE TABLE t", "OPTIMIZE TABLE t", "CALL p()", "USE db", "# Dum", "BEGINNING", "COMMITTED x", "ROLLBACKS", "INSERTED", "xyzzy", "UNLOCK TABLES", "/* only a comment */", ""}

func (g *gen) noise(t *rapid.T) {
	if g.o.NoNoise {
		return
	}
	max := 12
	if g.o.Boundary {
		max = 4
	}
	for rapid.IntRange(0, max).Draw(t, "noise") == max {
		switch rapid.IntRange(0, 5).Draw(t, "ntype") {
		case 0:
			g.virtual(wire.EvHeartbeat, 0, 0, []byte(g.f.Name), "HEARTBEAT")
		case 1:
			g.emit(t, wire.EvGTID, 0, g.gtidBody(), "GTID (extra)")
		case 2:
			g.emit(t, wire.EvPrevGTIDs, 0x80, wire.U64(0), "PREVIOUS_GTIDS (extra)")
		case 3:
			typ := rapid.SampledFrom(IgnorableTypes).Draw(t, "ity")
			body := vals.Bytes(rapid.Uint64().Draw(t, "ibody"), rapid.IntRange(0, 40).Draw(t, "ilen"))
			g.emit(t, typ, 0x80, body, fmt.Sprintf("event type %d (ignorable)", typ))
		default:
			q := rapid.SampledFrom(UnknownStatements).Draw(t, "unk")
			if q != "# Dum" && rapid.IntRange(0, 3).Draw(t, "unkpad") == 0 { // a text of any length, which may speak of anything
				q += " /* " + padding(rapid.SampledFrom([]string{"x", "COMMIT; ", "\nBEGIN\n", "é", "create table "}).Draw(t, "unkfill"), 1<<rapid.IntRange(0, 13).Draw(t, "unklen")+rapid.IntRange(-1, 1).Draw(t, "unkodd")) + " */"
			}
			if q != "" && q[0] != '#' {
				q = g.tagged(q)
			}
			g.query(t, q, nil)
		}
	}
}

func (g *gen) gtidBody() []byte {
	g.gno++
	b := []byte{[...]byte{1, 0, 3, 1}[g.any(4)]}
	if g.any(3) == 2 { // of another server
		b = append(b, vals.Bytes(g.bg.Next(), 16)...)
	} else {
		b = append(b, "0123456789abcdef"...)
	}
	b = append(b, wire.U64(g.gno)...)
	if g.gno%2 == 0 { // 5.7 form with logical timestamps
		b = append(b, 2)
		b = append(b, make([]byte, 16)...)
	}
	return b
}

// GenVars draws a status variable block; cs is the charset it carries.
func GenVars(t *rapid.T) (vars []byte, cs *[3]int32) {
	has := func(name string) bool { return rapid.Bool().Draw(t, name) }
	str := func(n int) string { return strings.Repeat("s", n) }
	val := func(plain ...byte) []byte { return plain }
	if seed := rapid.Uint64().Draw(t, "varseed"); seed > 0 {
		r := vals.PRNG(seed)
		val = func(plain ...byte) []byte { return vals.Bytes(r.Next(), len(plain)) }
	}
	if has("flags2") {
		vars = append(append(vars, 0), val(1, 2, 3, 4)...)
	}
	if has("sqlmode") {
		vars = append(append(vars, 1), val(4, 0, 0, 0, 4, 0, 0, 0)...)
	}
	switch rapid.IntRange(0, 3).Draw(t, "catalog") {
	case 0: // the old form: length, name, NUL
		n := rapid.SampledFrom([]int{0, 3, 1, 6, 2, 3, 4, 127, 128, 254, 255}).Draw(t, "catlen")
		vars = append(vars, 2, byte(n))
		vars = append(vars, str(n)...)
		vars = append(vars, 0)
	case 1, 2:
		n := rapid.SampledFrom([]int{0, 3, 1, 6, 2, 3, 4, 127, 128, 254, 255}).Draw(t, "catlen")
		vars = append(vars, 6, byte(n))
		vars = append(vars, str(n)...)
	}
	if has("autoinc") {
		vars = append(append(vars, 3), val(4, 4, 1, 1)...)
	}
	if has("charset") {
		cs = &[3]int32{}
		vars = append(vars, 4)
		for i := range cs {
			v := rapid.SampledFrom([]uint16{33, 45, 8, 255, 256, 63, 0x0304, 65535, 0}).Draw(t, "cs")
			cs[i] = int32(v)
			vars = append(vars, byte(v), byte(v>>8))
		}
	}
	if has("tz") {
		n := rapid.SampledFrom([]int{6, 0, 1, 2, 3, 4, 5, 10, 127, 128, 255}).Draw(t, "tzlen")
		vars = append(vars, 5, byte(n))
		vars = append(vars, str(n)...)
	}
	if has("lctime") {
		vars = append(append(vars, 7), val(4, 4)...)
	}
	if has("csdb") {
		vars = append(append(vars, 8), val(4, 4)...)
	}
	if has("tmfu") {
		vars = append(append(vars, 9), val(4, 4, 4, 4, 4, 4, 4, 4)...)
	}
	if has("mdw") {
		vars = append(append(vars, 10), val(4, 4, 4, 4)...)
	}
	if has("invoker") {
		vars = append(vars, 11, 4)
		vars = append(vars, "root"...)
		vars = append(vars, 9)
		vars = append(vars, "localhost"...)
	}
	if has("dbs") {
		switch n := rapid.SampledFrom([]int{1, 0, 2, 16, 254, 255}).Draw(t, "dbn"); n {
		case 254: // too many to name
			vars = append(vars, 12, 254)
		case 255: // as long as the block can be
			vars = append(vars, 12, 253)
			for i := 0; i < 253; i++ {
				vars = append(append(vars, str(191)...), 0)
			}
		default:
			vars = append(vars, 12, byte(n))
			for i := 0; i < n; i++ {
				vars = append(vars, fmt.Sprintf("db%d\x00", i)...)
			}
		}
	}
	if has("usec") { // microseconds
		vars = append(append(vars, 13), val(4, 4, 4)...)
	}
	if has("edts") {
		vars = append(vars, 16, 4)
	}
	if has("xid") {
		vars = append(append(vars, 17), val(4, 0, 0, 0, 0, 0, 0, 0)...)
	}
	if has("defcoll") {
		vars = append(append(vars, 18), val(45, 0)...)
	}
	return vars, cs
}

// query emits a QUERY_EVENT.
func (g *gen) query(t *rapid.T, sql string, exp *ExpEvent) *Event {
	q := wire.QuerySpec{ThreadID: 7, SQL: sql, DB: rapid.SampledFrom([]string{"", "db", "shop", "db", "shop", "", "名 x`", longDB, "d", "mysql", "information_schema"}).Draw(t, "qdb")}
	var cs *[3]int32
	if rapid.IntRange(0, 2).Draw(t, "vars") > 0 {
		q.Vars, cs = GenVars(t)
	}
	g.origin(&q)
	e := g.emit(t, wire.EvQuery, 0, q.Body(), "QUERY "+clip(sql))
	if exp != nil {
		exp.SQL, exp.QDB, exp.Charset, exp.Timestamp = sql, q.DB, cs, int64(g.ts)
	}
	return e
}

// longDB is as long as a database name of a statement can be.
var longDB = strings.Repeat("q", 255)

// padding is fill repeated up to n bytes.
func padding(fill string, n int) string {
	return strings.Repeat(fill, n/len(fill)+1)[:n]
}

func clip(s string) string {
	if len(s) > 70 {
		s = s[:70] + ".."
	}
	return fmt.Sprintf("%q", s)
}

// Case changes the letter case of a keyword.
func Case(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		m := rapid.Uint64().Draw(t, "casemask")
		b := []byte(strings.ToLower(s))
		for i := range b {
			if m>>(uint(i)%64)&1 == 1 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

var ddls = []struct{ kind, rest string }{
	{"create", " TABLE `x` (a int)"}, {"alter", " TABLE `x` ADD COLUMN b int"}, {"drop", " TABLE IF EXISTS `x` /* generated by server */"},
	{"rename", " TABLE a TO b"}, {"truncate", " TABLE x"}, {"create", " DATABASE d"}, {"drop", " DATABASE d"}, {"set", " PASSWORD FOR 'a'@'b'='*X'"},
	{"create", " TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET NEW.a = 1; COMMIT; END"}, {"truncate", " x"},
	{"alter", " TABLE x COMMENT 'BEGIN; COMMIT; ROLLBACK'"},
}

var dmls = []struct{ kind, rest string }{
	{"insert", " INTO t VALUES (1)"}, {"update", " t SET a=1"}, {"delete", " FROM t WHERE a=1"}, {"insert", " INTO t SELECT 'COMMIT'"},
}

// statement draws a statement that is a change.
func (g *gen) statement(t *rapid.T, dml bool) (string, ExpEvent) {
	x := rapid.SampledFrom(ddls).Draw(t, "ddl")
	if dml {
		x = rapid.SampledFrom(dmls).Draw(t, "dml")
	}
	kw := Case(t, x.kind)
	rest := x.rest
	lead := ""
	switch rapid.IntRange(0, 12).Draw(t, "ws") {
	case 3: // an executable comment
		bang := rapid.SampledFrom([]string{"/*!40000 ", "/*!50003 ", "/*!", "/*!80016", "/*!080016 ", "/*M!100100 ", "/*M! ", "/* c */ /*!50001 /* d */ "}).Draw(t, "bang")
		return g.tagged(bang + kw + rest + " */"), ExpEvent{Kind: x.kind}
	case 0: // keyword ended by another white space
		rest = rapid.SampledFrom([]string{"\n", "\t", "\r\n", "\n\t ", "  "}).Draw(t, "sep") + rest[1:]
	case 1:
		rest = "/* c */" + rest
	case 2:
		lead = rapid.SampledFrom([]string{" ", "\n", "/* app:x */ ", "/* BEGIN */", "-- note\n", "# note\n", "\t/*a*/ /*b*/\n", "/*/ x */", "/**/", "/***/ ", "/*\n#*/", "#/*\n", "-- */\n/*\n*/", "/*--*/\r\n"}).Draw(t, "lead")
		if rapid.IntRange(0, 3).Draw(t, "longlead") == 0 { // tracing data of an application, a licence
			c := padding(rapid.SampledFrom([]string{"x", "trace=0af7, ", "COMMIT; ", "é", "* "}).Draw(t, "leadfill"), 1<<rapid.IntRange(0, 12).Draw(t, "leadlen")+rapid.IntRange(-1, 1).Draw(t, "leadodd"))
			lead += rapid.SampledFrom([]string{"/* " + c + " */", "-- " + c + "\n", "# " + c + "\n", "/*" + c + "*//* */ "}).Draw(t, "leadkind")
		}
	}
	switch rapid.IntRange(0, 19).Draw(t, "tail") {
	case 0: // a length that needs another byte, or more than one packet buffer
		n := rapid.SampledFrom([]int{127, 128, 250, 251, 255, 256, 1023, 1024, 4095, 4096, 32768, 65535, 65536, 70001}).Draw(t, "sqllen")
		if o := rapid.SampledFrom([]string{"x", "é", "\x00", "'", "\n", "名"}).Draw(t, "fill"); n > len(lead+kw+rest)+8 {
			rest += " /* " + strings.Repeat(o, (n-len(lead+kw+rest)-7)/len(o))
			for len(lead+kw+rest) < n-3 {
				rest += "."
			}
			rest += " */"
		}
	case 1:
		rest += rapid.SampledFrom([]string{";", " ", "\n", "\t", "; COMMIT", " -- x\n", "'", "\x00", "\u2028"}).Draw(t, "trail")
	}
	return g.tagged(lead + kw + rest), ExpEvent{Kind: x.kind}
}

// tagged puts the comment in front that the application puts in front of all of
// its statements, and a number behind: texts that have much in common.
func (g *gen) tagged(sql string) string {
	if g.tag == "" || g.any(4) == 0 {
		return sql
	}
	g.serial++
	if strings.HasPrefix(sql, "#") || strings.HasPrefix(sql, "--") {
		return g.tag + "\n" + sql
	}
	return fmt.Sprintf("%s%s\n/* %06d */", g.tag, sql, g.serial)
}

// unit appends one unit of the log: a block, an autocommitted change, a
// statement, noise.
func (g *gen) unit(t *rapid.T) {
	g.noise(t)
	if g.gtids != 0 {
		g.emit(t, byte(g.gtids), 0, g.gtidBody(), "GTID")
	}
	kind := rapid.IntRange(0, 9).Draw(t, "unit")
	switch {
	case g.o.Bulk > 0 && rapid.Bool().Draw(t, "bulk"):
		g.bulk(t)
	case g.o.Alter && rapid.IntRange(0, 2).Draw(t, "altering") == 0:
		g.alter(t)
	case kind < 6:
		g.block(t)
	case kind < 8:
		g.autocommit(t)
	default:
		sql, exp := g.statement(t, rapid.IntRange(0, 3).Draw(t, "dml") == 0)
		e := g.query(t, sql, &exp)
		e.Change = true
		g.commit(e, []ExpEvent{exp}, "statement")
	}
}

func (tb *Table) copy() *Table {
	c := *tb
	c.Cols = append([]Column(nil), tb.Cols...)
	return &c
}

// alter changes the definition of a table.
func (g *gen) alter(t *rapid.T) {
	tb := g.pick(t)
	delete(g.ids, tb) // it is opened anew
	defs := []*Table{tb}
	kind, what := "alter", ""
	at := rapid.IntRange(0, len(tb.Cols)-1).Draw(t, "acol")
	field := func() string { g.fields++; return fmt.Sprintf("f%d", g.fields) }
	switch rapid.IntRange(0, 7).Draw(t, "ahow") {
	case 0:
		what = "add column"
		c := Column{field(), g.o.Kinds(t)}
		tb.Cols = append(tb.Cols[:at], append([]Column{c}, tb.Cols[at:]...)...)
	case 1:
		what = "drop column"
		if len(tb.Cols) > 1 {
			tb.Cols = append(tb.Cols[:at], tb.Cols[at+1:]...)
		}
	case 2:
		what = "rename column"
		tb.Cols[at].Name = field()
	case 3:
		what = "modify column"
		tb.Cols[at].Kind = g.o.Kinds(t)
	case 4:
		what = "move column"
		c := tb.Cols[0]
		tb.Cols = append(tb.Cols[1:], c)
	case 5:
		what = "other columns"
		for i := range tb.Cols {
			tb.Cols[i] = Column{field(), g.o.Kinds(t)}
		}
	case 6, 7: // two tables swap their definitions, the names stay
		kind, what = "rename", "swap"
		o := g.pick(t)
		if o != tb {
			delete(g.ids, o)
			tb.Cols, o.Cols = o.Cols, tb.Cols
			defs = append(defs, o)
		}
	}
	exp := ExpEvent{Kind: kind}
	e := g.query(t, fmt.Sprintf("%s TABLE `%s` /* %s */", strings.ToUpper(kind), tb.Name, what), &exp)
	e.Change = true
	g.commit(e, []ExpEvent{exp}, kind+", "+what)
	for _, d := range defs {
		e.Txn.Defs = append(e.Txn.Defs, d.copy())
	}
}

func (g *gen) commit(e *Event, evs []ExpEvent, note string) {
	e.Txn = &Txn{Next: Pos{g.f.Name, int64(e.End)}, Timestamp: int64(binary.LittleEndian.Uint32(e.Bytes)), Events: evs, Note: note}
	g.txns++
}

func (g *gen) mark(from int) {
	for _, e := range g.f.Events[from:] {
		e.InTxn = true
	}
}

func (g *gen) block(t *rapid.T) {
	from := len(g.f.Events)
	var evs []ExpEvent
	g.query(t, Case(t, "BEGIN"), nil)
	n := rapid.IntRange(0, 4).Draw(t, "items")
	for i := 0; i < n; i++ {
		g.noise(t)
		if rapid.IntRange(0, 4).Draw(t, "stmt") == 0 {
			sql, exp := g.statement(t, rapid.Bool().Draw(t, "dml"))
			e := g.query(t, sql, &exp)
			e.Change = true
			evs = append(evs, exp)
			continue
		}
		evs = append(evs, g.rowStatement(t)...)
	}
	g.noise(t)
	g.mark(from)
	switch rapid.IntRange(0, 6).Draw(t, "end") {
	case 0:
		e := g.query(t, Case(t, "ROLLBACK"), nil)
		g.commit(e, nil, "rolled back")
	case 1, 2:
		e := g.query(t, Case(t, "COMMIT"), nil)
		g.commit(e, evs, "COMMIT")
	default:
		e := g.emit(t, wire.EvXID, 0, wire.U64(rapid.Uint64().Draw(t, "xid")), "XID")
		g.commit(e, evs, "XID")
	}
}

func (g *gen) autocommit(t *rapid.T) {
	tb := g.pick(t)
	id := g.tableMap(t, tb)
	g.noise(t)
	e, exp := g.rows(t, tb, id, true)
	g.commit(e, []ExpEvent{exp}, "autocommitted rows")
}

func (g *gen) pick(t *rapid.T) *Table {
	return rapid.SampledFrom(g.tables).Draw(t, "table")
}

// rowStatement emits table maps for some tables, then rows events on them.
func (g *gen) rowStatement(t *rapid.T) []ExpEvent {
	var out []ExpEvent
	n := 1
	if len(g.tables) > 1 {
		n = rapid.IntRange(1, 2).Draw(t, "stables")
	}
	var tbs []*Table
	var ids []uint64
	for i := 0; i < n; i++ {
		tb := g.pick(t)
		dup := false
		for _, x := range tbs {
			dup = dup || x == tb
		}
		if dup {
			continue
		}
		if id, ok := g.open[tb]; g.o.Remember && ok && g.ids[tb] == id && rapid.IntRange(0, 2).Draw(t, "remember") > 0 {
			ids = append(ids, id)
		} else {
			ids = append(ids, g.tableMap(t, tb))
		}
		tbs = append(tbs, tb)
		g.held = tbs
	}
	g.held = nil
	m := rapid.IntRange(1, 3).Draw(t, "revents")
	for i := 0; i < m; i++ {
		g.noise(t)
		k := rapid.IntRange(0, len(tbs)-1).Draw(t, "which")
		e, exp := g.rows(t, tbs[k], ids[k], i == m-1)
		e.Change = true
		out = append(out, exp)
	}
	return out
}

// retype changes the type parameters of a table's columns, keeping names,
// number and signedness (an ALTER the table mapper cannot notice).
func (g *gen) retype(t *rapid.T, tb *Table) {
	for i := range tb.Cols {
		k := g.o.Kinds(t)
		if k.Unsigned == tb.Cols[i].Kind.Unsigned {
			tb.Cols[i].Kind = k
		}
	}
}

func (g *gen) tableMap(t *rapid.T, tb *Table) uint64 {
	id, ok := g.ids[tb]
	fresh := !ok
	if ok {
		switch rapid.IntRange(0, 7).Draw(t, "reopen") {
		case 0: // table was closed and opened again, maybe altered
			fresh = true
			if rapid.Bool().Draw(t, "alter") {
				g.retype(t, tb)
			}
		case 1:
			if g.o.ReuseIDs {
				g.retype(t, tb)
			}
		}
	}
	var donor *Table
	if fresh && g.o.ReuseIDs && rapid.IntRange(0, 2).Draw(t, "steal") == 0 {
		// the id of another table, which was closed
		var ds []*Table
		for _, x := range g.tables {
			hold := x == tb
			for _, y := range g.held {
				hold = hold || x == y
			}
			if xid, ok := g.ids[x]; ok && !hold && (!g.f.Format.ID4 || xid < 1<<32) {
				ds = append(ds, x)
			}
		}
		if len(ds) > 0 {
			donor = rapid.SampledFrom(ds).Draw(t, "donor")
		}
	}
	if donor != nil {
		id = g.ids[donor]
		delete(g.ids, donor)
		g.ids[tb] = id
	} else if fresh {
		id = g.nextID
		g.nextID += uint64(rapid.SampledFrom([]int{1, 1, 2, 255, 65536}).Draw(t, "idstep"))
		if g.f.Format.ID4 && id > 1<<32-1 {
			id &= 1<<32 - 1
		}
		if !g.f.Format.ID4 && rapid.IntRange(0, 9).Draw(t, "bigid") == 0 {
			id |= rapid.SampledFrom([]uint64{1 << 40, 1 << 32, 0xabcd00000000, 1 << 47}).Draw(t, "bigidbits")
		}
		// no two live tables share an id
		for again := true; again; {
			again = false
			for _, x := range g.ids {
				if x == id {
					id++
					again = true
				}
			}
		}
		g.ids[tb] = id
	}
	if g.f.Format.ID4 && id > 1<<32-1 {
		// the table kept an id from a file with wide ids: give it a new one
		delete(g.ids, tb)
		g.nextID &= 1<<32 - 1
		return g.tableMap(t, tb)
	}
	g.open[tb] = id
	spec := wire.TableSpec{ID: id, Flags: g.mapFlags(), DB: tb.DB, Name: tb.Name}
	for _, c := range tb.Cols {
		spec.Cols = append(spec.Cols, c.Kind.Col(rapid.Bool().Draw(t, "nullable")))
	}
	if rapid.IntRange(0, 3).Draw(t, "optional") == 0 {
		spec.Optional = []byte{1, 1, 0x80, 2, 1, 45}
		if n := g.any(4); n > 0 {
			spec.Optional = vals.Bytes(g.bg.Next(), [...]int{0, 1, 7, 300}[n])
		}
	}
	g.emit(t, wire.EvTableMap, 0, spec.Body(g.f.Format), fmt.Sprintf("TABLE_MAP id %d = %s.%s (%s)", id, clipName(tb.DB), clipName(tb.Name), kinds(tb)))
	return id
}

func clipName(s string) string {
	if len(s) > 20 {
		return s[:20] + "~"
	}
	return s
}

func kinds(tb *Table) string {
	var s []string
	for i, c := range tb.Cols {
		if i > 12 {
			s = append(s, fmt.Sprintf(".. %d columns", len(tb.Cols)))
			break
		}
		s = append(s, c.Kind.Name)
	}
	return strings.Join(s, ", ")
}

// Presence draws which columns are in an image (at least one).
func Presence(t *rapid.T, n int) []bool {
	p := make([]bool, n)
	switch rapid.IntRange(0, 3).Draw(t, "presence") {
	case 0:
		m := rapid.Uint64().Draw(t, "mask")
		for i := range p {
			p[i] = m>>(uint(i)%64)&1 == 1
		}
	case 1:
		p[rapid.IntRange(0, n-1).Draw(t, "one")] = true
	default:
		for i := range p {
			p[i] = true
		}
	}
	for _, x := range p {
		if x {
			return p
		}
	}
	p[0] = true
	return p
}

func (g *gen) image(t *rapid.T, tb *Table, present []bool) (wire.Image, ExpRow) {
	img := make(wire.Image, len(tb.Cols))
	row := make(ExpRow, len(tb.Cols))
	for i, c := range tb.Cols {
		row[i] = ExpCol{Name: c.Name, Type: c.Kind.Type, State: Absent}
		if !present[i] {
			continue
		}
		if rapid.IntRange(0, 4).Draw(t, "null") == 0 {
			row[i].State = Null
			img[i].Null = true
			continue
		}
		v := c.Kind.Gen(t)
		if last, ok := g.last[c.Kind.Name]; ok && last.Near != nil && g.any(3) == 1 {
			v = last.Near(g.bg)
		}
		g.last[c.Kind.Name] = v
		if g.o.Big > 0 && (c.Kind.Class == "blob" && c.Kind.MetaVal >= 3) && rapid.IntRange(0, 3).Draw(t, "bigval") == 0 {
			v = vals.BlobVal(vals.Bytes(rapid.Uint64().Draw(t, "bseed"), rapid.IntRange(g.o.Big/2, g.o.Big).Draw(t, "blen")), int(c.Kind.MetaVal))
		}
		row[i].State = Present
		row[i].Val = v
		img[i].Enc = v.Enc
	}
	return img, row
}

func (g *gen) rows(t *rapid.T, tb *Table, id uint64, end bool) (*Event, ExpEvent) {
	kind := wire.RowsKind(rapid.IntRange(0, 2).Draw(t, "rowskind"))
	v2 := rapid.Bool().Draw(t, "v2") && len(g.f.Format.Sizes) >= 32
	if id > 1<<32-1 && g.f.Format.ID4 {
		v2 = true
	}
	if g.f.Format.ID4 {
		v2 = false
	}
	r := wire.RowsSpec{Kind: kind, V2: v2, ID: id, NCols: len(tb.Cols)}
	if end {
		r.Flags = 1
	}
	r.Flags = g.rowFlags(r.Flags)
	if v2 {
		r.Extra = vals.Bytes(5+uint64(g.any(1<<20)), rapid.SampledFrom([]int{0, 0, 1, 3, 20, 300}).Draw(t, "extra"))
	}
	r.PadBits = rapid.IntRange(0, 3).Draw(t, "padbits") == 0
	exp := ExpEvent{Kind: kind.String(), IsRows: true, DB: tb.DB, Table: tb.Name}
	if kind != wire.Insert {
		r.Before = Presence(t, len(tb.Cols))
	}
	if kind != wire.Delete {
		r.After = Presence(t, len(tb.Cols))
	}
	n := rapid.IntRange(1, g.o.Rows).Draw(t, "rows")
	for i := 0; i < n; i++ {
		if kind != wire.Insert {
			img, row := g.image(t, tb, r.Before)
			r.Befores = append(r.Befores, img)
			exp.Before = append(exp.Before, row)
		}
		if kind != wire.Delete {
			img, row := g.image(t, tb, r.After)
			r.Afters = append(r.Afters, img)
			exp.After = append(exp.After, row)
		}
	}
	ver := "v1"
	if v2 {
		ver = "v2"
	}
	e := g.emit(t, wire.RowsType(kind, v2), 0, r.Body(g.f.Format), fmt.Sprintf("%s ROWS %s id %d, %d rows on %s", strings.ToUpper(kind.String()), ver, id, n, clipName(tb.Name)))
	e.Change = true
	exp.Timestamp = int64(g.ts)
	return e, exp
}

// pool is a set of row images of a table, so that many rows cost few draws.
type pool struct {
	present []bool
	imgs    []wire.Image
	rows    []ExpRow
}

func (g *gen) pool(t *rapid.T, tb *Table) *pool {
	p := &pool{present: Presence(t, len(tb.Cols))}
	for n := rapid.IntRange(1, 5).Draw(t, "pool"); n > 0; n-- {
		img, row := g.image(t, tb, p.present)
		p.imgs = append(p.imgs, img)
		p.rows = append(p.rows, row)
	}
	return p
}

// bulkRows emits a rows event with rows out of two pools.
func (g *gen) bulkRows(r *vals.Rand, tb *Table, id uint64, before, after *pool, n int, end bool) ExpEvent {
	kind := wire.RowsKind(r.Next() % 3)
	v2 := r.Next()%2 == 0 && len(g.f.Format.Sizes) >= 32 && !g.f.Format.ID4
	s := wire.RowsSpec{Kind: kind, V2: v2, ID: id, NCols: len(tb.Cols)}
	if end {
		s.Flags = 1
	}
	s.Flags = g.rowFlags(s.Flags)
	exp := ExpEvent{Kind: kind.String(), IsRows: true, DB: tb.DB, Table: tb.Name}
	if kind != wire.Insert {
		s.Before = before.present
	}
	if kind != wire.Delete {
		s.After = after.present
	}
	for i := 0; i < n; i++ {
		if kind != wire.Insert {
			k := r.Next() % uint64(len(before.imgs))
			s.Befores = append(s.Befores, before.imgs[k])
			exp.Before = append(exp.Before, before.rows[k])
		}
		if kind != wire.Delete {
			k := r.Next() % uint64(len(after.imgs))
			s.Afters = append(s.Afters, after.imgs[k])
			exp.After = append(exp.After, after.rows[k])
		}
	}
	if r.Next()%64 == 0 {
		g.ts++
	}
	e := g.put(wire.RowsType(kind, v2), 0, s.Body(g.f.Format), fmt.Sprintf("%s ROWS id %d, %d rows on %s (bulk)", strings.ToUpper(kind.String()), id, n, clipName(tb.Name)))
	e.Change = true
	exp.Timestamp = int64(g.ts)
	return exp
}

func (g *gen) announce(tb *Table, id uint64) {
	spec := wire.TableSpec{ID: id, Flags: g.mapFlags(), DB: tb.DB, Name: tb.Name}
	for _, c := range tb.Cols {
		spec.Cols = append(spec.Cols, c.Kind.Col(true))
	}
	g.put(wire.EvTableMap, 0, spec.Body(g.f.Format), fmt.Sprintf("TABLE_MAP id %d = %s.%s (bulk)", id, clipName(tb.DB), clipName(tb.Name)))
}

// bulk appends a lot: transactions with many changes, events with many rows,
// statements on many tables, many small transactions.
func (g *gen) bulk(t *rapid.T) {
	r := vals.PRNG(rapid.Uint64().Draw(t, "bulkseed"))
	lots := func(max int) int {
		if max > g.o.Bulk {
			max = g.o.Bulk
		}
		n := rapid.SampledFrom([]int{64, 101, 128, 256, 257, 513, 1000, 1025, 2049, 4097, 10001, 65537}).Draw(t, "lots")
		if n > max {
			n = max
		}
		return n
	}
	begin := func() { g.put(wire.EvQuery, 8, wire.QuerySpec{SQL: "BEGIN", DB: "db"}.Body(), "QUERY BEGIN (bulk)") }
	end := func(evs []ExpEvent) {
		e := g.put(wire.EvXID, 0, wire.U64(r.Next()), "XID (bulk)")
		g.commit(e, evs, "XID")
	}
	var evs []ExpEvent
	from := len(g.f.Events)
	switch rapid.IntRange(0, 4).Draw(t, "bulkkind") {
	case 0: // a transaction of many changes
		begin()
		tb := g.pick(t)
		id := g.tableMap(t, tb)
		before, after := g.pool(t, tb), g.pool(t, tb)
		n := lots(1 << 14)
		per := rapid.SampledFrom([]int{1, 4, 1000}).Draw(t, "per") // changes per statement
		for i := 0; i < n; i++ {
			if i > 0 && i%per == 0 {
				g.announce(tb, id)
			}
			evs = append(evs, g.bulkRows(r, tb, id, before, after, 1+int(r.Next()%2), i%per == per-1 || i == n-1))
		}
		g.mark(from)
		end(evs)
	case 1: // an event of many rows
		begin()
		tb := g.pick(t)
		id := g.tableMap(t, tb)
		before, after := g.pool(t, tb), g.pool(t, tb)
		n := lots(1 << 17)
		evs = append(evs, g.bulkRows(r, tb, id, before, after, n, true))
		g.mark(from)
		end(evs)
	case 2: // many tables
		first := g.pick(t)
		before, after := g.pool(t, first), g.pool(t, first)
		n := lots(2048)
		per := rapid.SampledFrom([]int{1, 2, 61}).Draw(t, "stables")
		g.bulks++
		var tbs []*Table
		var ids []uint64
		for i := 0; i < n; i++ {
			tb := &Table{DB: fmt.Sprintf("%s%d", "bulk", i%3), Name: fmt.Sprintf("b%d_%d", g.bulks, i/3), Cols: first.Cols}
			tbs = append(tbs, tb)
			ids = append(ids, g.nextID)
			g.nextID++
			if g.f.Format.ID4 {
				g.nextID &= 1<<32 - 1
			}
			g.h.Tables = append(g.h.Tables, tb)
		}
		for i, id := range ids { // the tables that had these ids are closed
			if g.f.Format.ID4 {
				ids[i] &= 1<<32 - 1
			}
			for x, xid := range g.ids {
				if xid == id || xid == ids[i] {
					delete(g.ids, x)
				}
			}
		}
		begin()
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i += per {
				k := i + per
				if k > n {
					k = n
				}
				for j := i; j < k; j++ {
					g.announce(tbs[j], ids[j])
				}
				for m := 0; m < per && m < 5; m++ {
					j := i + int(r.Next()%uint64(k-i))
					if m == 0 {
						j = i
					}
					evs = append(evs, g.bulkRows(r, tbs[j], ids[j], before, after, 1, m == per-1 || m == 4))
				}
			}
		}
		g.mark(from)
		end(evs)
	case 3: // many transactions
		begin()
		tb := g.pick(t)
		id := g.tableMap(t, tb)
		before, after := g.pool(t, tb), g.pool(t, tb)
		for i, n := 0, lots(4097); i < n; i++ {
			if i > 0 {
				if g.gtids != 0 {
					g.put(byte(g.gtids), 0, g.gtidBody(), "GTID")
				}
				from = len(g.f.Events)
				begin()
				g.announce(tb, id)
			}
			e := g.bulkRows(r, tb, id, before, after, 1, true)
			g.mark(from)
			end([]ExpEvent{e})
		}
	default: // many statements
		sql, exp := g.statement(t, false)
		inside := rapid.Bool().Draw(t, "inside")
		n := lots(4097)
		if inside {
			begin()
		}
		for i := 0; i < n; i++ {
			x := exp
			x.SQL, x.QDB, x.Timestamp = fmt.Sprintf("%s /* %d */", sql, i), "shop", int64(g.ts)
			q := wire.QuerySpec{SQL: x.SQL, DB: x.QDB}
			g.origin(&q)
			e := g.put(wire.EvQuery, 0, q.Body(), "QUERY "+clip(x.SQL)+" (bulk)")
			e.Change = true
			if inside {
				evs = append(evs, x)
			} else {
				g.commit(e, []ExpEvent{x}, "statement")
			}
		}
		if inside {
			g.mark(from)
			end(evs)
		}
	}
}

// Packet is an event as it is sent on a dump connection.
type Packet struct {
	Bytes  []byte
	Desc   string
	File   string
	Event  *Event
	Txn    *Txn // the transaction this event commits, with its labels
	Rotate *Pos
	FDE    bool
	Fake   bool
	// Boundary is the commit boundary (or rotation target) after this packet.
	Boundary Pos
}

// Find returns the file with the given name.
func (h *History) Find(name string) (int, *File) {
	for i, f := range h.Files {
		if f.Name == name {
			return i, f
		}
	}
	return -1, nil
}

// Serve lists what a master sends for a dump request, or an error text when the
// coordinates do not denote an event boundary.
func (h *History) Serve(file string, pos uint32) ([]*Packet, error) {
	i, f := h.Find(file)
	if f == nil {
		return nil, fmt.Errorf("Could not find first log file name in binary log index file")
	}
	ok := pos == 4 || pos == f.End || pos == f.Base
	for _, e := range f.Events {
		ok = ok || e.Start == pos || e.End == pos
	}
	if !ok {
		return nil, fmt.Errorf("bogus data in log event; the first event '%s' at %d does not start at an event boundary", file, pos)
	}
	var out []*Packet
	label := Pos{file, int64(pos)}
	alg := f.Format
	fake := func(name string, off uint64) {
		b := alg.Frame(wire.Header{Type: wire.EvRotate, ServerID: h.Server, Flags: wire.FlagArtficial}, wire.RotateBody(off, name))
		label = Pos{name, int64(off)}
		out = append(out, &Packet{Bytes: b, Desc: fmt.Sprintf("fake ROTATE to %s:%d", name, off), File: name, Rotate: &Pos{name, int64(off)}, Fake: true, Boundary: label})
	}
	fake(file, uint64(pos))
	for ; i < len(h.Files); i++ {
		f := h.Files[i]
		alg = f.Format
		if f.Name != file {
			if i > 0 {
				alg = h.Files[i-1].Format
			}
			fake(f.Name, 4)
			alg = f.Format
			pos = 4
		}
		fde := f.FDE
		if pos > 4 {
			// a dump that starts inside a file gets the description with log_pos 0
			fde = f.Format.FDE(wire.Header{ServerID: h.Server}, 4, 0)
		}
		out = append(out, &Packet{Bytes: fde, Desc: "FORMAT_DESCRIPTION", File: f.Name, FDE: true, Boundary: label})
		for _, e := range f.Events {
			if e.Start < pos {
				continue
			}
			p := &Packet{Bytes: e.Bytes, Desc: e.Desc, File: f.Name, Event: e}
			if e.Rotate != nil {
				p.Rotate = e.Rotate
				label = *e.Rotate
			}
			if e.Txn != nil {
				tx := *e.Txn
				tx.Now = label
				label = tx.Next
				p.Txn = &tx
			}
			p.Boundary = label
			out = append(out, p)
		}
		file = ""
	}
	return out, nil
}

// Expected lists the transactions of a served stream.
func Expected(ps []*Packet) []*Txn {
	var out []*Txn
	for _, p := range ps {
		if p.Txn != nil {
			out = append(out, p.Txn)
		}
	}
	return out
}

// Describe prints the history for reports.
func (h *History) Describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "start %v\n", h.Start)
	for _, f := range h.Files {
		fmt.Fprintf(&b, "file %s (checksum alg %d, 4-byte ids %v, %s)\n", f.Name, f.Format.Alg, f.Format.ID4, f.Mode)
		for _, e := range f.Events {
			fmt.Fprintf(&b, "  %d..%d type %d %s", e.Start, e.End, e.Type, e.Desc)
			if e.Txn != nil {
				fmt.Fprintf(&b, "   <- ends transaction (%s, %d changes)", e.Txn.Note, len(e.Txn.Events))
			}
			b.WriteByte('\n')
			if b.Len() > 200000 {
				b.WriteString("...\n")
				return b.String()
			}
		}
	}
	return b.String()
}
