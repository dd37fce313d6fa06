package rep

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/vals"
	"verifharness/wire"
)

// ---- C15 ----

// typeMeta lists every column type of a table map with the number and byte
// order of its metadata bytes.
var typeMeta = []struct {
	typ  byte
	n    int
	big  bool
	name string
}{
	{0, 0, false, "DECIMAL"}, {1, 0, false, "TINY"}, {2, 0, false, "SHORT"}, {3, 0, false, "LONG"}, {6, 0, false, "NULL"}, {7, 0, false, "TIMESTAMP"},
	{8, 0, false, "LONGLONG"}, {9, 0, false, "INT24"}, {10, 0, false, "DATE"}, {11, 0, false, "TIME"}, {12, 0, false, "DATETIME"}, {13, 0, false, "YEAR"}, {14, 0, false, "NEWDATE"},
	{4, 1, false, "FLOAT"}, {5, 1, false, "DOUBLE"}, {17, 1, false, "TIMESTAMP2"}, {18, 1, false, "DATETIME2"}, {19, 1, false, "TIME2"}, {245, 1, false, "JSON"},
	{249, 1, false, "TINYBLOB"}, {250, 1, false, "MEDIUMBLOB"}, {251, 1, false, "LONGBLOB"}, {252, 1, false, "BLOB"}, {255, 1, false, "GEOMETRY"},
	{246, 2, true, "NEWDECIMAL"}, {247, 2, true, "ENUM"}, {248, 2, true, "SET"}, {254, 2, true, "STRING"},
	{15, 2, false, "VARCHAR"}, {16, 2, false, "BIT"}, {253, 2, false, "VARSTRING"},
}

func metaCol(i int, v uint16, nullable bool) wire.Col {
	tm := typeMeta[i]
	c := wire.Col{Type: tm.typ, Nullable: nullable}
	switch {
	case tm.n == 1:
		v &= 0xff
		c.Meta = []byte{byte(v)}
	case tm.n == 2 && tm.big:
		c.Meta = []byte{byte(v >> 8), byte(v)}
	case tm.n == 2:
		c.Meta = []byte{byte(v), byte(v >> 8)}
	default:
		v = 0
	}
	c.MetaVal = v
	return c
}

func genName(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(rt, label+"-kind") {
	case 0:
		return ""
	case 1:
		return strings.Repeat("n", rapid.SampledFrom([]int{63, 64, 127, 128, 191, 192, 250, 251, 252, 253, 254, 255}).Draw(rt, label+"-len"))
	case 2:
		s := strings.Repeat("表名", rapid.IntRange(1, 32).Draw(rt, label+"-u"))
		return s
	case 3:
		return "a.b`c \x00\xfc"
	}
	return rapid.StringMatching(`[a-z_]{1,20}`).Draw(rt, label)
}

func checkTableMap(t fataler, f wire.Format, bf replication.BinlogFormat, spec wire.TableSpec) []byte {
	t.Helper()
	raw := f.Frame(wire.Header{Type: wire.EvTableMap, Timestamp: 3}, spec.Body(f))
	ev := event(t, f, bf, raw)
	keep := append([]byte(nil), ev.Bytes()...)
	what := fmt.Sprintf("table map %q.%q of %d columns (4-byte id %v, header %d, %d bytes of optional metadata)", spec.DB, spec.Name, len(spec.Cols), f.ID4, f.HeaderLen, len(spec.Optional))
	if !ev.IsTableMap() {
		t.Fatalf("%s is not recognised", what)
	}
	if got := ev.TableID(bf); got != spec.ID {
		t.Fatalf("%s: table id %d decodes to %d", what, spec.ID, got)
	}
	tm, err := tableMapOf(ev, bf)
	if err != nil {
		t.Fatalf("%s is not decoded: %v", what, err)
	}
	if tm.Flags != spec.Flags || tm.Database != spec.DB || tm.Name != spec.Name {
		t.Fatalf("%s decodes to flags %#x (want %#x), %q.%q", what, tm.Flags, spec.Flags, tm.Database, tm.Name)
	}
	if len(tm.Types) != len(spec.Cols) || len(tm.Metadata) != len(spec.Cols) || tm.CanBeNull.Count() != len(spec.Cols) {
		t.Fatalf("%s decodes to %d types, %d metadata values, %d nullability bits", what, len(tm.Types), len(tm.Metadata), tm.CanBeNull.Count())
	}
	for i, c := range spec.Cols {
		if tm.Types[i] != c.Type {
			t.Fatalf("%s: column %d has type %d, decoded %d", what, i, c.Type, tm.Types[i])
		}
		if tm.Metadata[i] != c.MetaVal {
			t.Fatalf("%s: column %d (type %d) has metadata bytes % x = %#x, decoded %#x", what, i, c.Type, c.Meta, c.MetaVal, tm.Metadata[i])
		}
		if tm.CanBeNull.Bit(i) != c.Nullable {
			t.Fatalf("%s: column %d nullable %v, decoded %v", what, i, c.Nullable, tm.CanBeNull.Bit(i))
		}
	}
	if !bytes.Equal(keep, ev.Bytes()) {
		t.Fatalf("%s: decoding changed the event", what)
	}
	return raw
}

func tableMapOf(ev replication.BinlogEvent, bf replication.BinlogFormat) (tm *replication.TableMap, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return ev.TableMap(bf)
}

func genOptional(rt *rapid.T) []byte {
	var b []byte
	if rapid.Bool().Draw(rt, "optional") {
		for n := rapid.IntRange(1, 5).Draw(rt, "fields"); n > 0; n-- {
			l := rapid.SampledFrom([]int{0, 1, 5, 250, 300}).Draw(rt, "flen")
			b = append(b, byte(rapid.IntRange(1, 12).Draw(rt, "ftype")))
			b = append(b, wire.LenEnc(uint64(l))...)
			b = append(b, vals.Bytes(3, l)...)
		}
	}
	return b
}

// genTableMap draws a table and a format.
func genTableMap(rt *rapid.T) (f wire.Format, spec wire.TableSpec) {
	f = genFormat(rt)
	spec = wire.TableSpec{ID: rapid.SampledFrom([]uint64{0, 1, 107, 255, 256, 65535, 65536, 1 << 24, 1<<32 - 1, 0x12345678}).Draw(rt, "id"), Flags: uint16(rapid.IntRange(0, 65535).Draw(rt, "flags"))}
	if !f.ID4 && rapid.Bool().Draw(rt, "wideid") {
		spec.ID = rapid.SampledFrom([]uint64{1 << 32, 1 << 40, 1<<48 - 1, 0x123456789abc, 0x800000000000}).Draw(rt, "idv")
	}
	spec.DB, spec.Name = genName(rt, "db"), genName(rt, "table")
	var n int
	switch rapid.IntRange(0, 4).Draw(rt, "width") {
	case 0:
		n = rapid.SampledFrom([]int{249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 1017, 4096}).Draw(rt, "n")
	case 1:
		n = rapid.IntRange(20, 130).Draw(rt, "n")
	default:
		n = rapid.IntRange(1, 20).Draw(rt, "n")
	}
	r := vals.PRNG(rapid.Uint64().Draw(rt, "cols"))
	only := rapid.IntRange(-2, len(typeMeta)-1).Draw(rt, "onetype")
	for i := 0; i < n; i++ {
		j := int(r.Next() % uint64(len(typeMeta)))
		if only >= 0 {
			j = only
		}
		spec.Cols = append(spec.Cols, metaCol(j, uint16(r.Next()), r.Next()%2 == 0))
	}
	spec.Optional = genOptional(rt)
	return
}

func TestC15(t *testing.T) {
	cov.Rule("a case is a framed table-map event; non-trivial when it has at least two columns or metadata, and names; distinct by event bytes")
	cov.Check(t, "table-maps", 20000, 400000, func(rt *rapid.T) {
		f, spec := genTableMap(rt)
		n := len(spec.Cols)
		raw := checkTableMap(rt, f, format(rt, f), spec)
		if n >= 251 {
			cov.Class("251 columns or more")
		}
		if len(spec.Optional) > 0 {
			cov.Class("optional metadata")
		}
		if f.ID4 {
			cov.Class("4-byte table id")
		}
		cov.Note(n > 1, string(raw), func() string {
			return fmt.Sprintf("table map id %d %q.%q, %d columns, checksum %d, 4-byte id %v", spec.ID, spec.DB, spec.Name, n, f.Alg, f.ID4)
		})
	})
	sideBySide(t, 300, 8000, 20, func(rt *rapid.T) (task, string) {
		f, spec := genTableMap(rt)
		bf := format(rt, f)
		return func(t fataler) { checkTableMap(t, f, bf, spec) }, fmt.Sprintf("%q.%q, %d columns", spec.DB, spec.Name, len(spec.Cols))
	})
	cov.Loop(t, "every-width-and-type", func(t *testing.T) {
		f := wire.Format{ServerVersion: "8.0.33", HeaderLen: 19, Alg: wire.AlgCRC32, Sizes: wire.PostHeaderSizes(false, 41)}
		bf := format(t, f)
		r := vals.PRNG(11)
		var n int64
		for w := 1; w <= cov.N(600, 4096); w++ {
			spec := wire.TableSpec{ID: uint64(w), Flags: 1, DB: "d", Name: "t", Optional: []byte{1, 2, 3}}
			for i := 0; i < w; i++ {
				spec.Cols = append(spec.Cols, metaCol(int(r.Next()%uint64(len(typeMeta))), uint16(r.Next()), r.Next()%2 == 0))
			}
			checkTableMap(t, f, bf, spec)
			n++
		}
		for ty := range typeMeta {
			step := 1
			if typeMeta[ty].n == 2 {
				step = cov.N(97, 1)
			}
			for m := 0; m < 1<<(8*uint(typeMeta[ty].n)); m += step {
				checkTableMap(t, f, bf, wire.TableSpec{ID: 5, DB: "d", Name: "t", Cols: []wire.Col{metaCol(0, 0, true), metaCol(ty, uint16(m), false), metaCol(ty, ^uint16(m), true), metaCol(3, 0, true)}})
				n++
			}
		}
		for l := 0; l <= 255; l++ {
			checkTableMap(t, f, bf, wire.TableSpec{ID: 5, DB: strings.Repeat("d", l), Name: strings.Repeat("t", 255-l), Cols: []wire.Col{metaCol(3, 0, true)}})
			n++
		}
		cov.NoteMany(n, "every column count up to the tier's bound, the metadata values of every column type, every name length")
	})
}

// ---- C16 ----

type headerer interface {
	Type() byte
	Flags() uint16
	ServerID() uint32
	Length() uint32
}

// is lists the type predicates that hold.
func is(ev replication.BinlogEvent) string {
	var s []string
	for _, p := range []struct {
		n string
		b bool
	}{{"FormatDescription", ev.IsFormatDescription()}, {"Query", ev.IsQuery()}, {"XID", ev.IsXID()}, {"GTID", ev.IsGTID()}, {"Rotate", ev.IsRotate()}, {"IntVar", ev.IsIntVar()}, {"Rand", ev.IsRand()},
		{"PreviousGTIDs", ev.IsPreviousGTIDs()}, {"RowsQuery", ev.IsRowsQuery()}, {"TableMap", ev.IsTableMap()}, {"WriteRows", ev.IsWriteRows()}, {"UpdateRows", ev.IsUpdateRows()}, {"DeleteRows", ev.IsDeleteRows()}, {"Pseudo", ev.IsPseudo()}} {
		if p.b {
			s = append(s, p.n)
		}
	}
	return strings.Join(s, "+")
}

func wantIs(typ byte, maria bool) string {
	switch typ {
	case 2:
		return "Query"
	case 4:
		return "Rotate"
	case 5:
		return "IntVar"
	case 13:
		return "Rand"
	case 15:
		return "FormatDescription"
	case 16:
		return "XID"
	case 19:
		return "TableMap"
	case 23, 30:
		return "WriteRows"
	case 24, 31:
		return "UpdateRows"
	case 25, 32:
		return "DeleteRows"
	case 29:
		return "RowsQuery"
	case 33:
		if !maria {
			return "GTID"
		}
	case 35:
		return "PreviousGTIDs"
	case 162:
		if maria {
			return "GTID"
		}
	}
	return ""
}

func checkHeader(t fataler, ev replication.BinlogEvent, h wire.Header, length int, maria bool) {
	t.Helper()
	if ev.Timestamp() != h.Timestamp {
		t.Fatalf("timestamp %d decodes to %d", h.Timestamp, ev.Timestamp())
	}
	if ev.NextPosition() != int64(h.NextPos) {
		t.Fatalf("next position %d decodes to %d", h.NextPos, ev.NextPosition())
	}
	if x, ok := ev.(headerer); ok {
		if x.Type() != h.Type || x.Flags() != h.Flags || x.ServerID() != h.ServerID || x.Length() != uint32(length) {
			t.Fatalf("header %+v of length %d decodes to type %d, flags %#x, server %d, length %d", h, length, x.Type(), x.Flags(), x.ServerID(), x.Length())
		}
	}
	if got, want := is(ev), wantIs(h.Type, maria); got != want {
		t.Fatalf("event type %d is recognised as %q, is %q", h.Type, got, want)
	}
}

func genHeader(rt *rapid.T, typ byte) wire.Header {
	u32 := func(l string) uint32 {
		if rapid.Bool().Draw(rt, l+"-edge") {
			return rapid.SampledFrom([]uint32{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304, 0xfffefdfc}).Draw(rt, l)
		}
		return rapid.Uint32().Draw(rt, l)
	}
	return wire.Header{Type: typ, Timestamp: u32("timestamp"), ServerID: u32("serverid"), NextPos: u32("nextpos"), Flags: rapid.Uint16().Draw(rt, "hflags")}
}

// genQuery draws a query event and makes the task that decodes and compares it.
func genQuery(rt *rapid.T) (check task, raw []byte, charset bool) {
	f := genFormat(rt)
	bf := format(rt, f)
	h := genHeader(rt, wire.EvQuery)
	q := wire.QuerySpec{ThreadID: rapid.Uint32().Draw(rt, "thread"), ExecTime: rapid.Uint32().Draw(rt, "exec"), ErrCode: rapid.Uint16().Draw(rt, "errcode"), DB: genName(rt, "db")}
	var cs *[3]int32
	switch rapid.IntRange(0, 9).Draw(rt, "varskind") {
	case 0:
	case 1:
		q.Vars, cs = hist.GenVars(rt)
		// MariaDB: Q_HRNOW, Q_XID, Q_GTID_FLAGS3
		q.Vars = append(q.Vars, 128, 4, 4, 4, 129, 4, 4, 4, 4, 4, 4, 4, 4, 130, 4, 4)
	case 2:
		q.Vars, cs = hist.GenVars(rt)
		// a code of a later server, whose size is not known
		q.Vars = append(q.Vars, byte(rapid.IntRange(19, 255).Draw(rt, "newcode")))
		q.Vars = append(q.Vars, vals.Bytes(4, rapid.SampledFrom([]int{0, 1, 9, 5000}).Draw(rt, "newlen"))...)
	default:
		q.Vars, cs = hist.GenVars(rt)
	}
	switch rapid.IntRange(0, 4).Draw(rt, "sqlkind") {
	case 0:
		q.SQL = ""
	case 1:
		q.SQL = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "sqlb"))
	case 2:
		q.SQL = strings.Repeat("insert into t values (1);\n", rapid.IntRange(1, 700).Draw(rt, "sqln"))
	default:
		q.SQL = rapid.String().Draw(rt, "sql")
	}
	raw = f.Frame(h, q.Body())
	check = func(t fataler) {
		t.Helper()
		ev := event(t, f, bf, raw)
		checkHeader(t, ev, h, len(raw), f.Maria)
		got, err := ev.Query(bf)
		if err != nil {
			t.Fatalf("query in %q with status variables % x: %v", q.DB, clip(q.Vars), err)
		}
		if got.Database != q.DB || got.SQL != q.SQL {
			t.Fatalf("query %q in %q with status variables % x decodes to %q in %q", q.SQL, q.DB, clip(q.Vars), got.SQL, got.Database)
		}
		switch {
		case (cs == nil) != (got.Charset == nil):
			t.Fatalf("query with status variables % x decodes to charset %v, should be %v", clip(q.Vars), got.Charset, cs)
		case cs != nil && (got.Charset.Client != cs[0] || got.Charset.Conn != cs[1] || got.Charset.Server != cs[2]):
			t.Fatalf("query with status variables % x decodes to charset %v, should be %v", clip(q.Vars), got.Charset, *cs)
		}
	}
	return check, raw, cs != nil
}

// genRotate draws a rotate event and makes the task that decodes and compares it.
func genRotate(rt *rapid.T) (task, []byte) {
	f := genFormat(rt)
	bf := format(rt, f)
	h := genHeader(rt, wire.EvRotate)
	pos := rapid.SampledFrom([]uint64{4, 0, 120, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 5, 1<<63 - 1, 0x0102030405060708}).Draw(rt, "pos")
	name := rapid.OneOf(rapid.StringMatching(`[a-z-]{1,20}\.[0-9]{6}`), rapid.StringN(0, 100, 255), rapid.Just(strings.Repeat("f", 511))).Draw(rt, "name")
	raw := f.Frame(h, wire.RotateBody(pos, name))
	return func(t fataler) {
		t.Helper()
		ev := event(t, f, bf, raw)
		checkHeader(t, ev, h, len(raw), f.Maria)
		gn, gp, err := ev.Rotate(bf)
		if err != nil || gn != name || gp != int64(pos) {
			t.Fatalf("rotate to %q:%d (checksum %d, header %d) decodes to %q:%d, %v", name, pos, f.Alg, f.HeaderLen, gn, gp, err)
		}
	}, raw
}

// genFDE draws a format description and makes the task that decodes and
// compares it.
func genFDE(rt *rapid.T) (task, []byte) {
	f := genFormat(rt)
	switch rapid.IntRange(0, 3).Draw(rt, "sv") {
	case 0:
		f.ServerVersion = strings.Repeat("v", rapid.IntRange(0, 50).Draw(rt, "svlen"))
	case 1:
		f.ServerVersion = rapid.StringMatching(`[0-9]\.[0-9]{1,2}\.[0-9]{1,2}(-[a-zA-Z]{1,10}){0,3}`).Draw(rt, "sv")
	}
	f.HeaderLen = byte(rapid.IntRange(19, 255).Draw(rt, "hl"))
	f.Alg = rapid.SampledFrom([]byte{0, 1, 255, 0, 1, 2, 127}).Draw(rt, "alg")
	f.Sizes = rapid.SliceOfN(rapid.Byte(), 0, 170).Draw(rt, "sizes")
	h := genHeader(rt, wire.EvFDE)
	raw := f.FDE(h, 4, rapid.Uint32().Draw(rt, "created"))
	return func(t fataler) {
		t.Helper()
		ev := replication.NewMysql56BinlogEvent(raw)
		if f.Maria {
			ev = replication.NewMariadbBinlogEvent(raw)
		}
		if !ev.IsValid() {
			t.Fatalf("format description refused: % x", raw)
		}
		checkHeader(t, ev, h, len(raw), f.Maria)
		bf, err := ev.Format()
		if err != nil {
			t.Fatalf("format description of %q: %v", f.ServerVersion, err)
		}
		if bf.FormatVersion != 4 || bf.ServerVersion != f.ServerVersion || bf.HeaderLength != f.HeaderLen || bf.ChecksumAlgorithm != f.Alg || !bytes.Equal(bf.HeaderSizes, f.Sizes) || bf.IsZero() {
			t.Fatalf("format description (version 4, server %q, header length %d, algorithm %d, sizes % x) decodes to %+v", f.ServerVersion, f.HeaderLen, f.Alg, f.Sizes, bf)
		}
		for i, s := range f.Sizes {
			if bf.HeaderSize(byte(i+1)) != s {
				t.Fatalf("post-header size of event type %d is %d, decoded %d", i+1, s, bf.HeaderSize(byte(i+1)))
			}
		}
	}, raw
}

func TestC16(t *testing.T) {
	cov.Rule("a case is a framed header or control event decoded against the fields it was written from, with or without checksum; non-trivial when its body is not empty and its header fields are not all zero; distinct by event bytes")
	note := func(raw []byte, what string) {
		cov.Class(what)
		cov.Note(true, string(raw), func() string { return fmt.Sprintf("%s, %d bytes: % x", what, len(raw), clip(raw)) })
	}
	cov.Check(t, "headers", 12000, 300000, func(rt *rapid.T) {
		f := genFormat(rt)
		bf := format(rt, f)
		typ := byte(rapid.IntRange(0, 255).Draw(rt, "type"))
		h := genHeader(rt, typ)
		body := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "body")
		if typ == wire.EvFDE {
			return
		}
		raw := f.Frame(h, body)
		ev := event(rt, f, bf, raw)
		checkHeader(rt, ev, h, len(raw), f.Maria)
		want := raw
		if f.Alg == wire.AlgCRC32 {
			want = raw[:len(raw)-4]
		}
		if !bytes.Equal(ev.Bytes(), want) {
			rt.Fatalf("event bytes after checksum handling: % x, want % x", clip(ev.Bytes()), clip(want))
		}
		note(raw, "header")
	})
	cov.Check(t, "format-descriptions", 12000, 300000, func(rt *rapid.T) {
		check, raw := genFDE(rt)
		check(rt)
		note(raw, "format description")
	})
	cov.Check(t, "queries", 25000, 500000, func(rt *rapid.T) {
		check, raw, charset := genQuery(rt)
		check(rt)
		if charset {
			cov.Class("query with charset")
		}
		note(raw, "query")
	})
	cov.Check(t, "rotates", 8000, 200000, func(rt *rapid.T) {
		check, raw := genRotate(rt)
		check(rt)
		note(raw, "rotate")
	})
	sideBySide(t, 400, 10000, 20, func(rt *rapid.T) (task, string) {
		switch rapid.IntRange(0, 2).Draw(rt, "event") {
		case 0:
			check, raw := genRotate(rt)
			return check, fmt.Sprintf("rotate % x", clip(raw))
		case 1:
			check, raw := genFDE(rt)
			return check, fmt.Sprintf("format description % x", clip(raw))
		}
		check, raw, _ := genQuery(rt)
		return check, fmt.Sprintf("query % x", clip(raw))
	})
	cov.Check(t, "xid-intvar-rand", 8000, 200000, func(rt *rapid.T) {
		f := genFormat(rt)
		bf := format(rt, f)
		a, b := rapid.Uint64().Draw(rt, "a"), rapid.Uint64().Draw(rt, "b")
		switch rapid.IntRange(0, 2).Draw(rt, "which") {
		case 0:
			h := genHeader(rt, wire.EvXID)
			raw := f.Frame(h, wire.U64(a))
			checkHeader(rt, event(rt, f, bf, raw), h, len(raw), f.Maria)
			note(raw, "xid")
		case 1:
			h := genHeader(rt, wire.EvIntVar)
			k := byte(rapid.IntRange(1, 2).Draw(rt, "k"))
			raw := f.Frame(h, append([]byte{k}, wire.U64(a)...))
			ev := event(rt, f, bf, raw)
			checkHeader(rt, ev, h, len(raw), f.Maria)
			gk, gv, err := ev.IntVar(bf)
			if err != nil || gk != k || gv != a {
				rt.Fatalf("int-var %d=%d decodes to %d=%d, %v", k, a, gk, gv, err)
			}
			note(raw, "int-var")
		default:
			h := genHeader(rt, wire.EvRand)
			raw := f.Frame(h, append(wire.U64(a), wire.U64(b)...))
			ev := event(rt, f, bf, raw)
			checkHeader(rt, ev, h, len(raw), f.Maria)
			ga, gb, err := ev.Rand(bf)
			if err != nil || ga != a || gb != b {
				rt.Fatalf("rand %d,%d decodes to %d,%d, %v", a, b, ga, gb, err)
			}
			note(raw, "rand")
		}
	})
	cov.Check(t, "checksum-or-not", 6000, 150000, func(rt *rapid.T) {
		// rows and table maps: the same event in a stream with and without CRC32
		s := genShape(rt)
		f := genFormat(rt)
		with, without := f, f
		with.Alg, without.Alg = wire.AlgCRC32, rapid.SampledFrom([]byte{wire.AlgOff, wire.AlgUndef}).Draw(rt, "noalg")
		spec := s.spec(7)
		rng := vals.PRNG(rapid.Uint64().Draw(rt, "values"))
		r := wire.RowsSpec{Kind: wire.RowsKind(rapid.IntRange(0, 2).Draw(rt, "kind")), ID: 7, NCols: len(s.cols)}
		all := make([]bool, len(s.cols))
		for i := range all {
			all[i] = true
		}
		r.Before, r.After = all, all
		for i := 0; i < 2; i++ {
			img, _ := s.image(rt, rng, all)
			r.Befores, r.Afters = append(r.Befores, img), append(r.Afters, img)
		}
		h := genHeader(rt, wire.EvTableMap)
		dec := func(f wire.Format) string {
			bf := format(rt, f)
			tm, err := tableMapOf(event(rt, f, bf, f.Frame(h, spec.Body(f))), bf)
			if err != nil {
				rt.Fatalf("table map (checksum %d) fails: %v", f.Alg, err)
			}
			h2 := h
			h2.Type = wire.RowsType(r.Kind, false)
			ev := event(rt, f, bf, f.Frame(h2, r.Body(f)))
			rows, err := rowsOf(ev, bf, tm)
			if err != nil {
				rt.Fatalf("rows event (checksum %d) fails: %v", f.Alg, err)
			}
			out := fmt.Sprintf("%q.%q %d %v %v %d %d %d\n", tm.Database, tm.Name, tm.Flags, tm.Types, tm.Metadata, rows.Flags, ev.TableID(bf), len(rows.Rows))
			for _, x := range rows.Rows {
				out += fmt.Sprintf("%x|%x\n", x.Identify, x.Data)
			}
			return out
		}
		a, b := dec(with), dec(without)
		if a != b {
			rt.Fatalf("with CRC32 the events decode to\n%s\nwithout to\n%s", wire.Trunc([]byte(a)), wire.Trunc([]byte(b)))
		}
		note([]byte(a), "rows with and without checksum")
	})
}

// ---- C17, the gate ----

func gate(t fataler, b []byte) bool {
	t.Helper()
	want := len(b) >= 19 && binary.LittleEndian.Uint32(b[9:]) == uint32(len(b)) && uint64(len(b)) <= 1<<32-1
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic on % x: %v", clip(b), r)
		}
	}()
	keep := append([]byte(nil), b...)
	for _, ev := range []replication.BinlogEvent{replication.NewMysql56BinlogEvent(b), replication.NewMariadbBinlogEvent(b)} {
		if got := ev.IsValid(); got != want {
			t.Fatalf("IsValid of a %d byte buffer % x is %v", len(b), clip(b), got)
		}
		if !want {
			continue
		}
		h := wire.Header{Timestamp: binary.LittleEndian.Uint32(b), Type: b[4], ServerID: binary.LittleEndian.Uint32(b[5:]), NextPos: binary.LittleEndian.Uint32(b[13:]), Flags: binary.LittleEndian.Uint16(b[17:])}
		maria := strings.Contains(fmt.Sprintf("%T", ev), "aria")
		checkHeader(t, ev, h, len(b), maria)
		if !bytes.Equal(ev.Bytes(), b) {
			t.Fatalf("Bytes() differs from the accepted buffer")
		}
	}
	if !bytes.Equal(keep, b) {
		t.Fatalf("the gate changed the buffer % x", clip(keep))
	}
	return want
}

// large is gate without looking at all of the bytes.
func large(t fataler, b []byte) {
	t.Helper()
	want := len(b) >= 19 && binary.LittleEndian.Uint32(b[9:]) == uint32(len(b))
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic on a %d byte buffer % x..: %v", len(b), b[:19], r)
		}
	}()
	for _, ev := range []replication.BinlogEvent{replication.NewMysql56BinlogEvent(b), replication.NewMariadbBinlogEvent(b)} {
		if got := ev.IsValid(); got != want {
			t.Fatalf("IsValid of a %d byte buffer % x.. is %v", len(b), b[:19], got)
		}
		if want && (ev.Timestamp() != binary.LittleEndian.Uint32(b) || len(ev.Bytes()) != len(b) || ev.IsFormatDescription() != (b[4] == 15)) {
			t.Fatalf("the header of an accepted %d byte buffer % x.. reads wrong", len(b), b[:19])
		}
	}
}

func TestC17(t *testing.T) {
	cov.Rule("a case is a byte buffer or a packet stream with a malformed packet; non-trivial when the buffer holds at least a header; distinct by bytes")
	cov.Check(t, "gate", 40000, 2000000, func(rt *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 9, 12, 13, 18, 19, 20, 23, 255, 256, 257, 65535, 65536})).Draw(rt, "len")
		b := vals.Bytes(rapid.Uint64().Draw(rt, "bytes"), n)
		what := "random length field"
		if n >= 13 {
			switch rapid.IntRange(0, 6).Draw(rt, "field") {
			case 0, 1, 2:
				binary.LittleEndian.PutUint32(b[9:], uint32(n))
				what = "correct length field"
			case 3:
				d := rapid.SampledFrom([]int{-19, -4, -1, 1, 4, 19, 256, 1 << 16, 1 << 24, -(1 << 31)}).Draw(rt, "off")
				binary.LittleEndian.PutUint32(b[9:], uint32(n+d))
				what = "length field off by some"
			case 4:
				binary.BigEndian.PutUint32(b[9:], uint32(n))
				what = "length field in the other byte order"
			case 5:
				binary.LittleEndian.PutUint32(b[9:], uint32(rapid.SampledFrom([]int{0, 1, 18, 19}).Draw(rt, "small")))
				what = "small length field"
			}
		}
		ok := gate(rt, b)
		cov.Class(fmt.Sprintf("%s accepted=%v", what, ok))
		cov.Note(n >= 19, string(b), func() string { return fmt.Sprintf("%d bytes, %s, accepted %v: % x", n, what, ok, clip(b)) })
	})
	cov.Check(t, "cut-and-grown-events", 20000, 500000, func(rt *rapid.T) {
		f := genFormat(rt)
		typ := byte(rapid.IntRange(0, 255).Draw(rt, "type"))
		raw := f.Frame(genHeader(rt, typ), rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "body"))
		switch rapid.IntRange(0, 2).Draw(rt, "how") {
		case 0:
			raw = raw[:rapid.IntRange(0, len(raw)).Draw(rt, "cut")]
		case 1:
			raw = append(raw, vals.Bytes(1, rapid.IntRange(1, 300).Draw(rt, "grow"))...)
		default:
			raw = raw[rapid.IntRange(0, len(raw)).Draw(rt, "skip"):]
		}
		ok := gate(rt, raw)
		cov.Class(fmt.Sprintf("damaged event accepted=%v", ok))
		cov.Note(len(raw) >= 19, string(raw), func() string {
			return fmt.Sprintf("damaged event of type %d, %d bytes, accepted %v", typ, len(raw), ok)
		})
	})
	cov.Loop(t, "large-buffers", func(t *testing.T) {
		// around each power of two and the largest packet, with right and wrong lengths
		top := 1 << 25
		if cov.N(0, 1) == 1 {
			top = 1 << 27
		}
		var ls []int
		for p := 1 << 11; p <= top; p *= 2 {
			ls = append(ls, p-1, p, p+1)
		}
		ls = append(ls, 1<<24-19, 1<<24-2, 3<<20, 10_000_000, 1<<24+1<<20)
		b := make([]byte, top+1)
		copy(b, vals.Bytes(uint64(top), 4096))
		n := int64(0)
		for _, l := range ls {
			for _, d := range []int{0, 1, -1, 4, -4, 1 << 8, 1 << 16, 1 << 24, -1 << 8, -1 << 16, -1 << 24, -l} {
				binary.LittleEndian.PutUint32(b[9:], uint32(l+d))
				large(t, b[:l])
				n++
			}
			// whatever the event says it is
			binary.LittleEndian.PutUint32(b[9:], uint32(l))
			keep := append([]byte(nil), b[:19]...)
			for typ := 0; typ < 256; typ++ {
				b[4] = byte(typ)
				for _, fill := range []byte{0, 255, byte(typ)} {
					for _, i := range []int{0, 1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 16, 17, 18} {
						b[i] = fill
					}
					large(t, b[:l])
					n++
				}
			}
			copy(b, keep)
		}
		cov.NoteMany(n, "buffers around every power of two up to the tier's bound, right and wrong length fields")
	})
	cov.Loop(t, "lengths", func(t *testing.T) {
		var n int64
		for l := 0; l <= cov.N(300, 1200); l++ {
			b := vals.Bytes(uint64(l), l)
			if l >= 13 {
				for v := 0; v <= l+40; v++ {
					binary.LittleEndian.PutUint32(b[9:], uint32(v))
					gate(t, b)
					n++
				}
				for bit := uint(0); bit < 32; bit++ {
					binary.LittleEndian.PutUint32(b[9:], uint32(l)^1<<bit)
					gate(t, b)
					n++
				}
				binary.LittleEndian.PutUint32(b[9:], uint32(l))
			}
			gate(t, b)
			n++
		}
		gate(t, nil)
		cov.NoteMany(n, "every buffer length up to the tier's bound with every nearby and every one-bit-off length field")
	})
}
