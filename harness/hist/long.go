package hist

import (
	"fmt"

	"verifharness/vals"
	"verifharness/wire"
)

// LongKinds are the shapes of Long.
var LongKinds = []string{"transactions", "changes", "rows", "files"}

// Long makes a history with n of something, for counters, capacities and
// tables that overflow only after a long time. It draws nothing.
func Long(kind string, n int, crc bool) *History {
	h := &History{Server: 1}
	g := &gen{h: h, ts: 1600000000, nextID: 1}
	for i := 0; i < 3; i++ {
		h.Tables = append(h.Tables, &Table{DB: "db", Name: fmt.Sprintf("t%d", i), Cols: []Column{{"id", vals.Int(4, true)}, {"v", vals.Int(2, false)}}})
	}
	name := func(i int) string { return fmt.Sprintf("mysql-bin.%06d", i+1) }
	open := func(i int) {
		f := &File{Name: name(i)}
		f.Format = wire.Format{ServerVersion: "8.0.32", HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 41)}
		if crc {
			f.Format.Alg = wire.AlgCRC32
		}
		f.FDE = f.Format.FDE(wire.Header{Timestamp: g.ts, ServerID: 1, NextPos: uint32(4 + 19 + len(f.Format.FDEBody(4, 0)) + 4)}, 4, g.ts)
		f.Base = uint32(4 + len(f.FDE))
		g.f, g.cur = f, f.Base
		h.Files = append(h.Files, f)
	}
	query := func(sql string) *Event {
		return g.put(wire.EvQuery, 0, wire.QuerySpec{SQL: sql, DB: "db"}.Body(), sql)
	}
	serial := uint32(0)
	change := func(id uint64, tb *Table, rows int, end bool) ExpEvent {
		s := wire.RowsSpec{Kind: wire.Insert, V2: true, ID: id, NCols: 2, After: []bool{true, true}}
		if end {
			s.Flags = 1
		}
		x := ExpEvent{Kind: "insert", IsRows: true, DB: tb.DB, Table: tb.Name, Timestamp: int64(g.ts)}
		for i := 0; i < rows; i++ {
			serial++
			a, b := wire.U64(uint64(serial))[:4], wire.U64(uint64(serial / 3))[:2]
			s.Afters = append(s.Afters, wire.Image{{Enc: a}, {Enc: b}})
			x.After = append(x.After, ExpRow{
				{Name: "id", Type: tb.Cols[0].Kind.Type, State: Present, Val: vals.Val{Enc: a, Want: []byte(fmt.Sprint(serial))}},
				{Name: "v", Type: tb.Cols[1].Kind.Type, State: Present, Val: vals.Val{Enc: b, Want: []byte(fmt.Sprint(int16(serial / 3)))}},
			})
		}
		g.put(wire.RowsType(wire.Insert, true), 0, s.Body(g.f.Format), "INSERT ROWS").Change = true
		return x
	}
	ddl := func() {
		serial++
		sql := fmt.Sprintf("create table x%d (a int)", serial)
		e := query(sql)
		e.Change = true
		g.commit(e, []ExpEvent{{Kind: "create", SQL: sql, QDB: "db", Timestamp: int64(g.ts)}}, sql)
	}
	open(0)
	switch kind {
	case "transactions":
		for i := 0; i < n; i++ {
			g.ts = 1600000000 + uint32(i/5)
			if i%7 == 6 {
				ddl()
				continue
			}
			from := len(g.f.Events)
			query("BEGIN")
			// three: no round number of announcements ends with a statement
			id := uint64(3*i + 1)
			for k := 0; k < 3; k++ {
				g.announce(h.Tables[(i+k)%3], id+uint64(k))
			}
			var evs []ExpEvent
			for k := 0; k < 2; k++ {
				evs = append(evs, change(id+uint64(k), h.Tables[(i+k)%3], 1, k == 1))
			}
			g.mark(from)
			if i%11 == 10 {
				g.commit(query("ROLLBACK"), nil, "ROLLBACK")
			} else {
				g.commit(g.put(wire.EvXID, 0, wire.U64(uint64(i)), "XID"), evs, "XID")
			}
		}
	case "changes", "rows":
		for k := 0; k < 2; k++ {
			from := len(g.f.Events)
			query("BEGIN")
			g.announce(h.Tables[k], uint64(9+k))
			var evs []ExpEvent
			if kind == "rows" {
				evs = append(evs, change(uint64(9+k), h.Tables[k], n, true))
			} else {
				for i := 0; i < n; i++ {
					evs = append(evs, change(uint64(9+k), h.Tables[k], 1, i == n-1))
				}
			}
			g.mark(from)
			g.commit(g.put(wire.EvXID, 0, wire.U64(5), "XID"), evs, "XID")
			ddl()
		}
	case "files":
		for i := 0; i < n; i++ {
			ddl()
			g.ts++
			e := g.put(wire.EvRotate, 0, wire.RotateBody(4, name(i+1)), "ROTATE")
			e.Rotate = &Pos{name(i + 1), 4}
			g.f.End = g.cur
			open(i + 1)
		}
		ddl()
	}
	g.f.End = g.cur
	h.Start = Pos{h.Files[0].Name, 4}
	return h
}
