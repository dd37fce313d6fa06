package e2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// typeNames is the documented naming of MySQL's column types.
var typeNames = map[int]string{
	0: "Decimal", 1: "Tiny", 2: "Short", 3: "Long", 4: "Float", 5: "Double", 6: "Null", 7: "Timestamp", 8: "LongLong", 9: "Int24",
	10: "Date", 11: "Time", 12: "DateTime", 13: "Year", 14: "NewDate", 15: "Varchar", 16: "Bit", 17: "Timestamp2", 18: "DateTime2",
	19: "Time2", 245: "JSON", 246: "NewDecimal", 247: "Enum", 248: "Set", 249: "TinyBlob", 250: "MediumBlob", 251: "LongBlob",
	252: "Blob", 253: "VarString", 254: "String", 255: "Geometry",
}

var stmtNames = map[gobinlog.StatementType]string{
	gobinlog.StatementInsert: "insert", gobinlog.StatementUpdate: "update", gobinlog.StatementDelete: "delete",
	gobinlog.StatementCreate: "create", gobinlog.StatementAlter: "alter", gobinlog.StatementDrop: "drop",
	gobinlog.StatementTruncate: "truncate", gobinlog.StatementRename: "rename", gobinlog.StatementSet: "set",
	gobinlog.StatementBegin: "begin", gobinlog.StatementCommit: "commit", gobinlog.StatementRollback: "rollback",
}

// duplicates looks for objects with the same key twice.
func duplicates(b []byte) error {
	d := json.NewDecoder(bytes.NewReader(b))
	var walk func() error
	walk = func() error {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return err
				}
				if seen[k.(string)] {
					return fmt.Errorf("key %q occurs twice in an object", k)
				}
				seen[k.(string)] = true
				if err := walk(); err != nil {
					return err
				}
			}
			_, err = d.Token()
		case json.Delim('['):
			for d.More() {
				if err := walk(); err != nil {
					return err
				}
			}
			_, err = d.Token()
		}
		return err
	}
	if err := walk(); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("something follows the document")
	}
	return nil
}

type obj = map[string]interface{}

func str(o obj, key, want string) error {
	v, ok := o[key]
	if !ok {
		return fmt.Errorf("%q is missing", key)
	}
	s, ok := v.(string)
	if !ok {
		return fmt.Errorf("%q is %v, not a string", key, v)
	}
	if utf8.ValidString(want) && s != want {
		return fmt.Errorf("%q is %q, should be %q", key, s, want)
	}
	if s == "" && want != "" {
		// how other data is written is open, but it is not the empty string
		return fmt.Errorf("%q is empty, for %q", key, want)
	}
	return nil
}

func sub(o obj, key string) (obj, error) {
	v, ok := o[key].(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("%q is %v, not an object", key, o[key])
	}
	return v, nil
}

func list(o obj, key string) ([]interface{}, error) {
	v, ok := o[key]
	if !ok || v == nil {
		return nil, nil
	}
	l, ok := v.([]interface{})
	if !ok {
		return nil, fmt.Errorf("%q is %v, not a list", key, v)
	}
	return l, nil
}

func position(o obj, key string, p gobinlog.Position) error {
	x, err := sub(o, key)
	if err != nil {
		return err
	}
	if err := str(x, "filename", p.Filename); err != nil {
		return fmt.Errorf("%s: %w", key, err)
	}
	if n, ok := x["offset"].(json.Number); !ok || n.String() != fmt.Sprint(p.Offset) {
		return fmt.Errorf("%s: offset is %v, should be %d", key, x["offset"], p.Offset)
	}
	return nil
}

func rowsJSON(o obj, key string, want []*gobinlog.RowData) error {
	l, err := list(o, key)
	if err != nil {
		return err
	}
	if len(l) != len(want) {
		return fmt.Errorf("%s has %d rows, should be %d", key, len(l), len(want))
	}
	for i, w := range want {
		if w == nil {
			continue
		}
		r, ok := l[i].(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s row %d is %v", key, i, l[i])
		}
		cs, err := list(r, "Columns")
		if err != nil {
			return err
		}
		if len(cs) != len(w.Columns) {
			return fmt.Errorf("%s row %d has %d columns, should be %d", key, i, len(cs), len(w.Columns))
		}
		for k, c := range w.Columns {
			x, ok := cs[k].(map[string]interface{})
			if !ok {
				return fmt.Errorf("%s row %d column %d is %v", key, i, k, cs[k])
			}
			at := func(err error) error { return fmt.Errorf("%s row %d column %d: %w", key, i, k, err) }
			if err := str(x, "filed", c.Filed); err != nil {
				return at(err)
			}
			if n, ok := typeNames[int(c.Type)]; ok {
				if err := str(x, "type", n); err != nil {
					return at(err)
				}
			} else if _, ok := x["type"].(string); !ok {
				return at(fmt.Errorf("type is %v", x["type"]))
			}
			if b, ok := x["isEmpty"].(bool); !ok || b != c.IsEmpty {
				return at(fmt.Errorf("isEmpty is %v, should be %v", x["isEmpty"], c.IsEmpty))
			}
			d, ok := x["data"]
			if !ok {
				return at(fmt.Errorf("data is missing"))
			}
			if c.Data == nil {
				if d != nil {
					return at(fmt.Errorf("NULL is rendered as %#v", d))
				}
			} else if err := str(x, "data", string(c.Data)); err != nil {
				return at(err)
			}
		}
	}
	return nil
}

// parsed compares a rendering with the transaction it is of.
func parsed(b []byte, tx *gobinlog.Transaction) error {
	if !json.Valid(b) {
		return fmt.Errorf("not well-formed")
	}
	if !utf8.Valid(b) {
		return fmt.Errorf("not UTF-8")
	}
	if err := duplicates(b); err != nil {
		return err
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var o obj
	if err := d.Decode(&o); err != nil {
		return err
	}
	if err := position(o, "nowPosition", tx.NowPosition); err != nil {
		return err
	}
	if err := position(o, "nextPosition", tx.NextPosition); err != nil {
		return err
	}
	evs, err := list(o, "events")
	if err != nil {
		return err
	}
	if len(evs) != len(tx.Events) {
		return fmt.Errorf("%d events, should be %d", len(evs), len(tx.Events))
	}
	for i, w := range tx.Events {
		at := func(err error) error { return fmt.Errorf("event %d: %w", i, err) }
		x, ok := evs[i].(map[string]interface{})
		if !ok {
			return at(fmt.Errorf("is %v", evs[i]))
		}
		if n, ok := stmtNames[w.Type]; ok {
			if err := str(x, "type", n); err != nil {
				return at(err)
			}
		}
		n, err := sub(x, "name")
		if err != nil {
			return at(err)
		}
		if err := str(n, "db", w.Table.DbName); err != nil {
			return at(err)
		}
		if err := str(n, "table", w.Table.TableName); err != nil {
			return at(err)
		}
		if w.Query.SQL != "" {
			if err := str(x, "sql", w.Query.SQL); err != nil {
				return at(err)
			}
			continue
		}
		if s, ok := x["sql"]; ok && s != "" {
			return at(fmt.Errorf("a row change has the statement %v", s))
		}
		if err := rowsJSON(x, "rowValues", w.RowValues); err != nil {
			return at(err)
		}
		if err := rowsJSON(x, "rowIdentifies", w.RowIdentifies); err != nil {
			return at(err)
		}
	}
	return nil
}

// serialised renders a transaction in the ways a caller may.
func serialised(rt run.T, tx *gobinlog.Transaction) {
	rt.Helper()
	before := run.Snap(tx)
	b, err := json.Marshal(tx)
	if err != nil {
		rt.Fatalf("json.Marshal fails: %v\ntransaction %+v", err, show(tx))
	}
	if err := parsed(b, tx); err != nil {
		rt.Fatalf("%v\nJSON: %q\ntransaction %s", err, clipped(b), show(tx))
	}
	if err := run.Same(tx, before); err != nil {
		rt.Fatalf("serialising changed the transaction: %v", err)
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode([]interface{}{tx}); err != nil {
		rt.Fatalf("an indenting encoder fails: %v\ntransaction %s", err, show(tx))
	}
	var l []json.RawMessage
	if err := json.Unmarshal(buf.Bytes(), &l); err != nil || len(l) != 1 {
		rt.Fatalf("an indenting encoder's output is not well-formed: %v\n%s", err, buf.Bytes())
	}
	if err := parsed(l[0], tx); err != nil {
		rt.Fatalf("with an indenting encoder: %v\nJSON: %q\ntransaction %s", err, clipped(l[0]), show(tx))
	}
	if d, err := tx.MarshalJSON(); err != nil || parsed(d, tx) != nil {
		rt.Fatalf("MarshalJSON: %v %v\ntransaction %s", err, parsed(d, tx), show(tx))
	}
}

func clipped(b []byte) []byte {
	if len(b) > 4000 {
		return append(append([]byte{}, b[:4000]...), "..."...)
	}
	return b
}

func show(tx *gobinlog.Transaction) string {
	s := fmt.Sprintf("%+v..%+v", tx.NowPosition, tx.NextPosition)
	for _, e := range tx.Events {
		s += fmt.Sprintf("\n  %v %q sql %q", e.Type, e.Table, e.Query.SQL)
		for _, r := range append(append([]*gobinlog.RowData{}, e.RowIdentifies...), e.RowValues...) {
			for _, c := range r.Columns {
				s += fmt.Sprintf(" [%q %v empty %v nil %v %q]", c.Filed, c.Type, c.IsEmpty, c.Data == nil, c.Data)
			}
		}
	}
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func genText(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(rt, label+"kind") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "null", "\"", "\\", "\\u0041", "\x00", "\x1f\x7f", "</script>&", "\u2028\u2029", "\xff", "a\xc3", "\xed\xa0\x80", "😀", "\ufffd", "{\"a\":1}", "'", "\t\n\r\b\f", "\ufeff"}).Draw(rt, label)
	case 1:
		return rapid.StringN(0, 20, -1).Draw(rt, label)
	case 2:
		b := rapid.SliceOfN(rapid.ByteRange(0, 0x3f), 0, 12).Draw(rt, label)
		return string(b)
	case 3:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "\"", "é", "\x01", "\xfe"}).Draw(rt, label), rapid.IntRange(0, 3000).Draw(rt, label+"len"))
	}
	return string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, label))
}

func genTypes(rt *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(rt, "anytype") == 0 {
		return rapid.IntRange(-3, 300).Draw(rt, "type")
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}
	return rapid.SampledFrom(all).Draw(rt, "type")
}

func genRows(rt *rapid.T) []*gobinlog.RowData {
	n := rapid.IntRange(-1, 3).Draw(rt, "rows")
	if n < 0 {
		return nil
	}
	out := []*gobinlog.RowData{}
	for i := 0; i < n; i++ {
		r := &gobinlog.RowData{}
		for k := rapid.IntRange(0, 5).Draw(rt, "cols"); k > 0; k-- {
			c := &gobinlog.ColumnData{Filed: genText(rt, "name"), Type: gobinlog.ColumnType(genTypes(rt))}
			switch rapid.IntRange(0, 3).Draw(rt, "state") {
			case 0:
			case 1:
				c.IsEmpty = true
			default:
				c.Data = []byte(genText(rt, "data"))
			}
			r.Columns = append(r.Columns, c)
		}
		out = append(out, r)
	}
	return out
}

func synthetic(rt *rapid.T) {
	p := func() gobinlog.Position {
		return gobinlog.Position{Filename: genText(rt, "file"), Offset: rapid.Int64().Draw(rt, "off")}
	}
	tx := &gobinlog.Transaction{NowPosition: p(), NextPosition: p(), Timestamp: int64(rapid.Uint32().Draw(rt, "ts"))}
	n := rapid.IntRange(-1, 4).Draw(rt, "events")
	if n >= 0 {
		tx.Events = []*gobinlog.StreamEvent{}
	}
	odd := false
	for i := 0; i < n; i++ {
		e := &gobinlog.StreamEvent{Type: gobinlog.StatementType(rapid.IntRange(0, 12).Draw(rt, "kind")), Table: gobinlog.MysqlTableName{DbName: genText(rt, "db"), TableName: genText(rt, "table")}, Timestamp: int64(rapid.Uint32().Draw(rt, "ets"))}
		if rapid.Bool().Draw(rt, "statement") {
			e.Query = replication.Query{Database: genText(rt, "qdb"), SQL: "x" + genText(rt, "sql")}
			odd = odd || !utf8.ValidString(e.Query.SQL)
		} else {
			e.RowValues, e.RowIdentifies = genRows(rt), genRows(rt)
		}
		tx.Events = append(tx.Events, e)
	}
	serialised(rt, tx)
	if odd {
		cov.Class("invalid UTF-8 in a statement")
	}
	values(tx, func(_ string, c *gobinlog.ColumnData) {
		switch {
		case c.Data == nil && c.IsEmpty:
			cov.Class("absent column")
		case c.Data == nil:
			cov.Class("NULL")
		case len(c.Data) == 0:
			cov.Class("empty string")
		case !utf8.Valid(c.Data):
			cov.Class("invalid UTF-8 data")
		default:
			cov.Class("data")
		}
	})
	cov.Note(n > 0, show(tx), func() string { return show(tx) })
}

func delivered(rt *rapid.T) {
	o := full
	o.WideNames = true
	h := hist.Generate(rt, o)
	ps := packets(rt, h, h.Start)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	out := e.Run(rt, run.Attempt{NoError: true, Script: master.Script{Serve: run.SendAll(ps)}})
	if out.Stream != nil {
		rt.Fatalf("a clean stream ended with %s\n%s", out.Describe(), h.Describe())
	}
	want := hist.Expected(ps)
	for i, c := range out.Calls {
		serialised(rt, c.Tx)
		if i < len(want) && run.Match(c.Snap, want[i]) == nil {
			cov.Class("delivered as modelled")
		}
		for _, e := range c.Tx.Events {
			cov.Class("delivered " + e.Type.String())
		}
	}
	cov.Note(len(out.Calls) > 0 && mixed(want), digest(ps), sample(h, want))
}

func TestC20(t *testing.T) {
	cov.Rule("a synthetic transaction with at least one event, or a delivered history with at least two transactions, two changes and one row image")
	cov.Check(t, "synthetic", 8000, 200000, synthetic)
	cov.Check(t, "delivered", 500, 8000, delivered)
	cov.Loop(t, "every-type", func(t *testing.T) {
		n := int64(0)
		for typ := -2; typ < 300; typ++ {
			for st := 0; st <= 12; st++ {
				for _, data := range [][]byte{nil, {}, []byte("v"), {0xff}} {
					for _, empty := range []bool{false, true} {
						c := &gobinlog.ColumnData{Filed: "f", Type: gobinlog.ColumnType(typ), Data: data, IsEmpty: empty}
						r := []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{c}}}
						tx := &gobinlog.Transaction{Events: []*gobinlog.StreamEvent{{Type: gobinlog.StatementType(st), RowValues: r, RowIdentifies: r}}}
						b, err := json.Marshal(tx)
						if err == nil {
							err = parsed(b, tx)
						}
						if err != nil {
							t.Fatalf("type %d, kind %d: %v\n%s", typ, st, err, b)
						}
						n++
					}
				}
			}
		}
		cov.NoteMany(n, "every column type number and statement kind, with NULL, empty, valid and invalid data, absent or not")
	})
	cov.Loop(t, "every-character", func(t *testing.T) {
		n := int64(0)
		check := func(s string) {
			tx := &gobinlog.Transaction{NowPosition: gobinlog.Position{Filename: s}, Events: []*gobinlog.StreamEvent{
				{Type: gobinlog.StatementInsert, Table: gobinlog.MysqlTableName{DbName: s, TableName: s + "t"}, RowValues: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{{Filed: s, Data: []byte(s)}}}}},
				{Type: gobinlog.StatementCreate, Query: replication.Query{SQL: "-" + s}}}}
			b, err := json.Marshal(tx)
			if err == nil {
				err = parsed(b, tx)
			}
			if err != nil {
				t.Fatalf("%q: %v\n%s", s, err, b)
			}
			n++
		}
		for i := 0; i < 256; i++ {
			check(string([]byte{byte(i)}))
			check(string([]byte{'a', byte(i), 'b'}))
		}
		for r := rune(0); r < 0x3000; r++ {
			check(string(r))
		}
		for r := rune(0x3000); r <= 0x10ffff; r += 1009 {
			check(string(r))
		}
		cov.NoteMany(n, "every byte and every character below U+3000 in names, statements and data")
	})
	cov.Loop(t, "sizes", func(t *testing.T) {
		n := int64(0)
		check := func(what string, tx *gobinlog.Transaction) {
			b, err := json.Marshal(tx)
			if err == nil {
				err = parsed(b, tx)
			}
			if err != nil {
				m := err.Error()
				t.Fatalf("%s: %s", what, clipped([]byte(m)))
			}
			n++
		}
		one := func(name, sql string, data []byte, typ int) *gobinlog.Transaction {
			r := []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{{Filed: name, Type: gobinlog.ColumnType(typ), Data: data}, {Filed: "last", Type: 3, Data: []byte("1")}}}}
			return &gobinlog.Transaction{NowPosition: gobinlog.Position{Filename: name, Offset: 4}, Events: []*gobinlog.StreamEvent{
				{Type: gobinlog.StatementUpdate, Table: gobinlog.MysqlTableName{DbName: name, TableName: name}, RowValues: r, RowIdentifies: r},
				{Type: gobinlog.StatementCreate, Query: replication.Query{SQL: sql}}}}
		}
		all := []int{252, 15, 245, 254, 253, 255, 16, 246, 0, 249, 250, 251}
		for p := 1 << 8; p <= cov.N(1<<22, 1<<25); p *= 2 {
			for _, l := range []int{p - 1, p, p + 1} {
				for k, fill := range []string{"x", "é", "\"", "\x00", "\xff"} {
					if p > 1<<18 && k > 0 {
						break
					}
					s := strings.Repeat(fill, l/len(fill)+1)[:l]
					check(fmt.Sprintf("data of %d bytes", l), one("f", "s", []byte(s), all[int(n)%len(all)]))
					check(fmt.Sprintf("a statement of %d bytes", l), one("f", s, nil, 3))
					if l < 1<<17 {
						check(fmt.Sprintf("names of %d bytes", l), one(s, "s", nil, 3))
					}
				}
			}
		}
		for p := 1 << 3; p <= cov.N(1<<13, 1<<16); p *= 2 {
			for _, l := range []int{p - 1, p, p + 1} {
				c := func(i int) *gobinlog.ColumnData {
					return &gobinlog.ColumnData{Filed: fmt.Sprint("f", i), Type: 3, Data: []byte(fmt.Sprint(i))}
				}
				tx := one("f", "s", nil, 3)
				var rows []*gobinlog.RowData
				wide := &gobinlog.RowData{}
				for i := 0; i < l; i++ {
					rows = append(rows, &gobinlog.RowData{Columns: []*gobinlog.ColumnData{c(i)}})
					wide.Columns = append(wide.Columns, c(i))
				}
				tx.Events[0].RowValues, tx.Events[0].RowIdentifies = rows, []*gobinlog.RowData{wide, wide}
				check(fmt.Sprintf("%d rows, %d columns", l, l), tx)
				tx = &gobinlog.Transaction{}
				for i := 0; i < l; i++ {
					e := &gobinlog.StreamEvent{Type: gobinlog.StatementInsert, Table: gobinlog.MysqlTableName{DbName: "d", TableName: fmt.Sprint("t", i)}, RowValues: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{c(i)}}}}
					if i%3 == 1 {
						e = &gobinlog.StreamEvent{Type: gobinlog.StatementSet, Query: replication.Query{SQL: fmt.Sprint("set ", i)}}
					}
					tx.Events = append(tx.Events, e)
				}
				check(fmt.Sprintf("%d events", l), tx)
			}
		}
		cov.NoteMany(n, "data, statements and names of every power of two bytes (and one off), as many rows, columns and events")
	})
}
