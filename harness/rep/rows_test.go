package rep

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/vals"
	"verifharness/wire"
)

// rowsKind draws any column type, including those that only old masters or
// other storage forms log.
func rowsKind(rt *rapid.T) vals.Kind {
	switch rapid.IntRange(0, 19).Draw(rt, "special") {
	case 0:
		return vals.Enum(rapid.IntRange(1, 2).Draw(rt, "n"), true)
	case 1:
		return vals.Date(14)
	case 2:
		typ := rapid.SampledFrom([]byte{249, 250, 251, 252, 255}).Draw(rt, "blob")
		return vals.BlobCap(typ, rapid.IntRange(1, 4).Draw(rt, "n"), 300)
	case 3:
		if rapid.IntRange(0, 2).Draw(rt, "long") == 0 {
			return vals.VarcharCap(15, 65535, 65535)
		}
		return vals.BlobCap(252, rapid.IntRange(3, 4).Draw(rt, "n"), 70000)
	case 4:
		k := vals.JSON(vals.DocOpts{MaxNodes: 4})
		n := rapid.IntRange(2, 4).Draw(rt, "prefix")
		k.Meta, k.MetaVal = []byte{byte(n)}, uint16(n)
		k.Gen = func(rt *rapid.T) vals.Val { return vals.JSONVal(vals.GenDoc(rt, vals.DocOpts{MaxNodes: 4}), n) }
		return k
	}
	return vals.GenKind(rt)
}

// shape is a table and what its rows are drawn from.
type shape struct {
	cols []vals.Kind
	pool [][]vals.Val // values per column; shared between columns of wide tables
}

func genShape(rt *rapid.T) shape {
	var n int
	switch rapid.IntRange(0, 9).Draw(rt, "width") {
	case 0:
		n = 1
	case 1, 2, 3, 4:
		n = rapid.IntRange(1, 12).Draw(rt, "n")
	case 5, 6:
		n = rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65}).Draw(rt, "n")
	case 7, 8:
		n = rapid.IntRange(60, 300).Draw(rt, "n")
	default:
		n = rapid.SampledFrom([]int{127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 511, 512, 513, 1016, 1017, 4096}).Draw(rt, "n")
	}
	s := shape{}
	if n <= 17 {
		for i := 0; i < n; i++ {
			k := rowsKind(rt)
			s.cols = append(s.cols, k)
			var p []vals.Val
			for j := 0; j < 2; j++ {
				p = append(p, k.Gen(rt))
			}
			if rapid.Bool().Draw(rt, "family") {
				near := vals.PRNG(rapid.Uint64().Draw(rt, "near"))
				p[1] = p[0].Near(near)
				p = append(p, p[1].Near(near))
			}
			s.pool = append(s.pool, p)
		}
		return s
	}
	m := rapid.IntRange(1, 7).Draw(rt, "kinds")
	var ks []vals.Kind
	var ps [][]vals.Val
	for i := 0; i < m; i++ {
		var k vals.Kind
		if n > 100 {
			k = hist.SimpleKind(rt)
		} else {
			k = rowsKind(rt)
		}
		var p []vals.Val
		for j := 0; j < 3; j++ {
			p = append(p, k.Gen(rt))
		}
		ks, ps = append(ks, k), append(ps, p)
	}
	r := vals.PRNG(rapid.Uint64().Draw(rt, "arrange"))
	for i := 0; i < n; i++ {
		j := int(r.Next() % uint64(m))
		s.cols, s.pool = append(s.cols, ks[j]), append(s.pool, ps[j])
	}
	return s
}

func (s shape) spec(id uint64) wire.TableSpec {
	sp := wire.TableSpec{ID: id, Flags: 1, DB: "db", Name: "t"}
	for _, k := range s.cols {
		sp.Cols = append(sp.Cols, k.Col(true))
	}
	return sp
}

// image draws a row image and remembers the drawn values.
func (s shape) image(rt *rapid.T, r *vals.Rand, present []bool) (wire.Image, []vals.Val) {
	mode := rapid.IntRange(0, 4).Draw(rt, "nullmode")
	img := make(wire.Image, len(s.cols))
	vs := make([]vals.Val, len(s.cols))
	last := -1
	for i, p := range present {
		if p {
			last = i
		}
	}
	for i := range s.cols {
		null := false
		switch mode {
		case 0:
			null = true
		case 1:
			null = r.Next()%2 == 0
		case 2:
			null = r.Next()%8 == 0
		case 3:
			null = i == last
		}
		v := s.pool[i][int(r.Next()%uint64(len(s.pool[i])))]
		if null {
			img[i].Null = true
		} else {
			img[i].Enc = v.Enc
		}
		vs[i] = v
	}
	return img, vs
}

func wantBitmap(t fataler, what string, b replication.Bitmap, want []bool) {
	t.Helper()
	if b.Count() != len(want) {
		t.Fatalf("%s has %d bits, should be %d", what, b.Count(), len(want))
	}
	n := 0
	for i, w := range want {
		if b.Bit(i) != w {
			t.Fatalf("%s bit %d of %d is %v", what, i, len(want), b.Bit(i))
		}
		if w {
			n++
		}
	}
	if b.BitCount() != n {
		t.Fatalf("%s counts %d set bits, has %d", what, b.BitCount(), n)
	}
}

// walk decodes an image column by column.
func walk(t fataler, what string, img []byte, s shape, tm *replication.TableMap, cols, nulls replication.Bitmap, want wire.Image) {
	t.Helper()
	pos, vi := 0, 0
	for c := range s.cols {
		if !cols.Bit(c) {
			continue
		}
		if nulls.Bit(vi) {
			vi++
			continue
		}
		_, n, err := replication.CellBytes(img, pos, tm.Types[c], tm.Metadata[c], s.cols[c].Unsigned)
		if err != nil {
			t.Fatalf("%s column %d (%s): %v", what, c, s.cols[c].Name, err)
		}
		if n != len(want[c].Enc) {
			t.Fatalf("%s column %d (%s): the value decoder consumes %d bytes, the cell has %d: % x", what, c, s.cols[c].Name, n, len(want[c].Enc), clip(want[c].Enc))
		}
		pos += n
		vi++
	}
	if pos != len(img) {
		t.Fatalf("%s: decoding the columns consumes %d of %d bytes", what, pos, len(img))
	}
}

func names(s shape) string {
	out := fmt.Sprintf("%d columns:", len(s.cols))
	for i, k := range s.cols {
		if i >= 18 {
			return out + " ..."
		}
		out += " " + k.Name + ";"
	}
	return out
}

// rowsCase writes, decodes and compares one rows event.
func rowsCase(rt *rapid.T, s shape) { rowsCaseN(rt, s, -1) }

func rowsCaseN(rt *rapid.T, s shape, nr int) {
	check, note, _ := genRows(rt, s, nr)
	check(rt)
	note()
}

// genRows draws a rows event and makes the task that decodes and compares it.
func genRows(rt *rapid.T, s shape, nr int) (check task, note func(), what string) {
	f := genFormat(rt)
	v2 := !f.ID4 && rapid.Bool().Draw(rt, "v2")
	if v2 && len(f.Sizes) < 32 {
		v2 = false
	}
	f.Maria = f.Maria && !v2
	bf := format(rt, f)
	id := rapid.SampledFrom([]uint64{1, 108, 255, 256, 65535, 65536, 1<<32 - 1}).Draw(rt, "id")
	if !f.ID4 && rapid.IntRange(0, 4).Draw(rt, "bigid") == 0 {
		id = rapid.SampledFrom([]uint64{1 << 32, 1<<48 - 1, 0x123456789abc}).Draw(rt, "idv")
	}
	n := len(s.cols)
	kind := wire.RowsKind(rapid.IntRange(0, 2).Draw(rt, "kind"))
	r := wire.RowsSpec{Kind: kind, V2: v2, ID: id, NCols: n, Flags: rapid.SampledFrom([]uint16{0, 1, 2, 9, 0x8000, 0xffff}).Draw(rt, "flags"), PadBits: rapid.Bool().Draw(rt, "padbits")}
	if v2 {
		r.Extra = vals.Bytes(9, rapid.SampledFrom([]int{0, 0, 1, 2, 7, 250, 300, 4000}).Draw(rt, "extra"))
	}
	if kind != wire.Insert {
		r.Before = hist.Presence(rt, n)
	}
	if kind != wire.Delete {
		r.After = hist.Presence(rt, n)
	}
	all := true
	for _, p := range append(append([]bool(nil), r.Before...), r.After...) {
		all = all && p
	}
	rng := vals.PRNG(rapid.Uint64().Draw(rt, "values"))
	if nr < 0 {
		nr = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8}).Draw(rt, "rows")
		if n < 10 && rapid.IntRange(0, 19).Draw(rt, "many") == 0 {
			nr = 100
		}
	}
	for i := 0; i < nr; i++ {
		if kind != wire.Insert {
			img, _ := s.image(rt, rng, r.Before)
			r.Befores = append(r.Befores, img)
		}
		if kind != wire.Delete {
			img, _ := s.image(rt, rng, r.After)
			r.Afters = append(r.Afters, img)
		}
	}
	spec := s.spec(id)
	decodeMap := rapid.Bool().Draw(rt, "decodemap")
	raw := f.Frame(wire.Header{Type: wire.RowsType(kind, v2), Timestamp: 5}, r.Body(f))
	what = fmt.Sprintf("%s rows event (v2 %v, 4-byte id %v, header %d, extra %d, checksum %d), %d rows on %s", kind, v2, f.ID4, f.HeaderLen, len(r.Extra), f.Alg, nr, names(s))
	check = func(t fataler) {
		t.Helper()
		checkRows(t, f, bf, spec, decodeMap, raw, r, s, what)
	}
	note = func() {
		nulls := false
		for _, imgs := range [][]wire.Image{r.Befores, r.Afters} {
			for _, img := range imgs {
				for _, c := range img {
					nulls = nulls || c.Null
				}
			}
		}
		cov.Class(kind.String())
		cov.Class(map[bool]string{true: "v2", false: "v1"}[v2])
		if f.ID4 {
			cov.Class("4-byte table id")
		}
		if !all {
			cov.Class("partial image")
		}
		if nulls {
			cov.Class("with NULLs")
		}
		if n >= 251 {
			cov.Class("251 columns or more")
		}
		if nr > 1 {
			cov.Class("several rows")
		}
		cov.Note(nr > 0 && (nulls || !all || nr > 1), string(raw), func() string { return what })
	}
	return check, note, what
}

// checkRows decodes a rows event and compares it with what it was written from.
func checkRows(rt fataler, f wire.Format, bf replication.BinlogFormat, spec wire.TableSpec, decodeMap bool, raw []byte, r wire.RowsSpec, s shape, what string) {
	rt.Helper()
	kind, id, nr := r.Kind, r.ID, max(len(r.Befores), len(r.Afters))
	tm := &replication.TableMap{Flags: 1, Database: "db", Name: "t"}
	for _, c := range spec.Cols {
		tm.Types = append(tm.Types, c.Type)
		tm.Metadata = append(tm.Metadata, c.MetaVal)
	}
	tm.CanBeNull = replication.NewServerBitmap(len(s.cols))
	if decodeMap {
		ev := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvTableMap, Timestamp: 5}, spec.Body(f)))
		var err error
		if tm, err = ev.TableMap(bf); err != nil {
			rt.Fatalf("table map of %s fails: %v", names(s), err)
		}
	}
	ev := event(rt, f, bf, raw)
	before := append([]byte(nil), ev.Bytes()...)
	switch kind {
	case wire.Insert:
		if !ev.IsWriteRows() || ev.IsUpdateRows() || ev.IsDeleteRows() {
			rt.Fatalf("%s is not recognised", what)
		}
	case wire.Update:
		if !ev.IsUpdateRows() || ev.IsWriteRows() || ev.IsDeleteRows() {
			rt.Fatalf("%s is not recognised", what)
		}
	case wire.Delete:
		if !ev.IsDeleteRows() || ev.IsUpdateRows() || ev.IsWriteRows() {
			rt.Fatalf("%s is not recognised", what)
		}
	}
	if got := ev.TableID(bf); got != id {
		rt.Fatalf("%s: table id decodes to %d, is %d", what, got, id)
	}
	rows, err := rowsOf(ev, bf, tm)
	if err != nil {
		rt.Fatalf("%s: Rows fails: %v", what, err)
	}
	if rows.Flags != r.Flags {
		rt.Fatalf("%s: flags %#x, should be %#x", what, rows.Flags, r.Flags)
	}
	if len(rows.Rows) != nr {
		rt.Fatalf("%s: decodes to %d rows", what, len(rows.Rows))
	}
	if kind != wire.Insert {
		wantBitmap(rt, what+": before-image columns", rows.IdentifyColumns, r.Before)
	} else if rows.IdentifyColumns.Count() != 0 {
		rt.Fatalf("%s: has identify columns", what)
	}
	if kind != wire.Delete {
		wantBitmap(rt, what+": after-image columns", rows.DataColumns, r.After)
	} else if rows.DataColumns.Count() != 0 {
		rt.Fatalf("%s: has data columns", what)
	}
	for i, row := range rows.Rows {
		if kind != wire.Insert {
			_, d, nf := wire.EncodeImage(r.Before, r.Befores[i], false)
			w := fmt.Sprintf("%s: before image of row %d", what, i)
			wantBitmap(rt, w+" NULL bitmap", row.NullIdentifyColumns, nf)
			if !bytes.Equal(row.Identify, d) {
				rt.Fatalf("%s is % x, encoded % x", w, clip(row.Identify), clip(d))
			}
			walk(rt, w, row.Identify, s, tm, rows.IdentifyColumns, row.NullIdentifyColumns, r.Befores[i])
		} else if len(row.Identify) != 0 || row.NullIdentifyColumns.Count() != 0 {
			rt.Fatalf("%s: row %d has a before image", what, i)
		}
		if kind != wire.Delete {
			_, d, nf := wire.EncodeImage(r.After, r.Afters[i], false)
			w := fmt.Sprintf("%s: after image of row %d", what, i)
			wantBitmap(rt, w+" NULL bitmap", row.NullColumns, nf)
			if !bytes.Equal(row.Data, d) {
				rt.Fatalf("%s is % x, encoded % x", w, clip(row.Data), clip(d))
			}
			walk(rt, w, row.Data, s, tm, rows.DataColumns, row.NullColumns, r.Afters[i])
		} else if len(row.Data) != 0 || row.NullColumns.Count() != 0 {
			rt.Fatalf("%s: row %d has an after image", what, i)
		}
	}
	if !bytes.Equal(before, ev.Bytes()) {
		rt.Fatalf("%s: decoding changed the event", what)
	}
}

// rowsOf turns a panic of the decoder into an error that names it.
func rowsOf(ev replication.BinlogEvent, bf replication.BinlogFormat, tm *replication.TableMap) (rows replication.Rows, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return ev.Rows(bf, tm)
}

func TestC09(t *testing.T) {
	cov.Rule("a case is a framed rows event with its table; non-trivial when it has rows and NULLs, absent columns or more than one row; distinct by event bytes")
	cov.Check(t, "rows-events", 8000, 250000, func(rt *rapid.T) { rowsCase(rt, genShape(rt)) })
	cov.Check(t, "one-column-type", 8000, 200000, func(rt *rapid.T) {
		// one type between fixed-width neighbours: a wrong length shows at once
		k := rowsKind(rt)
		g := vals.Int(4, true)
		s := shape{cols: []vals.Kind{g, k, g}}
		for i, c := range s.cols {
			var p []vals.Val
			for j := 0; j < 3; j++ {
				if i == 1 {
					p = append(p, c.Gen(rt))
				} else {
					p = append(p, vals.IntVal(4, true, 0xffffffff>>uint(j)))
				}
			}
			s.pool = append(s.pool, p)
		}
		rowsCase(rt, s)
		cov.Class("type " + k.Class)
	})
	cov.Check(t, "many-rows", 60, 1500, func(rt *rapid.T) {
		nr := rapid.SampledFrom([]int{127, 128, 255, 256, 257, 1000, 1024, 1025, 4097, 10001}).Draw(rt, "nrows")
		s := shape{}
		for n := rapid.IntRange(1, 5).Draw(rt, "ncols"); n > 0; n-- {
			k := rowsKind(rt)
			p := []vals.Val{k.Gen(rt), k.Gen(rt)}
			if nr > 257 && len(p[0].Enc)+len(p[1].Enc) > 2000 {
				k = hist.SimpleKind(rt)
				p = []vals.Val{k.Gen(rt), k.Gen(rt)}
			}
			s.cols, s.pool = append(s.cols, k), append(s.pool, p)
		}
		rowsCaseN(rt, s, nr)
		cov.Class("more than a hundred rows")
	})
	sideBySide(t, 300, 8000, 20, func(rt *rapid.T) (task, string) {
		check, _, what := genRows(rt, genShape(rt), rapid.IntRange(0, 3).Draw(rt, "nrows"))
		return check, what
	})
	cov.Loop(t, "every-type-and-metadata", everyCell)
}

// everyCell checks the length rule and the value decoder on every metadata
// value of every type.
func everyCell(t *testing.T) {
	var n int64
	one := func(k vals.Kind, v vals.Val) {
		n++
		lengthCase(t, k, v)
	}
	for _, w := range []int{1, 2, 3, 4, 8} {
		for _, u := range []bool{false, true} {
			one(vals.Int(w, u), vals.IntVal(w, u, 0x8182838485868788))
		}
		one(vals.Set(w), vals.EnumVal(w, 5))
	}
	one(vals.Float4(), vals.Float4Val(0x3f800000))
	one(vals.Float8(), vals.Float8Val(0x3ff0000000000000))
	one(vals.Year(), vals.YearVal(99))
	for i := 1; i <= 64; i++ {
		one(vals.Bit(i), vals.BitVal(i, 1))
	}
	for i := 1; i <= 2; i++ {
		one(vals.Enum(i, false), vals.EnumVal(i, 3))
		one(vals.Enum(i, true), vals.EnumVal(i, 3))
	}
	for p := 1; p <= 65; p++ {
		for s := 0; s <= p && s <= 30; s++ {
			one(vals.Decimal(p, s), vals.DecimalVal(p, s, true, digits(p-s), digits(s)))
		}
	}
	one(vals.Date(10), vals.DateVal(2024, 2, 29))
	one(vals.Date(14), vals.DateVal(2024, 2, 29))
	one(vals.OldTime(), vals.OldTimeVal(false, 12, 3, 4))
	one(vals.OldDateTime(), vals.OldDateTimeVal(2024, 2, 29, 1, 2, 3))
	one(vals.OldTimestamp(), vals.OldTimestampVal(1700000000))
	one(vals.OldTimestamp(), vals.OldTimestampVal(0))
	for f := 0; f <= 6; f++ {
		one(vals.Timestamp2(f), vals.Timestamp2Val(1700000000, 123456, f))
		one(vals.Timestamp2(f), vals.Timestamp2Val(0, 0, f))
		one(vals.DateTime2(f), vals.DateTime2Val(2024, 2, 29, 1, 2, 3, 987654, f))
		one(vals.Time2(f), vals.Time2Val(true, 1, 2, 3, 987654, f))
		one(vals.Time2(f), vals.Time2Val(false, 0, 0, 0, 0, f))
	}
	lens := func(max int) []int {
		var out []int
		for _, l := range []int{0, 1, 2, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 511, 512, 1023, 65535, 65536, 65537, 1 << 17} {
			if l <= max {
				out = append(out, l)
			}
		}
		return append(out, max)
	}
	step := cov.N(3, 1)
	for m := 0; m <= 1023; m += step {
		for _, l := range []int{0, m / 2, m} {
			one(vals.Char(m), vals.CharVal(m, vals.Bytes(uint64(m), l)))
		}
	}
	for _, m := range []int{255, 256, 257, 511, 512, 767, 768, 1023} {
		for _, l := range []int{0, 1, m / 2, m} {
			one(vals.Char(m), vals.CharVal(m, vals.Bytes(uint64(m), l)))
		}
	}
	for _, m := range []int{0, 1, 2, 254, 255, 256, 257, 258, 511, 512, 513, 65280, 65534, 65535} {
		for _, l := range lens(m) {
			one(vals.Varchar(15, m), vals.CharVal(m, vals.Bytes(uint64(m), l)))
			one(vals.Varchar(253, m), vals.CharVal(m, vals.Bytes(uint64(m), l)))
		}
	}
	for _, typ := range []byte{249, 250, 251, 252, 255} {
		for p := 1; p <= 4; p++ {
			max := 1 << 24
			if p < 3 {
				max = 1<<(8*p) - 1
			} else if p == 3 {
				max--
			}
			for _, l := range lens(max) {
				if l > 1<<18 && typ != 252 {
					continue
				}
				one(vals.Blob(typ, p), vals.BlobVal(vals.Bytes(uint64(l), l), p))
			}
		}
	}
	cov.NoteMany(n, "one cell of every type and metadata value (every CHAR length up to 1023, every DECIMAL(p,s), BIT width, fraction digits, length-prefix boundaries) between two fixed-width columns")
	// The raw form of SET is never logged; only its length rule is fixed.
	f := wire.Format{ServerVersion: "5.7", HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 38)}
	bf := format(t, f)
	for sz := 1; sz <= 8; sz++ {
		img := wire.Image{{Enc: []byte{1, 2, 3, 4}}, {Enc: make([]byte, sz)}, {Enc: []byte{5, 6, 7, 8}}}
		r := wire.RowsSpec{Kind: wire.Insert, ID: 1, NCols: 3, After: []bool{true, true, true}, Afters: []wire.Image{img, img}}
		tm := &replication.TableMap{Types: []byte{3, 248, 3}, Metadata: []uint16{0, 248<<8 | uint16(sz), 0}, CanBeNull: replication.NewServerBitmap(3)}
		rows, err := rowsOf(event(t, f, bf, f.Frame(wire.Header{Type: wire.EvWriteV1}, r.Body(f))), bf, tm)
		if err != nil || len(rows.Rows) != 2 || len(rows.Rows[0].Data) != 8+sz || len(rows.Rows[1].Data) != 8+sz {
			t.Fatalf("two rows with a %d byte SET between two INTs do not split into two images of %d bytes: %v %v", sz, 8+sz, rows, err)
		}
	}
}

func digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('1' + i%9)
	}
	return string(b)
}

var lengthFormat = wire.Format{ServerVersion: "5.7", HeaderLen: 19, Alg: wire.AlgCRC32, Sizes: wire.PostHeaderSizes(false, 38)}

// lengthCase puts a cell between two INT columns in an update with two rows.
func lengthCase(t fataler, k vals.Kind, v vals.Val) {
	t.Helper()
	f := lengthFormat
	bf := format(t, f)
	g := vals.Int(4, false)
	s := shape{cols: []vals.Kind{g, k, g}}
	img := wire.Image{{Enc: []byte{0xff, 0xff, 0xff, 0x7f}}, {Enc: v.Enc}, {Enc: []byte{1, 2, 3, 4}}}
	null := wire.Image{{Enc: []byte{9, 9, 9, 9}}, {Null: true}, {Enc: []byte{8, 8, 8, 8}}}
	all := []bool{true, true, true}
	r := wire.RowsSpec{Kind: wire.Update, V2: true, ID: 7, NCols: 3, Before: all, After: all, Befores: []wire.Image{img, null}, Afters: []wire.Image{null, img}}
	tm := &replication.TableMap{Types: []byte{g.Type, k.Type, g.Type}, Metadata: []uint16{0, k.MetaVal, 0}, CanBeNull: replication.NewServerBitmap(3)}
	rows, err := rowsOf(event(t, f, bf, f.Frame(wire.Header{Type: wire.EvUpdateV2}, r.Body(f))), bf, tm)
	if err != nil {
		t.Fatalf("%s, value %s: Rows fails: %v", k.Name, v.Desc, err)
	}
	if len(rows.Rows) != 2 {
		t.Fatalf("%s, value %s: %d rows decoded of 2", k.Name, v.Desc, len(rows.Rows))
	}
	for i, imgs := range [][2]wire.Image{{img, null}, {null, img}} {
		for j, im := range imgs {
			_, d, nf := wire.EncodeImage(all, im, false)
			got, nb, cols := rows.Rows[i].Identify, rows.Rows[i].NullIdentifyColumns, rows.IdentifyColumns
			if j == 1 {
				got, nb, cols = rows.Rows[i].Data, rows.Rows[i].NullColumns, rows.DataColumns
			}
			what := fmt.Sprintf("%s, value %s: row %d image %d", k.Name, v.Desc, i, j)
			wantBitmap(t, what, nb, nf)
			if !bytes.Equal(got, d) {
				t.Fatalf("%s is % x, encoded % x", what, clip(got), clip(d))
			}
			walk(t, what, got, s, tm, cols, nb, im)
		}
	}
}
