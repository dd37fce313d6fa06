package rep

import (
	"bytes"
	"fmt"
	"os"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/vals"
	"verifharness/wire"
)

func TestMain(m *testing.M) {
	// a zone with an odd offset and daylight saving, whatever the machine uses
	if l, err := time.LoadLocation("Australia/Lord_Howe"); err == nil {
		time.Local = l
	}
	cov.Main(m)
	os.Exit(0)
}

// fataler is what checks report to.
type fataler interface {
	Fatalf(format string, args ...any)
	Helper()
}

// decodeCell runs CellBytes on a cell placed between other bytes and checks the
// value and the consumed length.
func decodeCell(t fataler, k vals.Kind, v vals.Val, before, after []byte) []byte {
	t.Helper()
	data := make([]byte, 0, len(before)+len(v.Enc)+len(after))
	data = append(data, before...)
	data = append(data, v.Enc...)
	data = append(data, after...)
	orig := append([]byte(nil), data...)
	got, n, err := replication.CellBytes(data, len(before), k.Type, k.MetaVal, k.Unsigned)
	if err != nil {
		t.Fatalf("%s: CellBytes(% x at %d, type %d, metadata %#x, unsigned %v) fails: %v\nvalue %s", k.Name, clip(v.Enc), len(before), k.Type, k.MetaVal, k.Unsigned, err, v.Desc)
	}
	if n != len(v.Enc) {
		t.Fatalf("%s: CellBytes consumed %d bytes of a %d byte cell % x\nvalue %s", k.Name, n, len(v.Enc), clip(v.Enc), v.Desc)
	}
	if err := v.Match(got); err != nil {
		t.Fatalf("%s: cell % x (type %d, metadata %#x, unsigned %v) decodes to %s\n%v", k.Name, clip(v.Enc), k.Type, k.MetaVal, k.Unsigned, wire.Trunc(got), err)
	}
	if !bytes.Equal(orig, data) {
		t.Fatalf("%s: CellBytes changed its input: % x became % x", k.Name, clip(orig), clip(data))
	}
	return got
}

// decodeFamily decodes a value, then values that differ from one another in one
// place, then the first one again; at the end all of the results must still be
// what they were.
func decodeFamily(t fataler, k vals.Kind, v vals.Val, before, after []byte, seed uint64, n int) {
	t.Helper()
	vs := []vals.Val{v}
	r := vals.PRNG(seed)
	for i := 0; i < n; i++ {
		vs = append(vs, vs[r.Int(len(vs))].Near(r))
	}
	if n > 0 {
		vs = append(vs, v)
	}
	got := make([][]byte, len(vs))
	for i := range vs {
		got[i] = decodeCell(t, k, vs[i], before, after)
	}
	for i := range vs {
		if err := vs[i].Match(got[i]); err != nil {
			t.Fatalf("%s: cell % x was decoded correctly and the result changed when %d more values had been decoded, to %s\n%v", k.Name, clip(vs[i].Enc), len(vs)-1-i, wire.Trunc(got[i]), err)
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// around draws neighbour bytes.
func around(rt *rapid.T) (before, after []byte) {
	c := rapid.SampledFrom([]byte{0, 0xff, 0x80, 0x55}).Draw(rt, "neighbour")
	return bytes.Repeat([]byte{c}, rapid.IntRange(0, 9).Draw(rt, "before")), bytes.Repeat([]byte{^c}, rapid.IntRange(0, 9).Draw(rt, "after"))
}

// checkCells is the generic value property for a family of kinds.
func checkCells(t *testing.T, name string, quick, thorough int, kind func(rt *rapid.T) vals.Kind, trivial func(v vals.Val) bool) {
	cov.Check(t, name, quick, thorough, func(rt *rapid.T) {
		k := kind(rt)
		v := k.Gen(rt)
		b, a := around(rt)
		decodeFamily(rt, k, v, b, a, rapid.Uint64().Draw(rt, "near"), rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(rt, "family"))
		cov.Class(k.Class)
		cov.Note(trivial == nil || !trivial(v), fmt.Sprintf("%s/%v/%x", k.Name, k.Unsigned, v.Enc), func() string {
			return fmt.Sprintf("%s cell % x = %s", k.Name, clip(v.Enc[:min(len(v.Enc), 40)]), v.Desc)
		})
	})
}

func format(t fataler, f wire.Format) replication.BinlogFormat {
	t.Helper()
	ev := replication.NewMysql56BinlogEvent(f.FDE(wire.Header{ServerID: 1}, 4, 0))
	if f.Maria {
		ev = replication.NewMariadbBinlogEvent(f.FDE(wire.Header{ServerID: 1}, 4, 0))
	}
	if !ev.IsValid() || !ev.IsFormatDescription() {
		t.Fatalf("format description event not recognised: % x", ev.Bytes())
	}
	bf, err := ev.Format()
	if err != nil {
		t.Fatalf("format description not decoded: %v", err)
	}
	return bf
}

// event wraps a framed event and strips its checksum.
func event(t fataler, f wire.Format, bf replication.BinlogFormat, raw []byte) replication.BinlogEvent {
	t.Helper()
	ev := replication.NewMysql56BinlogEvent(raw)
	if f.Maria {
		ev = replication.NewMariadbBinlogEvent(raw)
	}
	if !ev.IsValid() {
		t.Fatalf("valid event of type %d (%d bytes) is refused by IsValid", raw[4], len(raw))
	}
	ev, sum, err := ev.StripChecksum(bf)
	if err != nil {
		t.Fatalf("StripChecksum: %v", err)
	}
	if f.Alg == wire.AlgCRC32 {
		if !bytes.Equal(sum, raw[len(raw)-4:]) || !bytes.Equal(ev.Bytes(), raw[:len(raw)-4]) {
			t.Fatalf("StripChecksum of type %d returned checksum % x and %d bytes, event has % x and %d bytes without it", raw[4], sum, len(ev.Bytes()), raw[len(raw)-4:], len(raw)-4)
		}
	} else if len(sum) != 0 || !bytes.Equal(ev.Bytes(), raw) {
		t.Fatalf("StripChecksum changed an event without checksum: %d bytes left of %d, checksum % x", len(ev.Bytes()), len(raw), sum)
	}
	return ev
}

func genFormat(rt *rapid.T) wire.Format {
	f := wire.Format{ServerVersion: rapid.SampledFrom([]string{"5.7.30-log", "5.6.2", "8.0.33", "5.5.5-10.3.1-MariaDB-log", ""}).Draw(rt, "version"), HeaderLen: 19}
	f.Alg = rapid.SampledFrom([]byte{wire.AlgOff, wire.AlgCRC32, wire.AlgUndef}).Draw(rt, "alg")
	if rapid.IntRange(0, 3).Draw(rt, "hl") == 0 {
		f.HeaderLen = byte(rapid.IntRange(19, 40).Draw(rt, "headerlen"))
	}
	f.ID4 = rapid.IntRange(0, 2).Draw(rt, "id4") == 0
	f.Sizes = wire.PostHeaderSizes(f.ID4, rapid.SampledFrom([]int{38, 35, 40, 41, 163}).Draw(rt, "nsizes"))
	f.Maria = rapid.IntRange(0, 3).Draw(rt, "maria") == 0
	return f
}
