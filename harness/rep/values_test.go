package rep

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/vals"
	"verifharness/wire"
)

// ---- C10 ----

// sweepInt decodes every of-th integer of w bytes from part on.
func sweepInt(t *testing.T, w int, unsigned bool, part, of int) int64 {
	k := vals.Int(w, unsigned)
	var n int64
	buf := make([]byte, w+2)
	buf[0], buf[w+1] = 0x55, 0xaa
	var want []byte
	for v := uint64(part); v < 1<<(8*w); v += uint64(of) {
		for i := 0; i < w; i++ {
			buf[1+i] = byte(v >> (8 * i))
		}
		got, l, err := replication.CellBytes(buf, 1, k.Type, k.MetaVal, unsigned)
		want = want[:0]
		if unsigned || v < 1<<(8*w-1) {
			want = strconv.AppendUint(want, v, 10)
		} else {
			want = strconv.AppendUint(append(want, '-'), 1<<(8*w)-v, 10)
		}
		if err != nil || l != w || !bytes.Equal(got, want) {
			decodeCell(t, k, vals.IntVal(w, unsigned, v), buf[:1], buf[w+1:])
			t.Fatalf("%s: % x decodes to %q, %d bytes, error %v; should be %s", k.Name, buf[1:1+w], got, l, err, want)
		}
		n++
	}
	return n
}

func TestC10(t *testing.T) {
	cov.Rule("a case is a cell (type, metadata, signedness, bytes); non-trivial when the encoded bytes are not all zero; distinct by type, metadata, signedness and bytes")
	trivial := func(v vals.Val) bool {
		for _, b := range v.Enc {
			if b != 0 {
				return false
			}
		}
		return true
	}
	checkCells(t, "ints", 6000, 300000, func(rt *rapid.T) vals.Kind {
		return vals.Int(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "w"), rapid.Bool().Draw(rt, "u"))
	}, trivial)
	checkCells(t, "floats", 8000, 400000, func(rt *rapid.T) vals.Kind {
		if rapid.Bool().Draw(rt, "double") {
			return vals.Float8()
		}
		return vals.Float4()
	}, trivial)
	checkCells(t, "bit-enum-set", 5000, 200000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 2).Draw(rt, "k") {
		case 0:
			return vals.Bit(rapid.IntRange(1, 64).Draw(rt, "n"))
		case 1:
			return vals.Enum(rapid.IntRange(1, 2).Draw(rt, "n"), rapid.Bool().Draw(rt, "direct"))
		}
		return vals.Set(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "n"))
	}, trivial)
	cellsAtOnce(t, 600, 15000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 7).Draw(rt, "k") {
		case 0:
			return vals.Float8()
		case 1:
			return vals.Float4()
		case 2:
			return vals.Bit(rapid.IntRange(1, 64).Draw(rt, "n"))
		case 3:
			return vals.Enum(rapid.IntRange(1, 2).Draw(rt, "n"), false)
		case 4:
			return vals.Set(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "n"))
		case 5:
			return vals.Year()
		}
		return vals.Int(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "w"), rapid.Bool().Draw(rt, "u"))
	})
	cov.Loop(t, "small-domains", func(t *testing.T) {
		var n int64
		for v := 0; v < 256; v++ {
			decodeCell(t, vals.Int(1, false), vals.IntVal(1, false, uint64(v)), nil, nil)
			decodeCell(t, vals.Int(1, true), vals.IntVal(1, true, uint64(v)), nil, nil)
			decodeCell(t, vals.Year(), vals.YearVal(byte(v)), nil, nil)
			decodeCell(t, vals.Enum(1, false), vals.EnumVal(1, uint64(v)), nil, nil)
			decodeCell(t, vals.Enum(1, true), vals.EnumVal(1, uint64(v)), nil, nil)
			decodeCell(t, vals.Set(1), vals.EnumVal(1, uint64(v)), nil, nil)
			n += 6
		}
		for v := 0; v < 65536; v++ {
			decodeCell(t, vals.Int(2, false), vals.IntVal(2, false, uint64(v)), nil, nil)
			decodeCell(t, vals.Int(2, true), vals.IntVal(2, true, uint64(v)), nil, nil)
			decodeCell(t, vals.Enum(2, false), vals.EnumVal(2, uint64(v)), nil, nil)
			decodeCell(t, vals.Set(2), vals.EnumVal(2, uint64(v)), nil, nil)
			n += 4
		}
		for bits := 1; bits <= 12; bits++ {
			for v := 0; v < 1<<bits; v++ {
				decodeCell(t, vals.Bit(bits), vals.BitVal(bits, uint64(v)), nil, nil)
				n++
			}
		}
		cov.NoteMany(n, "all TINYINT/YEAR/ENUM/SET 1-byte, SMALLINT/ENUM/SET 2-byte, BIT(1..12) values")
	})
	of := cov.N(3, 64)
	cov.Slices(t, "every-mediumint", 3, func(t *testing.T, part int) {
		n := sweepInt(t, 3, false, part, 3) + sweepInt(t, 3, true, part, 3)
		cov.NoteMany(n, "every MEDIUMINT, signed and unsigned")
	})
	if cov.Thorough {
		cov.Slices(t, "every-int", of, func(t *testing.T, part int) {
			n := sweepInt(t, 4, false, part, of) + sweepInt(t, 4, true, part, of)
			cov.NoteMany(n, fmt.Sprintf("part %d of %d of all INT values, signed and unsigned", part, of))
		})
	}
	cov.Slices(t, "float-bits", of, func(t *testing.T, part int) {
		// strided walk over all FLOAT bit patterns and all exponents of DOUBLE
		step := uint64(cov.N(16411, 2053))
		var n int64
		k := vals.Float4()
		for b := uint64(part) * 31; b < 1<<32; b += step {
			if cov.Over() {
				break
			}
			decodeCell(t, k, vals.Float4Val(uint32(b)), nil, nil)
			n++
		}
		k8 := vals.Float8()
		r := vals.PRNG(uint64(part) + 1)
		per := cov.N(8, 40)
		for e := uint64(0); e < 2047; e++ {
			for i := 0; i < per; i++ {
				m := r.Next()
				if i == 0 {
					m = 0
				} else if i == 1 {
					m = math.MaxUint64
				}
				decodeCell(t, k8, vals.Float8Val(e<<52|m&(1<<52-1)|m&(1<<63)), nil, nil)
				n++
			}
		}
		cov.NoteMany(n, fmt.Sprintf("every %dth FLOAT bit pattern; %d mantissas for every DOUBLE exponent", step, per))
	})
}

// ---- C11 ----

func TestC11(t *testing.T) {
	cov.Rule("a case is a DECIMAL(p,s) cell; non-trivial when it has an integer or fraction part that crosses or partially fills a 9-digit group (p > 1) and is not all nines; distinct by p, s and bytes")
	checkCells(t, "random", 15000, 600000, func(rt *rapid.T) vals.Kind {
		p := rapid.IntRange(1, 65).Draw(rt, "p")
		return vals.Decimal(p, rapid.IntRange(0, min(p, 30)).Draw(rt, "s"))
	}, func(v vals.Val) bool { return len(v.Enc) < 2 })
	cellsAtOnce(t, 600, 15000, func(rt *rapid.T) vals.Kind {
		p := rapid.IntRange(1, 65).Draw(rt, "p")
		return vals.Decimal(p, rapid.IntRange(0, min(p, 30)).Draw(rt, "s"))
	})
	cov.Loop(t, "every-precision-and-scale", func(t *testing.T) {
		var n int64
		r := vals.PRNG(7)
		per := cov.N(4, 200)
		digits := func(n int, lead int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + r.Next()%10)
				if i < lead {
					b[i] = '0'
				}
			}
			return string(b)
		}
		rep := func(c byte, n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = c
			}
			return string(b)
		}
		one := func(n, at int) string {
			b := []byte(rep('0', n))
			if at >= 0 && at < n {
				b[at] = '1'
			}
			return string(b)
		}
		for p := 1; p <= 65; p++ {
			for s := 0; s <= p && s <= 30; s++ {
				k := vals.Decimal(p, s)
				i := p - s
				var cases [][2]string
				cases = append(cases, [2]string{rep('0', i), rep('0', s)}, [2]string{rep('9', i), rep('9', s)}, [2]string{rep('9', i), rep('0', s)}, [2]string{rep('0', i), rep('9', s)})
				for a := 0; a < i; a++ { // a single 1 at every integer digit: every leading-zero count
					cases = append(cases, [2]string{one(i, a), rep('0', s)}, [2]string{digits(i, a), digits(s, 0)})
				}
				for a := 0; a < s; a++ {
					cases = append(cases, [2]string{rep('0', i), one(s, a)}, [2]string{digits(i, i/2), digits(s, a)})
				}
				for j := 0; j < per; j++ {
					cases = append(cases, [2]string{digits(i, int(r.Next()%uint64(i+1))), digits(s, int(r.Next()%uint64(s+1)))})
				}
				for _, c := range cases {
					for _, neg := range []bool{false, true} {
						decodeCell(t, k, vals.DecimalVal(p, s, neg, c[0], c[1]), nil, []byte{0xff})
						n++
					}
				}
			}
			if cov.Over() {
				break
			}
		}
		cov.NoteMany(n, "for every p 1..65 and s 0..min(30,p): zero, nines, a single digit at every place, random values with every leading-zero count, both signs")
	})
	cov.Loop(t, "exhaustive-small", func(t *testing.T) {
		var n int64
		max := cov.N(5, 6)
		for p := 1; p <= max; p++ {
			lim := 1
			for i := 0; i < p; i++ {
				lim *= 10
			}
			for s := 0; s <= p; s++ {
				k := vals.Decimal(p, s)
				for v := 0; v < lim; v++ {
					d := fmt.Sprintf("%0*d", p, v)
					decodeCell(t, k, vals.DecimalVal(p, s, false, d[:p-s], d[p-s:]), nil, nil)
					decodeCell(t, k, vals.DecimalVal(p, s, true, d[:p-s], d[p-s:]), nil, nil)
					n += 2
				}
			}
		}
		cov.NoteMany(n, fmt.Sprintf("every value of every DECIMAL(p,s) with p <= %d", max))
	})
}

// ---- C12 ----

var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Asia/Shanghai", "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Australia/Lord_Howe", "Europe/London", "Africa/Monrovia", "Asia/Kathmandu"}

func setZone(name string) {
	l, err := time.LoadLocation(name)
	if err != nil {
		cov.Infra("no time zone %s: %v", name, err)
	}
	time.Local = l
}

func TestC12(t *testing.T) {
	defer func(l *time.Location) { time.Local = l }(time.Local)
	cov.Rule("a case is a temporal cell, for TIMESTAMP together with the local time zone; non-trivial when the value is not the zero value; distinct by type, digits, zone and bytes")
	nonzero := func(v vals.Val) bool {
		for _, c := range v.Want {
			if c >= '1' && c <= '9' {
				return false
			}
		}
		return true
	}
	checkCells(t, "date-datetime", 9000, 400000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 3).Draw(rt, "k") {
		case 0:
			return vals.Date(rapid.SampledFrom([]byte{10, 14}).Draw(rt, "typ"))
		case 1:
			return vals.OldDateTime()
		}
		return vals.DateTime2(rapid.IntRange(0, 6).Draw(rt, "fsp"))
	}, nonzero)
	checkCells(t, "time", 9000, 400000, func(rt *rapid.T) vals.Kind {
		if rapid.IntRange(0, 3).Draw(rt, "k") == 0 {
			return vals.OldTime()
		}
		return vals.Time2(rapid.IntRange(0, 6).Draw(rt, "fsp"))
	}, nonzero)
	cov.Check(t, "timestamp", 9000, 400000, func(rt *rapid.T) {
		z := rapid.SampledFrom(zones).Draw(rt, "zone")
		setZone(z)
		k := vals.Timestamp2(rapid.IntRange(0, 6).Draw(rt, "fsp"))
		if rapid.IntRange(0, 3).Draw(rt, "old") == 0 {
			k = vals.OldTimestamp()
		}
		v := k.Gen(rt)
		b, a := around(rt)
		decodeFamily(rt, k, v, b, a, rapid.Uint64().Draw(rt, "near"), rapid.SampledFrom([]int{0, 2, 5}).Draw(rt, "family"))
		cov.Class("zone " + z)
		cov.Note(!nonzero(v), fmt.Sprintf("%s/%s/%x", k.Name, z, v.Enc), func() string { return fmt.Sprintf("%s in %s: % x = %s", k.Name, z, v.Enc, v.Desc) })
	})
	cellsAtOnce(t, 700, 18000, func(rt *rapid.T) vals.Kind {
		fsp := rapid.IntRange(0, 6).Draw(rt, "fsp")
		switch rapid.IntRange(0, 6).Draw(rt, "k") {
		case 0:
			return vals.Date(10)
		case 1:
			return vals.OldTime()
		case 2:
			return vals.OldDateTime()
		case 3:
			return vals.OldTimestamp()
		case 4:
			return vals.Timestamp2(fsp)
		case 5:
			return vals.DateTime2(fsp)
		}
		return vals.Time2(fsp)
	})
	cov.Loop(t, "zone-transitions", func(t *testing.T) {
		var n int64
		for _, z := range zones {
			setZone(z)
			// walk the years in 6 h steps around the months in which clocks change
			step := int64(cov.N(6, 1)) * 3600
			for y := int64(0); y < 2100-1970; y += 3 {
				base := int64(float64(y) * 365.2425 * 86400)
				for s := base; s < base+365*86400; s += step * 7 {
					if s <= 0 || s > math.MaxUint32 {
						continue
					}
					decodeCell(t, vals.OldTimestamp(), vals.OldTimestampVal(uint32(s)), nil, nil)
					n++
				}
			}
		}
		cov.NoteMany(n, "instants 1970..2100 in steps, in every zone of the list")
	})
	cov.Loop(t, "repeatable-zero", func(t *testing.T) {
		// decoding the zero timestamp twice must give the same text, also after
		// fractions were printed
		setZone("UTC")
		for fsp := 0; fsp <= 6; fsp++ {
			for i := 0; i < 3; i++ {
				decodeCell(t, vals.Timestamp2(fsp), vals.Timestamp2Val(0, 0, fsp), nil, nil)
				decodeCell(t, vals.OldTimestamp(), vals.OldTimestampVal(0), nil, nil)
			}
		}
		cov.NoteMany(42, "zero timestamps of every precision, repeatedly")
	})
	const parts = 3
	cov.Slices(t, "exhaustive-time", parts, func(t *testing.T, part int) {
		var n int64
		k, k2 := vals.OldTime(), vals.Time2(0)
		for s := -(838*3600 + 59*60 + 59) + part; s <= 838*3600+59*60+59; s += parts {
			a, neg := s, false
			if s < 0 {
				a, neg = -s, true
			}
			decodeCell(t, k, vals.OldTimeVal(neg, a/3600, a/60%60, a%60), nil, nil)
			decodeCell(t, k2, vals.Time2Val(neg, a/3600, a/60%60, a%60, 0, 0), nil, nil)
			n += 2
		}
		cov.NoteMany(n, "every TIME value from -838:59:59 to 838:59:59, old and new encoding")
	})
	cov.Slices(t, "exhaustive-fractions", parts, func(t *testing.T, part int) {
		var n int64
		for us := part; us < 1000000; us += parts {
			for fsp := 1; fsp <= 6; fsp++ {
				if us != wire.TruncUsec(us, fsp) {
					continue
				}
				for _, neg := range []bool{false, true} {
					decodeCell(t, vals.Time2(fsp), vals.Time2Val(neg, 0, 0, 0, us, fsp), nil, nil)
					decodeCell(t, vals.Time2(fsp), vals.Time2Val(neg, us%838, us%60, us/7%60, us, fsp), nil, nil)
				}
				decodeCell(t, vals.DateTime2(fsp), vals.DateTime2Val(2001, 2, 3, 4, 5, 6, us, fsp), nil, nil)
				n += 5
			}
		}
		cov.NoteMany(n, "every fraction of TIME/DATETIME(1..6), both signs, with and without a zero integer part")
	})
	cov.Slices(t, "exhaustive-date", parts, func(t *testing.T, part int) {
		var n int64
		k := vals.Date(10)
		for i := part; i < 10000*13*32; i += parts {
			y, m, d := i/(13*32), i/32%13, i%32
			decodeCell(t, k, vals.DateVal(y, m, d), nil, nil)
			n++
			if i%7 == 0 {
				decodeCell(t, vals.DateTime2(0), vals.DateTime2Val(y, m, d, i%24, i%60, i%59, 0, 0), nil, nil)
				decodeCell(t, vals.OldDateTime(), vals.OldDateTimeVal(y, m, d, i%24, i%60, i%59), nil, nil)
				n += 2
			}
		}
		cov.NoteMany(n, "every date 0000-00-00..9999-12-31 (zero parts included)")
	})
}

// ---- C13 ----

func TestC13(t *testing.T) {
	cov.Rule("a case is a string or binary cell (type, declared maximum, data); non-trivial when the data is not empty; distinct by type, maximum, length and data")
	checkCells(t, "strings", 6000, 120000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 3).Draw(rt, "k") {
		case 0:
			return vals.Char(rapid.IntRange(0, 1023).Draw(rt, "max"))
		case 1:
			max := rapid.SampledFrom([]int{0, 1, 254, 255, 256, 257, 511, 512, 767, 768, 1000, 4095, 32767, 32768, 65534, 65535}).Draw(rt, "max")
			if rapid.Bool().Draw(rt, "any") {
				max = rapid.IntRange(0, 65535).Draw(rt, "max")
			}
			return vals.VarcharCap(rapid.SampledFrom([]byte{15, 253}).Draw(rt, "typ"), max, 3000)
		case 2:
			return vals.BlobCap(255, rapid.IntRange(1, 4).Draw(rt, "n"), 3000)
		}
		n := rapid.IntRange(1, 4).Draw(rt, "n")
		return vals.BlobCap(rapid.SampledFrom([]byte{252, 252, 249, 250, 251}).Draw(rt, "typ"), n, 3000)
	}, func(v vals.Val) bool { return len(v.Want) == 0 })
	cellsAtOnce(t, 400, 10000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 2).Draw(rt, "k") {
		case 0:
			return vals.Char(rapid.IntRange(0, 1023).Draw(rt, "max"))
		case 1:
			return vals.VarcharCap(15, rapid.SampledFrom([]int{1, 255, 256, 65535}).Draw(rt, "max"), 300)
		}
		return vals.BlobCap(252, rapid.IntRange(1, 4).Draw(rt, "n"), 300)
	})
	cov.Loop(t, "char-every-maximum", func(t *testing.T) {
		var n int64
		data := vals.Bytes(3, 1100)
		step := cov.N(7, 1)
		for max := 0; max <= 1023; max++ {
			k := vals.Char(max)
			for l := 0; l <= max; l++ {
				if l > 3 && l < max-1 && (l < 250 || l > 260) && (l+max)%step != 0 {
					continue
				}
				decodeCell(t, k, vals.CharVal(max, data[:l]), []byte{9}, []byte{7, 7})
				n++
			}
		}
		cov.NoteMany(n, "CHAR/BINARY of every maximum 0..1023 bytes; lengths 0..3, 250..260, maximum and others")
	})
	cov.Loop(t, "varchar-every-maximum", func(t *testing.T) {
		var n int64
		data := vals.Bytes(4, 66000)
		step := cov.N(23, 1)
		for max := 0; max <= 65535; max++ {
			if max > 600 && max%step != 0 && max < 65500 {
				continue
			}
			for _, typ := range []byte{15, 253} {
				k := vals.Varchar(typ, max)
				for _, l := range []int{0, 1, 127, 128, 250, 251, 254, 255, 256, 257, max} {
					if l <= max && (l < 300 || max%16 == 0 || max < 1000) {
						decodeCell(t, k, vals.CharVal(max, data[:l]), []byte{9}, []byte{7, 7})
						n++
					}
				}
			}
			if max%1024 == 0 && cov.Over() {
				break
			}
		}
		cov.NoteMany(n, fmt.Sprintf("VARCHAR of every maximum 0..600, every %dth up to 65535, lengths around the prefix boundaries", step))
	})
	cov.Loop(t, "large", func(t *testing.T) {
		var n int64
		sizes := []int{255, 256, 65535, 65536, 65537, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1}
		if cov.Thorough {
			sizes = append(sizes, 40<<20)
		}
		data := vals.Bytes(5, sizes[len(sizes)-1])
		for _, typ := range []byte{252, 255, 249, 250, 251} {
			for p := 1; p <= 4; p++ {
				for _, l := range sizes {
					if p < 4 && l >= 1<<(8*p) {
						continue
					}
					decodeCell(t, vals.Blob(typ, p), vals.BlobVal(data[:l], p), []byte{1}, []byte{2})
					n++
				}
			}
		}
		cov.NoteMany(n, fmt.Sprintf("BLOB and GEOMETRY lengths %v for every prefix width that holds them", sizes))
	})
	cov.Check(t, "private-copy-size", 200, 2000, func(rt *rapid.T) {
		// length rule and decoder agree inside a row: a string between two ints
		k := vals.VarcharCap(15, rapid.SampledFrom([]int{255, 256, 65535}).Draw(rt, "max"), 400)
		v := k.Gen(rt)
		rowRoundTrip(rt, wire.Format{HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 38)}, []vals.Kind{vals.Int(4, false), k, vals.Int(4, true)}, []vals.Val{vals.IntVal(4, false, 77), v, vals.IntVal(4, true, 1<<31)})
		cov.Note(len(v.Want) > 0, fmt.Sprintf("%x", v.Enc), nil)
	})
}

func rowRoundTrip(rt fataler, f wire.Format, ks []vals.Kind, vs []vals.Val) {
	bf := format(rt, f)
	spec := wire.TableSpec{ID: 1, DB: "d", Name: "t"}
	r := wire.RowsSpec{Kind: wire.Insert, ID: 1, NCols: len(ks), V2: true}
	img := wire.Image{}
	for i, k := range ks {
		spec.Cols = append(spec.Cols, k.Col(true))
		r.After = append(r.After, true)
		img = append(img, wire.Cell{Enc: vs[i].Enc})
	}
	r.Afters = []wire.Image{img}
	tm, err := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvTableMap}, spec.Body(f))).TableMap(bf)
	if err != nil {
		rt.Fatalf("TableMap: %v", err)
	}
	rows, err := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvWriteV2}, r.Body(f))).Rows(bf, tm)
	if err != nil {
		rt.Fatalf("Rows: %v", err)
	}
	if len(rows.Rows) != 1 {
		rt.Fatalf("%d rows decoded of 1", len(rows.Rows))
	}
	pos := 0
	for i, k := range ks {
		got, n, err := replication.CellBytes(rows.Rows[0].Data, pos, tm.Types[i], tm.Metadata[i], k.Unsigned)
		if err != nil {
			rt.Fatalf("column %d: %v", i, err)
		}
		if err := vs[i].Match(got); err != nil {
			rt.Fatalf("column %d (%s): %v", i, k.Name, err)
		}
		pos += n
	}
	if pos != len(rows.Rows[0].Data) {
		rt.Fatalf("columns consume %d of %d bytes", pos, len(rows.Rows[0].Data))
	}
}

// ---- C14 ----

func TestC14(t *testing.T) {
	cov.Rule("a case is a JSON document in MySQL's binary form; non-trivial when it has at least one container with a member, or is an opaque or string scalar; distinct by encoding")
	run := func(rt fataler, d *wire.Doc, n int) {
		rt.Helper()
		k := vals.Kind{Name: "JSON", Type: 245, Meta: []byte{byte(n)}, MetaVal: uint16(n)}
		decodeCell(rt, k, vals.JSONVal(d, n), []byte{0xff, 0xfe}, []byte{0xff, 1})
	}
	nontrivial := func(d *wire.Doc) bool {
		return len(d.Kids) > 0 || d.Kind >= wire.DString && d.Kind <= wire.DDecimal
	}
	note := func(d *wire.Doc) {
		enc := d.Encode()
		vals.Count(d, func(x *wire.Doc, depth int) {
			cov.Class([]string{"null", "true", "false", "int", "uint", "double", "string", "date", "time", "datetime", "decimal", "array", "object"}[x.Kind])
			if depth >= 3 {
				cov.Class("depth>=3")
			}
		})
		switch {
		case enc[0] == 1 || enc[0] == 3:
			cov.Class("top-level large format")
		case enc[0] == 0 || enc[0] == 2:
			cov.Class("top-level small format")
		}
		cov.Note(nontrivial(d), string(enc), func() string { return d.Describe() })
	}
	cov.Check(t, "documents", 6000, 200000, func(rt *rapid.T) {
		d := vals.GenDoc(rt, vals.DocOpts{MaxNodes: rapid.IntRange(1, 40).Draw(rt, "nodes"), MaxDepth: 8})
		k := vals.Kind{Name: "JSON", Type: 245, Meta: []byte{4}, MetaVal: 4}
		decodeFamily(rt, k, vals.JSONVal(d, 4), []byte{0xff, 0xfe}, []byte{0xff, 1}, rapid.Uint64().Draw(rt, "near"), rapid.SampledFrom([]int{0, 1, 4}).Draw(rt, "family"))
		note(d)
	})
	cov.Check(t, "scalars", 4000, 100000, func(rt *rapid.T) {
		d := vals.GenDoc(rt, vals.DocOpts{MaxNodes: 0})
		n := rapid.IntRange(2, 4).Draw(rt, "prefix")
		run(rt, d, n)
		// the same scalar inside containers of both formats
		for _, large := range []bool{false, true} {
			run(rt, &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{d, {Kind: wire.DInt, Width: 2, I: -7}, d}, Large: large}, 4)
			run(rt, &wire.Doc{Kind: wire.DObject, Keys: []string{"a", "bb"}, Kids: []*wire.Doc{d, d}, Large: large}, 4)
		}
		note(d)
	})
	cellsAtOnce(t, 400, 10000, func(rt *rapid.T) vals.Kind {
		return vals.JSON(vals.DocOpts{MaxNodes: rapid.SampledFrom([]int{0, 3, 12}).Draw(rt, "nodes"), MaxDepth: 6})
	})
	cov.Check(t, "big", 60, 2500, func(rt *rapid.T) {
		d := vals.GenDoc(rt, vals.DocOpts{MaxNodes: rapid.IntRange(3, 30).Draw(rt, "nodes"), MaxDepth: 5, Big: true})
		run(rt, d, 4)
		note(d)
	})
	cov.Check(t, "wide", 60, 1500, func(rt *rapid.T) {
		// many members: offsets beyond one byte, up to the small/large limit
		n := rapid.SampledFrom([]int{200, 255, 256, 257, 1000, 5000, 9000, 13000, 22000}).Draw(rt, "n")
		d := &wire.Doc{Kind: wire.DArray, Large: rapid.Bool().Draw(rt, "large")}
		obj := rapid.Bool().Draw(rt, "object")
		if obj {
			d.Kind = wire.DObject
		}
		pool := make([]*wire.Doc, 7)
		for i := range pool {
			pool[i] = vals.GenDoc(rt, vals.DocOpts{MaxNodes: 3, MaxDepth: 2})
		}
		o := rapid.IntRange(0, 6).Draw(rt, "o")
		for i := 0; i < n; i++ {
			if obj {
				d.Keys = append(d.Keys, fmt.Sprintf("k%05d", i))
			}
			d.Kids = append(d.Kids, pool[(i+o)%7])
		}
		run(rt, d, 4)
		note(d)
	})
	cov.Check(t, "deep", 150, 4000, func(rt *rapid.T) {
		d := vals.GenDoc(rt, vals.DocOpts{MaxNodes: 4})
		d = vals.Deep(d, rapid.IntRange(1, 100).Draw(rt, "depth"), rapid.Bool().Draw(rt, "object"), rapid.Bool().Draw(rt, "large"))
		run(rt, d, 4)
		note(d)
	})
	cov.Loop(t, "string-lengths", func(t *testing.T) {
		// the variable-length size prefix: 1, 2, 3 and 4 bytes
		var n int64
		lens := []int{0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 1<<21 - 1, 1 << 21, 1<<21 + 1}
		if cov.Thorough {
			lens = append(lens, 1<<24+5, 1<<28-1, 1<<28)
		}
		for _, l := range lens {
			if cov.Over() {
				break
			}
			b := make([]byte, l)
			for i := range b {
				b[i] = byte('a' + i%23)
			}
			d := &wire.Doc{Kind: wire.DString, S: string(b)}
			run(t, d, 4)
			if l < 1<<22 {
				run(t, &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{d, {Kind: wire.DTrue}, d}}, 4)
				run(t, &wire.Doc{Kind: wire.DObject, Keys: []string{"", "x"}, Kids: []*wire.Doc{d, {Kind: wire.DUint, Width: 4, U: 4000000000}}}, 4)
			}
			n += 3
		}
		for l := 0; l < cov.N(300, 40000); l++ {
			b := make([]byte, l)
			for i := range b {
				b[i] = 'q'
			}
			run(t, &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{{Kind: wire.DString, S: string(b)}, {Kind: wire.DNull}}}, 4)
			n++
		}
		cov.NoteMany(n, fmt.Sprintf("string lengths 0..300 and %v at top level and nested", lens))
	})
	cov.Loop(t, "offsets-beyond-16MiB", func(t *testing.T) {
		// the fourth byte of the offsets of keys and values, and of the size
		fill := func(n int, c byte) string { return strings.Repeat(string(rune(c)), n) }
		var n int64
		big := &wire.Doc{Kind: wire.DString, S: fill(1<<24+3, 'b')}
		small := func(s string) *wire.Doc {
			return &wire.Doc{Kind: wire.DObject, Keys: []string{s}, Kids: []*wire.Doc{{Kind: wire.DString, S: s + s}}}
		}
		run(t, &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{small("p"), big, small("q"), {Kind: wire.DInt, Width: 8, I: -1 << 40}}}, 4)
		run(t, &wire.Doc{Kind: wire.DObject, Keys: []string{"a", "b", "c"}, Kids: []*wire.Doc{small("p"), big, small("q")}}, 4)
		n += 2
		d := &wire.Doc{Kind: wire.DObject}
		for i := 0; i < 270; i++ {
			k := fmt.Sprintf("%03d", i)
			d.Keys = append(d.Keys, k+fill(65000, byte('a'+i%26)))
			d.Kids = append(d.Kids, &wire.Doc{Kind: wire.DString, S: k})
		}
		run(t, d, 4)
		n++
		cov.NoteMany(n, "documents of more than 16 MiB: an array, an object and the keys of an object")
	})
	cov.Loop(t, "every-byte-in-strings", func(t *testing.T) {
		var n int64
		for c := rune(0); c < 0x3000; c++ {
			s := "x" + string(c) + "y"
			d := &wire.Doc{Kind: wire.DString, S: s}
			run(t, d, 4)
			run(t, &wire.Doc{Kind: wire.DObject, Keys: []string{s}, Kids: []*wire.Doc{{Kind: wire.DString, S: string(c)}}}, 4)
			n += 2
		}
		cov.NoteMany(n, "every code point below U+3000 in a string, a nested string and a key")
	})
	cov.Loop(t, "int16-exhaustive", func(t *testing.T) {
		var n int64
		step := cov.N(7, 1)
		for v := -32768; v < 32768; v += step {
			i := &wire.Doc{Kind: wire.DInt, Width: 2, I: int64(v)}
			u := &wire.Doc{Kind: wire.DUint, Width: 2, U: uint64(v + 32768)}
			run(t, &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{i, u}}, 4)
			run(t, &wire.Doc{Kind: wire.DArray, Large: true, Kids: []*wire.Doc{i, u}}, 4)
			run(t, i, 4)
			run(t, u, 4)
			n += 4
		}
		cov.NoteMany(n, fmt.Sprintf("every %dth 16-bit integer, signed and unsigned, at top level and inlined in small and large arrays", step))
	})
	cov.Loop(t, "empty-value", func(t *testing.T) {
		// a JSON column given to existing rows holds zero bytes and denotes null
		k := vals.Kind{Name: "JSON", Type: 245, MetaVal: 4}
		d := &wire.Doc{Kind: wire.DNull}
		decodeCell(t, k, vals.Val{Enc: []byte{0, 0, 0, 0}, Desc: "empty JSON value (null)", Check: func(got []byte) error { return wire.MatchJSON(got, d) }}, nil, []byte{3})
		cov.NoteMany(1, "the zero-length JSON value")
	})
}
