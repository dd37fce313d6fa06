// Package vals generates column kinds, their values, the bytes a master logs
// for them and the text a consumer must get.
package vals

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"time"

	"pgregory.net/rapid"

	"verifharness/wire"
)

// Val is one non-NULL column value.
type Val struct {
	Enc   []byte                 // as logged
	Want  []byte                 // exact expected data (nil when Check decides)
	Check func(got []byte) error // overrides Want
	Desc  string                 // for messages

	// Near gives a value of the same kind that differs from this one in a small
	// place (one digit, one component, one byte, one leaf) and usually has the
	// same encoded length: what a decoder that remembers values by part of their
	// bytes takes for this one.
	Near func(r *Rand) Val
}

// Match compares delivered data with the value.
func (v Val) Match(got []byte) error {
	if v.Check != nil {
		if got == nil {
			return fmt.Errorf("data is nil (reads as SQL NULL), value is %s", v.Desc)
		}
		if err := v.Check(got); err != nil {
			return fmt.Errorf("value %s: %w", v.Desc, err)
		}
		return nil
	}
	if err := wire.MatchBytes(got, v.Want); err != nil {
		return fmt.Errorf("value %s: %w", v.Desc, err)
	}
	return nil
}

// Kind is a column type with its parameters.
type Kind struct {
	Name     string // e.g. "INT UNSIGNED"
	Class    string // coarse class, for coverage counters
	Type     byte
	Meta     []byte
	MetaVal  uint16
	Unsigned bool // what the table mapper says
	Gen      func(t *rapid.T) Val
}

// Col gives the table-map column.
func (k Kind) Col(nullable bool) wire.Col {
	return wire.Col{Type: k.Type, Meta: k.Meta, MetaVal: k.MetaVal, Nullable: nullable}
}

func text(enc []byte, s string) Val { return Val{Enc: enc, Want: []byte(s), Desc: s} }

// Int picks an integer kind.
func Int(width int, unsigned bool) Kind {
	typ := map[int]byte{1: 1, 2: 2, 3: 9, 4: 3, 8: 8}[width]
	n := uint(width * 8)
	name := map[int]string{1: "TINYINT", 2: "SMALLINT", 3: "MEDIUMINT", 4: "INT", 8: "BIGINT"}[width]
	if unsigned {
		name += " UNSIGNED"
	}
	return Kind{Name: name, Class: "int", Type: typ, Unsigned: unsigned, Gen: func(t *rapid.T) Val {
		return IntVal(width, unsigned, genBits(t, n))
	}}
}

// IntVal encodes the low bits of raw.
func IntVal(width int, unsigned bool, raw uint64) Val {
	n := uint(width * 8)
	if n < 64 {
		raw &= 1<<n - 1
	}
	s := strconv.FormatUint(raw, 10)
	if !unsigned && raw>>(n-1) == 1 {
		// two's complement magnitude, computed without sign tricks on int64
		mag := (^raw + 1)
		if n < 64 {
			mag &= 1<<n - 1
		}
		s = "-" + strconv.FormatUint(mag, 10)
	}
	return text(wire.LE(raw, width), s).near(func(r *Rand) Val { return IntVal(width, unsigned, flip(r, raw, n)) })
}

func genBits(t *rapid.T, n uint) uint64 {
	var all uint64 = math.MaxUint64
	if n < 64 {
		all = 1<<n - 1
	}
	switch rapid.IntRange(0, 5).Draw(t, "mode") {
	case 0:
		v := []uint64{0, 1, 2, all, all - 1, 1 << (n - 1), 1<<(n-1) - 1, 1<<(n-1) + 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff}
		return rapid.SampledFrom(v).Draw(t, "edge") & all
	case 1:
		return uint64(1) << rapid.UintRange(0, n-1).Draw(t, "bit")
	case 2:
		// distinct bytes: any byte mix-up shows
		return 0x8877665544332211 & all
	default:
		return rapid.Uint64().Draw(t, "bits") & all
	}
}

// Float4 is FLOAT, Float8 is DOUBLE.
func Float4() Kind {
	return Kind{Name: "FLOAT", Class: "float", Type: 4, Meta: []byte{4}, MetaVal: 4, Gen: func(t *rapid.T) Val {
		b := uint32(genBits(t, 32))
		switch rapid.IntRange(0, 3).Draw(t, "fmode") {
		case 0:
			b = math.Float32bits(rapid.SampledFrom([]float32{0, 1, -1, 0.1, 1.5, 3.4028235e38, -3.4028235e38, 1.4e-45, 1.1754944e-38, 16777216, 16777217, 1e10, 1e-10, 123456.79, 1e21, 1e20}).Draw(t, "f"))
		case 1:
			b = math.Float32bits(rapid.Float32().Draw(t, "f"))
		}
		return Float4Val(b)
	}}
}

// Float4Val makes a FLOAT value (NaN and infinities, which MySQL cannot store,
// are mapped to finite values).
func Float4Val(b uint32) Val {
	if b&0x7f800000 == 0x7f800000 {
		b &^= 0x00800000
	}
	return Val{Enc: wire.LE(uint64(b), 4), Desc: fmt.Sprintf("float %v (bits %08x)", math.Float32frombits(b), b),
		Check: func(got []byte) error { return wire.MatchFloat32(got, b) },
		Near:  func(r *Rand) Val { return Float4Val(uint32(flip(r, uint64(b), 32))) }}
}

// Float8 is DOUBLE.
func Float8() Kind {
	return Kind{Name: "DOUBLE", Class: "float", Type: 5, Meta: []byte{8}, MetaVal: 8, Gen: func(t *rapid.T) Val {
		b := genBits(t, 64)
		switch rapid.IntRange(0, 3).Draw(t, "fmode") {
		case 0:
			b = math.Float64bits(rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, math.MaxFloat64, -math.MaxFloat64, 5e-324, 2.2250738585072014e-308, 9007199254740993, 1e300, 1e-300, 1e21, 1e22, 1e23, 123456789.123456789}).Draw(t, "f"))
		case 1:
			b = math.Float64bits(rapid.Float64().Draw(t, "f"))
		}
		return Float8Val(b)
	}}
}

// Float8Val makes a DOUBLE value.
func Float8Val(b uint64) Val {
	if b&0x7ff0000000000000 == 0x7ff0000000000000 {
		b &^= 0x0010000000000000
	}
	return Val{Enc: wire.LE(b, 8), Desc: fmt.Sprintf("double %v (bits %016x)", math.Float64frombits(b), b),
		Check: func(got []byte) error { return wire.MatchFloat64(got, b) },
		Near:  func(r *Rand) Val { return Float8Val(flip(r, b, 64)) }}
}

// Year is YEAR.
func Year() Kind {
	return Kind{Name: "YEAR", Class: "year", Type: 13, Gen: func(t *rapid.T) Val {
		return YearVal(rapid.ByteRange(0, 255).Draw(t, "year"))
	}}
}

// YearVal is a YEAR value.
func YearVal(b byte) Val {
	s := "0000"
	if b != 0 {
		s = strconv.Itoa(1900 + int(b))
	}
	return text([]byte{b}, s).near(func(r *Rand) Val { return YearVal(byte(flip(r, uint64(b), 8))) })
}

// Bit is BIT(n).
func Bit(n int) Kind {
	meta := []byte{byte(n % 8), byte(n / 8)}
	return Kind{Name: fmt.Sprintf("BIT(%d)", n), Class: "bit", Type: 16, Meta: meta, MetaVal: uint16(n/8)<<8 | uint16(n%8),
		Gen: func(t *rapid.T) Val { return BitVal(n, genBits(t, uint(n))) }}
}

// BitVal is a BIT(n) value.
func BitVal(n int, v uint64) Val {
	l := (n + 7) / 8
	b := make([]byte, l)
	for i := range b {
		b[l-1-i] = byte(v >> (8 * i))
	}
	return Val{Enc: b, Want: append([]byte{}, b...), Desc: fmt.Sprintf("bits %x", b),
		Near: func(r *Rand) Val { return BitVal(n, flip(r, v, uint(n))) }}
}

// Enum is ENUM with 1 or 2 byte storage, logged as STRING (or, for direct, as
// ENUM).
func Enum(size int, direct bool) Kind {
	k := Kind{Name: fmt.Sprintf("ENUM/%d", size), Class: "enum", Type: 254, Meta: []byte{247, byte(size)}, MetaVal: 247<<8 | uint16(size),
		Gen: func(t *rapid.T) Val { return EnumVal(size, genBits(t, uint(size*8))) }}
	if direct {
		k.Type = 247
		k.Name += "/direct"
	}
	return k
}

// EnumVal is a member index.
func EnumVal(size int, v uint64) Val {
	return text(wire.LE(v, size), strconv.FormatUint(v, 10)).near(func(r *Rand) Val { return EnumVal(size, flip(r, v, uint(size*8))) })
}

// Set is SET with 1,2,3,4 or 8 byte storage.
func Set(size int) Kind {
	return Kind{Name: fmt.Sprintf("SET/%d", size), Class: "set", Type: 254, Meta: []byte{248, byte(size)}, MetaVal: 248<<8 | uint16(size),
		Gen: func(t *rapid.T) Val { return EnumVal(size, genBits(t, uint(size*8))) }}
}

// Decimal is DECIMAL(p,s).
func Decimal(p, s int) Kind {
	return Kind{Name: fmt.Sprintf("DECIMAL(%d,%d)", p, s), Class: "decimal", Type: 246, Meta: []byte{byte(p), byte(s)}, MetaVal: uint16(p)<<8 | uint16(s),
		Gen: func(t *rapid.T) Val {
			i, f := GenDigits(t, p-s, true), GenDigits(t, s, false)
			return DecimalVal(p, s, rapid.Bool().Draw(t, "neg"), i, f)
		}}
}

// DecimalVal makes a value; a negative zero is not representable in MySQL.
func DecimalVal(p, s int, neg bool, i, f string) Val {
	if wire.AllZero(i, f) {
		neg = false
	}
	return text(wire.EncodeDecimal(p, s, neg, i, f), wire.DecimalText(neg, i, f)).near(func(r *Rand) Val {
		ni, nf, nn := nearDigits(r, i, f, neg)
		return DecimalVal(p, s, nn, ni, nf)
	})
}

// GenDigits draws n decimal digits: leading zeros, single digits, group
// boundaries, nines.
func GenDigits(t *rapid.T, n int, leading bool) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
	}
	switch rapid.IntRange(0, 5).Draw(t, "digits") {
	case 0: // all zero
	case 1: // one digit somewhere
		b[rapid.IntRange(0, n-1).Draw(t, "at")] = byte('0' + rapid.IntRange(1, 9).Draw(t, "d"))
	case 2: // all nines
		for i := range b {
			b[i] = '9'
		}
	case 3: // random from a position on
		from := 0
		if leading {
			from = rapid.IntRange(0, n-1).Draw(t, "from")
		}
		fill(b[from:], rapid.Uint64().Draw(t, "seed"))
	case 4: // zero groups between non-zero ones
		fill(b, rapid.Uint64().Draw(t, "seed"))
		a := rapid.IntRange(0, n-1).Draw(t, "zfrom")
		z := rapid.IntRange(a, n-1).Draw(t, "zto")
		for i := a; i <= z; i++ {
			b[i] = '0'
		}
	default:
		fill(b, rapid.Uint64().Draw(t, "seed"))
	}
	return string(b)
}

func fill(b []byte, seed uint64) {
	r := PRNG(seed)
	for i := range b {
		b[i] = byte('0' + r.Next()%10)
	}
}

// Rand is splitmix64: expands one drawn seed into bulk data.
type Rand struct{ s uint64 }

// PRNG seeds a Rand.
func PRNG(seed uint64) *Rand { return &Rand{seed} }

// Next returns 64 bits.
func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Bytes expands a seed into n bytes.
func Bytes(seed uint64, n int) []byte {
	b := make([]byte, n)
	r := PRNG(seed)
	for i := 0; i < n; i += 8 {
		v := r.Next()
		for j := i; j < i+8 && j < n; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

func genTime(t *rapid.T) (neg bool, h, m, s, us int) {
	neg = rapid.Bool().Draw(t, "neg")
	switch rapid.IntRange(0, 3).Draw(t, "tmode") {
	case 0:
		h = rapid.SampledFrom([]int{0, 0, 1, 9, 10, 99, 100, 511, 512, 837, 838}).Draw(t, "h")
		m = rapid.SampledFrom([]int{0, 0, 1, 59}).Draw(t, "m")
		s = rapid.SampledFrom([]int{0, 0, 1, 59}).Draw(t, "s")
	default:
		h, m, s = rapid.IntRange(0, 838).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s")
	}
	us = genUsec(t)
	return
}

func genUsec(t *rapid.T) int {
	if rapid.Bool().Draw(t, "uedge") {
		return rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 50000, 99999, 100000, 250000, 500000, 900000, 999999, 990000, 999900}).Draw(t, "us")
	}
	return rapid.IntRange(0, 999999).Draw(t, "us")
}

func genDate(t *rapid.T) (y, m, d int) {
	switch rapid.IntRange(0, 3).Draw(t, "dmode") {
	case 0:
		return 0, 0, 0
	case 1: // partially zero dates, limits
		y = rapid.SampledFrom([]int{0, 1, 99, 999, 1000, 1970, 2000, 2038, 9999}).Draw(t, "y")
		m = rapid.SampledFrom([]int{0, 1, 12}).Draw(t, "mo")
		d = rapid.SampledFrom([]int{0, 1, 28, 31}).Draw(t, "d")
		return
	}
	return rapid.IntRange(0, 9999).Draw(t, "y"), rapid.IntRange(0, 12).Draw(t, "mo"), rapid.IntRange(0, 31).Draw(t, "d")
}

func genClock(t *rapid.T) (h, m, s int) {
	return rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s")
}

// Date is DATE (typ 10) or NEWDATE (typ 14).
func Date(typ byte) Kind {
	return Kind{Name: "DATE", Class: "date", Type: typ, Gen: func(t *rapid.T) Val { return DateVal(genDate(t)) }}
}

// DateVal is a DATE value.
func DateVal(y, m, d int) Val {
	return text(wire.LE(uint64(y)<<9|uint64(m)<<5|uint64(d), 3), fmt.Sprintf("%04d-%02d-%02d", y, m, d)).near(func(r *Rand) Val {
		y, m, d := nearDate(r, y, m, d)
		return DateVal(y, m, d)
	})
}

// OldTime is the pre-5.6.4 TIME.
func OldTime() Kind {
	return Kind{Name: "TIME(old)", Class: "oldtime", Type: 11, Gen: func(t *rapid.T) Val {
		neg, h, m, s, _ := genTime(t)
		return OldTimeVal(neg, h, m, s)
	}}
}

// OldTimeVal is an old TIME value.
func OldTimeVal(neg bool, h, m, s int) Val {
	v := int64(h*10000 + m*100 + s)
	if v == 0 {
		neg = false
	}
	if neg {
		v = -v
	}
	return text(wire.LE(uint64(v), 3), wire.TimeText(neg, h, m, s, 0, 0)).near(func(r *Rand) Val {
		neg, h, m, s, _ := nearTime(r, neg, h, m, s, 0, 4)
		return OldTimeVal(neg, h, m, s)
	})
}

// OldDateTime is the pre-5.6.4 DATETIME.
func OldDateTime() Kind {
	return Kind{Name: "DATETIME(old)", Class: "olddatetime", Type: 12, Gen: func(t *rapid.T) Val {
		y, mo, d := genDate(t)
		h, m, s := genClock(t)
		return OldDateTimeVal(y, mo, d, h, m, s)
	}}
}

// OldDateTimeVal is an old DATETIME value.
func OldDateTimeVal(y, mo, d, h, m, s int) Val {
	v := uint64(y*10000+mo*100+d)*1000000 + uint64(h*10000+m*100+s)
	return text(wire.LE(v, 8), wire.DateTimeText(y, mo, d, h, m, s, 0, 0)).near(func(r *Rand) Val {
		y, mo, d, h, m, s, _ := nearDateTime(r, y, mo, d, h, m, s, 0, 0)
		return OldDateTimeVal(y, mo, d, h, m, s)
	})
}

func offsetAt(sec uint32) int {
	_, off := time.Unix(int64(sec), 0).In(time.Local).Zone()
	return off
}

func genUnix(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 3).Draw(t, "umode") {
	case 0:
		return rapid.SampledFrom([]uint32{0, 0, 1, 86399, 86400, 951782400, 1709164800, 1709251199, 2147483647, 2147483648, 4294967295, 1700000000}).Draw(t, "sec")
	}
	return uint32(genBits(t, 32))
}

// OldTimestamp is the pre-5.6.4 TIMESTAMP.
func OldTimestamp() Kind {
	return Kind{Name: "TIMESTAMP(old)", Class: "oldtimestamp", Type: 7, Gen: func(t *rapid.T) Val { return OldTimestampVal(genUnix(t)) }}
}

// OldTimestampVal is an old TIMESTAMP value.
func OldTimestampVal(sec uint32) Val {
	s := "0000-00-00 00:00:00"
	if sec != 0 {
		s = wire.InstantText(int64(sec), offsetAt(sec), 0, 0)
	}
	return text(wire.LE(uint64(sec), 4), s).near(func(r *Rand) Val { return OldTimestampVal(nearUnix(r, sec)) })
}

// Timestamp2 is TIMESTAMP(fsp).
func Timestamp2(fsp int) Kind {
	return Kind{Name: fmt.Sprintf("TIMESTAMP(%d)", fsp), Class: "timestamp2", Type: 17, Meta: []byte{byte(fsp)}, MetaVal: uint16(fsp), Gen: func(t *rapid.T) Val {
		return Timestamp2Val(genUnix(t), genUsec(t), fsp)
	}}
}

// Timestamp2Val is a TIMESTAMP(fsp) value; second 0 is the zero timestamp and
// has no fraction.
func Timestamp2Val(sec uint32, us, fsp int) Val {
	us = wire.TruncUsec(us, fsp)
	s := "0000-00-00 00:00:00" + wire.FracText(0, fsp)
	if sec != 0 {
		s = wire.InstantText(int64(sec), offsetAt(sec), us, fsp)
	} else {
		us = 0
	}
	return text(wire.EncTimestamp2(sec, us, fsp), s).near(func(r *Rand) Val {
		if fsp > 0 && r.Next()%2 == 0 {
			return Timestamp2Val(sec, nearUsec(r, us), fsp)
		}
		return Timestamp2Val(nearUnix(r, sec), us, fsp)
	})
}

// DateTime2 is DATETIME(fsp).
func DateTime2(fsp int) Kind {
	return Kind{Name: fmt.Sprintf("DATETIME(%d)", fsp), Class: "datetime2", Type: 18, Meta: []byte{byte(fsp)}, MetaVal: uint16(fsp), Gen: func(t *rapid.T) Val {
		y, mo, d := genDate(t)
		h, m, s := genClock(t)
		return DateTime2Val(y, mo, d, h, m, s, genUsec(t), fsp)
	}}
}

// DateTime2Val is a DATETIME(fsp) value.
func DateTime2Val(y, mo, d, h, m, s, us, fsp int) Val {
	us = wire.TruncUsec(us, fsp)
	return text(wire.EncDateTime2(y, mo, d, h, m, s, us, fsp), wire.DateTimeText(y, mo, d, h, m, s, us, fsp)).near(func(r *Rand) Val {
		y, mo, d, h, m, s, us := nearDateTime(r, y, mo, d, h, m, s, us, fsp)
		return DateTime2Val(y, mo, d, h, m, s, us, fsp)
	})
}

// Time2 is TIME(fsp).
func Time2(fsp int) Kind {
	return Kind{Name: fmt.Sprintf("TIME(%d)", fsp), Class: "time2", Type: 19, Meta: []byte{byte(fsp)}, MetaVal: uint16(fsp), Gen: func(t *rapid.T) Val {
		neg, h, m, s, us := genTime(t)
		return Time2Val(neg, h, m, s, us, fsp)
	}}
}

// Time2Val is a TIME(fsp) value. The server clips TIME to 838:59:59.
func Time2Val(neg bool, h, m, s, us, fsp int) Val {
	if h == 838 && m == 59 && s == 59 {
		us = 0
	}
	us = wire.TruncUsec(us, fsp)
	if h == 0 && m == 0 && s == 0 && us == 0 {
		neg = false
	}
	return text(wire.EncTime2(neg, h, m, s, us, fsp), wire.TimeText(neg, h, m, s, us, fsp)).near(func(r *Rand) Val {
		parts := 4
		if fsp > 0 {
			parts = 6
		}
		neg, h, m, s, us := nearTime(r, neg, h, m, s, us, parts)
		return Time2Val(neg, h, m, s, us, fsp)
	})
}

// genLen draws a length 0..max, biased to prefix-size boundaries, capped.
func genLen(t *rapid.T, max, cap int) int {
	if max < cap {
		cap = max
	}
	switch rapid.IntRange(0, 7).Draw(t, "lmode") {
	case 0:
		return 0
	case 1:
		return cap
	case 2:
		v := rapid.SampledFrom([]int{1, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 65534, 65535, 65536}).Draw(t, "len")
		if v > cap {
			v = cap
		}
		return v
	case 3:
		return rapid.IntRange(0, cap).Draw(t, "len")
	}
	v := rapid.IntRange(0, 24).Draw(t, "len")
	if v > cap {
		v = cap
	}
	return v
}

// GenData draws n bytes of string data.
func GenData(t *rapid.T, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	switch rapid.IntRange(0, 4).Draw(t, "data") {
	case 0:
		b := make([]byte, n)
		c := rapid.Byte().Draw(t, "c")
		for i := range b {
			b[i] = c
		}
		return b
	case 1:
		const a = "abcdefghijklmnopqrstuvwxyz 0123456789"
		b := make([]byte, n)
		o := rapid.IntRange(0, len(a)-1).Draw(t, "o")
		for i := range b {
			b[i] = a[(o+i)%len(a)]
		}
		return b
	case 2:
		s := []byte("中文é€\U0001F600'\"\\\x00\n")
		b := make([]byte, n)
		for i := range b {
			b[i] = s[i%len(s)]
		}
		return b
	}
	return Bytes(rapid.Uint64().Draw(t, "seed"), n)
}

// Cap bounds generated string lengths outside the dedicated checks.
const Cap = 600

// Char is CHAR/BINARY with the given maximum byte length (0..1023).
func Char(max int) Kind {
	b0 := byte(254) ^ byte((max&0x300)>>4)
	b1 := byte(max)
	return Kind{Name: fmt.Sprintf("CHAR/BINARY(%d bytes)", max), Class: "char", Type: 254, Meta: []byte{b0, b1}, MetaVal: uint16(b0)<<8 | uint16(b1), Gen: func(t *rapid.T) Val {
		return CharVal(max, GenData(t, genLen(t, max, 1023)))
	}}
}

// CharVal is a CHAR value.
func CharVal(max int, data []byte) Val {
	n := 1
	if max > 255 {
		n = 2
	}
	return strVal(data, n)
}

func strVal(data []byte, n int) Val {
	return Val{Enc: wire.Blob(data, n), Want: data, Desc: fmt.Sprintf("%d bytes %s", len(data), wire.Trunc(data)),
		Near: func(r *Rand) Val { return strVal(nearBytes(r, data), n) }}
}

// Varchar is VARCHAR/VARBINARY with the given maximum byte length.
func Varchar(typ byte, max int) Kind { return VarcharCap(typ, max, Cap) }

// VarcharCap is Varchar with another cap on generated lengths.
func VarcharCap(typ byte, max, cap int) Kind {
	return Kind{Name: fmt.Sprintf("VARCHAR/VARBINARY(%d bytes) type %d", max, typ), Class: "varchar", Type: typ, Meta: wire.LE(uint64(max), 2), MetaVal: uint16(max), Gen: func(t *rapid.T) Val {
		return CharVal(max, GenData(t, genLen(t, max, cap)))
	}}
}

// Blob is TINYBLOB..LONGBLOB (and TEXT), by length-prefix size.
func Blob(typ byte, n int) Kind { return BlobCap(typ, n, Cap) }

// BlobCap is Blob with another cap.
func BlobCap(typ byte, n, cap int) Kind {
	name, class := "BLOB", "blob"
	if typ == 255 {
		name, class = "GEOMETRY", "geometry"
	}
	max := math.MaxInt32
	if n < 4 {
		max = 1<<(8*n) - 1
	}
	return Kind{Name: fmt.Sprintf("%s/%d type %d", name, n, typ), Class: class, Type: typ, Meta: []byte{byte(n)}, MetaVal: uint16(n), Gen: func(t *rapid.T) Val {
		return strVal(GenData(t, genLen(t, max, cap)), n)
	}}
}

// BlobVal is a blob value.
func BlobVal(data []byte, n int) Val { return strVal(data, n) }

// JSON is a JSON column.
func JSON(o DocOpts) Kind {
	return Kind{Name: "JSON", Class: "json", Type: 245, Meta: []byte{4}, MetaVal: 4, Gen: func(t *rapid.T) Val {
		return JSONVal(GenDoc(t, o), 4)
	}}
}

// JSONVal is a JSON value.
func JSONVal(d *wire.Doc, n int) Val {
	return Val{Enc: wire.Blob(d.Encode(), n), Desc: "JSON " + d.Describe(), Check: func(got []byte) error { return wire.MatchJSON(got, d) },
		Near: func(r *Rand) Val { return JSONVal(NearDoc(r, d), n) }}
}

// GenKind draws any column kind a 5.x/8.0 master can log.
func GenKind(t *rapid.T) Kind {
	switch rapid.IntRange(0, 15).Draw(t, "kind") {
	case 0, 1:
		return Int(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(t, "w"), rapid.Bool().Draw(t, "u"))
	case 2:
		if rapid.Bool().Draw(t, "dbl") {
			return Float8()
		}
		return Float4()
	case 3:
		return Year()
	case 4:
		return Bit(rapid.IntRange(1, 64).Draw(t, "n"))
	case 5:
		if rapid.Bool().Draw(t, "set") {
			return Set(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(t, "size"))
		}
		return Enum(rapid.IntRange(1, 2).Draw(t, "size"), false)
	case 6:
		p := rapid.IntRange(1, 65).Draw(t, "p")
		m := p
		if m > 30 {
			m = 30
		}
		return Decimal(p, rapid.IntRange(0, m).Draw(t, "s"))
	case 7:
		return Date(10)
	case 8:
		return rapid.SampledFrom([]Kind{OldTime(), OldDateTime(), OldTimestamp()}).Draw(t, "old")
	case 9:
		return Timestamp2(rapid.IntRange(0, 6).Draw(t, "fsp"))
	case 10:
		return DateTime2(rapid.IntRange(0, 6).Draw(t, "fsp"))
	case 11:
		return Time2(rapid.IntRange(0, 6).Draw(t, "fsp"))
	case 12:
		return Char(genLen(t, 1023, 1023))
	case 13:
		typ := byte(15)
		if rapid.IntRange(0, 3).Draw(t, "vs") == 0 {
			typ = 253
		}
		return Varchar(typ, rapid.SampledFrom([]int{0, 1, 10, 254, 255, 256, 257, 300, 1000, 65535}).Draw(t, "max"))
	case 14:
		if rapid.IntRange(0, 3).Draw(t, "geo") == 0 {
			return Blob(255, 4)
		}
		return Blob(252, rapid.IntRange(1, 4).Draw(t, "n"))
	default:
		return JSON(DocOpts{MaxNodes: 8})
	}
}

// BitLen is exported for messages in exhaustive loops.
func BitLen(v uint64) int { return bits.Len64(v) }
