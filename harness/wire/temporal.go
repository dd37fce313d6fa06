package wire

import "fmt"

// FracBytes is the number of bytes that hold fsp fractional digits.
func FracBytes(fsp int) int { return (fsp + 1) / 2 }

// fracStored truncates microseconds to fsp digits the way they are stored, and
// returns the value put in the fraction bytes.
func fracStored(usec, fsp int) (stored int) {
	switch fsp {
	case 1, 2:
		return usec / 10000
	case 3, 4:
		return usec / 100
	case 5, 6:
		return usec
	}
	return 0
}

// FracText renders the fraction with fsp digits ("" for fsp 0).
func FracText(usec, fsp int) string {
	if fsp == 0 {
		return ""
	}
	return "." + fmt.Sprintf("%06d", usec)[:fsp]
}

// TruncUsec clears the digits of usec below fsp digits.
func TruncUsec(usec, fsp int) int {
	m := 1
	for i := fsp; i < 6; i++ {
		m *= 10
	}
	return usec / m * m
}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * (n - 1 - i)))
	}
	return b
}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

// LE encodes n little-endian bytes.
func LE(v uint64, n int) []byte { return le(v, n) }

// EncTimestamp2 encodes TIMESTAMP(fsp).
func EncTimestamp2(sec uint32, usec, fsp int) []byte {
	return append(be(uint64(sec), 4), be(uint64(fracStored(usec, fsp)), FracBytes(fsp))...)
}

// EncDateTime2 encodes DATETIME(fsp).
func EncDateTime2(y, mo, d, h, mi, s, usec, fsp int) []byte {
	ymd := uint64(y*13+mo)<<5 | uint64(d)
	hms := uint64(h)<<12 | uint64(mi)<<6 | uint64(s)
	v := (ymd<<17 | hms) + 0x8000000000
	return append(be(v, 5), be(uint64(fracStored(usec, fsp)), FracBytes(fsp))...)
}

// EncTime2 encodes TIME(fsp). Negative values follow the server's
// my_time_packed_to_binary.
func EncTime2(neg bool, h, m, s, usec, fsp int) []byte {
	hms := int64(h)<<12 | int64(m)<<6 | int64(s)
	packed := hms<<24 + int64(usec)
	if neg {
		packed = -packed
	}
	intPart := packed >> 24    // arithmetic shift, floors
	frac := packed % (1 << 24) // C remainder, keeps the sign
	switch fsp {
	case 0:
		return be(uint64(0x800000+intPart), 3)
	case 1, 2:
		return append(be(uint64(0x800000+intPart), 3), byte(int8(frac/10000)))
	case 3, 4:
		return append(be(uint64(0x800000+intPart), 3), be(uint64(uint16(int16(frac/100))), 2)...)
	default:
		return be(uint64(packed+0x800000000000), 6)
	}
}

// TimeText renders a TIME value.
func TimeText(neg bool, h, m, s, usec, fsp int) string {
	sign := ""
	if neg {
		sign = "-"
	}
	return sign + fmt.Sprintf("%02d:%02d:%02d", h, m, s) + FracText(usec, fsp)
}

// DateTimeText renders a DATETIME value.
func DateTimeText(y, mo, d, h, mi, s, usec, fsp int) string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s) + FracText(usec, fsp)
}

// Civil converts days since 1970-01-01 to a calendar date (proleptic Gregorian).
func Civil(days int64) (y, m, d int) {
	z := days + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	yy := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		yy++
	}
	return int(yy), m, d
}

// InstantText renders a unix second shifted by a zone offset.
func InstantText(sec int64, offset int, usec, fsp int) string {
	t := sec + int64(offset)
	days := t / 86400
	rem := t % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	y, m, d := Civil(days)
	return DateTimeText(y, m, d, int(rem/3600), int(rem/60%60), int(rem%60), usec, fsp)
}
