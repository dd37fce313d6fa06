package vals

import "verifharness/wire"

func (v Val) near(f func(r *Rand) Val) Val {
	v.Near = f
	return v
}

// Int draws 0..n-1.
func (r *Rand) Int(n int) int { return int(r.Next() % uint64(n)) }

// flip changes one bit of the low n.
func flip(r *Rand, v uint64, n uint) uint64 { return v ^ 1<<(r.Next()%uint64(n)) }

func nearDigits(r *Rand, i, f string, neg bool) (string, string, bool) {
	n := len(i) + len(f)
	at := r.Int(n + 1)
	if at == n {
		return i, f, !neg
	}
	b := []byte(i + f)
	b[at] = '0' + (b[at]-'0'+byte(1+r.Int(9)))%10
	return string(b[:len(i)]), string(b[len(i):]), neg
}

// other gives another value of lo..hi, near v more often than not.
func other(r *Rand, v, lo, hi int) int {
	w := v + []int{1, -1, 10, -10}[r.Int(4)]
	if r.Int(4) == 0 || w < lo || w > hi {
		w = lo + r.Int(hi-lo+1)
	}
	return w
}

func nearDate(r *Rand, y, m, d int) (int, int, int) {
	switch r.Int(3) {
	case 0:
		y = other(r, y, 0, 9999)
	case 1:
		m = other(r, m, 0, 12)
	default:
		d = other(r, d, 0, 31)
	}
	return y, m, d
}

func nearUsec(r *Rand, us int) int {
	d := []int{1, 10, 100, 1000, 10000, 100000}[r.Int(6)]
	if r.Int(3) == 0 {
		d *= 1 + r.Int(9)
	}
	return (us + d) % 1000000
}

// nearTime changes one of the first parts (4 to 6) components.
func nearTime(r *Rand, neg bool, h, m, s, us, parts int) (bool, int, int, int, int) {
	switch r.Int(parts) {
	case 0:
		neg = !neg
	case 1:
		h = other(r, h, 0, 838)
	case 2:
		m = other(r, m, 0, 59)
	case 3:
		s = other(r, s, 0, 59)
	default:
		us = nearUsec(r, us)
	}
	return neg, h, m, s, us
}

func nearDateTime(r *Rand, y, mo, d, h, m, s, us, fsp int) (int, int, int, int, int, int, int) {
	n := 4
	if fsp > 0 {
		n = 5
	}
	switch r.Int(n) {
	case 0:
		y, mo, d = nearDate(r, y, mo, d)
	case 1:
		h = other(r, h, 0, 23)
	case 2:
		m = other(r, m, 0, 59)
	case 3:
		s = other(r, s, 0, 59)
	default:
		us = nearUsec(r, us)
	}
	return y, mo, d, h, m, s, us
}

// nearUnix moves by a second, a minute, part of an hour, an hour, some hours, a
// day or a season: across a change of offset or not.
func nearUnix(r *Rand, sec uint32) uint32 {
	d := []uint32{1, 60, 900, 1800, 3600, 3 * 3600, 86400, 90 * 86400, 183 * 86400}[r.Int(9)]
	if r.Int(2) == 0 {
		return sec - d
	}
	return sec + d
}

// nearBytes changes one byte and keeps the length; an empty string becomes one
// byte.
func nearBytes(r *Rand, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	c := append([]byte(nil), b...)
	at := r.Int(len(c))
	switch r.Int(4) {
	case 0:
		at = 0
	case 1:
		at = len(c) - 1
	}
	c[at] ^= 1 << r.Int(7)
	return c
}

// Clone copies a document.
func Clone(d *wire.Doc) *wire.Doc {
	c := *d
	c.Keys = append([]string(nil), d.Keys...)
	c.Kids = make([]*wire.Doc, len(d.Kids))
	for i, k := range d.Kids {
		c.Kids[i] = Clone(k)
	}
	return &c
}

// NearDoc copies a document with one leaf, one key, or the form of one container
// changed.
func NearDoc(r *Rand, d *wire.Doc) *wire.Doc {
	c := Clone(d)
	var nodes []*wire.Doc
	Count(c, func(x *wire.Doc, _ int) { nodes = append(nodes, x) })
	nearNode(r, nodes[r.Int(len(nodes))])
	return c
}

func nearNode(r *Rand, d *wire.Doc) {
	switch d.Kind {
	case wire.DNull, wire.DTrue, wire.DFalse:
		d.Kind = []wire.DocKind{wire.DNull, wire.DTrue, wire.DFalse}[(int(d.Kind-wire.DNull)+1+r.Int(2))%3]
	case wire.DInt:
		n := uint(d.Width * 8)
		d.I = int64(flip(r, uint64(d.I), n)) << (64 - n) >> (64 - n)
	case wire.DUint:
		d.U = flip(r, d.U, uint(d.Width*8))
	case wire.DDouble:
		d.F = -d.F
		if r.Int(2) == 0 {
			d.F = d.F*2 + 1
			if d.F != d.F || d.F > 1e308 || d.F < -1e308 {
				d.F = 0.5
			}
		}
	case wire.DString:
		d.S = nearText(r, d.S)
	case wire.DDate:
		d.Y, d.Mo, d.D = nearDate(r, d.Y, d.Mo, d.D)
	case wire.DDateTime:
		d.Y, d.Mo, d.D, d.H, d.Mi, d.Sec, d.Usec = nearDateTime(r, d.Y, d.Mo, d.D, d.H, d.Mi, d.Sec, d.Usec, 6)
	case wire.DTime:
		d.Neg, d.H, d.Mi, d.Sec, d.Usec = nearTime(r, d.Neg, d.H, d.Mi, d.Sec, d.Usec, 6)
		if d.H == 838 && d.Mi == 59 && d.Sec == 59 {
			d.Usec = 0
		}
		if d.H == 0 && d.Mi == 0 && d.Sec == 0 && d.Usec == 0 {
			d.Neg = false
		}
	case wire.DDecimal:
		d.IntDigits, d.FracDigits, d.Neg = nearDigits(r, d.IntDigits, d.FracDigits, d.Neg)
		d.Neg = d.Neg && !wire.AllZero(d.IntDigits, d.FracDigits)
	case wire.DArray:
		if len(d.Kids) > 1 {
			i := r.Int(len(d.Kids) - 1)
			d.Kids[i], d.Kids[i+1] = d.Kids[i+1], d.Kids[i]
		} else {
			d.Large = !d.Large
		}
	case wire.DObject:
		if len(d.Keys) == 0 {
			d.Large = !d.Large
			return
		}
		i := r.Int(len(d.Keys))
		k := nearText(r, d.Keys[i])
		for _, o := range d.Keys {
			if o == k {
				return
			}
		}
		d.Keys[i] = k
		d.SortKeys()
	}
}

// nearText replaces one ASCII character with another.
func nearText(r *Rand, s string) string {
	b := []byte(s)
	var ascii []int
	for i, c := range b {
		if c < 0x80 {
			ascii = append(ascii, i)
		}
	}
	if len(ascii) == 0 {
		return s
	}
	b[ascii[r.Int(len(ascii))]] = "abcxyz019 '\"\\\n"[r.Int(14)]
	return string(b)
}
