package wire

import (
	"encoding/binary"
	"math"
	"sort"
)

// DocKind is the kind of a JSON node.
type DocKind int

// JSON node kinds.
const (
	DNull DocKind = iota
	DTrue
	DFalse
	DInt
	DUint
	DDouble
	DString
	DDate
	DTime
	DDateTime
	DDecimal
	DArray
	DObject
)

// Doc is a JSON document as the master holds it.
type Doc struct {
	Kind  DocKind
	Width int // 2, 4 or 8 bytes for DInt and DUint
	I     int64
	U     uint64
	F     float64
	S     string
	Keys  []string
	Kids  []*Doc
	Large bool // force the large container format

	// temporal scalars
	Neg                   bool
	Y, Mo, D, H, Mi, Sec  int
	Usec                  int
	P, Scale              int // decimal
	IntDigits, FracDigits string
}

const (
	jSmallObj, jLargeObj, jSmallArr, jLargeArr = 0, 1, 2, 3
	jLiteral                                   = 4
	jI16, jU16, jI32, jU32, jI64, jU64         = 5, 6, 7, 8, 9, 10
	jDouble, jString, jOpaque                  = 11, 12, 15
)

// SortKeys orders object members the way the server stores them: by key length,
// then bytewise.
func (d *Doc) SortKeys() {
	idx := make([]int, len(d.Keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool {
		x, y := d.Keys[idx[a]], d.Keys[idx[b]]
		if len(x) != len(y) {
			return len(x) < len(y)
		}
		return x < y
	})
	keys := make([]string, len(idx))
	kids := make([]*Doc, len(idx))
	for i, j := range idx {
		keys[i], kids[i] = d.Keys[j], d.Kids[j]
	}
	d.Keys, d.Kids = keys, kids
}

func varlen(n int) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n != 0 {
			b = append(b, c|0x80)
			continue
		}
		return append(b, c)
	}
}

// packed temporal forms
func (d *Doc) packedDateTime() uint64 {
	ymd := uint64(d.Y*13+d.Mo)<<5 | uint64(d.D)
	hms := uint64(d.H)<<12 | uint64(d.Mi)<<6 | uint64(d.Sec)
	return (ymd<<17|hms)<<24 + uint64(d.Usec)
}

func (d *Doc) packedTime() uint64 {
	hms := int64(d.H)<<12 | int64(d.Mi)<<6 | int64(d.Sec)
	v := hms<<24 + int64(d.Usec)
	if d.Neg {
		v = -v
	}
	return uint64(v)
}

func opaque(typ byte, data []byte) []byte {
	b := append([]byte{typ}, varlen(len(data))...)
	return append(b, data...)
}

// encode returns the type byte and the value bytes of a node.
func (d *Doc) encode() (byte, []byte) {
	switch d.Kind {
	case DNull:
		return jLiteral, []byte{0}
	case DTrue:
		return jLiteral, []byte{1}
	case DFalse:
		return jLiteral, []byte{2}
	case DInt:
		switch d.Width {
		case 2:
			return jI16, le(uint64(d.I), 2)
		case 4:
			return jI32, le(uint64(d.I), 4)
		}
		return jI64, le(uint64(d.I), 8)
	case DUint:
		switch d.Width {
		case 2:
			return jU16, le(d.U, 2)
		case 4:
			return jU32, le(d.U, 4)
		}
		return jU64, le(d.U, 8)
	case DDouble:
		return jDouble, le(math.Float64bits(d.F), 8)
	case DString:
		return jString, append(varlen(len(d.S)), d.S...)
	case DDate:
		return jOpaque, opaque(10, le(d.packedDateTime(), 8))
	case DTime:
		return jOpaque, opaque(11, le(d.packedTime(), 8))
	case DDateTime:
		return jOpaque, opaque(12, le(d.packedDateTime(), 8))
	case DDecimal:
		bin := EncodeDecimal(d.P, d.Scale, d.Neg, d.IntDigits, d.FracDigits)
		return jOpaque, opaque(246, append([]byte{byte(d.P), byte(d.Scale)}, bin...))
	}
	// containers
	types := make([]byte, len(d.Kids))
	vals := make([][]byte, len(d.Kids))
	large := d.Large
	for i, k := range d.Kids {
		types[i], vals[i] = k.encode()
		if types[i] == jLargeArr || types[i] == jLargeObj {
			large = true
		}
	}
	if !large {
		if b, ok := d.container(types, vals, false); ok {
			if d.Kind == DObject {
				return jSmallObj, b
			}
			return jSmallArr, b
		}
	}
	b, _ := d.container(types, vals, true)
	if d.Kind == DObject {
		return jLargeObj, b
	}
	return jLargeArr, b
}

func inlined(typ byte, large bool) bool {
	switch typ {
	case jLiteral, jI16, jU16:
		return true
	case jI32, jU32:
		return large
	}
	return false
}

func (d *Doc) container(types []byte, vals [][]byte, large bool) ([]byte, bool) {
	w := 2
	if large {
		w = 4
	}
	n := len(d.Kids)
	head := 2 * w
	if d.Kind == DObject {
		head += n * (w + 2)
	}
	head += n * (1 + w)
	total := head
	for _, k := range d.Keys {
		total += len(k)
	}
	for i := range vals {
		if !inlined(types[i], large) {
			total += len(vals[i])
		}
	}
	if !large && total > 0xffff {
		return nil, false
	}
	put := func(b []byte, v int) []byte { return append(b, le(uint64(v), w)...) }
	b := make([]byte, 0, total)
	b = put(b, n)
	b = put(b, total)
	off := head
	if d.Kind == DObject {
		for _, k := range d.Keys {
			b = put(b, off)
			b = append(b, le(uint64(len(k)), 2)...)
			off += len(k)
		}
	}
	for i := range vals {
		b = append(b, types[i])
		if inlined(types[i], large) {
			v := make([]byte, w)
			copy(v, vals[i])
			b = append(b, v...)
			continue
		}
		b = put(b, off)
		off += len(vals[i])
	}
	for _, k := range d.Keys {
		b = append(b, k...)
	}
	for i := range vals {
		if !inlined(types[i], large) {
			b = append(b, vals[i]...)
		}
	}
	return b, true
}

// Encode serialises the document as MySQL binary JSON (type byte first).
func (d *Doc) Encode() []byte {
	t, v := d.encode()
	return append([]byte{t}, v...)
}

// Blob prefixes data with a little-endian length of n bytes.
func Blob(data []byte, n int) []byte {
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(data)))
	return append(append([]byte{}, l[:n]...), data...)
}
