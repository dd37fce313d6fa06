// Package wire is an independent writer for the MySQL binary log and for the
// values it contains. It is written from the MySQL format documentation and the
// server sources' description of the formats, and uses nothing of gobinlog: its
// output is what the properties' oracles compare the library's decoding with.
package wire

import (
	"encoding/binary"
	"hash/crc32"
)

// Event type codes.
const (
	EvQuery       = 2
	EvStop        = 3
	EvRotate      = 4
	EvIntVar      = 5
	EvRand        = 13
	EvUserVar     = 14
	EvFDE         = 15
	EvXID         = 16
	EvTableMap    = 19
	EvWriteV1     = 23
	EvUpdateV1    = 24
	EvDeleteV1    = 25
	EvHeartbeat   = 27
	EvIgnorable   = 28
	EvRowsQuery   = 29
	EvWriteV2     = 30
	EvUpdateV2    = 31
	EvDeleteV2    = 32
	EvGTID        = 33
	EvAnonGTID    = 34
	EvPrevGTIDs   = 35
	EvMariaGTID   = 162
	FlagArtficial = 0x20
)

// Checksum algorithms.
const (
	AlgOff   = 0
	AlgCRC32 = 1
	AlgUndef = 255
)

// Format is what a FORMAT_DESCRIPTION_EVENT announces, and the way events are
// framed under it.
type Format struct {
	ServerVersion string
	Alg           byte // AlgOff, AlgCRC32, AlgUndef
	HeaderLen     byte // 19 normally
	ID4           bool // 4-byte table ids (table map and v1 rows post headers of 6)
	Sizes         []byte
	Maria         bool
}

// PostHeaderSizes returns the per-event post-header length array of a 5.7-like
// server for this format.
func PostHeaderSizes(id4 bool, n int) []byte {
	//              1   2  3  4  5  6   7  8  9 10 11  12 13 14  15 16 17  18
	base := []byte{56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 95, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0}
	out := make([]byte, n)
	copy(out, base)
	if id4 {
		for _, t := range []int{EvTableMap, EvWriteV1, EvUpdateV1, EvDeleteV1} {
			out[t-1] = 6
		}
	}
	return out
}

// Header holds the free fields of a common event header.
type Header struct {
	Timestamp uint32
	Type      byte
	ServerID  uint32
	NextPos   uint32
	Flags     uint16
}

// Frame builds a whole event: header, optional extra header bytes, body, and
// the CRC32 trailer when the format asks for one.
func (f Format) Frame(h Header, body []byte) []byte {
	hl := int(f.HeaderLen)
	if hl < 19 || h.Type == EvFDE {
		hl = 19
	}
	crc := f.Alg == AlgCRC32
	n := hl + len(body)
	if crc {
		n += 4
	}
	b := make([]byte, n)
	binary.LittleEndian.PutUint32(b[0:], h.Timestamp)
	b[4] = h.Type
	binary.LittleEndian.PutUint32(b[5:], h.ServerID)
	binary.LittleEndian.PutUint32(b[9:], uint32(n))
	binary.LittleEndian.PutUint32(b[13:], h.NextPos)
	binary.LittleEndian.PutUint16(b[17:], h.Flags)
	for i := 19; i < hl; i++ {
		b[i] = byte(0xA0 + i) // extra header bytes, must be skipped
	}
	copy(b[hl:], body)
	if crc {
		binary.LittleEndian.PutUint32(b[n-4:], crc32.ChecksumIEEE(b[:n-4]))
	}
	return b
}

// Size returns the framed length of a body of the given type.
func (f Format) Size(typ byte, bodyLen int) int {
	hl := int(f.HeaderLen)
	if hl < 19 || typ == EvFDE {
		hl = 19
	}
	n := hl + bodyLen
	if f.Alg == AlgCRC32 {
		n += 4
	}
	return n
}

// Split takes a framed event apart; the body includes the checksum.
func Split(raw []byte) (Header, []byte) {
	le := binary.LittleEndian
	return Header{Timestamp: le.Uint32(raw), Type: raw[4], ServerID: le.Uint32(raw[5:]), NextPos: le.Uint32(raw[13:]), Flags: le.Uint16(raw[17:])}, raw[19:]
}

// FDEBody is the body of a FORMAT_DESCRIPTION_EVENT without the 4 trailing
// checksum bytes, which 5.6.1+ servers always write (see FDE).
func (f Format) FDEBody(version uint16, created uint32) []byte {
	b := make([]byte, 2+50+4+1)
	binary.LittleEndian.PutUint16(b, version)
	copy(b[2:52], f.ServerVersion)
	binary.LittleEndian.PutUint32(b[52:], created)
	hl := f.HeaderLen
	if hl < 19 {
		hl = 19
	}
	b[56] = hl
	b = append(b, f.Sizes...)
	return append(b, f.Alg)
}

// FDE frames a FORMAT_DESCRIPTION_EVENT. The 4 checksum bytes are always there,
// whatever the announced algorithm (garbage unless it is CRC32, then valid).
func (f Format) FDE(h Header, version uint16, created uint32) []byte {
	h.Type = EvFDE
	g := f
	g.Alg = AlgCRC32
	body := f.FDEBody(version, created)
	return g.Frame(h, body)
}

// RotateBody is the body of a ROTATE_EVENT.
func RotateBody(pos uint64, name string) []byte {
	b := make([]byte, 8, 8+len(name))
	binary.LittleEndian.PutUint64(b, pos)
	return append(b, name...)
}

// QuerySpec describes a QUERY_EVENT.
type QuerySpec struct {
	ThreadID, ExecTime uint32
	ErrCode            uint16
	Vars               []byte
	DB, SQL            string
}

// Body encodes the QUERY_EVENT body.
func (q QuerySpec) Body() []byte {
	b := make([]byte, 13, 13+len(q.Vars)+len(q.DB)+1+len(q.SQL))
	binary.LittleEndian.PutUint32(b, q.ThreadID)
	binary.LittleEndian.PutUint32(b[4:], q.ExecTime)
	b[8] = byte(len(q.DB))
	binary.LittleEndian.PutUint16(b[9:], q.ErrCode)
	binary.LittleEndian.PutUint16(b[11:], uint16(len(q.Vars)))
	b = append(b, q.Vars...)
	b = append(b, q.DB...)
	b = append(b, 0)
	return append(b, q.SQL...)
}

// U64 encodes a little-endian 64-bit value.
func U64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

// LenEnc encodes a length-encoded integer.
func LenEnc(v uint64) []byte {
	switch {
	case v < 251:
		return []byte{byte(v)}
	case v < 1<<16:
		return []byte{0xfc, byte(v), byte(v >> 8)}
	case v < 1<<24:
		return []byte{0xfd, byte(v), byte(v >> 8), byte(v >> 16)}
	default:
		return append([]byte{0xfe}, U64(v)...)
	}
}

// Bits packs booleans LSB first.
func Bits(v []bool) []byte {
	b := make([]byte, (len(v)+7)/8)
	for i, x := range v {
		if x {
			b[i/8] |= 1 << (i % 8)
		}
	}
	return b
}

// TableSpec is a table map.
type TableSpec struct {
	ID       uint64
	Flags    uint16
	DB, Name string
	Cols     []Col
	Optional []byte // optional metadata appended by 8.0 servers
}

// Col is one column of a table map.
type Col struct {
	Type     byte
	Meta     []byte // metadata bytes as logged
	MetaVal  uint16 // the same metadata as one number, in the documented byte order
	Nullable bool
}

func tableID(id uint64, id4 bool) []byte {
	b := U64(id)
	if id4 {
		return b[:4:4]
	}
	return b[:6:6]
}

// Body encodes the TABLE_MAP_EVENT body.
func (t TableSpec) Body(f Format) []byte {
	b := tableID(t.ID, f.ID4)
	b = append(b, byte(t.Flags), byte(t.Flags>>8))
	b = append(b, byte(len(t.DB)))
	b = append(b, t.DB...)
	b = append(b, 0, byte(len(t.Name)))
	b = append(b, t.Name...)
	b = append(b, 0)
	b = append(b, LenEnc(uint64(len(t.Cols)))...)
	var meta []byte
	nulls := make([]bool, len(t.Cols))
	for i, c := range t.Cols {
		b = append(b, c.Type)
		meta = append(meta, c.Meta...)
		nulls[i] = c.Nullable
	}
	b = append(b, LenEnc(uint64(len(meta)))...)
	b = append(b, meta...)
	b = append(b, Bits(nulls)...)
	return append(b, t.Optional...)
}

// RowsKind selects insert, update or delete.
type RowsKind int

// Rows kinds.
const (
	Insert RowsKind = iota
	Update
	Delete
)

func (k RowsKind) String() string { return [...]string{"insert", "update", "delete"}[k] }

// RowsType gives the event type code.
func RowsType(k RowsKind, v2 bool) byte {
	if v2 {
		return byte(EvWriteV2 + int(k))
	}
	return byte(EvWriteV1 + int(k))
}

// Image is one row image: for every column of the table, a cell (used only when
// the column is present).
type Image []Cell

// Cell is an encoded column value.
type Cell struct {
	Null bool
	Enc  []byte
}

// RowsSpec is a rows event.
type RowsSpec struct {
	Kind    RowsKind
	V2      bool
	ID      uint64
	Flags   uint16
	Extra   []byte // v2 extra data (without its length)
	NCols   int
	Before  []bool // columns present in before images
	After   []bool // columns present in after images
	Befores []Image
	Afters  []Image
	// PadBits sets the unused bits of the bitmaps, whose value is not defined.
	PadBits bool
}

func pad(b []byte, n int, on bool) []byte {
	if on && n%8 != 0 && len(b) > 0 {
		b[len(b)-1] |= 0xff << (n % 8)
	}
	return b
}

// EncodeImage returns the NULL bitmap and the values of an image restricted to
// the present columns.
func EncodeImage(present []bool, img Image, padBits bool) (nulls, data []byte, nullFlags []bool) {
	for c, p := range present {
		if !p {
			continue
		}
		nullFlags = append(nullFlags, img[c].Null)
		if !img[c].Null {
			data = append(data, img[c].Enc...)
		}
	}
	return pad(Bits(nullFlags), len(nullFlags), padBits), data, nullFlags
}

// Body encodes the rows event body.
func (r RowsSpec) Body(f Format) []byte {
	b := tableID(r.ID, f.ID4 && !r.V2)
	b = append(b, byte(r.Flags), byte(r.Flags>>8))
	if r.V2 {
		n := len(r.Extra) + 2
		b = append(b, byte(n), byte(n>>8))
		b = append(b, r.Extra...)
	}
	b = append(b, LenEnc(uint64(r.NCols))...)
	if r.Kind != Insert {
		b = append(b, pad(Bits(r.Before), r.NCols, r.PadBits)...)
	}
	if r.Kind != Delete {
		b = append(b, pad(Bits(r.After), r.NCols, r.PadBits)...)
	}
	n := len(r.Befores)
	if r.Kind == Insert {
		n = len(r.Afters)
	}
	for i := 0; i < n; i++ {
		if r.Kind != Insert {
			nb, d, _ := EncodeImage(r.Before, r.Befores[i], r.PadBits)
			b = append(append(b, nb...), d...)
		}
		if r.Kind != Delete {
			nb, d, _ := EncodeImage(r.After, r.Afters[i], r.PadBits)
			b = append(append(b, nb...), d...)
		}
	}
	return b
}
