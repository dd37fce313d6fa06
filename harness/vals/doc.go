package vals

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"

	"verifharness/wire"
)

// DocOpts bounds generated JSON documents.
type DocOpts struct {
	MaxNodes int
	MaxDepth int  // 0: 6
	Big      bool // strings that push containers over 64KB
}

// GenDoc draws a JSON document.
func GenDoc(t *rapid.T, o DocOpts) *wire.Doc {
	if o.MaxDepth == 0 {
		o.MaxDepth = 6
	}
	n := o.MaxNodes
	g := docGen{o: o, left: n}
	return g.doc(t, 0)
}

type docGen struct {
	o    DocOpts
	left int
}

func (g *docGen) doc(t *rapid.T, depth int) *wire.Doc {
	g.left--
	container := depth < g.o.MaxDepth && g.left > 0 && rapid.IntRange(0, 2).Draw(t, "container") > 0
	if !container {
		return g.scalar(t)
	}
	d := &wire.Doc{Kind: wire.DArray, Large: rapid.IntRange(0, 4).Draw(t, "large") == 0}
	if rapid.Bool().Draw(t, "object") {
		d.Kind = wire.DObject
	}
	max := g.left
	if max > 6 {
		max = 6
	}
	n := rapid.IntRange(0, max).Draw(t, "n")
	seen := map[string]bool{}
	for i := 0; i < n && g.left > 0; i++ {
		if d.Kind == wire.DObject {
			k := g.str(t, true)
			if seen[k] {
				k = fmt.Sprintf("%s%d", k, i)
				if seen[k] {
					continue
				}
			}
			seen[k] = true
			d.Keys = append(d.Keys, k)
		}
		d.Kids = append(d.Kids, g.doc(t, depth+1))
	}
	if d.Kind == wire.DObject {
		d.SortKeys()
	}
	return d
}

var docStrings = []string{"", "a", "b", "ab", "key", "'", "\"", "\\", "it's", "say \"hi\"", "back\\slash", "\\'", "''", "%", "_", "\\%", "\\n", "\n", "\t", "\r", "\b", "\f", "\x00", "\x1a", "\x01", "\x1f", "\x7f", "中文", "é", "\U0001F600", "null", "true", "1", ",", "(", ")", "','", "</script>", "&<>", "\u2028\u2029", "\u0085", " leading", "trailing "}

func (g *docGen) str(t *rapid.T, key bool) string {
	switch rapid.IntRange(0, 5).Draw(t, "smode") {
	case 0:
		return rapid.SampledFrom(docStrings).Draw(t, "s")
	case 1:
		return rapid.SampledFrom(docStrings).Draw(t, "s") + rapid.SampledFrom(docStrings).Draw(t, "s")
	case 2:
		n := rapid.SampledFrom([]int{126, 127, 128, 129, 255, 256, 300}).Draw(t, "n")
		return asciiFill(n, rapid.IntRange(0, 25).Draw(t, "o"))
	case 3:
		return rapid.StringOfN(rapid.Rune(), 0, 6, -1).Draw(t, "s")
	case 4:
		if g.o.Big && rapid.IntRange(0, 2).Draw(t, "big") == 0 {
			n := rapid.SampledFrom([]int{16383, 16384, 16385, 65500, 65535, 65536, 70000}).Draw(t, "n")
			if key && n > 65535 {
				n = 65535
			}
			return asciiFill(n, rapid.IntRange(0, 25).Draw(t, "o"))
		}
	}
	return rapid.StringMatching(`[a-z]{0,8}`).Draw(t, "s")
}

func asciiFill(n, o int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i+o)%26)
	}
	return string(b)
}

func (g *docGen) scalar(t *rapid.T) *wire.Doc {
	switch rapid.IntRange(0, 8).Draw(t, "scalar") {
	case 0:
		return &wire.Doc{Kind: rapid.SampledFrom([]wire.DocKind{wire.DNull, wire.DTrue, wire.DFalse}).Draw(t, "lit")}
	case 1, 2:
		return genDocInt(t)
	case 3:
		f := rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e21, 1e-7, 123456789012345680, math.MaxFloat64, 5e-324, 3.14}).Draw(t, "f")
		if rapid.Bool().Draw(t, "any") {
			f = rapid.Float64().Draw(t, "f")
		}
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 2.5
		}
		return &wire.Doc{Kind: wire.DDouble, F: f}
	case 4, 5:
		return &wire.Doc{Kind: wire.DString, S: g.str(t, false)}
	case 6:
		d := &wire.Doc{Kind: wire.DDate}
		d.Y, d.Mo, d.D = genDate(t)
		if rapid.Bool().Draw(t, "dt") {
			d.Kind = wire.DDateTime
			d.H, d.Mi, d.Sec = genClock(t)
			d.Usec = genUsec(t)
		}
		return d
	case 7:
		d := &wire.Doc{Kind: wire.DTime}
		d.Neg, d.H, d.Mi, d.Sec, d.Usec = genTime(t)
		if d.H == 838 && d.Mi == 59 && d.Sec == 59 {
			d.Usec = 0
		}
		if d.H == 0 && d.Mi == 0 && d.Sec == 0 && d.Usec == 0 {
			d.Neg = false
		}
		return d
	default:
		d := &wire.Doc{Kind: wire.DDecimal}
		d.P = rapid.IntRange(1, 65).Draw(t, "p")
		m := d.P
		if m > 30 {
			m = 30
		}
		d.Scale = rapid.IntRange(0, m).Draw(t, "s")
		d.IntDigits, d.FracDigits = GenDigits(t, d.P-d.Scale, true), GenDigits(t, d.Scale, false)
		d.Neg = rapid.Bool().Draw(t, "neg") && !wire.AllZero(d.IntDigits, d.FracDigits)
		return d
	}
}

func genDocInt(t *rapid.T) *wire.Doc {
	w := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "w")
	raw := genBits(t, uint(w*8))
	if rapid.Bool().Draw(t, "unsigned") {
		return &wire.Doc{Kind: wire.DUint, Width: w, U: raw}
	}
	var v int64
	switch w {
	case 2:
		v = int64(int16(raw))
	case 4:
		v = int64(int32(raw))
	default:
		v = int64(raw)
	}
	return &wire.Doc{Kind: wire.DInt, Width: w, I: v}
}

// Count visits every node.
func Count(d *wire.Doc, f func(*wire.Doc, int)) { count(d, f, 0) }

func count(d *wire.Doc, f func(*wire.Doc, int), depth int) {
	f(d, depth)
	for _, k := range d.Kids {
		count(k, f, depth+1)
	}
}

// Deep wraps a document n containers deep.
func Deep(d *wire.Doc, n int, object bool, large bool) *wire.Doc {
	for i := 0; i < n; i++ {
		w := &wire.Doc{Kind: wire.DArray, Kids: []*wire.Doc{d}, Large: large}
		if object {
			w.Kind, w.Keys = wire.DObject, []string{strings.Repeat("k", i%3+1)}
		}
		d = w
	}
	return d
}
