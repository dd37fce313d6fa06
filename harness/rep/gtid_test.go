package rep

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/vals"
	"verifharness/wire"
)

const (
	my = "MySQL56"
	ma = "MariaDB"
)

// parseSet is the flavors' own set parser, when the overlay gives access to it.
var parseSet func(flavor, s string) (replication.GTIDSet, error)

// maxGNO is the largest transaction number: a server's, and in C19 that of the
// encodings.
var maxGNO int64 = math.MaxInt64 - 1

// iv is an inclusive interval of the model.
type iv struct{ lo, hi int64 }

// model is a set of (uuid, number) pairs: per uuid, intervals in any order,
// overlapping or not.
type model map[replication.SID][]iv

// norm merges a list of intervals.
func norm(in []iv) []iv {
	s := append([]iv(nil), in...)
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo })
	var out []iv
	for _, x := range s {
		if n := len(out); n > 0 && (x.lo <= out[n-1].hi || x.lo == out[n-1].hi+1) {
			if x.hi > out[n-1].hi {
				out[n-1].hi = x.hi
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func (m model) with(sid replication.SID, n int64) model {
	out := model{}
	for k, v := range m {
		out[k] = append([]iv(nil), v...)
	}
	out[sid] = norm(append(out[sid], iv{n, n}))
	return out
}

func (m model) has(sid replication.SID, n int64) bool {
	for _, x := range m[sid] {
		if x.lo <= n && n <= x.hi {
			return true
		}
	}
	return false
}

func (m model) superset(o model) bool {
	for sid, ivs := range o {
		mine := norm(m[sid])
	next:
		for _, x := range norm(ivs) {
			for _, y := range mine {
				if y.lo <= x.lo && x.hi <= y.hi {
					continue next
				}
			}
			return false
		}
	}
	return true
}

func (m model) sids() []replication.SID {
	var out []replication.SID
	for k, v := range m {
		if len(v) > 0 {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return out
}

func sidText(s replication.SID) string {
	h := hex.EncodeToString(s[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// text is the canonical form MySQL prints, with the given separator.
func (m model) text(sep string) string {
	var parts []string
	for _, s := range m.sids() {
		p := sidText(s)
		for _, x := range norm(m[s]) {
			if x.lo == x.hi {
				p += fmt.Sprintf(":%d", x.lo)
			} else {
				p += fmt.Sprintf(":%d-%d", x.lo, x.hi)
			}
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, sep)
}

// block is the SID block MySQL writes in PREVIOUS_GTIDS events.
func (m model) block() []byte {
	sids := m.sids()
	b := wire.U64(uint64(len(sids)))
	for _, s := range sids {
		n := norm(m[s])
		b = append(b, s[:]...)
		b = append(b, wire.U64(uint64(len(n)))...)
		for _, x := range n {
			b = append(b, wire.U64(uint64(x.lo))...)
			b = append(b, wire.U64(uint64(x.hi)+1)...)
		}
	}
	return b
}

func (m model) count() (sids, ivs int) {
	for _, v := range m {
		if len(v) > 0 {
			sids++
			ivs += len(v)
		}
	}
	return
}

var sidPool = []replication.SID{
	{},
	{1},
	{0x3e, 0x11, 0xfa, 0x47, 0x71, 0xca, 0x11, 0xe1, 0x9e, 0x33, 0xc8, 0x0a, 0xa9, 0x42, 0x95, 0x62},
	{0x3e, 0x11, 0xfa, 0x47, 0x71, 0xca, 0x11, 0xe1, 0x9e, 0x33, 0xc8, 0x0a, 0xa9, 0x42, 0x95, 0x63},
	{0x7f, 0xff}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
}

func genSID(rt *rapid.T) replication.SID {
	if rapid.IntRange(0, 9).Draw(rt, "anysid") == 0 {
		var s replication.SID
		copy(s[:], vals.Bytes(rapid.Uint64().Draw(rt, "sid"), 16))
		return s
	}
	s := rapid.SampledFrom(sidPool).Draw(rt, "sid")
	if rapid.IntRange(0, 7).Draw(rt, "nearsid") == 1 { // of one family: same host, or made at the same time
		s[rapid.IntRange(0, 15).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
	}
	return s
}

// genGNO draws small numbers, often near each other, and some huge ones.
func genGNO(rt *rapid.T) int64 {
	if rapid.IntRange(0, 7).Draw(rt, "bigseq") == 0 {
		base := rapid.SampledFrom([]int64{1 << 31, 1 << 32, 1 << 53, 1 << 62, maxGNO - 3}).Draw(rt, "base")
		return base + int64(rapid.IntRange(0, 3).Draw(rt, "d"))
	}
	if rapid.IntRange(0, 5).Draw(rt, "widerseq") == 0 {
		return int64(rapid.IntRange(1, 400).Draw(rt, "wideseq"))
	}
	return int64(rapid.IntRange(1, 24).Draw(rt, "seq"))
}

func genModel(rt *rapid.T) model {
	m := model{}
	n, most := rapid.IntRange(0, 3).Draw(rt, "sids"), 5
	switch rapid.IntRange(0, 11).Draw(rt, "size") {
	case 0: // of a large topology
		n = rapid.IntRange(4, 12).Draw(rt, "manysids")
	case 1: // with many gaps
		most = 40
	}
	for ; n > 0; n-- {
		sid := genSID(rt)
		if n > 4 || len(m) >= len(sidPool)/2 {
			copy(sid[:], vals.Bytes(rapid.Uint64().Draw(rt, "othersid"), 16))
		}
		var ivs []iv
		for k := rapid.IntRange(1, most).Draw(rt, "intervals"); k > 0; k-- {
			lo := genGNO(rt)
			hi := lo
			switch rapid.IntRange(0, 3).Draw(rt, "len") {
			case 0:
				hi = lo + min(int64(rapid.IntRange(0, 4).Draw(rt, "l")), maxGNO-lo)
			case 1:
				if rapid.IntRange(0, 9).Draw(rt, "huge") == 0 {
					hi = lo + rapid.Int64Range(0, maxGNO-lo).Draw(rt, "span")
				}
			}
			ivs = append(ivs, iv{lo, hi})
		}
		m[sid] = norm(append(m[sid], ivs...))
	}
	return m
}

// build makes the library's set for a model in one of the ways a user gets one.
func build(t fataler, m model, way int) replication.GTIDSet {
	t.Helper()
	if way == 1 && parseSet != nil && len(m.sids()) > 0 {
		s, err := parseSet(my, m.text(",\n"))
		if err != nil {
			t.Fatalf("set %q is not parsed: %v", m.text(",\n"), err)
		}
		return s
	}
	if way == 2 {
		small := true
		for _, v := range m {
			for _, x := range v {
				small = small && x.hi-x.lo < 64
			}
		}
		if small {
			var s replication.GTIDSet = replication.Mysql56GTIDSet{}
			// from both ends inwards, so that intervals have to be inserted and joined
			for _, sid := range m.sids() {
				for _, x := range m[sid] {
					for a, b := x.lo, x.hi; ; a, b = a+1, b-1 {
						s = s.AddGTID(replication.Mysql56GTID{Server: sid, Sequence: b})
						s = s.AddGTID(replication.Mysql56GTID{Server: sid, Sequence: a})
						if b-a < 2 {
							break
						}
					}
				}
			}
			return s
		}
	}
	s, err := replication.NewMysql56GTIDSetFromSIDBlock(m.block())
	if err != nil {
		t.Fatalf("SID block of %q is not decoded: %v", m.text(","), err)
	}
	return s
}

// sameSet checks the canonical text and block of a set against the model.
func sameSet(t fataler, what string, s replication.GTIDSet, m model) {
	t.Helper()
	if got, want := s.String(), m.text(","); got != want {
		t.Fatalf("%s prints %q, canonical form is %q", what, got, want)
	}
	b, ok := s.(interface{ SIDBlock() []byte })
	if !ok {
		t.Fatalf("%s is a %T", what, s)
	}
	if got, want := b.SIDBlock(), m.block(); !bytes.Equal(got, want) {
		t.Fatalf("%s %q has SID block % x, should be % x", what, m.text(","), clip(got), clip(want))
	}
}

func TestC18(t *testing.T) {
	cov.Rule("a case is a GTID set with queries, or a history of additions, against a model of (uuid, number) pairs; non-trivial when a set has at least two intervals or uuids; distinct by the sets' texts and the probe")
	cov.Check(t, "queries", 20000, 500000, func(rt *rapid.T) {
		a := genModel(rt)
		b := genModel(rt)
		switch rapid.IntRange(0, 5).Draw(rt, "relate") {
		case 0, 1: // a subset or nearly one
			b = model{}
			for sid, v := range a {
				for _, x := range v {
					lo, hi := x.lo, x.hi
					if rapid.Bool().Draw(rt, "shrinklo") && lo < hi {
						lo++
					}
					if rapid.Bool().Draw(rt, "shrinkhi") && lo < hi {
						hi--
					}
					if rapid.IntRange(0, 9).Draw(rt, "grow") == 0 && hi < maxGNO {
						hi++
					}
					if rapid.IntRange(0, 3).Draw(rt, "keep") > 0 {
						b[sid] = norm(append(b[sid], iv{lo, hi}))
					}
				}
			}
		case 2:
			b = a
		case 3:
			b = a.with(genSID(rt), genGNO(rt))
		}
		sa := build(rt, a, rapid.IntRange(0, 2).Draw(rt, "waya"))
		sb := build(rt, b, rapid.IntRange(0, 2).Draw(rt, "wayb"))
		ta, tb := a.text(","), b.text(",")
		sameSet(rt, "set", sa, a)
		sameSet(rt, "set", sb, b)
		for _, x := range []struct {
			n    string
			got  bool
			want bool
		}{{"a contains b", sa.Contains(sb), a.superset(b)}, {"b contains a", sb.Contains(sa), b.superset(a)}, {"a equals b", sa.Equal(sb), ta == tb}, {"b equals a", sb.Equal(sa), ta == tb},
			{"a contains a", sa.Contains(sa), true}, {"a equals a", sa.Equal(sa), true}, {"a contains {}", sa.Contains(replication.Mysql56GTIDSet{}), true}, {"{} contains a", replication.Mysql56GTIDSet{}.Contains(sa), ta == ""}, {"{} equals a", replication.Mysql56GTIDSet{}.Equal(sa), ta == ""}} {
			if x.got != x.want {
				rt.Fatalf("%s is %v\na = %q\nb = %q", x.n, x.got, ta, tb)
			}
		}
		// membership, around every interval bound
		probe := func(sid replication.SID, n int64) {
			if n < 1 || n > maxGNO {
				return
			}
			g := replication.Mysql56GTID{Server: sid, Sequence: n}
			if got := sa.ContainsGTID(g); got != a.has(sid, n) {
				rt.Fatalf("membership of %s in %q is %v", g, ta, got)
			}
			if got := sa.Contains(g.GTIDSet()); got != a.has(sid, n) {
				rt.Fatalf("%q contains {%s}: %v", ta, g, got)
			}
		}
		for sid, v := range a {
			for _, x := range v {
				for _, n := range []int64{x.lo - 1, x.lo, x.lo + 1, x.hi - 1, x.hi, x.hi + 1, x.lo + (x.hi-x.lo)/2} {
					probe(sid, n)
				}
			}
		}
		probe(genSID(rt), genGNO(rt))
		if a.superset(b) {
			cov.Class("superset")
		} else {
			cov.Class("not a superset")
		}
		if ta == tb {
			cov.Class("equal")
		}
		s1, i1 := a.count()
		cov.Note(s1 > 1 || i1 > 1, ta+"|"+tb, func() string { return fmt.Sprintf("a = %q, b = %q", ta, tb) })
	})
	cov.Check(t, "additions", 10000, 300000, func(rt *rapid.T) {
		type version struct {
			s replication.GTIDSet
			m model
		}
		m0 := genModel(rt)
		vs := []version{{build(rt, m0, rapid.IntRange(0, 2).Draw(rt, "way")), m0}}
		hist := "start " + m0.text(",")
		check := func() {
			for i, v := range vs {
				if got, want := v.s.String(), v.m.text(","); got != want {
					rt.Fatalf("set %d of the history prints %q, should be %q\n%s", i, got, want, hist)
				}
			}
		}
		check()
		n := rapid.IntRange(1, 14).Draw(rt, "adds")
		nt := false
		for i := 0; i < n; i++ {
			at := len(vs) - 1
			if rapid.IntRange(0, 2).Draw(rt, "branch") == 0 {
				at = rapid.IntRange(0, len(vs)-1).Draw(rt, "from")
			}
			v := vs[at]
			if rapid.IntRange(0, 15).Draw(rt, "alien") == 0 {
				// a GTID of another flavor is not in the domain of the set
				s := v.s.AddGTID(replication.MariadbGTID{Domain: 1, Server: 2, Sequence: 3})
				sameSet(rt, "set after adding a MariaDB GTID", s, v.m)
				continue
			}
			sid, gno := genSID(rt), genGNO(rt)
			if ss := v.m.sids(); len(ss) > 0 && rapid.IntRange(0, 3).Draw(rt, "near") > 0 {
				// next to an existing interval
				sid = rapid.SampledFrom(ss).Draw(rt, "nearsid")
				x := rapid.SampledFrom(v.m[sid]).Draw(rt, "neariv")
				switch rapid.IntRange(0, 4).Draw(rt, "where") {
				case 0:
					gno = x.lo - 1
				case 1:
					gno = x.hi + 1
				case 2:
					gno = x.hi + 2
				case 3:
					gno = x.lo
				default:
					gno = x.lo - 2
				}
				if gno < 1 || gno > maxGNO {
					gno = 1
				}
			}
			g := replication.Mysql56GTID{Server: sid, Sequence: gno}
			nm := v.m.with(sid, gno)
			hist += fmt.Sprintf("\nset %d = set %d + %s", len(vs), at, g)
			ns := v.s.AddGTID(g)
			sameSet(rt, "the sum\n"+hist+"\n", ns, nm)
			if !ns.ContainsGTID(g) || !ns.Contains(v.s) || !ns.Contains(g.GTIDSet()) {
				rt.Fatalf("%s does not contain what was added\n%s", ns, hist)
			}
			if v.m.has(sid, gno) != ns.Equal(v.s) || v.m.has(sid, gno) != v.s.Contains(ns) {
				rt.Fatalf("%s and %s: equal %v\n%s", v.s, ns, ns.Equal(v.s), hist)
			}
			vs = append(vs, version{ns, nm})
			_, k := nm.count()
			nt = nt || k > 1
			check()
			if len(norm(nm[sid])) < len(norm(v.m[sid])) {
				cov.Class("addition joins two intervals")
			} else if v.m.has(sid, gno) {
				cov.Class("addition of a member")
			} else {
				cov.Class("addition")
			}
		}
		cov.Note(nt, hist, func() string { return hist })
	})
	cov.Check(t, "at-once", 400, 10000, func(rt *rapid.T) {
		// a set is a value: several goroutines may ask the same one, and add to it
		m := genModel(rt)
		set := build(rt, m, rapid.IntRange(0, 2).Draw(rt, "way"))
		n := rapid.IntRange(2, 6).Draw(rt, "goroutines")
		lists := make([][]task, n)
		var what []string
		for i := range lists {
			for k := rapid.IntRange(1, 4).Draw(rt, "tasks"); k > 0; k-- {
				sid, gno := genSID(rt), genGNO(rt)
				if ss := m.sids(); len(ss) > 0 && rapid.IntRange(0, 3).Draw(rt, "near") > 0 {
					sid = rapid.SampledFrom(ss).Draw(rt, "nearsid")
					x := rapid.SampledFrom(m[sid]).Draw(rt, "neariv")
					gno = rapid.SampledFrom([]int64{x.lo, x.hi, max(1, x.lo-1), min(maxGNO, x.hi+1)}).Draw(rt, "where")
				}
				g := replication.Mysql56GTID{Server: sid, Sequence: gno}
				sum := m.with(sid, gno)
				lists[i] = append(lists[i], func(t fataler) {
					t.Helper()
					if got := set.ContainsGTID(g); got != m.has(sid, gno) {
						t.Fatalf("membership of %s in %q is %v", g, m.text(","), got)
					}
					s := set.AddGTID(g)
					sameSet(t, fmt.Sprintf("%q + %s", m.text(","), g), s, sum)
					if !s.Contains(set) || set.Contains(s) != m.has(sid, gno) || s.Equal(set) != m.has(sid, gno) {
						t.Fatalf("%q and %q: %v, %v, equal %v", s, m.text(","), s.Contains(set), set.Contains(s), s.Equal(set))
					}
					sameSet(t, "the set that was added to", set, m)
				})
				what = append(what, g.String())
			}
		}
		atOnce(rt, lists, 15)
		cov.Class(fmt.Sprintf("%d goroutines at once", n))
		cov.Note(true, m.text(",")+"|"+strings.Join(what, "|"), func() string {
			return fmt.Sprintf("%d goroutines on %q: %s", n, m.text(","), strings.Join(what, " "))
		})
	})
	cov.Loop(t, "sizes", c18Sizes)
	cov.Loop(t, "all-small-sets", func(t *testing.T) {
		w := cov.N(8, 10)
		s1, s2 := sidPool[2], sidPool[3]
		var sets []replication.GTIDSet
		var models []model
		for m := 0; m < 1<<w; m++ {
			mod := model{}
			for i := 0; i < w; i++ {
				if m>>i&1 == 1 {
					mod[s1] = append(mod[s1], iv{int64(i + 1), int64(i + 1)})
				}
			}
			mod[s1] = norm(mod[s1])
			models = append(models, mod)
			sets = append(sets, build(t, mod, m%3))
		}
		var n int64
		for a := range sets {
			if cov.Over() {
				break
			}
			for b := range sets {
				if got := sets[a].Contains(sets[b]); got != (a&b == b) {
					t.Fatalf("%q contains %q: %v", sets[a], sets[b], got)
				}
				if got := sets[a].Equal(sets[b]); got != (a == b) {
					t.Fatalf("%q equals %q: %v", sets[a], sets[b], got)
				}
				n++
			}
			before := sets[a].String()
			for i := 0; i < w+2; i++ {
				g := replication.Mysql56GTID{Server: s1, Sequence: int64(i + 1)}
				if got := sets[a].ContainsGTID(g); got != (a>>i&1 == 1) {
					t.Fatalf("membership of %s in %q: %v", g, sets[a], got)
				}
				sameSet(t, "the sum", sets[a].AddGTID(g), models[a].with(s1, int64(i+1)))
				o := replication.Mysql56GTID{Server: s2, Sequence: int64(i + 1)}
				if sets[a].ContainsGTID(o) {
					t.Fatalf("%s is a member of %q", o, sets[a])
				}
				sameSet(t, "the sum", sets[a].AddGTID(o), models[a].with(s2, int64(i+1)))
				n += 4
			}
			if sets[a].String() != before {
				t.Fatalf("adding to %q changed it to %q", before, sets[a])
			}
		}
		cov.NoteMany(n, fmt.Sprintf("all subsets of 1..%d of one uuid: every pair compared, every number probed and added", w))
	})
	cov.Loop(t, "all-small-sets-of-several-uuids", func(t *testing.T) {
		// bit u*3+i of m says that number i+1 of uuid u is in the set
		sids := []replication.SID{sidPool[1], sidPool[2], sidPool[3], sidPool[6]}[:cov.N(3, 4)]
		w := 3 * len(sids)
		var sets []replication.GTIDSet
		var models []model
		for m := 0; m < 1<<w; m++ {
			mod := model{}
			for i := 0; i < w; i++ {
				if m>>i&1 == 1 {
					sid, n := sids[i/3], int64(i%3+1)
					mod[sid] = norm(append(mod[sid], iv{n, n}))
				}
			}
			models = append(models, mod)
			sets = append(sets, build(t, mod, m%3))
		}
		var n int64
		for a := range sets {
			if cov.Over() {
				break
			}
			for b := range sets {
				if got := sets[a].Contains(sets[b]); got != (a&b == b) {
					t.Fatalf("%q contains %q: %v", sets[a], sets[b], got)
				}
				if got := sets[a].Equal(sets[b]); got != (a == b) {
					t.Fatalf("%q equals %q: %v", sets[a], sets[b], got)
				}
				n++
			}
			for i := 0; i < w; i++ {
				g := replication.Mysql56GTID{Server: sids[i/3], Sequence: int64(i%3 + 1)}
				if got := sets[a].ContainsGTID(g); got != (a>>i&1 == 1) {
					t.Fatalf("membership of %s in %q: %v", g, sets[a], got)
				}
				sum := sets[a].AddGTID(g)
				sameSet(t, "the sum", sum, models[a].with(g.Server, g.Sequence))
				if b := a | 1<<i; !sum.Equal(sets[b]) || !sets[b].Equal(sum) {
					t.Fatalf("%q and %q are not equal", sum, sets[b])
				}
				n += 2
			}
			sameSet(t, "the set that was added to", sets[a], models[a])
		}
		cov.NoteMany(n, fmt.Sprintf("all subsets of 1..3 of %d uuids: every pair compared, every number probed and added", len(sids)))
	})
}

// ---- C19 ----

type mariaModel map[uint32]replication.MariadbGTID

func genU32(rt *rapid.T, l string) uint32 {
	return rapid.OneOf(rapid.Uint32Range(0, 4), rapid.Uint32Range(0, 4), rapid.SampledFrom([]uint32{255, 256, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(rt, l)
}

func genMaria(rt *rapid.T) replication.MariadbGTID {
	return replication.MariadbGTID{Domain: genU32(rt, "domain"), Server: genU32(rt, "server"), Sequence: rapid.OneOf(rapid.Uint64Range(0, 20), rapid.SampledFrom([]uint64{1 << 32, 1 << 63, 1<<64 - 1, 1<<63 - 1}), rapid.Uint64()).Draw(rt, "sequence")}
}

func roundTripGTID(t fataler, g replication.GTID, text string) {
	t.Helper()
	if g.String() != text {
		t.Fatalf("GTID %#v prints %q, should be %q", g, g.String(), text)
	}
	p, err := replication.ParseGTID(g.Flavor(), g.String())
	if err != nil || p != g {
		t.Fatalf("ParseGTID(%q, %q) = %#v, %v, want %#v", g.Flavor(), g.String(), p, err, g)
	}
	if p := replication.MustParseGTID(g.Flavor(), g.String()); p != g {
		t.Fatalf("MustParseGTID(%q) = %#v", g.String(), p)
	}
	e := replication.EncodeGTID(g)
	d, err := replication.DecodeGTID(e)
	if err != nil || d != g {
		t.Fatalf("DecodeGTID(%q) = %#v, %v, want %#v", e, d, err, g)
	}
	if d := replication.MustDecodeGTID(e); d != g {
		t.Fatalf("MustDecodeGTID(%q) = %#v", e, d)
	}
	if d2, err := replication.DecodeGTID(replication.EncodeGTID(d)); err != nil || d2 != g {
		t.Fatalf("second round trip of %q gives %#v, %v", e, d2, err)
	}
}

func TestC19(t *testing.T) {
	defer func(n int64) { maxGNO = n }(maxGNO)
	maxGNO = math.MaxInt64
	cov.Rule("a case is a GTID, a GTID set, a GTID event or a history of a MariaDB set; non-trivial when it is not a zero value (sets: at least two members); distinct by text")
	if parseSet == nil {
		cov.Class("set parser not accessible")
	}
	cov.Check(t, "mysql-gtids", 20000, 500000, func(rt *rapid.T) {
		var sid replication.SID
		copy(sid[:], vals.Bytes(rapid.Uint64().Draw(rt, "sidseed"), 16))
		if rapid.Bool().Draw(rt, "pool") {
			sid = genSID(rt)
		}
		n := rapid.OneOf(rapid.Int64Range(1, 30), rapid.Int64Range(1, math.MaxInt64)).Draw(rt, "gno")
		if sid.String() != sidText(sid) {
			rt.Fatalf("SID % x prints %q", sid[:], sid.String())
		}
		if p, err := replication.ParseSID(sidText(sid)); err != nil || p != sid {
			rt.Fatalf("ParseSID(%q) = % x, %v", sidText(sid), p[:], err)
		}
		if p, err := replication.ParseSID(strings.ToUpper(sidText(sid))); err != nil || p != sid {
			rt.Fatalf("ParseSID(%q) = % x, %v", strings.ToUpper(sidText(sid)), p[:], err)
		}
		g := replication.Mysql56GTID{Server: sid, Sequence: n}
		if g.Flavor() != my || g.SourceServer() != sid || g.SequenceNumber() != n {
			rt.Fatalf("GTID %s has flavor %q, server %v, number %v", g, g.Flavor(), g.SourceServer(), g.SequenceNumber())
		}
		roundTripGTID(rt, g, fmt.Sprintf("%s:%d", sidText(sid), n))
		if s := g.GTIDSet(); s.String() != g.String() || !s.ContainsGTID(g) {
			rt.Fatalf("set of %s is %s", g, s)
		}
		cov.Note(true, g.String(), func() string { return g.String() })
	})
	cov.Check(t, "mariadb-gtids", 15000, 300000, func(rt *rapid.T) {
		g := genMaria(rt)
		if g.Flavor() != ma || g.SourceServer() != g.Server || g.SequenceNumber() != g.Sequence || g.SequenceDomain() != g.Domain {
			rt.Fatalf("GTID %s has flavor %q, server %v, number %v, domain %v", g, g.Flavor(), g.SourceServer(), g.SequenceNumber(), g.SequenceDomain())
		}
		roundTripGTID(rt, g, fmt.Sprintf("%d-%d-%d", g.Domain, g.Server, g.Sequence))
		if s := g.GTIDSet(); s.String() != g.String() || !s.ContainsGTID(g) {
			rt.Fatalf("set of %s is %s", g, s)
		}
		cov.Note(g != replication.MariadbGTID{}, g.String(), func() string { return g.String() })
	})
	cov.Check(t, "mysql-sets", 20000, 400000, func(rt *rapid.T) {
		m := genModel(rt)
		s := build(rt, m, rapid.IntRange(0, 2).Draw(rt, "way"))
		sameSet(rt, "set", s, m)
		back, err := replication.NewMysql56GTIDSetFromSIDBlock(s.(replication.Mysql56GTIDSet).SIDBlock())
		if err != nil || !back.Equal(s) || !s.Equal(back) || back.String() != s.String() {
			rt.Fatalf("SID block of %q decodes to %q, %v", s, back, err)
		}
		if parseSet != nil && len(m.sids()) > 0 {
			for _, text := range []string{s.String(), m.text(",\n"), m.text(", "), strings.ToUpper(s.String())} {
				p, err := parseSet(my, text)
				if err != nil || !p.Equal(s) || !s.Equal(p) || p.String() != s.String() {
					rt.Fatalf("set %q parses to %v, %v", text, p, err)
				}
			}
		}
		f := genFormat(rt)
		f.Maria = false
		bf := format(rt, f)
		ev := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvPrevGTIDs, Flags: 0x80}, m.block()))
		if !ev.IsPreviousGTIDs() {
			rt.Fatalf("previous-GTIDs event not recognised")
		}
		p, err := ev.PreviousGTIDs(bf)
		if err != nil || !p.Equal(s) || p.String() != m.text(",") {
			rt.Fatalf("previous-GTIDs event of %q decodes to %v, %v", m.text(","), p, err)
		}
		a, b := m.count()
		cov.Note(a > 1 || b > 1, s.String(), func() string { return s.String() })
	})
	cov.Check(t, "gtid-events", 15000, 300000, func(rt *rapid.T) {
		f := genFormat(rt)
		bf := format(rt, f)
		if f.Maria {
			g := genMaria(rt)
			flags := byte(rapid.IntRange(0, 255).Draw(rt, "flags2"))
			body := append(wire.U64(g.Sequence), wire.LE(uint64(g.Domain), 4)...)
			body = append(body, flags)
			body = append(body, vals.Bytes(2, rapid.SampledFrom([]int{6, 8}).Draw(rt, "rest"))...)
			ev := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvMariaGTID, ServerID: g.Server}, body))
			got, _, err := ev.GTID(bf)
			if !ev.IsGTID() || err != nil || got != replication.GTID(g) {
				rt.Fatalf("MariaDB GTID event of %s decodes to %v, %v", g, got, err)
			}
			cov.Note(g != replication.MariadbGTID{}, "ev"+g.String(), func() string { return "event " + g.String() })
			return
		}
		g := replication.Mysql56GTID{Server: genSID(rt), Sequence: rapid.OneOf(rapid.Int64Range(1, 30), rapid.Int64Range(1, math.MaxInt64)).Draw(rt, "gno")}
		body := []byte{rapid.Byte().Draw(rt, "commitflag")}
		body = append(body, g.Server[:]...)
		body = append(body, wire.U64(uint64(g.Sequence))...)
		switch rapid.IntRange(0, 2).Draw(rt, "version") {
		case 1: // 5.7: logical clock
			body = append(append(body, 2), vals.Bytes(3, 16)...)
		case 2: // 8.0: commit timestamps, transaction length, server versions
			body = append(append(body, 2), vals.Bytes(3, 16+7+9+4)...)
		}
		ev := event(rt, f, bf, f.Frame(wire.Header{Type: wire.EvGTID, ServerID: 3}, body))
		got, _, err := ev.GTID(bf)
		if !ev.IsGTID() || err != nil || got != replication.GTID(g) {
			rt.Fatalf("GTID event of %s decodes to %v, %v", g, got, err)
		}
		cov.Note(true, "ev"+g.String(), func() string { return "event " + g.String() })
	})
	cov.Check(t, "mariadb-sets", 20000, 400000, func(rt *rapid.T) {
		type version struct {
			s replication.GTIDSet
			m mariaModel
			t string
		}
		g0 := genMaria(rt)
		vs := []version{{g0.GTIDSet(), mariaModel{g0.Domain: g0}, g0.String()}}
		if rapid.IntRange(0, 3).Draw(rt, "empty") == 0 {
			vs = []version{{replication.MariadbGTIDSet{}, mariaModel{}, ""}}
		}
		hist := "start " + vs[0].t
		// match compares a set with the model: one position per domain.
		match := func(s replication.GTIDSet, m mariaModel) error {
			seen := map[uint32]bool{}
			if s.String() == "" {
				if len(m) > 0 {
					return fmt.Errorf("is empty")
				}
				return nil
			}
			for _, p := range strings.Split(s.String(), ",") {
				var g replication.MariadbGTID
				if _, err := fmt.Sscanf(p, "%d-%d-%d", &g.Domain, &g.Server, &g.Sequence); err != nil {
					return fmt.Errorf("has a member %q", p)
				}
				if seen[g.Domain] {
					return fmt.Errorf("has two positions in domain %d", g.Domain)
				}
				seen[g.Domain] = true
				if m[g.Domain].Sequence != g.Sequence {
					return fmt.Errorf("has %v in domain %d, should be %v", g, g.Domain, m[g.Domain])
				}
				m[g.Domain] = g // equal numbers: which server is recorded is not specified
			}
			if len(seen) != len(m) {
				return fmt.Errorf("has %d domains of %d", len(seen), len(m))
			}
			return nil
		}
		unchanged := func() {
			for i, v := range vs {
				if v.s.String() != v.t {
					rt.Fatalf("set %d of the history was %q and is now %q\n%s", i, v.t, v.s, hist)
				}
			}
		}
		n := rapid.IntRange(1, 10).Draw(rt, "adds")
		if rapid.IntRange(0, 29).Draw(rt, "many") == 0 {
			n = rapid.IntRange(11, 40).Draw(rt, "manyadds")
		}
		for i := 0; i < n; i++ {
			at := len(vs) - 1
			if rapid.IntRange(0, 2).Draw(rt, "branch") == 0 {
				at = rapid.IntRange(0, len(vs)-1).Draw(rt, "from")
			}
			v := vs[at]
			g := genMaria(rt)
			nm := mariaModel{}
			for d, x := range v.m {
				nm[d] = x
			}
			old, ok := nm[g.Domain]
			if !ok || g.Sequence > old.Sequence {
				nm[g.Domain] = g
			}
			hist += fmt.Sprintf("\nset %d = set %d (%s) + %s", len(vs), at, v.t, g)
			ns := v.s.AddGTID(g)
			if err := match(ns, nm); err != nil {
				rt.Fatalf("the sum %s %v\n%s", ns, err, hist)
			}
			vs = append(vs, version{ns, nm, ns.String()})
			unchanged()
			if !ns.ContainsGTID(g) || !ns.Contains(v.s) || !ns.Contains(g.GTIDSet()) || !ns.Contains(ns) || !ns.Equal(ns) {
				rt.Fatalf("%s does not contain what was added\n%s", ns, hist)
			}
			// containment by sequence number within the domain
			p := genMaria(rt)
			if rapid.Bool().Draw(rt, "near") {
				p = g
				p.Server++
				p.Sequence += uint64(rapid.IntRange(-1, 1).Draw(rt, "d"))
			}
			x, has := nm[p.Domain]
			want := has && x.Sequence >= p.Sequence
			if got := ns.ContainsGTID(p); got != want {
				rt.Fatalf("%s contains %s: %v\n%s", ns, p, got, hist)
			}
			for _, o := range vs {
				sup := true
				for d, x := range o.m {
					y, has := nm[d]
					sup = sup && has && y.Sequence >= x.Sequence
				}
				if got := ns.Contains(o.s); got != sup {
					rt.Fatalf("%s contains %s: %v\n%s", ns, o.t, got, hist)
				}
				if o.t == vs[len(vs)-1].t != ns.Equal(o.s) && !sameMembers(o.t, ns.String()) {
					rt.Fatalf("%s equals %s: %v\n%s", ns, o.t, ns.Equal(o.s), hist)
				}
			}
			if parseSet != nil && ns.String() != "" {
				p, err := parseSet(ma, ns.String())
				if err != nil || !p.Equal(ns) || !ns.Equal(p) || p.String() != ns.String() {
					rt.Fatalf("set %q parses to %v, %v", ns, p, err)
				}
			}
			unchanged()
			if ok {
				cov.Class("addition in a known domain")
			} else {
				cov.Class("addition of a domain")
			}
		}
		cov.Note(len(vs[len(vs)-1].m) > 1, hist, func() string { return hist })
	})
	sideBySide(t, 400, 10000, 20, func(rt *rapid.T) (task, string) {
		switch rapid.IntRange(0, 2).Draw(rt, "what") {
		case 0:
			g := genMaria(rt)
			return func(t fataler) { roundTripGTID(t, g, fmt.Sprintf("%d-%d-%d", g.Domain, g.Server, g.Sequence)) }, g.String()
		case 1:
			g := replication.Mysql56GTID{Server: genSID(rt), Sequence: genGNO(rt)}
			return func(t fataler) { roundTripGTID(t, g, fmt.Sprintf("%s:%d", sidText(g.Server), g.Sequence)) }, g.String()
		}
		m := genModel(rt)
		way := rapid.IntRange(0, 1).Draw(rt, "way")
		return func(t fataler) {
			t.Helper()
			s := build(t, m, way)
			sameSet(t, "set", s, m)
			back, err := replication.NewMysql56GTIDSetFromSIDBlock(m.block())
			if err != nil || !back.Equal(s) {
				t.Fatalf("SID block of %q decodes to %v, %v", m.text(","), back, err)
			}
		}, m.text(",")
	})
	cov.Loop(t, "sizes", c19Sizes)
	cov.Loop(t, "fixed", func(t *testing.T) {
		if replication.EncodeGTID(nil) != "" {
			t.Fatalf("EncodeGTID(nil) = %q", replication.EncodeGTID(nil))
		}
		if g, err := replication.DecodeGTID(""); g != nil || err != nil {
			t.Fatalf("DecodeGTID(\"\") = %v, %v", g, err)
		}
		// every hex digit in every place of a SID
		var n int64
		for i := 0; i < 16; i++ {
			for b := 0; b < 256; b++ {
				var sid replication.SID
				sid[i] = byte(b)
				roundTripGTID(t, replication.Mysql56GTID{Server: sid, Sequence: int64(b) + 1}, fmt.Sprintf("%s:%d", sidText(sid), b+1))
				n++
			}
		}
		for i := uint(0); i < 64; i++ {
			roundTripGTID(t, replication.MariadbGTID{Domain: uint32(1) << (i % 32), Server: ^uint32(1 << (i % 32)), Sequence: 1 << i}, fmt.Sprintf("%d-%d-%d", uint32(1)<<(i%32), ^uint32(1<<(i%32)), uint64(1)<<i))
			n++
		}
		cov.NoteMany(n, "every byte value at every place of a SID; every power of two in every MariaDB field")
	})
}

// sameMembers says that two MariaDB texts list the same GTIDs, in any order.
func sameMembers(a, b string) bool {
	x, y := strings.Split(a, ","), strings.Split(b, ",")
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, ",") == strings.Join(y, ",")
}
