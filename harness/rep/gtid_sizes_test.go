package rep

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/Breeze0806/gobinlog/replication"

	"verifharness/cov"
	"verifharness/wire"
)

// setSizes are numbers of members: every small one and those around powers of two.
func setSizes(every, most int) []int {
	var out []int
	for n := 1; n <= every; n++ {
		out = append(out, n)
	}
	for p := 1; p <= most; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/2} {
			if n > every && n <= most {
				out = append(out, n)
			}
		}
	}
	for _, n := range []int{100, 200, 250, 251, 252, 500, 999, 1000, 1001, 2000, 5000, 10000} {
		if n > every && n <= most {
			out = append(out, n)
		}
	}
	return out
}

// gapped is a set of n intervals of one uuid: 3, 8-9, 13, 18-19, ...
func gapped(sid replication.SID, n int) model {
	m := model{}
	for i := 0; i < n; i++ {
		lo := int64(5*i + 3)
		m[sid] = append(m[sid], iv{lo, lo + int64(i%2)})
	}
	return m
}

func numbered(i int) replication.SID {
	var s replication.SID
	binary.BigEndian.PutUint32(s[:], uint32(i)*2654435761)
	binary.BigEndian.PutUint32(s[12:], uint32(i))
	return s
}

// many is a set of n uuids.
func many(n int) model {
	m := model{}
	for i := 0; i < n; i++ {
		x := iv{int64(i%7 + 1), int64(i%7 + 1 + i%3)}
		m[numbered(i)] = []iv{x}
		if i%5 == 0 {
			m[numbered(i)] = append(m[numbered(i)], iv{x.hi + 2, x.hi + 9})
		}
	}
	return m
}

// c18Sizes queries sets of many members and adds to them.
func c18Sizes(t *testing.T) {
	var n int64
	sid := sidPool[2]
	query := func(what string, m model, s replication.GTIDSet, probes []replication.Mysql56GTID) {
		sameSet(t, what, s, m)
		if !s.Contains(s) || !s.Equal(s) {
			t.Fatalf("%s does not contain or equal itself", what)
		}
		before := s.String()
		for _, g := range probes {
			has := m.has(g.Server, g.Sequence)
			if got := s.ContainsGTID(g); got != has {
				t.Fatalf("%s: membership of %s is %v", what, g, got)
			}
			if got := s.Contains(g.GTIDSet()); got != has {
				t.Fatalf("%s: contains {%s} is %v", what, g, got)
			}
			sum := s.AddGTID(g)
			sameSet(t, what+" and "+g.String(), sum, m.with(g.Server, g.Sequence))
			if !sum.Contains(s) || s.Contains(sum) != has || sum.Equal(s) != has || s.Equal(sum) != has {
				t.Fatalf("%s and %s: contains %v, contained %v, equals %v", what, g, sum.Contains(s), s.Contains(sum), sum.Equal(s))
			}
			n++
		}
		if s.String() != before {
			t.Fatalf("%s has changed", what)
		}
	}
	for _, k := range setSizes(cov.N(72, 300), cov.N(4200, 17000)) {
		if cov.Over() {
			break
		}
		m := gapped(sid, k)
		last := int64(5*(k-1) + 3)
		var probes []replication.Mysql56GTID
		for _, q := range []int64{1, 2, 3, 4, 7, 8, last / 2, last/2 + 1, last/2 + 2, last/2 + 3, last/2 + 4, last - 1, last, last + 1, last + 2, last + 3, last + 50} {
			if q > 0 {
				probes = append(probes, replication.Mysql56GTID{Server: sid, Sequence: q})
			}
		}
		probes = append(probes, replication.Mysql56GTID{Server: sidPool[3], Sequence: last})
		query(fmt.Sprintf("set of %d intervals", k), m, build(t, m, k%2), probes)
		// without its first, middle or last interval it is a proper subset
		s := build(t, m, 0)
		whole := build(t, model{sid: {{1, last + 5}}}, 0)
		if !whole.Contains(s) || s.Contains(whole) || whole.Equal(s) {
			t.Fatalf("one interval and %d intervals in it: contains %v, contained %v", k, whole.Contains(s), s.Contains(whole))
		}
		for _, i := range []int{0, k / 2, k - 1} {
			less := model{sid: append(append([]iv{}, m[sid][:i]...), m[sid][i+1:]...)}
			if k == 1 {
				less = model{}
			}
			l := build(t, less, 0)
			if !s.Contains(l) || l.Contains(s) || l.Equal(s) || s.Equal(l) {
				t.Fatalf("set of %d intervals and that without interval %d: contains %v, contained %v, equal %v", k, i, s.Contains(l), l.Contains(s), l.Equal(s))
			}
			n += 4
		}
	}
	for _, k := range setSizes(cov.N(40, 200), cov.N(1100, 8500)) {
		if cov.Over() {
			break
		}
		m := many(k)
		var probes []replication.Mysql56GTID
		for _, i := range []int{0, k / 2, k - 1} {
			x := m[numbered(i)]
			for _, q := range []int64{x[0].lo, x[0].hi + 1, x[len(x)-1].hi + 1, x[len(x)-1].hi + 2} {
				probes = append(probes, replication.Mysql56GTID{Server: numbered(i), Sequence: q})
			}
		}
		for i := k; i < k+2; i++ {
			probes = append(probes, replication.Mysql56GTID{Server: numbered(i), Sequence: 1})
		}
		s := build(t, m, k%2)
		query(fmt.Sprintf("set of %d uuids", k), m, s, probes)
		for _, i := range []int{0, k / 2, k - 1} {
			less := model{}
			for u, v := range m {
				if u != numbered(i) {
					less[u] = v
				}
			}
			l := build(t, less, 0)
			if !s.Contains(l) || l.Contains(s) || l.Equal(s) || s.Equal(l) {
				t.Fatalf("set of %d uuids and that without uuid %d: contains %v, contained %v, equal %v", k, i, s.Contains(l), l.Contains(s), l.Equal(s))
			}
			n += 4
		}
	}
	// grown one by one, in orders that insert in front, behind and between
	for _, k := range []int{17, 33, 65, 129, 257, cov.N(400, 2000)} {
		for order := 0; order < 3; order++ {
			var s replication.GTIDSet = replication.Mysql56GTIDSet{}
			m := model{}
			for i := 0; i < k; i++ {
				q := int64(2*i + 1)
				switch order {
				case 1:
					q = int64(2*(k-i) + 1)
				case 2:
					q = int64(i*7919%k*2 + 1)
				}
				m[sid] = append(m[sid], iv{q, q})
				s = s.AddGTID(replication.Mysql56GTID{Server: sid, Sequence: q})
			}
			m[sid] = norm(m[sid])
			sameSet(t, fmt.Sprintf("set of %d numbers added in order %d", k, order), s, m)
			// and joined again
			for i := 0; i <= k; i++ {
				s = s.AddGTID(replication.Mysql56GTID{Server: sid, Sequence: int64(i*31%(k+1)*2 + 2)})
				m[sid] = append(m[sid], iv{int64(i*31%(k+1)*2 + 2), int64(i*31%(k+1)*2 + 2)})
			}
			m[sid] = norm(m[sid])
			sameSet(t, fmt.Sprintf("set of %d numbers joined in order %d", k, order), s, m)
			n++
		}
	}
	cov.NoteMany(n, "sets of every small number of intervals or uuids, of numbers around powers of two, and grown one by one")
}

// c19Sizes encodes sets of many members.
func c19Sizes(t *testing.T) {
	var n int64
	f := wire.Format{ServerVersion: "8.0.30", HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 41), Alg: wire.AlgCRC32}
	bf := format(t, f)
	trip := func(what string, m model) {
		s, err := replication.NewMysql56GTIDSetFromSIDBlock(m.block())
		if err != nil {
			t.Fatalf("%s: SID block is refused: %v", what, err)
		}
		sameSet(t, what, s, m)
		back, err := replication.NewMysql56GTIDSetFromSIDBlock(s.SIDBlock())
		if err != nil || !back.Equal(s) || !s.Equal(back) {
			t.Fatalf("%s: its SID block decodes to another set, %v", what, err)
		}
		ev := event(t, f, bf, f.Frame(wire.Header{Type: wire.EvPrevGTIDs, Flags: 0x80}, m.block()))
		p, err := ev.PreviousGTIDs(bf)
		if err != nil || !p.Equal(s) {
			t.Fatalf("%s: previous-GTIDs event decodes to another set, %v", what, err)
		}
		if parseSet != nil {
			for _, sep := range []string{",", ",\n"} {
				q, err := parseSet(my, m.text(sep))
				if err != nil || !q.Equal(s) || !s.Equal(q) || q.String() != s.String() {
					t.Fatalf("%s: its text parses to another set, %v", what, err)
				}
			}
		}
		n++
	}
	for _, k := range setSizes(cov.N(150, 600), cov.N(17000, 140000)) {
		if cov.Over() {
			break
		}
		trip(fmt.Sprintf("set of %d intervals", k), gapped(sidPool[2], k))
	}
	for _, k := range setSizes(cov.N(100, 400), cov.N(4200, 34000)) {
		if cov.Over() {
			break
		}
		trip(fmt.Sprintf("set of %d uuids", k), many(k))
	}
	// MariaDB sets by parsing, and grown
	var s replication.GTIDSet = replication.MariadbGTIDSet{}
	var text []string
	sizes := map[int]bool{}
	most := cov.N(600, 2100)
	for _, k := range setSizes(40, most) {
		sizes[k] = true
	}
	for k := 1; k <= most && !cov.Over(); k++ {
		g := replication.MariadbGTID{Domain: uint32(k * 7), Server: uint32(k%5 + 1), Sequence: uint64(k*1000 + 1)}
		old := s
		s = s.AddGTID(g)
		text = append(text, g.String())
		if !sizes[k] {
			continue
		}
		if !sameMembers(s.String(), strings.Join(text, ",")) {
			t.Fatalf("MariaDB set of %d domains prints %q", k, s)
		}
		if !s.Contains(old) || old.Contains(s) || s.Equal(old) || !s.Equal(s) {
			t.Fatalf("MariaDB set of %d domains and before: contains %v, contained %v, equal %v", k, s.Contains(old), old.Contains(s), s.Equal(old))
		}
		if parseSet != nil {
			q, err := parseSet(ma, s.String())
			if err != nil || !q.Equal(s) || !s.Equal(q) || q.String() != s.String() {
				t.Fatalf("MariaDB set of %d domains parses to another set, %v", k, err)
			}
		}
		for _, i := range []int{1, k/2 + 1, k} {
			for d := -1; d <= 1; d++ {
				p := replication.MariadbGTID{Domain: uint32(i * 7), Server: 77, Sequence: uint64(i*1000 + 1 + d)}
				if got := s.ContainsGTID(p); got != (d <= 0) {
					t.Fatalf("MariaDB set of %d domains contains %s: %v", k, p, got)
				}
				sum := s.AddGTID(p)
				want := append([]string{}, text...)
				if d > 0 {
					want[i-1] = p.String()
				}
				if d != 0 && !sameMembers(sum.String(), strings.Join(want, ",")) {
					t.Fatalf("MariaDB set of %d domains and %s is %q", k, p, sum)
				}
				if !sum.Contains(s) || s.Contains(sum) != (d <= 0) {
					t.Fatalf("MariaDB set of %d domains and %s: contains %v, contained %v", k, p, sum.Contains(s), s.Contains(sum))
				}
				n++
			}
			p := replication.MariadbGTID{Domain: uint32(i*7 + 1), Server: 1, Sequence: 1}
			if s.ContainsGTID(p) {
				t.Fatalf("MariaDB set of %d domains contains %s", k, p)
			}
		}
		if !sameMembers(s.String(), strings.Join(text, ",")) {
			t.Fatalf("MariaDB set of %d domains has changed to %q", k, s)
		}
	}
	cov.NoteMany(n, "sets of every small number of intervals, uuids or domains and of numbers around powers of two, through text, SID block and previous-GTIDs event")
}
