package e2e

import (
	"fmt"
	"sync"
	"testing"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/vals"
	"verifharness/wire"
)

// The decoding properties once more, through Streamer: what the handler gets.

const endToEnd = "a streamed history whose delivered rows or statements are compared with what the master encoded, with at least two changes"

// typed streams histories over tables of the given kinds of columns.
func typed(t *testing.T, name string, quick, thorough int, kind func(rt *rapid.T) vals.Kind) {
	cov.Check(t, name, quick, thorough, func(rt *rapid.T) {
		o := hist.Opts{Files: 2, Units: 4, Tables: 2, Cols: 9, Rows: 5, MinTxn: 2, Kinds: kind, ReuseIDs: true}
		decoded(rt, o)
	})
	cov.Check(t, "several-streamers", 50, 800, func(rt *rapid.T) {
		abreast(rt, func() hist.Opts {
			return hist.Opts{Files: 1, Units: 3, Tables: 1, Cols: 4, Rows: 5, MinTxn: 2, Kinds: kind, Bulk: 600}
		})
	})
}

// abreast streams several histories at the same time, from a master each, to a
// streamer each.
func abreast(rt *rapid.T, o func() hist.Opts) {
	n := rapid.IntRange(2, 4).Draw(rt, "streamers")
	type one struct {
		h    *hist.History
		ps   []*hist.Packet
		e    *run.Env
		out  *run.Out
		msg  string
		pace func(w *master.Writer)
	}
	all := make([]*one, n)
	rows := 0
	for i := range all {
		s := &one{h: hist.Generate(rt, o())}
		s.ps = packets(rt, s.h, s.h.Start)
		s.e = run.NewEnv(rt, s.h.Tables, s.h.Start)
		defer s.e.Close()
		if rapid.IntRange(0, 3).Draw(rt, "paced") == 0 {
			s.pace = pacing(rt)
		}
		_, r := changes(hist.Expected(s.ps))
		rows += r
		all[i] = s
	}
	var wg sync.WaitGroup
	for _, s := range all {
		wg.Add(1)
		go func(s *one) {
			defer wg.Done()
			s.out = s.e.Run(&collect{&s.msg}, run.Attempt{Script: master.Script{Serve: sendAll(s.ps, s.pace)}, NoError: true})
		}(s)
	}
	wg.Wait()
	for i, s := range all {
		if s.msg != "" {
			rt.Fatalf("streamer %d of %d at the same time: %s", i, n, s.msg)
		}
		if s.out.Stream != nil {
			rt.Fatalf("streamer %d of %d at the same time: a clean stream ended with %s\n%s", i, n, s.out.Describe(), s.h.Describe())
		}
		if err := run.MatchAll(s.out.Snaps(), hist.Expected(s.ps)); err != nil {
			rt.Fatalf("streamer %d of %d at the same time: %v\n%s", i, n, err, s.h.Describe())
		}
	}
	cov.Class(fmt.Sprintf("%d streamers at once", n))
	cov.Note(rows > n, digest(all[0].ps, n, rows), func() string {
		return fmt.Sprintf("%d streamers at once, %d row images: %s", n, rows, all[0].h.Describe())
	})
}

func decoded(rt *rapid.T, o hist.Opts) {
	h := hist.Generate(rt, o)
	ps := packets(rt, h, h.Start)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	cov.Describe(h.Describe())
	clean(rt, e, h, ps, nil)
	want := hist.Expected(ps)
	n, _ := changes(want)
	classes(h, want)
	cov.Note(n >= 2, digest(ps), sample(h, want))
}

func TestC09(t *testing.T) {
	cov.Rule(endToEnd)
	cov.Check(t, "streamed-shapes", 250, 5000, func(rt *rapid.T) {
		decoded(rt, hist.Opts{Files: 2, Units: 3, Tables: 3, Cols: rapid.SampledFrom([]int{1, 7, 8, 9, 16, 17, 40, 70}).Draw(rt, "cols"), Rows: 7, MinTxn: 2, NoNoise: true})
	})
	cov.Check(t, "bulk", 25, 500, func(rt *rapid.T) {
		o := bulky
		o.Bulk, o.Simple, o.Units = 1<<14, false, 3
		decoded(rt, o)
	})
	cov.Check(t, "several-streamers", 50, 800, func(rt *rapid.T) {
		abreast(rt, func() hist.Opts {
			return hist.Opts{Files: 2, Units: 3, Tables: 2, Cols: wide(rt), Rows: 5, MinTxn: 2, Bulk: 300}
		})
	})
}

func TestC10(t *testing.T) {
	cov.Rule(endToEnd)
	typed(t, "streamed-numbers", 250, 5000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 7).Draw(rt, "nkind") {
		case 0:
			return vals.Float4()
		case 1:
			return vals.Float8()
		case 2:
			return vals.Year()
		case 3:
			return vals.Bit(rapid.IntRange(1, 64).Draw(rt, "n"))
		case 4:
			return vals.Enum(rapid.IntRange(1, 2).Draw(rt, "n"), false)
		case 5:
			return vals.Set(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "n"))
		}
		return vals.Int(rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(rt, "w"), rapid.Bool().Draw(rt, "u"))
	})
}

func TestC11(t *testing.T) {
	cov.Rule(endToEnd)
	typed(t, "streamed-decimals", 200, 4000, func(rt *rapid.T) vals.Kind {
		p := rapid.IntRange(1, 65).Draw(rt, "p")
		return vals.Decimal(p, rapid.IntRange(0, min(p, 30)).Draw(rt, "s"))
	})
}

func TestC12(t *testing.T) {
	cov.Rule(endToEnd)
	typed(t, "streamed-temporals", 250, 5000, func(rt *rapid.T) vals.Kind {
		fsp := rapid.IntRange(0, 6).Draw(rt, "fsp")
		switch rapid.IntRange(0, 6).Draw(rt, "tkind") {
		case 0:
			return vals.Date(10)
		case 1:
			return vals.OldTime()
		case 2:
			return vals.OldDateTime()
		case 3:
			return vals.OldTimestamp()
		case 4:
			return vals.Timestamp2(fsp)
		case 5:
			return vals.DateTime2(fsp)
		}
		return vals.Time2(fsp)
	})
}

func TestC13(t *testing.T) {
	cov.Rule(endToEnd)
	typed(t, "streamed-strings", 250, 5000, func(rt *rapid.T) vals.Kind {
		switch rapid.IntRange(0, 3).Draw(rt, "skind") {
		case 0:
			return vals.Char(rapid.IntRange(0, 1023).Draw(rt, "max"))
		case 1:
			return vals.VarcharCap(15, rapid.SampledFrom([]int{0, 1, 255, 256, 257, 65535}).Draw(rt, "max"), 600)
		case 2:
			return vals.BlobCap(255, 4, 300)
		}
		return vals.BlobCap(252, rapid.IntRange(1, 4).Draw(rt, "n"), 600)
	})
}

func TestC14(t *testing.T) {
	cov.Rule(endToEnd)
	typed(t, "streamed-documents", 200, 4000, func(rt *rapid.T) vals.Kind {
		return vals.JSON(vals.DocOpts{MaxNodes: rapid.SampledFrom([]int{3, 12, 40}).Draw(rt, "nodes")})
	})
	cov.Check(t, "streamed-large-documents", 8, 100, func(rt *rapid.T) {
		o := hist.Opts{Files: 1, Units: 2, Tables: 1, Cols: 2, Rows: 2, MinTxn: 1, Kinds: func(t *rapid.T) vals.Kind {
			return vals.JSON(vals.DocOpts{MaxNodes: 20, Big: true})
		}}
		decoded(rt, o)
	})
}

// wide is a small table with many columns now and then.
func wide(rt *rapid.T) int {
	return rapid.SampledFrom([]int{1, 3, 5, 9, 20, 60, 260}).Draw(rt, "maxcols")
}

// announced lists the table names in the table maps of a stream.
func announced(ps []*hist.Packet) map[gobinlog.MysqlTableName]bool {
	out := map[gobinlog.MysqlTableName]bool{}
	for _, p := range ps {
		if _, body := wire.Split(p.Bytes); p.Bytes[4] == wire.EvTableMap {
			for _, idlen := range []int{6, 4} { // the name lengths tell which it is
				b := body[idlen+2:]
				n := int(b[0])
				if len(b) < n+3 || b[n+1] != 0 {
					continue
				}
				m := int(b[n+2])
				if len(b) < n+m+4 || b[n+m+3] != 0 {
					continue
				}
				out[gobinlog.MysqlTableName{DbName: string(b[1 : n+1]), TableName: string(b[n+3 : n+3+m])}] = true
			}
		}
	}
	return out
}

// lookups checks what the table mapper was asked for.
func lookups(rt *rapid.T, e *run.Env, h *hist.History, ps []*hist.Packet, want []*hist.Txn) {
	names := announced(ps)
	called := map[gobinlog.MysqlTableName]bool{}
	for _, c := range e.M.Calls() {
		if !names[c] {
			rt.Fatalf("the table mapper was asked for %q.%q, which no table map names\n%s", c.DbName, c.TableName, h.Describe())
		}
		called[c] = true
	}
	for _, tx := range want {
		for _, ev := range tx.Events {
			if n := (gobinlog.MysqlTableName{DbName: ev.DB, TableName: ev.Table}); ev.IsRows && !called[n] {
				rt.Fatalf("rows of %q.%q were delivered without asking the table mapper for it\n%s", ev.DB, ev.Table, h.Describe())
			}
		}
	}
}

func TestC15(t *testing.T) {
	cov.Rule("a streamed history over tables that are announced again, altered or disagree with the table mapper, with at least two row changes or a rejection that was examined")
	attributed := func(rt *rapid.T, o hist.Opts) {
		h := hist.Generate(rt, o)
		ps := packets(rt, h, h.Start)
		e := run.NewEnv(rt, h.Tables, h.Start)
		defer e.Close()
		cov.Describe(h.Describe())
		clean(rt, e, h, ps, nil)
		want := hist.Expected(ps)
		lookups(rt, e, h, ps, want)
		_, n := changes(want)
		classes(h, want)
		cov.Note(n >= 2, digest(ps), sample(h, want))
	}
	shapes := func(rt *rapid.T) hist.Opts {
		return hist.Opts{Files: 3, Units: 5, Tables: 5, Cols: wide(rt), Rows: 2, MinTxn: 2, ReuseIDs: true, WideNames: true}
	}
	cov.Check(t, "streamed-attribution", 250, 5000, func(rt *rapid.T) { attributed(rt, shapes(rt)) })
	cov.Check(t, "announced-before", 200, 4000, func(rt *rapid.T) {
		o := shapes(rt)
		o.Remember, o.Units, o.Cols, o.MinTxn = true, 12, 4, 4
		attributed(rt, o)
	})
	cov.Check(t, "altered-tables", 400, 8000, altered)
	veryLong(t, []string{"transactions"}, longContent)
	cov.Check(t, "bulk", 25, 500, func(rt *rapid.T) {
		o := bulky
		o.Tables, o.Bulk = 6, 2000
		decoded(rt, o)
	})
	cov.Check(t, "several-streamers", 80, 1200, func(rt *rapid.T) {
		abreast(rt, func() hist.Opts {
			return hist.Opts{Files: 2, Units: 5, Tables: 4, Cols: 5, Rows: 2, MinTxn: 2, ReuseIDs: true, WideNames: true}
		})
	})
	cov.Check(t, "disagreement", 400, 8000, disagreement)
}

// altered streams histories in which statements alter the tables; the table
// mapper tells the new definitions once the statement has been delivered.
func altered(rt *rapid.T) {
	o := hist.Opts{Files: 3, Units: 7, Tables: 3, Cols: 4, Rows: 2, MinTxn: 3, ReuseIDs: true, Alter: true, Simple: rapid.Bool().Draw(rt, "simple")}
	h := hist.Generate(rt, o)
	ps := packets(rt, h, h.Start)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	cov.Describe(h.Describe())
	want := hist.Expected(ps)
	defs := 0
	out := e.Run(rt, run.Attempt{Script: master.Script{Serve: sendAll(ps, nil)}, NoError: true, Handler: func(i int, tx *gobinlog.Transaction) error {
		if i < len(want) {
			for _, d := range want[i].Defs {
				e.M.Add(d)
				defs++
			}
		}
		return nil
	}})
	if out.Stream != nil {
		rt.Fatalf("a clean stream with altered tables ended with %s\n%s", out.Describe(), h.Describe())
	}
	if err := run.MatchAll(out.Snaps(), want); err != nil {
		rt.Fatalf("%v\n%s", err, h.Describe())
	}
	lookups(rt, e, h, ps, want)
	_, n := changes(want)
	classes(h, want)
	cov.Note(n >= 2 && defs > 0, digest(ps), sample(h, want))
}

// disagreement has a table mapper that does not notice that a table changed
// its number of columns.
func disagreement(rt *rapid.T) {
	h := hist.Generate(rt, hist.Opts{Files: 3, Units: 6, Tables: 3, Cols: wide(rt), Rows: 2, MinTxn: 2, ReuseIDs: true, Simple: true})
	ps := packets(rt, h, h.Start)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	cov.Describe(h.Describe())
	want := hist.Expected(ps)

	// the number of columns the mapper tells for one of the tables
	tb := rapid.SampledFrom(h.Tables).Draw(rt, "which")
	n := len(tb.Cols)
	m := rapid.SampledFrom([]int{n + 1, n - 1, n + 2, 2 * n, n + 256, n - 256, 0, n + 65536, n + 8, 1}).Draw(rt, "told")
	if m < 0 || m == n {
		m = n + 1
	}
	other := &hist.Table{DB: tb.DB, Name: tb.Name}
	for i := 0; i < m; i++ {
		c := hist.Column{Name: fmt.Sprintf("x%d", i), Kind: intKind}
		if i < n {
			c = tb.Cols[i]
		}
		other.Cols = append(other.Cols, c)
	}
	e.M.Add(other)
	name := gobinlog.MysqlTableName{DbName: tb.DB, TableName: tb.Name}

	// what is delivered before the table is announced
	expect, found := 0, false
	for i, p := range ps {
		if p.Bytes[4] == wire.EvTableMap && announced(ps[i : i+1])[name] {
			found = true
			break
		}
		if p.Txn != nil {
			expect++
		}
	}
	out := e.Run(rt, run.Attempt{Script: master.Script{Serve: sendAll(ps, nil)}})
	got := out.Snaps()
	if len(got) > expect {
		// a rejection at the rows event rather than at the table map would do
		for i := expect; i < len(got); i++ {
			for _, ev := range got[i].Events {
				if ev.Table.DbName == tb.DB && ev.Table.TableName == tb.Name && len(ev.RowValues)+len(ev.RowIdentifies) > 0 {
					rt.Fatalf("transaction %d has rows of %q.%q, of which the table map has %d columns and the table mapper %d\n%s", i, tb.DB, tb.Name, n, m, h.Describe())
				}
			}
		}
		want = want[:min(len(want), len(got))]
	} else {
		want = want[:expect]
	}
	if err := run.MatchAll(got, want); err != nil {
		rt.Fatalf("the table map of %q.%q has %d columns, the table mapper %d: %v; %s\n%s", tb.DB, tb.Name, n, m, err, out.Describe(), h.Describe())
	}
	if found && out.Stream == nil {
		rt.Fatalf("the table map of %q.%q has %d columns, the table mapper %d, but the stream ends with %s\n%s", tb.DB, tb.Name, n, m, out.Describe(), h.Describe())
	}
	if !found && out.Stream != nil {
		rt.Fatalf("%q.%q does not appear, but the stream ends with %s\n%s", tb.DB, tb.Name, out.Describe(), h.Describe())
	}
	cov.Class(fmt.Sprintf("disagreement found %v", found))
	cov.Note(found, digest(ps, m), func() string {
		return fmt.Sprintf("%d columns, mapper %d, rejected after %d transactions: %s", n, m, expect, h.Describe())
	})
}

func TestC16(t *testing.T) {
	cov.Rule(endToEnd)
	cov.Check(t, "streamed-statements", 250, 5000, func(rt *rapid.T) {
		decoded(rt, hist.Opts{Files: 3, Units: 8, Tables: 1, Cols: 2, Rows: 1, MinTxn: 2, Simple: true, Boundary: true, BigOffset: true})
	})
	cov.Check(t, "several-streamers", 80, 1200, func(rt *rapid.T) {
		abreast(rt, func() hist.Opts {
			return hist.Opts{Files: 3, Units: 8, Tables: 1, Cols: 2, Rows: 1, MinTxn: 2, Simple: true, Boundary: true, BigOffset: true}
		})
	})
	cov.Check(t, "with-and-without-checksum", 150, 3000, func(rt *rapid.T) {
		// the same packets, framed with and without a checksum
		h := hist.Generate(rt, hist.Opts{Files: 2, Units: 6, Tables: 2, Cols: 3, Rows: 2, MinTxn: 2, Boundary: true})
		ps := packets(rt, h, h.Start)
		e := run.NewEnv(rt, h.Tables, h.Start)
		defer e.Close()
		cov.Describe(h.Describe())
		a := clean(rt, e, h, ps, nil).Snaps()
		other := reframe(h, ps)
		e.NewStreamer(rt, h.Start)
		out := e.Run(rt, run.Attempt{Script: master.Script{Serve: sendAll(other, nil)}, NoError: true})
		if out.Stream != nil {
			rt.Fatalf("with the checksums the other way round the stream ends with %s\n%s", out.Describe(), h.Describe())
		}
		b := out.Snaps()
		if len(a) != len(b) {
			rt.Fatalf("%d transactions, with the checksums the other way round %d\n%s", len(a), len(b), h.Describe())
		}
		for i := range a {
			if err := run.Same(a[i], b[i]); err != nil {
				rt.Fatalf("transaction %d, with the checksums the other way round: %v\n%s", i, err, h.Describe())
			}
		}
		want := hist.Expected(ps)
		n, _ := changes(want)
		cov.Class("checksum differential")
		cov.Note(n >= 2, digest(ps, "x"), sample(h, want))
	})
}

// reframe gives every packet the other kind of checksum, keeping its position
// fields.
func reframe(h *hist.History, ps []*hist.Packet) []*hist.Packet {
	flip := func(f wire.Format) wire.Format {
		if f.Alg == wire.AlgCRC32 {
			f.Alg = wire.AlgOff
		} else {
			f.Alg = wire.AlgCRC32
		}
		return f
	}
	var out []*hist.Packet
	_, file := h.Find(h.Start.File)
	cur := file.Format
	for _, p := range ps {
		q := *p
		hd, body := wire.Split(p.Bytes)
		if p.FDE {
			_, file = h.Find(p.File)
			cur = file.Format
			q.Bytes = flip(cur).FDE(hd, 4, 0)
		} else {
			if cur.Alg == wire.AlgCRC32 {
				body = body[:len(body)-4]
			}
			q.Bytes = flip(cur).Frame(hd, body)
		}
		out = append(out, &q)
	}
	return out
}

func TestC17(t *testing.T) {
	cov.Rule("a stream into which a malformed packet was put; the error, what had been delivered and the next dump request were examined")
	s := simple
	s.Units, s.Files, s.Tables = 6, 2, 2
	cov.Check(t, "malformed-in-stream", 500, 10000, func(rt *rapid.T) {
		h := hist.Generate(rt, s)
		start := genStart(rt, h)
		l := newLedger(rt, h, start)
		e := run.NewEnv(rt, h.Tables, start)
		defer e.Close()
		cov.Describe(h.Describe())
		serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
		n := rapid.IntRange(1, 3).Draw(rt, "attempts")
		fired := 0
		for i := 0; i < n; i++ {
			f := genFault(rt, []string{"invalid"})
			f.Kind = "invalid"
			x := plan(e, f, serve, formats(h), pacing(rt))
			before := l.acc
			out := e.Run(rt, x.a)
			l.check(rt, start, f.String(), out)
			x.stop()
			if !x.Fired.Load() {
				continue
			}
			fired++
			if out.Stream == nil {
				l.fatalf(rt, "a malformed packet was received, %s", out.Describe())
			}
			// all that was committed before the malformed packet, and no more
			if k := before + x.committed(); l.acc != k {
				l.fatalf(rt, "%d transactions had been committed before the malformed packet, %d were delivered", k, l.acc)
			}
		}
		e.M.Arm(0, nil, 0)
		out := e.Run(rt, run.Attempt{Script: master.Script{Serve: run.Serve(h)}})
		l.check(rt, start, "clean", out)
		if out.Stream != nil || l.acc != len(l.want) {
			l.fatalf(rt, "after malformed packets a clean attempt: %s, %d of %d transactions accepted", out.Describe(), l.acc, len(l.want))
		}
		cov.Note(fired > 0, digest(l.all, l.log), func() string { return fmt.Sprintf("%d malformed packets: %v", fired, l.log) })
	})
	o := hist.Opts{Files: 2, Units: 4, Tables: 3, Cols: 8, Rows: 3, MinTxn: 2}
	cov.Check(t, "damaged-bodies", 700, 15000, func(rt *rapid.T) {
		// right lengths, damaged contents: whatever comes of it, no panic, an end,
		// and nothing but whole prefixes before the damage
		h := hist.Generate(rt, o)
		ps := packets(rt, h, h.Start)
		k := rapid.IntRange(1, len(ps)-1).Draw(rt, "which")
		ev := append([]byte{}, ps[k].Bytes...)
		damage(rt, ev)
		e := run.NewEnv(rt, h.Tables, h.Start)
		defer e.Close()
		cov.Describe(fmt.Sprintf("packet %d (%s) damaged: % x\n%s", k, ps[k].Desc, ev, h.Describe()))
		sent := append(append(append([]*hist.Packet{}, ps[:k]...), &hist.Packet{Bytes: ev}), ps[k+1:]...)
		out := e.Run(rt, run.Attempt{Script: master.Script{Serve: sendAll(sent, nil)}})
		want := hist.Expected(ps[:k])
		got := out.Snaps()
		if len(got) < len(want) {
			rt.Fatalf("packet %d (%s) is damaged, %d transactions were committed before it, %d delivered: %s\n%s", k, ps[k].Desc, len(want), len(got), out.Describe(), h.Describe())
		}
		if err := run.MatchAll(got[:len(want)], want); err != nil {
			rt.Fatalf("packet %d (%s) is damaged: %v\n%s", k, ps[k].Desc, err, h.Describe())
		}
		for _, g := range got { // what came of the damage is still a transaction
			if _, err := g.MarshalJSON(); err != nil {
				rt.Fatalf("packet %d (%s) is damaged, a transaction cannot be serialised: %v\n%s", k, ps[k].Desc, err, h.Describe())
			}
		}
		cov.Class(fmt.Sprintf("damaged type %d, error %v", ps[k].Bytes[4], out.Stream != nil))
		cov.Note(true, digest(sent), func() string { return fmt.Sprintf("packet %d (%s) damaged: %s", k, ps[k].Desc, out.Describe()) })
	})
}

// damage changes an event but for its length field.
func damage(rt *rapid.T, ev []byte) {
	for n := rapid.IntRange(1, 4).Draw(rt, "spots"); n > 0; n-- {
		i := rapid.IntRange(0, len(ev)-1).Draw(rt, "at")
		if rapid.Bool().Draw(rt, "front") && len(ev) > 19 {
			i = 19 + rapid.IntRange(0, min(len(ev)-20, 40)).Draw(rt, "infront")
		}
		if i >= 9 && i < 13 {
			continue
		}
		switch rapid.IntRange(0, 2).Draw(rt, "how") {
		case 0:
			ev[i] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff}).Draw(rt, "to")
		case 1:
			ev[i] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		default:
			ev[i] = rapid.Byte().Draw(rt, "byte")
		}
	}
}
