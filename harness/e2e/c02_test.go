package e2e

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/vals"
	"verifharness/wire"
)

// cutAt sends the first n packets, then EOF; sent counts commit events whose
// first byte may be on the wire. Before some commit events it waits, so that a
// handler that runs too early is caught.
func cutAt(ps []*hist.Packet, n int, wait map[int]time.Duration, sent *atomic.Int64, pace func(w *master.Writer)) func(d *master.Dump, w *master.Writer) {
	return func(d *master.Dump, w *master.Writer) {
		pace(w)
		for i, p := range ps[:n] {
			if p.Txn != nil {
				w.Sleep(wait[i])
				sent.Add(1)
			}
			if w.Event(p.Bytes) != nil {
				return
			}
		}
		w.EOF()
		w.WaitClosedFor(run.Limit)
	}
}

func grouping(rt *rapid.T, o hist.Opts) {
	h := hist.Generate(rt, o)
	start := genStart(rt, h)
	ps := packets(rt, h, start)
	n := len(ps)
	if rapid.IntRange(0, 2).Draw(rt, "cut") == 0 {
		n = rapid.IntRange(0, len(ps)).Draw(rt, "at")
	}
	wait := map[int]time.Duration{}
	if rapid.IntRange(0, 3).Draw(rt, "waits") == 0 {
		for i, p := range ps {
			if p.Txn != nil && rapid.IntRange(0, 3).Draw(rt, "wait") == 0 {
				wait[i] = time.Duration(rapid.IntRange(100, 3000).Draw(rt, "us")) * time.Microsecond
			}
		}
	}
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	var sent atomic.Int64
	var early atomic.Value
	out := e.Run(rt, run.Attempt{
		NoError: true,
		Script:  master.Script{Serve: cutAt(ps, n, wait, &sent, pacing(rt))},
		Handler: func(i int, tx *gobinlog.Transaction) error {
			if s := sent.Load(); int64(i) >= s {
				early.CompareAndSwap(nil, fmt.Sprintf("handler call %d (%v..%v, %d changes) happened when only %d commit events had been sent", i+1, tx.NowPosition, tx.NextPosition, len(tx.Events), s))
			}
			return nil
		}})
	if m := early.Load(); m != nil {
		rt.Fatalf("%v\n%s", m, h.Describe())
	}
	if out.Stream != nil {
		rt.Fatalf("stream ended with %s\n%s", out.Describe(), h.Describe())
	}
	want := hist.Expected(ps[:n])
	got := out.Snaps()
	for i, g := range got {
		if i >= len(want) {
			rt.Fatalf("after %d of %d packets %d transactions were delivered, %d have been committed\n%s", n, len(ps), len(got), len(want), h.Describe())
		}
		if err := run.MatchContent(g, want[i]); err != nil {
			rt.Fatalf("transaction %d (%s, ends at %v): %v\n%s", i, want[i].Note, want[i].Next, err, h.Describe())
		}
	}
	if len(got) < len(want) {
		rt.Fatalf("after %d of %d packets %d transactions were delivered, %d have been committed; the first missing one ends at %v (%s)\n%s", n, len(ps), len(got), len(want), want[len(got)].Next, want[len(got)].Note, h.Describe())
	}
	kinds := map[string]bool{}
	for _, x := range want {
		kinds[x.Note] = true
	}
	if n < len(ps) {
		cov.Class("cut inside")
		if n > 0 && ps[n-1].Event != nil && ps[n-1].Event.InTxn {
			cov.Class("cut inside a transaction")
		}
	}
	classes(h, want)
	cov.Note(len(kinds) >= 2, digest(ps[:n]), sample(h, want))
}

// interrupted streams a history in attempts that end anywhere: what an attempt
// delivers depends on what the master sends in it, not on what an earlier one
// left unfinished.
func interrupted(rt *rapid.T, o hist.Opts) {
	h := hist.Generate(rt, o)
	start := genStart(rt, h)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	var log []string
	inside, delivered := 0, 0
	n := rapid.IntRange(2, 5).Draw(rt, "attempts")
	for i := 0; i < n; i++ {
		at := rapid.IntRange(0, 1000).Draw(rt, "at")
		if i == n-1 {
			at = 1000
		}
		how := rapid.SampledFrom([]string{"eof", "close", "abort", "error", "cancel"}).Draw(rt, "how")
		refuse := -1
		if rapid.IntRange(0, 3).Draw(rt, "refuses") == 0 {
			refuse = rapid.IntRange(0, 4).Draw(rt, "refuse")
		}
		var sent []*hist.Packet
		var mu sync.Mutex
		ctx, cancel := context.WithCancel(context.Background())
		out := e.Run(rt, run.Attempt{Ctx: ctx, NoError: true, Script: master.Script{Serve: func(d *master.Dump, w *master.Writer) {
			ps, err := h.Serve(d.File, d.Pos)
			if err != nil {
				w.Err(1236, "HY000", err.Error())
				w.WaitClosedFor(run.Limit)
				return
			}
			ps = ps[:at*len(ps)/1000]
			mu.Lock()
			sent = ps
			mu.Unlock()
			for _, p := range ps {
				if w.Event(p.Bytes) != nil {
					return
				}
			}
			switch how {
			case "eof":
				w.EOF()
			case "close":
				w.CloseWrite()
			case "abort":
				w.Abort()
				return
			case "error":
				w.Err(1236, "HY000", "no more")
			case "cancel":
				cancel()
			}
			w.WaitClosedFor(run.Limit)
		}}, Handler: func(j int, tx *gobinlog.Transaction) error {
			if j == refuse {
				return errHandler
			}
			return nil
		}})
		cancel()
		mu.Lock()
		want := hist.Expected(sent)
		if k := len(sent); k > 0 && sent[k-1].Event != nil && sent[k-1].Event.InTxn {
			inside++
		}
		mu.Unlock()
		got := out.Snaps()
		log = append(log, fmt.Sprintf("%d packets with %d transactions, then %s: %d delivered (refused: %d), %s", len(sent), len(want), how, len(got), refuse, out.Describe()))
		all := strings.Join(log, "\n  ")
		if len(got) > len(want) {
			rt.Fatalf("attempt %d delivered %d transactions, the master sent %d\n  %s\n%s", i, len(got), len(want), all, h.Describe())
		}
		for j, g := range got {
			if err := run.MatchContent(g, want[j]); err != nil {
				rt.Fatalf("attempt %d: transaction %d (%s, ends at %v): %v\n  %s\n%s", i, j, want[j].Note, want[j].Next, err, all, h.Describe())
			}
		}
		// an abort may overtake what was sent, a cancellation what was received
		whole := refuse < 0 || refuse >= len(want)
		if whole && how != "abort" && how != "cancel" && len(got) < len(want) {
			rt.Fatalf("attempt %d delivered %d transactions, the master sent %d\n  %s\n%s", i, len(got), len(want), all, h.Describe())
		}
		delivered += len(got)
	}
	cov.Class(fmt.Sprintf("attempts cut inside a transaction: %d", inside))
	cov.Note(inside > 0 && delivered > 1, digest(nil, log), func() string { return strings.Join(log, " | ") })
}

// caseVariants lists all letter casings of a word.
func caseVariants(w string) []string {
	var out []string
	for m := 0; m < 1<<len(w); m++ {
		b := []byte(strings.ToLower(w))
		for i := range b {
			if m>>i&1 == 1 {
				b[i] -= 32
			}
		}
		out = append(out, string(b))
	}
	return out
}

// raw builds a one-file stream from query texts and row events; it keeps the
// model independent of the history generator.
type raw struct {
	f    wire.Format
	cur  uint32
	ps   []*hist.Packet
	open bool
	evs  []hist.ExpEvent
	now  hist.Pos
	tb   *hist.Table
}

func newRaw(crc bool) *raw {
	r := &raw{f: wire.Format{ServerVersion: "5.7.30-log", HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 38)}}
	if crc {
		r.f.Alg = wire.AlgCRC32
	}
	fde := r.f.FDE(wire.Header{ServerID: 1}, 4, 0)
	r.ps = append(r.ps, &hist.Packet{Bytes: r.f.Frame(wire.Header{Type: wire.EvRotate, ServerID: 1, Flags: wire.FlagArtficial}, wire.RotateBody(4, "b.000001"))}, &hist.Packet{Bytes: fde})
	r.cur = 4 + uint32(len(fde))
	r.now = hist.Pos{File: "b.000001", Off: 4}
	r.tb = &hist.Table{DB: "db", Name: "t", Cols: []hist.Column{{Name: "a", Kind: intKind}}}
	return r
}

func (r *raw) event(typ byte, body []byte, desc string) *hist.Packet {
	size := uint32(r.f.Size(typ, len(body)))
	r.cur += size
	p := &hist.Packet{Bytes: r.f.Frame(wire.Header{Timestamp: r.cur, Type: typ, ServerID: 1, NextPos: r.cur}, body), Desc: desc}
	r.ps = append(r.ps, p)
	return p
}

func (r *raw) commit(p *hist.Packet, evs []hist.ExpEvent, note string) {
	next := hist.Pos{File: r.now.File, Off: int64(r.cur)}
	p.Txn = &hist.Txn{Now: r.now, Next: next, Timestamp: int64(r.cur), Events: evs, Note: note}
	r.now = next
	r.evs, r.open = nil, false
}

// sql appends a query event; what says begin, commit, rollback, "" (ignored)
// or the kind of a change.
func (r *raw) sql(q, what string) {
	p := r.event(wire.EvQuery, wire.QuerySpec{DB: "db", SQL: q}.Body(), "QUERY "+q)
	switch what {
	case "begin":
		r.open = true
	case "commit":
		r.commit(p, r.evs, q)
	case "rollback":
		r.commit(p, nil, q)
	case "":
	default:
		r.evs = append(r.evs, hist.ExpEvent{Kind: what, SQL: q, QDB: "db", Timestamp: int64(r.cur)})
		if !r.open {
			r.commit(p, r.evs, q)
		}
	}
}

func (r *raw) row(v uint64) {
	spec := wire.TableSpec{ID: 9, DB: "db", Name: "t", Cols: []wire.Col{intKind.Col(true)}}
	r.event(wire.EvTableMap, spec.Body(r.f), "TABLE_MAP")
	rs := wire.RowsSpec{Kind: wire.Insert, ID: 9, NCols: 1, Flags: 1, After: []bool{true}, Afters: []wire.Image{{{Enc: wire.LE(v, 4)}}}}
	p := r.event(wire.RowsType(wire.Insert, false), rs.Body(r.f), fmt.Sprintf("INSERT %d", v))
	r.evs = append(r.evs, hist.ExpEvent{Kind: "insert", IsRows: true, DB: "db", Table: "t", Timestamp: int64(r.cur), After: []hist.ExpRow{{{Name: "a", Type: intKind.Type, Val: intVal(v)}}}})
	if !r.open {
		r.commit(p, r.evs, "row")
	}
}

func (r *raw) check(t run.T) []*hist.Txn {
	t.Helper()
	e := run.NewEnv(t, []*hist.Table{r.tb}, hist.Pos{File: "b.000001", Off: 4})
	defer e.Close()
	out := e.Run(t, run.Attempt{NoError: true, Script: master.Script{Serve: run.SendAll(r.ps)}})
	if out.Stream != nil {
		t.Fatalf("stream ended with %s", out.Describe())
	}
	want := hist.Expected(r.ps)
	if err := run.MatchAll(out.Snaps(), want); err != nil {
		var log []string
		for _, p := range r.ps {
			log = append(log, p.Desc)
		}
		if len(log) > 60 {
			log = log[:60]
		}
		t.Fatalf("%v\nlog: %s", err, strings.Join(log, "; "))
	}
	return want
}

func TestC02(t *testing.T) {
	cov.Rule("a served stream (possibly cut anywhere) in which transactions end in at least two different ways (XID, COMMIT, ROLLBACK, autocommitted rows, statement), or attempts on one streamer of which at least one was cut inside a transaction")
	b := full
	b.Simple, b.Boundary, b.Big, b.Units, b.Files, b.Cols, b.Rows = true, true, 0, 10, 2, 3, 2
	patienceC02(t)
	veryLong(t, []string{"transactions", "changes"}, longContent)
	cov.Check(t, "bulk", 25, 500, func(rt *rapid.T) {
		o := bulky
		o.Boundary = true
		grouping(rt, o)
	})
	cov.Check(t, "boundaries", 1200, 20000, func(rt *rapid.T) { grouping(rt, b) })
	cov.Check(t, "interrupted", 400, 8000, func(rt *rapid.T) {
		o := b
		o.Units, o.MinTxn = 6, 2
		interrupted(rt, o)
	})
	cov.Check(t, "long", 200, 3000, func(rt *rapid.T) {
		o := b
		o.Units, o.Files = 30, 3
		grouping(rt, o)
	})
	cov.Check(t, "several-streamers", 150, 2500, func(rt *rapid.T) { abreast(rt, func() hist.Opts { return b }) })
	cov.Loop(t, "every-letter-case", func(t *testing.T) {
		begins, commits, rollbacks := caseVariants("begin"), caseVariants("commit"), caseVariants("rollback")
		n := 0
		for _, crc := range []bool{false, true} {
			r := newRaw(crc)
			for i, c := range append(append([]string{}, commits...), rollbacks...) {
				r.row(uint64(n))
				r.sql(begins[i%len(begins)], "begin")
				r.row(uint64(n + 1))
				r.sql("SAVEPOINT x", "")
				r.row(uint64(n + 2))
				if strings.EqualFold(c, "commit") {
					r.sql(c, "commit")
				} else {
					r.sql(c, "rollback")
				}
				n += 3
			}
			for _, kw := range []string{"create", "alter", "drop", "rename", "truncate", "set", "insert", "update", "delete"} {
				for _, v := range caseVariants(kw) {
					r.sql(v+" x", kw)
					n++
				}
			}
			r.check(t)
		}
		cov.NoteMany(int64(n), "BEGIN/COMMIT/ROLLBACK and the statement keywords in every letter case, with row changes around them")
	})
	cov.Loop(t, "orders", func(t *testing.T) {
		// every order of up to k log items around a transaction
		items := []func(r *raw){
			func(r *raw) { r.row(uint64(len(r.ps))) },
			func(r *raw) { r.sql("CREATE TABLE x (a int)", "create") },
			func(r *raw) { r.sql("UPDATE t SET a=1", "update") },
			func(r *raw) {
				if r.open {
					r.event(wire.EvXID, wire.U64(3), "XID")
					r.commit(r.ps[len(r.ps)-1], r.evs, "XID")
				} else {
					r.sql("BEGIN", "begin")
				}
			},
			func(r *raw) {
				if r.open {
					r.sql("ROLLBACK", "rollback")
				} else {
					r.sql("begin", "begin")
				}
			},
			func(r *raw) { r.event(wire.EvHeartbeat, []byte("b.000001"), "HEARTBEAT") },
			func(r *raw) { r.sql("FLUSH TABLES", "") },
			func(r *raw) {
				r.event(wire.EvGTID, append([]byte{1}, make([]byte, 24)...), "GTID")
			},
		}
		k := cov.N(4, 6)
		total := 1
		for i := 0; i < k; i++ {
			total *= len(items)
		}
		var n int64
		r := newRaw(true)
		for code := 0; code < total && !cov.Over(); code++ {
			for i, c := 0, code; i < k; i++ {
				items[c%len(items)](r)
				c /= len(items)
			}
			if r.open { // close what is open, so that sequences stay independent
				items[3](r)
			}
			n++
			if len(r.ps) > 5000 {
				r.check(t)
				r = newRaw(code%2 == 0)
			}
		}
		r.check(t)
		cov.NoteMany(n, fmt.Sprintf("every sequence of %d items out of {row change, DDL, statement, BEGIN/XID, BEGIN/ROLLBACK, heartbeat, unknown statement, GTID}", k))
	})
	cov.Loop(t, "other-event-types", func(t *testing.T) {
		// events of types without a meaning for the data, whatever their content
		// looks like, at every place around row changes
		var types []int
		for i := 0; i < 256; i++ {
			if i == 0 || i == wire.EvIgnorable || i == 36 || i == 37 || i == 41 || i > 42 && i < 162 || i == 163 || i > 171 {
				types = append(types, i)
			}
		}
		var n int64
		for fl, flags := range []uint16{0, 0x80} {
			r := newRaw(fl == 0)
			tb := wire.TableSpec{ID: 9, DB: "db", Name: "u", Cols: []wire.Col{intKind.Col(true), intKind.Col(true)}}
			other := tb
			other.ID = 77
			rs := wire.RowsSpec{Kind: wire.Insert, ID: 9, NCols: 1, Flags: 1, After: []bool{true}, Afters: []wire.Image{{{Enc: wire.LE(5, 4)}}}}
			fde := r.f.FDE(wire.Header{ServerID: 1}, 4, 0)
			bodies := [][]byte{nil, {0}, wire.U64(3), wire.QuerySpec{DB: "db", SQL: "COMMIT"}.Body(), wire.QuerySpec{DB: "db", SQL: "BEGIN"}.Body(), wire.QuerySpec{DB: "db", SQL: "DROP TABLE t"}.Body(),
				tb.Body(r.f), other.Body(r.f), rs.Body(r.f), wire.RotateBody(4, "b.000009"), fde[19:], vals.Bytes(7, 300)}
			for _, typ := range types {
				body := func() {
					b := bodies[int(n)%len(bodies)]
					size := uint32(r.f.Size(byte(typ), len(b)))
					r.cur += size
					r.ps = append(r.ps, &hist.Packet{Bytes: r.f.Frame(wire.Header{Timestamp: r.cur, Type: byte(typ), ServerID: 1, NextPos: r.cur, Flags: flags}, b), Desc: fmt.Sprintf("event type %d, % x", typ, b)})
					n++
				}
				for k := 0; k < 3; k++ {
					body()
					r.sql("BEGIN", "begin")
					body()
					r.event(wire.EvTableMap, wire.TableSpec{ID: 9, DB: "db", Name: "t", Cols: []wire.Col{intKind.Col(true)}}.Body(r.f), "TABLE_MAP")
					body()
					v := uint64(len(r.ps))
					rs.Afters = []wire.Image{{{Enc: wire.LE(v, 4)}}}
					r.event(wire.RowsType(wire.Insert, false), rs.Body(r.f), fmt.Sprintf("INSERT %d", v))
					r.evs = append(r.evs, hist.ExpEvent{Kind: "insert", IsRows: true, DB: "db", Table: "t", Timestamp: int64(r.cur), After: []hist.ExpRow{{{Name: "a", Type: intKind.Type, Val: intVal(v)}}}})
					body()
					body()
					p := r.event(wire.EvXID, wire.U64(v), "XID")
					r.commit(p, r.evs, "XID")
				}
			}
			r.check(t)
		}
		cov.NoteMany(n, "events of every type without a meaning for the data, with contents that look like other events, before, in and after transactions")
	})
	cov.Loop(t, "finding-rollback-to-savepoint", rollbackTo)
}

// rollbackTo reproduces the known finding: ROLLBACK TO a savepoint, which does
// not end the transaction, is taken for ROLLBACK.
func rollbackTo(t *testing.T) {
	r := newRaw(true)
	r.sql("BEGIN", "begin")
	r.row(1)
	r.sql("SAVEPOINT `x`", "")
	r.row(2)
	r.sql("ROLLBACK TO `x`", "")
	mid := r.cur
	r.row(3)
	r.event(wire.EvXID, wire.U64(3), "XID")
	r.commit(r.ps[len(r.ps)-1], r.evs, "XID")
	e := run.NewEnv(t, []*hist.Table{r.tb}, hist.Pos{File: "b.000001", Off: 4})
	defer e.Close()
	out := e.Run(t, run.Attempt{NoError: true, Script: master.Script{Serve: run.SendAll(r.ps)}})
	got := out.Snaps()
	switch {
	case out.Stream == nil && len(got) >= 2 && len(got[0].Events) == 0 && got[0].NextPosition.Offset == int64(mid):
		cov.Finding("rollback-to-savepoint", "BEGIN; row; SAVEPOINT `x`; row; ROLLBACK TO `x`; row; XID: an empty transaction is delivered at ROLLBACK TO, and the first row is lost, the third comes as a transaction of its own")
	case out.Stream == nil && len(got) == 1 && got[0].NextPosition.Offset == int64(r.cur):
	default:
		t.Fatalf("a transaction with ROLLBACK TO a savepoint: %s", out.Describe())
	}
	cov.NoteMany(1, "BEGIN; row; SAVEPOINT; row; ROLLBACK TO; row; XID")
}
