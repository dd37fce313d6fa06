package e2e

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Breeze0806/gobinlog"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/wire"
)

// Checks of what must hold however long something takes: a handler or a table
// lookup that is slow once, a master that is silent for long. They wait side by
// side, each with a streamer of its own.

// patient is one such check.
type patient struct {
	name string
	f    func(t run.T, d time.Duration)
}

func silence() time.Duration { return time.Duration(cov.N(33, 123)) * time.Second }

func patience(t *testing.T, ps ...patient) {
	cov.Wait(t, "patience", func(t *testing.T) { waitAll(t, ps) })
}

func waitAll(t *testing.T, ps []patient) {
	d := silence()
	msgs := make([]string, len(ps))
	var wg sync.WaitGroup
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.f(&collect{&msgs[i]}, d)
		}()
	}
	wg.Wait()
	for i, p := range ps {
		if msgs[i] != "" {
			t.Errorf("%s (for %v): %s", p.name, d, msgs[i])
		}
		cov.NoteMany(1, fmt.Sprintf("%s, for %v", p.name, d))
	}
}

// unhurried is a log of n transactions of two row changes each; at says which
// packet is the given part of the given transaction.
func unhurried(n int) *raw {
	r := newRaw(n%2 == 0)
	for i := 0; i < n; i++ {
		r.sql("BEGIN", "begin")
		r.row(uint64(2 * i))
		r.row(uint64(2*i + 1))
		p := r.event(wire.EvXID, wire.U64(uint64(i)), "XID")
		r.commit(p, r.evs, "XID")
	}
	return r
}

const perTxn = 6 // BEGIN, table map, rows, table map, rows, XID

// at is the index of the part-th packet of transaction i.
func at(i, part int) int { return 2 + perTxn*i + part }

var origin = hist.Pos{File: "b.000001", Off: 4}

// stall says where time is spent.
type stall struct {
	before   int  // the packet before which the master is silent, -1: none
	inside   bool // not before the packet, but inside it
	beats    bool // it sends heartbeats meanwhile
	handler  int  // the handler call (from 1) that is slow
	mapper   int  // the lookup (from 1) that is slow
	reject   int  // the handler call that fails, after its delay
	cancelAt int  // the handler call during which the caller cancels
}

// takes runs the log with a stall in it; end ends the stream.
func takes(t run.T, e *run.Env, r *raw, s stall, d time.Duration, end func(w *master.Writer)) (*run.Out, *atomic.Int64) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if s.mapper > 0 {
		e.M.Slow(s.mapper, d)
	}
	var seen, early atomic.Int64
	serve := func(q *master.Dump, w *master.Writer) {
		ps := r.ps
		for i, p := range r.ps {
			if i > 1 && p.Txn != nil && p.Txn.Next.Off <= int64(q.Pos) {
				ps = append(append([]*hist.Packet{}, r.ps[:2]...), r.ps[i+1:]...)
			}
		}
		for i, p := range ps {
			if i == s.before && !s.inside {
				if s.beats {
					for k := 0; k < 10 && !w.Closed(); k++ {
						w.Sleep(d / 10)
						w.Event(r.f.Frame(wire.Header{Type: wire.EvHeartbeat, ServerID: 1, NextPos: r.cur}, []byte("b.000001")))
					}
				} else {
					w.Sleep(d)
				}
				early.Store(seen.Load())
			}
			if i == s.before && s.inside {
				b := w.Frame(append([]byte{0}, p.Bytes...))
				n := len(b) / 2
				w.RawBytes(b[:n])
				w.Sleep(d)
				early.Store(seen.Load())
				if w.RawBytes(b[n:]) != nil {
					return
				}
				continue
			}
			if w.Event(p.Bytes) != nil {
				return
			}
		}
		end(w)
	}
	out := e.Run(t, run.Attempt{Ctx: ctx, NoError: true, Wait: d, Script: master.Script{Serve: serve}, Handler: func(i int, tx *gobinlog.Transaction) error {
		seen.Add(1)
		if i+1 == s.cancelAt {
			cancel()
		}
		if i+1 == s.handler {
			time.Sleep(d)
		}
		if i+1 == s.reject {
			return errHandler
		}
		return nil
	}})
	e.M.Slow(0, 0)
	return out, &early
}

func eof(w *master.Writer) {
	w.EOF()
	w.WaitClosedFor(run.Limit)
}

// stalls are the ways in which an undisturbed stream takes long.
var stalls = []struct {
	name string
	s    stall
}{
	{"the master is silent between transactions", stall{before: at(3, 0)}},
	{"the master sends only heartbeats between transactions", stall{before: at(3, 0), beats: true}},
	{"the master is silent inside a transaction", stall{before: at(3, 3)}},
	{"the master sends only heartbeats inside a transaction", stall{before: at(3, 4), beats: true}},
	{"the master is silent before the end of a transaction", stall{before: at(3, 5)}},
	{"the master stops inside an event", stall{before: at(3, 2), inside: true}},
	{"the master stops inside the event that ends a transaction", stall{before: at(3, 5), inside: true}},
	{"the master is silent before the first event", stall{before: 0}},
	{"the master is silent before the format description", stall{before: 1}},
	{"the handler is slow", stall{before: -1, handler: 2}},
	{"the handler is slow at the first transaction", stall{before: -1, handler: 1}},
	{"the handler is slow at the last transaction", stall{before: -1, handler: 40}},
	{"the table lookup is slow", stall{before: -1, mapper: 5}},
	{"the first table lookup is slow", stall{before: -1, mapper: 1}},
}

// slowly runs the log once for each kind of stall and lets judge look at it.
func slowly(judge func(t run.T, r *raw, e *run.Env, o *run.Out, s stall, seen int)) []patient {
	var out []patient
	for i, x := range stalls {
		out = append(out, patient{x.name, func(t run.T, d time.Duration) {
			r := unhurried(40 + i%2)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			o, seen := takes(t, e, r, x.s, d, eof)
			judge(t, r, e, o, x.s, int(seen.Load()))
		}})
	}
	return out
}

// delivered checks that everything has been delivered.
func deliveredAll(t run.T, r *raw, o *run.Out) {
	if o.Stream != nil {
		t.Fatalf("stream ended with %s", o.Describe())
	}
	if err := run.MatchAll(o.Snaps(), hist.Expected(r.ps)); err != nil {
		t.Fatalf("%v", err)
	}
}

func patienceC01(t *testing.T) {
	patience(t, slowly(func(t run.T, r *raw, e *run.Env, o *run.Out, s stall, seen int) { deliveredAll(t, r, o) })...)
}

// C02: nothing is delivered before its end has been sent, and groups stay whole.
func patienceC02(t *testing.T) {
	patience(t, slowly(func(t run.T, r *raw, e *run.Env, o *run.Out, s stall, seen int) {
		if s.before > 2 {
			done := 0
			for _, p := range r.ps[:s.before] {
				if p.Txn != nil {
					done++
				}
			}
			if seen > done {
				t.Fatalf("%d transactions were delivered while the master had sent %d", seen, done)
			}
		}
		want := hist.Expected(r.ps)
		for i, g := range o.Snaps() {
			if i >= len(want) {
				t.Fatalf("%d transactions were delivered, %d have been committed", len(o.Snaps()), len(want))
			}
			if err := run.MatchContent(g, want[i]); err != nil {
				t.Fatalf("transaction %d: %v", i, err)
			}
		}
		if len(o.Calls) < len(want) {
			t.Fatalf("%d transactions were delivered, %d have been committed; %s", len(o.Calls), len(want), o.Describe())
		}
	})...)
}

// C03: labels, and restarts from a label much later.
func patienceC03(t *testing.T) {
	ps := slowly(func(t run.T, r *raw, e *run.Env, o *run.Out, s stall, seen int) { deliveredAll(t, r, o) })
	ps = append(ps, patient{"a label is used much later", func(t run.T, d time.Duration) {
		r := unhurried(12)
		e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
		defer e.Close()
		o, _ := takes(t, e, r, stall{before: -1}, 0, eof)
		deliveredAll(t, r, o)
		time.Sleep(d)
		want := hist.Expected(r.ps)
		for i, c := range o.Calls {
			p := c.Tx.NextPosition
			e.NewStreamer(t, hist.Pos{File: p.Filename, Off: p.Offset})
			again, _ := takes(t, e, r, stall{before: -1}, 0, eof)
			if err := run.MatchAll(again.Snaps(), want[i+1:]); err != nil {
				t.Fatalf("restarted at %v: %v", p, err)
			}
		}
	}})
	patience(t, ps...)
}

// C04: attempts that end after a long time, or that follow each other slowly.
func patienceC04(t *testing.T) {
	var ps []patient
	add := func(name string, s stall, end func(w *master.Writer), between bool) {
		ps = append(ps, patient{name, func(t run.T, d time.Duration) {
			r := unhurried(12)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			want := hist.Expected(r.ps)
			acc := 0
			wait := d
			if between {
				wait = 0
			}
			for i := 0; i < 2; i++ {
				o, _ := takes(t, e, r, s, wait, end)
				for _, c := range o.Calls {
					if acc >= len(want) {
						t.Fatalf("attempt %d: a transaction after the last one was delivered", i+1)
					}
					g := c.Snap
					if next := (hist.Pos{File: g.NextPosition.Filename, Off: g.NextPosition.Offset}); next != want[acc].Next {
						t.Fatalf("attempt %d: the handler got the transaction that ends at %v; %d have been accepted, the next one ends at %v", i+1, next, acc, want[acc].Next)
					}
					if err := run.MatchContent(g, want[acc]); err != nil {
						t.Fatalf("attempt %d, transaction %d: %v", i+1, acc, err)
					}
					if c.Err == nil {
						acc++
					}
				}
				if between && i == 0 {
					time.Sleep(d)
				}
				s, end, wait = stall{before: -1}, eof, 0
			}
			if acc != len(want) {
				t.Fatalf("after the clean attempt %d of %d transactions have been accepted", acc, len(want))
			}
		}})
	}
	add("the handler is slow, then fails", stall{before: -1, handler: 4, reject: 4}, eof, false)
	add("the handler is slow, then the connection is lost", stall{before: -1, handler: 4}, func(w *master.Writer) { w.Abort() }, false)
	add("the handler is slow, then succeeds although the caller has cancelled", stall{before: -1, handler: 4, cancelAt: 4}, eof, false)
	add("the handler is slow, then fails; the caller has cancelled", stall{before: -1, handler: 4, cancelAt: 4, reject: 4}, eof, false)
	add("the master is silent inside a transaction, then the connection is lost", stall{before: at(11, 4)}, func(w *master.Writer) { w.Abort() }, false)
	add("the master is silent, then reports an error", stall{before: at(11, 4)}, func(w *master.Writer) { w.Err(1236, "HY000", "no"); w.WaitClosedFor(run.Limit) }, false)
	add("the master sends no more for long, then the connection is lost", stall{before: -1}, func(w *master.Writer) { w.Sleep(silence()); w.Abort() }, false)
	add("the next attempt comes late, after a failure", stall{before: -1, reject: 4}, eof, true)
	add("the next attempt comes late, after a cancellation", stall{before: -1, cancelAt: 4}, eof, true)
	add("the next attempt comes late, after a loss", stall{before: -1}, func(w *master.Writer) { w.Abort() }, true)
	patience(t, ps...)
}

// C05: Stream waits for its handler, and leaves nothing behind.
func patienceC05(t *testing.T) {
	idle := func(w *master.Writer) { w.WaitClosedFor(3 * run.Limit) }
	var ps []patient
	add := func(name string, s stall, end func(w *master.Writer), later bool) {
		ps = append(ps, patient{name, func(t run.T, d time.Duration) {
			r := unhurried(12)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if later {
				o := e.Run(t, run.Attempt{Ctx: ctx, NoError: true, Wait: d, OnStart: func() { time.Sleep(d); cancel() },
					Script: master.Script{Serve: func(q *master.Dump, w *master.Writer) {
						for _, p := range r.ps[:at(5, 3)] {
							w.Event(p.Bytes)
						}
						end(w)
					}}})
				if err := o.Closed(); err != nil {
					t.Fatalf("%v", err)
				}
				e.Errors(t, o)
				return
			}
			o, _ := takes(t, e, r, s, d, end)
			if err := o.Closed(); err != nil {
				t.Fatalf("%v; %s", err, o.Describe())
			}
			e.Errors(t, o)
			e.Misuse(t)
		}})
	}
	add("cancelled after a long silence", stall{}, idle, true)
	add("the handler is slow while the caller cancels", stall{before: -1, handler: 3, cancelAt: 3}, idle, false)
	add("the handler is slow while the caller cancels, then fails", stall{before: -1, handler: 3, cancelAt: 3, reject: 3}, idle, false)
	add("the handler is slow while the connection is lost", stall{before: -1, handler: 3}, func(w *master.Writer) { w.Abort() }, false)
	add("the handler is slow while the stream ends", stall{before: -1, handler: 3}, eof, false)
	add("the handler is slow, then fails", stall{before: -1, handler: 3, reject: 3}, idle, false)
	add("the table lookup is slow while the stream ends", stall{before: -1, mapper: 3}, eof, false)
	add("the master is silent, then ends the stream", stall{before: at(3, 3)}, eof, false)
	add("the master sends no more for long, then goes away", stall{before: -1}, func(w *master.Writer) { w.Sleep(silence()); w.Abort() }, false)
	add("the master sends no more for long, then ends the stream", stall{before: -1}, func(w *master.Writer) { w.Sleep(silence()); eof(w) }, false)
	add("the master is silent, then goes away", stall{before: at(3, 3)}, func(w *master.Writer) { w.Abort() }, false)
	cov.Wait(t, "patience", func(t *testing.T) {
		e := run.NewEnv(t, nil, origin) // it knows which goroutines were there before
		defer e.Close()
		waitAll(t, ps)
		if err := e.Leaks(); err != nil {
			t.Errorf("after %d streams that took long: %v", len(ps), err)
		}
	})
}

// C06: reasons that come late, and reports that are asked for late.
func patienceC06(t *testing.T) {
	ps := slowly(func(t run.T, r *raw, e *run.Env, o *run.Out, s stall, seen int) {
		e.Errors(t, o)
		if o.Stream != nil || o.Error != nil || o.Error2 != nil {
			t.Fatalf("the master ended the stream with EOF: %s", o.Describe())
		}
	})
	type ending struct {
		name string
		end  func(w *master.Writer)
		want string
	}
	for _, x := range []ending{
		{"is lost", func(w *master.Writer) { w.Abort() }, ""},
		{"is closed", func(w *master.Writer) { w.CloseWrite(); w.WaitClosedFor(run.Limit) }, ""},
		{"ends with an error", func(w *master.Writer) { w.Err(1236, "HY000", "purged logs"); w.WaitClosedFor(run.Limit) }, "purged logs"},
		{"ends", eof, "EOF"},
	} {
		for _, part := range []int{0, 4, 5} { // between transactions, inside one, before its end
			ps = append(ps, patient{fmt.Sprintf("after packet %d of a transaction the master is silent, then the stream %s", part, x.name), func(t run.T, d time.Duration) {
				r := unhurried(12)
				r.ps = r.ps[:at(4, part)]
				e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
				defer e.Close()
				o, _ := takes(t, e, r, stall{before: -1, handler: part / 5}, d, func(w *master.Writer) { w.Sleep(d); x.end(w) })
				e.Errors(t, o)
				if x.want == "EOF" {
					if o.Stream != nil || o.Error != nil {
						t.Fatalf("the master ended the stream with EOF: %s", o.Describe())
					}
					return
				}
				if o.Stream == nil && (o.Error == nil || !strings.Contains(o.Error.Error(), x.want)) {
					t.Fatalf("reported as a clean end, or not in the master's words: %s", o.Describe())
				}
			}})
		}
		if x.want == "EOF" {
			continue
		}
		for _, y := range stalls {
			if y.s.before >= 0 && y.s.before != at(3, 3) || y.s.mapper == 1 || y.s.handler == 1 {
				continue
			}
			for _, late := range []bool{false, true} {
				when := ""
				if late {
					when = " and is asked about late"
				}
				ps = append(ps, patient{y.name + ", then the stream " + x.name + when, func(t run.T, d time.Duration) {
					r := unhurried(40)
					e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
					defer e.Close()
					wait := d
					if late {
						wait = 0
					}
					o, _ := takes(t, e, r, y.s, wait, x.end)
					if late {
						time.Sleep(d)
					}
					e.Errors(t, o)
					if o.Stream == nil && o.Error == nil {
						t.Fatalf("reported as a clean end: %s", o.Describe())
					}
					if o.Stream == nil && (o.Error2 == nil || o.Error.Error() != o.Error2.Error()) {
						t.Fatalf("Error() changed its mind: %s", o.Describe())
					}
					if o.Stream == nil && !strings.Contains(o.Error.Error(), x.want) {
						t.Fatalf("the report does not carry the message %q: %s", x.want, o.Describe())
					}
				}})
			}
		}
	}
	for _, y := range []struct {
		name string
		s    stall
	}{
		{"the handler is slow, then fails", stall{before: -1, handler: 3, reject: 3}},
		{"the handler fails after a long silence", stall{before: at(3, 5), reject: 4}},
	} {
		ps = append(ps, patient{y.name, func(t run.T, d time.Duration) {
			r := unhurried(12)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			o, _ := takes(t, e, r, y.s, d, eof)
			if o.Stream == nil {
				t.Fatalf("Stream returned nil: %s", o.Describe())
			}
		}})
	}
	patience(t, ps...)
}

// C07: the handshake of late attempts, and of attempts that take long.
func patienceC07(t *testing.T) {
	var ps []patient
	for _, x := range stalls {
		ps = append(ps, patient{x.name, func(t run.T, d time.Duration) {
			r := unhurried(12)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			o, _ := takes(t, e, r, x.s, d, eof)
			if err := handshake(o, e.ID, []hist.Pos{origin}, true); err != nil {
				t.Fatalf("%v", err)
			}
		}})
	}
	ps = append(ps, patient{"attempts that follow each other slowly", func(t run.T, d time.Duration) {
		r := unhurried(12)
		e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
		defer e.Close()
		want := hist.Expected(r.ps)
		where := origin
		for i := 0; i < 3; i++ {
			o, _ := takes(t, e, r, stall{before: -1, reject: 3}, 0, eof)
			if err := handshake(o, e.ID, []hist.Pos{where}, true); err != nil {
				t.Fatalf("attempt %d: %v", i+1, err)
			}
			where = want[2*i+1].Next
			if i < 2 {
				time.Sleep(d / 2)
			}
		}
	}})
	patience(t, ps...)
}

// C08: transactions kept for long.
func patienceC08(t *testing.T) {
	var ps []patient
	for _, x := range []struct {
		name string
		s    stall
	}{
		{"kept while the master is silent", stall{before: at(3, 3)}},
		{"kept while the handler is slow", stall{before: -1, handler: 4}},
		{"kept after the end of the stream", stall{before: -1}},
	} {
		ps = append(ps, patient{x.name, func(t run.T, d time.Duration) {
			r := unhurried(40)
			e := run.NewEnv(t, []*hist.Table{r.tb}, origin)
			defer e.Close()
			o, _ := takes(t, e, r, x.s, d, eof)
			if x.s.before < 0 && x.s.handler == 0 {
				time.Sleep(d)
			}
			for i, c := range o.Calls {
				if err := run.Same(c.Tx, c.Snap); err != nil {
					t.Fatalf("transaction %d changed after it had been delivered: %v", i, err)
				}
			}
		}})
	}
	patience(t, ps...)
}
