package e2e

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// ledger is the model of C04: which transactions have been accepted.
type ledger struct {
	h    *hist.History
	all  []*hist.Packet
	want []*hist.Txn
	acc  int
	log  []string
}

func newLedger(t run.T, h *hist.History, start hist.Pos) *ledger {
	ps := packets(t, h, start)
	return &ledger{h: h, all: ps, want: hist.Expected(ps)}
}

// resume lists the coordinates that denote the commit boundary after the last
// accepted transaction: its end label, or the target of a rotation that follows
// it before the next transaction.
func (l *ledger) resume(start hist.Pos) []hist.Pos {
	out := []hist.Pos{start}
	if l.acc > 0 {
		out = []hist.Pos{l.want[l.acc-1].Next}
	}
	n := 0
	for _, p := range l.all {
		if p.Txn != nil {
			n++
		}
		if n > l.acc {
			break
		}
		if n == l.acc && p.Rotate != nil {
			out = append(out, *p.Rotate)
		}
	}
	return out
}

func (l *ledger) fatalf(t run.T, format string, a ...any) {
	t.Helper()
	t.Fatalf("%s\nattempts so far:\n  %s\n%s", fmt.Sprintf(format, a...), strings.Join(l.log, "\n  "), l.h.Describe())
}

// check accounts for an attempt.
func (l *ledger) check(t run.T, start hist.Pos, what string, o *run.Out) {
	t.Helper()
	l.log = append(l.log, fmt.Sprintf("[%s] with %d of %d accepted", what, l.acc, len(l.want)))
	ok := l.resume(start)
	for _, c := range o.Conns {
		for _, d := range c.Dumps() {
			p := hist.Pos{File: d.File, Off: int64(d.Pos)}
			good := false
			for _, x := range ok {
				good = good || x == p
			}
			l.log = append(l.log, fmt.Sprintf("   dump request %v", p))
			if !good {
				l.fatalf(t, "the attempt requested %v; %d transactions have been accepted, the commit boundary after them is %v", p, l.acc, ok)
			}
		}
	}
	for _, c := range o.Calls {
		g := c.Snap
		l.log = append(l.log, fmt.Sprintf("   handler got %v..%v (%d changes), returned %v", g.NowPosition, g.NextPosition, len(g.Events), c.Err))
		if l.acc >= len(l.want) {
			l.fatalf(t, "the handler got a transaction after the last one (%d) had been accepted", len(l.want))
		}
		w := l.want[l.acc]
		if next := (hist.Pos{File: g.NextPosition.Filename, Off: g.NextPosition.Offset}); next != w.Next {
			l.fatalf(t, "the handler got the transaction that ends at %v; %d have been accepted, the next one ends at %v", next, l.acc, w.Next)
		}
		if err := run.MatchContent(g, w); err != nil {
			l.fatalf(t, "transaction %d (ends at %v): %v", l.acc, w.Next, err)
		}
		if c.Err == nil {
			l.acc++
		}
	}
	l.log = append(l.log, "   "+o.Describe())
}

func exactlyOnce(rt *rapid.T, o hist.Opts, kinds []string, max int) {
	exactlyOnceOf(rt, o, func() []fault { return independent(rt, kinds, 1, max) })
}

func exactlyOnceOf(rt *rapid.T, o hist.Opts, faults func() []fault) {
	h := hist.Generate(rt, o)
	start := genStart(rt, h)
	l := newLedger(rt, h, start)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
	var did []string
	accepted := 0
	for _, f := range faults() {
		x := plan(e, f, serve, formats(h), pacing(rt))
		x.a.NoError = rapid.IntRange(0, 3).Draw(rt, "noerror") == 0
		out := e.Run(rt, x.a)
		x.stop()
		before := l.acc
		l.check(rt, start, f.String(), out)
		if l.acc > before {
			accepted++
		}
		if x.Fired.Load() || e.M.Fired() {
			did = append(did, f.Kind)
			cov.Class("fault " + f.Kind)
		}
	}
	e.M.Arm(0, nil, 0)
	out := e.Run(rt, run.Attempt{Script: master.Script{Serve: run.Serve(h)}})
	l.check(rt, start, "clean", out)
	if out.Stream != nil {
		l.fatalf(rt, "the clean attempt ended with %s", out.Describe())
	}
	if l.acc != len(l.want) {
		l.fatalf(rt, "after the clean attempt %d of %d transactions have been accepted", l.acc, len(l.want))
	}
	cov.Note(len(did) > 0 && len(l.want) >= 2, digest(l.all, did), func() string {
		return strings.Join(l.log, " | ")
	})
	if accepted > 0 && len(did) > 1 {
		cov.Class("several faults with progress between")
	}
}

func TestC04(t *testing.T) {
	cov.Rule("a binlog with at least two transactions, streamed by one streamer in attempts of which at least one failed in the planned way, followed by a clean attempt")
	s := simple
	s.Units, s.Files, s.Tables = 6, 3, 3
	patienceC04(t)
	veryLong(t, []string{"transactions", "changes", "files"}[:1+2*cov.N(0, 1)], longExactlyOnce)
	cov.Check(t, "any-faults", 1200, 20000, func(rt *rapid.T) { exactlyOnce(rt, s, concat(allKinds, panicKinds), 5) })
	cov.Check(t, "handler-and-table-faults", 400, 8000, func(rt *rapid.T) {
		exactlyOnce(rt, s, concat(failKinds, otherKinds, panicKinds), 6)
	})
	cov.Check(t, "losses", 300, 6000, func(rt *rapid.T) { exactlyOnce(rt, s, concat(lossKinds, cleanKinds, errKinds), 6) })
	cov.Check(t, "cancellations", 300, 6000, func(rt *rapid.T) { exactlyOnce(rt, s, concat(cancelKinds, []string{"handler+cancel"}), 6) })
	cov.Check(t, "bulk", 30, 600, func(rt *rapid.T) {
		o := bulky
		o.Bulk, o.Units = 600, 2
		exactlyOnce(rt, o, concat(allKinds, panicKinds), 4)
	})
	cov.Check(t, "many-attempts", 40, 800, func(rt *rapid.T) {
		o := s
		o.Units, o.Files = 12, 4
		exactlyOnce(rt, o, concat(allKinds, panicKinds), 40)
	})
	cov.Check(t, "persistent", 60, 1200, func(rt *rapid.T) {
		exactlyOnceOf(rt, s, func() []fault { return persistent(rt, concat(allKinds, panicKinds)) })
	})
	cov.Check(t, "persistent-refusal", 60, 1200, func(rt *rapid.T) {
		exactlyOnceOf(rt, s, func() []fault {
			return persistent(rt, []string{"handler", "mapper", "columns", "undecodable", "handler-panic", "handler+cancel"})
		})
	})
	cov.Check(t, "boundaries", 300, 6000, func(rt *rapid.T) {
		o := s
		o.Boundary = true
		exactlyOnce(rt, o, concat(allKinds, panicKinds), 4)
	})
}
