package e2e

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/Breeze0806/gobinlog"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// Very long streams: more transactions, changes, rows and files than 16 bits
// count, served as fast as they are taken.

// veryLong runs f on long histories of the given kinds.
func veryLong(t *testing.T, kinds []string, f func(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet)) {
	cov.Loop(t, "very-long", func(t *testing.T) {
		var n int64
		for i, kind := range kinds {
			if cov.Over() {
				break
			}
			size := 1<<16 + 5000
			if kind == "files" {
				size = cov.N(20000, 1<<16+500)
			} else if cov.Thorough {
				size = 300000
			}
			h := hist.Long(kind, size, i%2 == 0)
			ps := packets(t, h, h.Start)
			e := run.NewEnv(t, h.Tables, h.Start)
			cov.Describe(fmt.Sprintf("a binlog of %d %s", size, kind))
			f(t, e, h, ps)
			e.Close()
			n++
		}
		cov.NoteMany(n, fmt.Sprintf("streams of very many %v", kinds))
	})
}

func longFidelity(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	out := e.Run(t, run.Attempt{Script: master.Script{Serve: sendAll(ps, nil)}})
	if out.Stream != nil || out.Error != nil {
		t.Fatalf("a clean stream ended with %s", out.Describe())
	}
	if err := run.MatchAll(out.Snaps(), hist.Expected(ps)); err != nil {
		t.Fatal(err)
	}
}

// longContent leaves the labels to C03.
func longContent(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	out := e.Run(t, run.Attempt{Script: master.Script{Serve: sendAll(ps, nil)}})
	want := hist.Expected(ps)
	for i, d := range out.Calls {
		if i >= len(want) {
			break
		}
		if err := run.MatchContent(d.Snap, want[i]); err != nil {
			t.Fatalf("transaction %d: %v", i, err)
		}
	}
	if len(out.Calls) != len(want) {
		t.Fatalf("there are %d transactions: %s", len(want), out.Describe())
	}
}

// longResume starts again at a label late in the stream.
func longResume(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	longFidelity(t, e, h, ps)
	want := hist.Expected(ps)
	k := len(want) - 40
	end := want[k].Next
	e.NewStreamer(t, end)
	out := e.Run(t, run.Attempt{Script: master.Script{Serve: run.Serve(h)}})
	if out.Stream != nil {
		t.Fatalf("resumed at %v: %s", end, out.Describe())
	}
	if err := run.MatchAll(out.Snaps(), hist.Expected(packets(t, h, end))); err != nil {
		t.Fatalf("resumed at %v, the label of transaction %d: %v", end, k, err)
	}
}

// longExactlyOnce fails twice late in the stream and goes on.
func longExactlyOnce(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	want := hist.Expected(ps)
	got := 0
	bad := map[int]bool{len(want) - 1 - len(want)/24: true, len(want) - 1: true}
	last := len(bad)
	for attempt := 0; ; attempt++ {
		out := e.Run(t, run.Attempt{Script: master.Script{Serve: run.Serve(h)}, Handler: func(int, *gobinlog.Transaction) error {
			if bad[got] {
				delete(bad, got)
				return errors.New("refused")
			}
			got++
			return nil
		}})
		acc := out.Accepted()
		if got > len(want) {
			t.Fatalf("%d transactions have been accepted, there are %d", got, len(want))
		}
		if err := run.MatchAll(acc, want[got-len(acc):got]); err != nil {
			t.Fatalf("attempt %d: %v", attempt+1, err)
		}
		if (out.Stream == nil) != (attempt == last) {
			t.Fatalf("attempt %d: %s", attempt+1, out.Describe())
		}
		if attempt == last {
			break
		}
	}
	if got != len(want) {
		t.Fatalf("%d of %d transactions have been accepted", got, len(want))
	}
}

// longKept looks at everything again at the end.
func longKept(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	out := e.Run(t, run.Attempt{Script: master.Script{Serve: sendAll(ps, nil)}})
	if len(out.Calls) != len(hist.Expected(ps)) {
		t.Fatalf("a clean stream of %d transactions ended with %s", len(hist.Expected(ps)), out.Describe())
	}
	for i, c := range out.Calls {
		if err := run.Same(c.Snap, c.Tx); err != nil {
			t.Fatalf("transaction %d has changed since it was delivered: %v", i, err)
		}
	}
}

// longReported ends a long stream with an error of the master.
func longReported(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	for _, end := range []string{"err", "close", "eof"} {
		e.NewStreamer(t, h.Start)
		out := e.Run(t, run.Attempt{Script: master.Script{Serve: func(d *master.Dump, w *master.Writer) {
			for _, p := range ps {
				if w.Event(p.Bytes) != nil {
					return
				}
			}
			switch end {
			case "err":
				w.Err(1236, "HY000", "the very end")
			case "eof":
				w.EOF()
			case "close":
				w.CloseWrite()
			}
			w.WaitClosedFor(run.Limit)
		}}})
		switch {
		case end == "eof" && (out.Stream != nil || out.Error != nil || out.Error2 != nil):
			t.Fatalf("the master's EOF was reported as an error: %s", out.Describe())
		case end != "eof" && out.Stream == nil && (out.Error == nil || out.Error2 == nil):
			t.Fatalf("%s after %d events was reported as a clean end: %s", end, len(ps), out.Describe())
		case end == "err" && out.Stream == nil && !strings.Contains(out.Error.Error(), "the very end"):
			t.Fatalf("the error does not carry the master's message: %s", out.Describe())
		}
	}
}

// longHandshake asks for the stream again after a long one.
func longHandshake(t *testing.T, e *run.Env, h *hist.History, ps []*hist.Packet) {
	all := hist.Expected(ps)
	n, at, end := len(all), h.Start, all[len(all)-1].Next
	for i := 0; i < 2; i++ {
		out := e.Run(t, run.Attempt{Script: master.Script{Serve: run.Serve(h)}})
		if err := handshake(out, e.ID, []hist.Pos{at}, true); err != nil {
			t.Fatalf("attempt %d: %v", i+1, err)
		}
		if len(out.Calls) != n {
			t.Fatalf("attempt %d delivers %d transactions, should be %d: %s", i+1, len(out.Calls), n, out.Describe())
		}
		n, at = 0, end
	}
}
