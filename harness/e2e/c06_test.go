package e2e

import (
	"context"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// verdict compares what an attempt reported with what ended it.
func verdict(x *attempt, fired bool, o *run.Out) error {
	f := x.f
	bad := func(format string, a ...any) error {
		return fmt.Errorf("%s; fault: %v; %s", fmt.Sprintf(format, a...), f, o.Describe())
	}
	if (o.Error == nil) != (o.Error2 == nil) || (o.Error != nil && o.Error.Error() != o.Error2.Error()) {
		return bad("Error() changed its mind: first %v, then %v", o.Error, o.Error2)
	}
	handlerFailed := false
	for _, c := range o.Calls {
		handlerFailed = handlerFailed || c.Err != nil
	}
	if handlerFailed && o.Stream == nil {
		return bad("the handler failed, Stream returned nil")
	}
	if !fired || in(f.Kind, cleanKinds) {
		if f.Kind == "unsupported" && fired {
			return nil
		}
		if o.Stream != nil || o.Error != nil {
			return bad("the master ended the stream with EOF, reported: Stream %v, Error() %v", o.Stream, o.Error)
		}
		return nil
	}
	switch {
	case in(f.Kind, cancelKinds):
		if o.Stream == nil && o.Error != nil {
			return bad("the caller cancelled, Error() is %v", o.Error)
		}
	case in(f.Kind, errKinds):
		if o.Stream == nil && o.Error == nil {
			return bad("the master's error was reported as a clean end")
		}
		if o.Stream == nil && !strings.Contains(o.Error.Error(), f.Msg) {
			return bad("the report does not carry the master's message %q", f.Msg)
		}
	case in(f.Kind, lossKinds):
		if o.Stream == nil && o.Error == nil {
			return bad("a lost connection was reported as a clean end")
		}
		if o.Stream == nil && o.Error.Error() == "" {
			return bad("the report of a lost connection is empty")
		}
	case in(f.Kind, failKinds):
		if o.Stream == nil {
			return bad("Stream returned nil")
		}
	case in(f.Kind, preKinds):
		if o.Stream == nil && o.Error == nil {
			return bad("a connection that could not be set up was reported as a clean end")
		}
	}
	return nil
}

// reported runs attempts on one streamer and judges each on its own.
func reported(rt *rapid.T, kinds []string, max int) {
	reportedOf(rt, func() []fault { return independent(rt, kinds, 1, max) })
}

func reportedOf(rt *rapid.T, faults func() []fault) {
	s := simple
	s.Units, s.Files, s.Tables = 5, 2, 3
	h := hist.Generate(rt, s)
	start := genStart(rt, h)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
	var log []string
	nt := false
	for _, f := range faults() {
		x := plan(e, f, serve, formats(h), pacing(rt))
		x.a.NoError = true
		late := rapid.IntRange(0, 3).Draw(rt, "latecancel")
		out := e.Run(rt, x.a)
		fired := x.Fired.Load() || e.M.Fired()
		switch late {
		case 1: // the caller cancels when the stream is over already
			x.stop()
		case 2:
			time.Sleep(f.Delay)
			x.stop()
		}
		e.Errors(rt, out)
		x.stop()
		log = append(log, fmt.Sprintf("[%v, late cancel %v] %s", f, late == 1 || late == 2, out.Describe()))
		if err := verdict(x, fired, out); err != nil {
			rt.Fatalf("%v\nattempts:\n  %s\n%s", err, strings.Join(log, "\n  "), h.Describe())
		}
		if fired {
			nt = true
			cov.Class("ended by " + f.Kind)
			if late == 1 || late == 2 {
				cov.Class("cancelled afterwards: " + f.Kind)
			}
		}
	}
	cov.Note(nt, digest(nil, log), func() string { return strings.Join(log, " | ") })
}

func TestC06(t *testing.T) {
	cov.Rule("a sequence of Stream calls on one streamer of which at least one was ended by the planned cause")
	patienceC06(t)
	veryLong(t, []string{"transactions"}, longReported)
	cov.Check(t, "any-cause", 1500, 30000, func(rt *rapid.T) { reported(rt, allKinds, 4) })
	cov.Check(t, "losses", 600, 12000, func(rt *rapid.T) { reported(rt, concat(lossKinds, errKinds, cleanKinds), 3) })
	cov.Check(t, "master-errors", 500, 10000, func(rt *rapid.T) { reported(rt, errKinds, 3) })
	cov.Check(t, "failures", 500, 10000, func(rt *rapid.T) { reported(rt, concat(failKinds, []string{"handler+cancel"}), 3) })
	cov.Check(t, "undecodable", 500, 10000, func(rt *rapid.T) { reported(rt, []string{"undecodable"}, 2) })
	cov.Check(t, "cancellations", 300, 6000, func(rt *rapid.T) { reported(rt, cancelKinds, 3) })
	cov.Check(t, "persistent", 80, 1600, func(rt *rapid.T) { reportedOf(rt, func() []fault { return persistent(rt, allKinds) }) })
	cov.Check(t, "stale", 200, 3000, staleReport)
	cov.Check(t, "no-master", 60, 600, noMaster)
	cov.Slices(t, "every-error-code", 6, everyCode)
}

// everyCode ends streams with an error of every number there is.
func everyCode(t *testing.T, part int) {
	r := newRaw(part%2 == 0)
	r.row(1)
	r.sql("begin", "begin")
	r.row(2)
	ps := append([]*hist.Packet{}, r.ps...)
	e := run.NewEnv(t, []*hist.Table{r.tb}, hist.Pos{File: "b.000001", Off: 4})
	defer e.Close()
	var n int64
	for c := 1; c <= 65535 && !cov.Over(); c++ {
		if c%6 != part {
			continue
		}
		msg := fmt.Sprintf("the master's reason %d", c)
		state := []string{"HY000", "42000", "08S01", "00000", "XX000", "70100"}[c/6%6]
		e.S.SetBinlogPosition(gobinlog.Position{Filename: "b.000001", Offset: 4})
		out := e.Run(t, run.Attempt{Script: master.Script{Serve: func(d *master.Dump, w *master.Writer) {
			for _, p := range ps[:c/36%(len(ps)+1)] {
				if w.Event(p.Bytes) != nil {
					return
				}
			}
			w.Err(uint16(c), state, msg)
			w.WaitClosedFor(run.Limit)
		}}})
		if out.Stream == nil && (out.Error == nil || !strings.Contains(out.Error.Error(), msg)) {
			t.Fatalf("the master ended the stream with error %d (%s) %q, reported: Stream %v, Error() %v", c, state, msg, out.Stream, out.Error)
		}
		n++
	}
	cov.NoteMany(n, "streams ended by a master error with each number there is")
}

// staleReport looks for the reports of an earlier attempt after a later one,
// with Error() called or not in between.
func staleReport(rt *rapid.T) {
	h := hist.Generate(rt, simple)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
	f := genFault(rt, concat(lossKinds, errKinds, failKinds))
	x := plan(e, f, serve, formats(h), nil)
	x.a.NoError = rapid.Bool().Draw(rt, "unread")
	first := e.Run(rt, x.a)
	x.stop()
	g := genFault(rt, concat(cleanKinds, cancelKinds))
	y := plan(e, g, serve, formats(h), nil)
	y.a.NoError = true
	out := e.Run(rt, y.a)
	e.Errors(rt, out)
	y.stop()
	if err := verdict(y, y.Fired.Load(), out); err != nil {
		rt.Fatalf("%v\nthe attempt before: %v, %s", err, f, first.Describe())
	}
	cov.Note(true, digest(nil, f, g, first.Describe()), func() string {
		return fmt.Sprintf("%v: %s | then %v: %s", f, first.Describe(), g, out.Describe())
	})
}

// noMaster fails before a connection exists.
func noMaster(rt *rapid.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		cov.Infra("cannot listen: %v", err)
	}
	addr := ln.Addr().String()
	ln.Close()
	dsn := rapid.SampledFrom([]string{"u:p@tcp(" + addr + ")/", "u:p@tcp(" + addr + ")/db?timeout=1s", "not a dsn", "u@unix(/nonexistent/verif.sock)/", "u:p@nosuchnet(x)/"}).Draw(rt, "dsn")
	s, err := gobinlog.NewStreamer(dsn, 1, run.NewMapper(nil))
	if err != nil {
		return
	}
	s.SetBinlogPosition(gobinlog.Position{Filename: "x", Offset: 4})
	n := rapid.IntRange(1, 3).Draw(rt, "attempts")
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if rapid.Bool().Draw(rt, "errorfirst") {
			if _, ok := run.Timed(func() { s.Error() }); !ok {
				rt.Fatalf("Error() blocks when no stream has been started")
			}
		}
		var serr, e1 error
		p, ok := run.Timed(func() { serr = s.Stream(ctx, func(*gobinlog.Transaction) error { return nil }) })
		if !ok || p != "" {
			rt.Fatalf("Stream to %q did not return (%s)", dsn, p)
		}
		if p, ok := run.Timed(func() { e1 = s.Error() }); !ok || p != "" {
			rt.Fatalf("Error() does not return after a failed connection attempt (%s)", p)
		}
		cancel()
		if serr == nil && e1 == nil {
			rt.Fatalf("nobody listens at %q, and neither Stream nor Error() says so", dsn)
		}
	}
	cov.Class("no connection")
	cov.Note(true, fmt.Sprint(dsn, n), func() string { return "dsn " + dsn })
}
