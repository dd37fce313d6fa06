package e2e

import (
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/mysql"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// settled checks that nothing is left of an attempt, and that Error() keeps
// returning, also to several callers at once.
func settled(rt *rapid.T, e *run.Env, o *run.Out, what string, h *hist.History) {
	rt.Helper()
	fail := func(err error) { rt.Fatalf("%v\nafter %s: %s\n%s", err, what, o.Describe(), h.Describe()) }
	if err := o.Closed(); err != nil {
		fail(err)
	}
	if err := e.Leaks(); err != nil {
		fail(err)
	}
	e.Misuse(rt)
	if p, ok := run.Timed(func() {
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); e.S.Error() }()
		}
		wg.Wait()
	}); !ok || p != "" {
		fail(fmt.Errorf("Error() called by several goroutines does not return (%s)\n%s", p, run.Stacks()))
	}
}

// procs varies how many threads run the schedule.
func procs(rt *rapid.T) {
	n := rapid.SampledFrom([]int{1, 2, 8}).Draw(rt, "procs")
	if runtime.GOMAXPROCS(0) != n {
		runtime.GOMAXPROCS(n)
	}
	cov.Class(fmt.Sprintf("%d threads", n))
}

// ending runs attempts with a fault each on one streamer.
func ending(rt *rapid.T, kinds []string, max int) {
	endingOf(rt, func() []fault { return independent(rt, kinds, 1, max) })
}

func endingOf(rt *rapid.T, faults func() []fault) {
	procs(rt)
	logger.format.Store(rapid.IntRange(0, 2).Draw(rt, "log") == 0)
	defer logger.format.Store(false)
	h := hist.Generate(rt, simple)
	start := genStart(rt, h)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
	var did []string
	for _, f := range faults() {
		x := plan(e, f, serve, formats(h), pacing(rt))
		x.a.NoError = rapid.Bool().Draw(rt, "noerror")
		out := e.Run(rt, x.a)
		if rapid.Bool().Draw(rt, "release") {
			x.stop()
		}
		settled(rt, e, out, f.String(), h)
		x.stop()
		if x.Fired.Load() || e.M.Fired() {
			did = append(did, f.String())
			cov.Class("ended by " + f.Kind)
		}
	}
	cov.Note(len(did) > 0, digest(nil, did, h.Describe()), func() string { return strings.Join(did, " | ") })
}

// parked makes the reader hold an event that nobody will take: the handler (or
// the mapper) is busy until the master has sent everything, then the attempt
// ends from there.
func parked(rt *rapid.T) {
	procs(rt)
	o := simple
	o.Units, o.MinTxn = 5, 3
	h := hist.Generate(rt, o)
	ps := packets(rt, h, h.Start)
	total := len(hist.Expected(ps))
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	call := rapid.IntRange(1, total).Draw(rt, "call")
	how := rapid.SampledFrom([]string{"handler error", "cancel", "cancel then error", "cancel and wait", "then loss", "then eof", "then error packet"}).Draw(rt, "how")
	wait := time.Duration(rapid.IntRange(0, 1500).Draw(rt, "wait")) * time.Microsecond
	nofail := rapid.Bool().Draw(rt, "noerror")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sent := make(chan struct{})
	out := e.Run(rt, run.Attempt{NoError: nofail, Ctx: ctx, Script: master.Script{Serve: func(d *master.Dump, w *master.Writer) {
		for _, p := range ps {
			if w.Event(p.Bytes) != nil {
				break
			}
		}
		close(sent)
		switch how {
		case "then loss":
			w.Abort()
			return
		case "then eof":
			w.EOF()
		case "then error packet":
			w.Err(1236, "HY000", "gone")
		}
		w.WaitClosedFor(run.Limit)
	}}, Handler: func(i int, tx *gobinlog.Transaction) error {
		if i+1 < call {
			return nil
		}
		if i+1 > call {
			return nil
		}
		<-sent
		time.Sleep(wait)
		switch how {
		case "handler error":
			return errHandler
		case "cancel":
			cancel()
		case "cancel and wait":
			cancel()
			time.Sleep(wait)
		case "cancel then error":
			cancel()
			return errHandler
		case "then loss":
			time.Sleep(wait)
		}
		return nil
	}})
	if how == "then loss" || how == "then eof" || how == "then error packet" {
		if out.Stream == nil && len(out.Calls) < total && !(how == "then loss") {
			rt.Fatalf("%s after %d transactions, the handler got %d: %s", how, total, len(out.Calls), out.Describe())
		}
	}
	settled(rt, e, out, fmt.Sprintf("%s in call %d of %d", how, call, total), h)
	cov.Class("reader holds an event: " + how)
	cov.Note(true, digest(ps, call, how), func() string {
		return fmt.Sprintf("%s in call %d of %d with the whole stream sent: %s", how, call, total, out.Describe())
	})
}

// contexts ends attempts by other kinds of contexts.
func contexts(rt *rapid.T) {
	procs(rt)
	h := hist.Generate(rt, simple)
	ps := packets(rt, h, h.Start)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	kind := rapid.SampledFrom([]string{"background", "timeout", "value", "parent"}).Draw(rt, "context")
	k := rapid.IntRange(0, len(ps)).Draw(rt, "sent")
	type key struct{}
	var ctx context.Context
	cancel := context.CancelFunc(func() {})
	d := time.Duration(rapid.IntRange(0, 4000).Draw(rt, "timeout")) * time.Microsecond
	ready := make(chan struct{})
	switch kind {
	case "background":
		ctx = context.Background()
	case "timeout":
		// expires only when the dump is running, see the known findings
		p, c := context.WithCancel(context.Background())
		dl := &dlContext{Context: p, done: make(chan struct{})}
		go func() {
			defer close(dl.done)
			select {
			case <-ready:
				time.Sleep(d)
				dl.over.Store(true)
			case <-p.Done():
			}
		}()
		ctx, cancel = dl, c
	case "value":
		p, c := context.WithCancel(context.WithValue(context.Background(), key{}, 1))
		ctx, cancel = context.WithValue(p, key{}, 2), c
	case "parent":
		p, c := context.WithCancel(context.Background())
		q, c2 := context.WithCancel(p)
		defer c2()
		ctx, cancel = q, c
	}
	defer cancel()
	out := e.Run(rt, run.Attempt{Ctx: ctx, Script: master.Script{Serve: func(_ *master.Dump, w *master.Writer) {
		for _, p := range ps[:k] {
			if w.Event(p.Bytes) != nil {
				break
			}
		}
		close(ready)
		switch kind {
		case "background":
			w.EOF()
		case "value", "parent":
			w.Sleep(d)
			cancel()
		}
		w.WaitClosedFor(run.Limit)
	}}})
	settled(rt, e, out, "context "+kind, h)
	cov.Class("context " + kind)
	cov.Note(true, digest(ps, kind, k), func() string { return fmt.Sprintf("context %s after %d packets: %s", kind, k, out.Describe()) })
}

// dlContext expires like a deadline, at a time the check decides.
type dlContext struct {
	context.Context
	done chan struct{}
	over atomic.Bool
}

func (d *dlContext) Done() <-chan struct{} { return d.done }
func (d *dlContext) Err() error {
	select {
	case <-d.done:
	default:
		return nil
	}
	if d.over.Load() {
		return context.DeadlineExceeded
	}
	return context.Canceled
}

// together runs independent streamers at once; each must see its own history.
func together(rt *rapid.T) {
	procs(rt)
	n := rapid.IntRange(2, 4).Draw(rt, "streamers")
	type one struct {
		h   *hist.History
		e   *run.Env
		x   *attempt
		ps  []*hist.Packet
		out *run.Out
		msg string
	}
	var all []*one
	o := simple
	o.Simple = rapid.Bool().Draw(rt, "simple")
	for i := 0; i < n; i++ {
		s := &one{h: hist.Generate(rt, o)}
		s.ps = packets(rt, s.h, s.h.Start)
		s.e = run.NewEnv(rt, s.h.Tables, s.h.Start)
		defer s.e.Close()
		h := s.h
		kinds := allKinds
		if rapid.Bool().Draw(rt, "calm") {
			kinds = []string{"eof"}
		}
		s.x = plan(s.e, genFault(rt, kinds), func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }, formats(h), nil)
		all = append(all, s)
	}
	if p, ok := run.Timed(func() {
		var wg sync.WaitGroup
		for _, s := range all {
			wg.Add(1)
			go func(s *one) {
				defer wg.Done()
				s.out = s.e.Run(&collect{&s.msg}, s.x.a)
			}(s)
		}
		wg.Wait()
	}); p != "" || !ok {
		rt.Fatalf("%d streamers at once: %s", n, p)
	}
	var what []string
	for i, s := range all {
		if s.msg != "" {
			rt.Fatalf("streamer %d of %d (%v): %s", i, n, s.x.f, s.msg)
		}
		want := hist.Expected(s.ps)
		got := s.out.Snaps()
		if s.x.f.Kind != "eof" && len(want) > len(got) {
			want = want[:len(got)]
		}
		if err := run.MatchAll(got, want); err != nil {
			rt.Fatalf("streamer %d of %d (%v): %v\n%s", i, n, s.x.f, err, s.h.Describe())
		}
		what = append(what, s.x.f.String())
	}
	for _, s := range all {
		s.x.stop()
		settled(rt, s.e, s.out, s.x.f.String(), s.h)
	}
	cov.Class(fmt.Sprintf("%d streamers at once", n))
	cov.Note(true, digest(all[0].ps, what), func() string { return strings.Join(what, " || ") })
}

// collect is a run.T for other goroutines.
type collect struct{ msg *string }

func (c *collect) Helper() {}
func (c *collect) Fatalf(format string, a ...any) {
	*c.msg = fmt.Sprintf(format, a...)
	runtime.Goexit()
}

func TestC05(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	cov.Rule("at least one Stream call was ended by the planned cause at the planned point; connection, goroutines and Error() were examined after each call")
	patienceC05(t)
	cov.Check(t, "any-cause", 1200, 25000, func(rt *rapid.T) { ending(rt, concat(allKinds, panicKinds), 3) })
	cov.Check(t, "reader-holds-event", 500, 10000, parked)
	cov.Check(t, "cancellations", 500, 10000, func(rt *rapid.T) { ending(rt, cancelKinds, 2) })
	cov.Check(t, "setup", 200, 4000, func(rt *rapid.T) {
		ending(rt, concat(preKinds, []string{"cancel-before", "cancel-auth", "cancel-set"}), 3)
	})
	cov.Check(t, "persistent", 30, 600, func(rt *rapid.T) {
		endingOf(rt, func() []fault { return persistent(rt, concat(allKinds, panicKinds)) })
	})
	cov.Check(t, "contexts", 200, 4000, contexts)
	cov.Check(t, "several-streamers", 150, 3000, together)
	cov.Check(t, "no-master", 60, 600, noMaster)
	cov.Loop(t, "before-any-stream", func(t *testing.T) {
		s, err := gobinlog.NewStreamer("u:p@tcp(127.0.0.1:1)/", 1, run.NewMapper(nil))
		if err != nil {
			return
		}
		if _, ok := run.Timed(func() { s.Error() }); !ok {
			t.Fatalf("Error() blocks when no stream has been started")
		}
		cov.NoteMany(1, "Error() of a new streamer")
	})
	cov.Loop(t, "finding-cancelled-dial", cancelledDial)
}

// cancelledDial reproduces the known finding: the driver forgets a connection
// when the context is cancelled after dialling, before it watches the context.
func cancelledDial(t *testing.T) {
	e := run.NewEnv(t, nil, hist.Pos{File: "b.000001", Off: 4})
	defer e.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var conn net.Conn
	mysql.RegisterDialContext("verif", func(c context.Context, addr string) (net.Conn, error) {
		nc, err := net.Dial("tcp", addr)
		conn = nc
		cancel()
		return nc, err
	})
	s, err := gobinlog.NewStreamer("repl:secret@verif("+e.Srv.Addr()+")/", 1, run.NewMapper(nil))
	if err != nil {
		t.Fatalf("NewStreamer: %v", err)
	}
	s.SetBinlogPosition(gobinlog.Position{Filename: "b.000001", Offset: 4})
	e.S = s
	out := e.Run(t, run.Attempt{Ctx: ctx, Script: master.Script{Serve: func(_ *master.Dump, w *master.Writer) { w.WaitClosedFor(run.Limit) }}})
	if conn == nil {
		cov.Infra("no connection was made: %s", out.Describe())
	}
	defer conn.Close()
	end := time.Now().Add(2 * time.Second)
	for time.Now().Before(end) {
		if _, err := conn.Write(nil); errors.Is(err, net.ErrClosed) {
			cov.NoteMany(1, "cancelled between dialling and the handshake")
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	if !strings.Contains(run.Stacks(), "startWatcher") {
		t.Fatalf("the connection stays open after %s", out.Describe())
	}
	cov.NoteMany(1, "cancelled between dialling and the handshake")
	cov.Finding("driver-cancelled-dial", "when ctx is cancelled after the connection to the master is made and before the driver watches ctx (mysql@v1.4.2 connector.go, mc.watchCancel), the driver returns without closing the connection and its watcher goroutine")
}
