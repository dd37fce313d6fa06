package e2e

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
)

// resumable streams a history, checks the chain of labels, then starts a new
// stream at the end label of delivered transactions.
func resumable(rt *rapid.T, o hist.Opts, every bool) {
	h := hist.Generate(rt, o)
	start := genStart(rt, h)
	ps := packets(rt, h, start)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	out := e.Run(rt, run.Attempt{NoError: true, Script: master.Script{Serve: sendAll(ps, pacing(rt))}})
	if out.Stream != nil {
		rt.Fatalf("stream ended with %s\n%s", out.Describe(), h.Describe())
	}
	want := hist.Expected(ps)
	got := out.Snaps()
	if len(got) != len(want) {
		rt.Fatalf("%d transactions delivered of %d\n%s", len(got), len(want), h.Describe())
	}
	for i, g := range got {
		now, next := hist.Pos{File: g.NowPosition.Filename, Off: g.NowPosition.Offset}, hist.Pos{File: g.NextPosition.Filename, Off: g.NextPosition.Offset}
		if now != want[i].Now || next != want[i].Next {
			rt.Fatalf("transaction %d of %d (%s) is labelled %v..%v, should be %v..%v\n%s", i, len(got), want[i].Note, now, next, want[i].Now, want[i].Next, h.Describe())
		}
	}
	var at []int
	if every || len(got) <= 4 {
		for i := range got {
			at = append(at, i)
		}
	} else {
		for i := 0; i < 4; i++ {
			at = append(at, rapid.IntRange(0, len(got)-1).Draw(rt, "resume"))
		}
	}
	for _, i := range at {
		l := got[i].NextPosition
		e.NewStreamer(rt, hist.Pos{File: l.Filename, Off: l.Offset})
		again := e.Run(rt, run.Attempt{NoError: true, Script: master.Script{Serve: run.Serve(h)}})
		if again.Stream != nil {
			rt.Fatalf("a new stream from the end label %+v of transaction %d ended with %s\n%s", l, i, again.Describe(), h.Describe())
		}
		rest := again.Snaps()
		for j := range rest {
			if i+1+j >= len(got) {
				rt.Fatalf("resuming at the end label %+v of transaction %d (of %d) delivers %d transactions\n%s", l, i, len(got), len(rest), h.Describe())
			}
			if err := run.Same(rest[j], got[i+1+j]); err != nil {
				rt.Fatalf("resuming at the end label %+v of transaction %d: transaction %d differs from the first stream: %v\n%s", l, i, i+1+j, err, h.Describe())
			}
		}
		if len(rest) != len(got)-i-1 {
			rt.Fatalf("resuming at the end label %+v of transaction %d (of %d) delivers %d transactions\n%s", l, i, len(got), len(rest), h.Describe())
		}
		cov.Class("resumed")
	}
	rot := false
	for _, p := range ps {
		rot = rot || (p.Rotate != nil && !p.Fake)
	}
	classes(h, want)
	cov.Note(len(want) >= 2 && (rot || mixed(want)), digest(ps, at), sample(h, want))
}

func TestC03(t *testing.T) {
	cov.Rule("a stream with at least two transactions that has a rotation or several changes, followed by new streams from end labels it delivered")
	s := full
	s.Simple, s.Big, s.Files, s.Cols = true, 0, 4, 3
	patienceC03(t)
	veryLong(t, []string{"transactions", "files"}, longResume)
	cov.Check(t, "labels-and-resume", 600, 10000, func(rt *rapid.T) { resumable(rt, s, false) })
	cov.Check(t, "every-label", 120, 2500, func(rt *rapid.T) {
		o := s
		o.MinTxn = 4
		resumable(rt, o, true)
	})
	cov.Check(t, "boundary-heavy", 200, 4000, func(rt *rapid.T) {
		o := s
		o.Boundary = true
		resumable(rt, o, false)
	})
	cov.Check(t, "bulk", 12, 250, func(rt *rapid.T) {
		o := bulky
		o.Bulk = 600
		resumable(rt, o, false)
	})
	cov.Check(t, "many-files", 30, 600, func(rt *rapid.T) {
		o := s
		o.Files, o.Units = 40, 2
		resumable(rt, o, false)
	})
	cov.Check(t, "all-types", 150, 3000, func(rt *rapid.T) {
		o := full
		o.Files = 4
		resumable(rt, o, false)
	})
}
