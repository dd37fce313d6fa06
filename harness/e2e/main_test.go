// Package e2e checks properties of gobinlog.Streamer against a fake master on
// the loopback interface.
package e2e

import (
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"sync/atomic"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/vals"
)

// quiet is the logger; with format set it renders the messages (so that what
// the library reads for them is read) and drops them.
type quiet struct{ format atomic.Bool }

func (q *quiet) Debugf(f string, v ...interface{}) { q.out(f, v) }
func (q *quiet) Infof(f string, v ...interface{})  { q.out(f, v) }
func (q *quiet) Errorf(f string, v ...interface{}) { q.out(f, v) }
func (q *quiet) Print(v ...interface{})            { q.out("%v", v) }

func (q *quiet) out(f string, v []interface{}) {
	if q.format.Load() {
		fmt.Fprintf(io.Discard, f, v...)
	}
}

var logger = &quiet{}

func TestMain(m *testing.M) {
	// a zone with an odd offset and daylight saving, whatever the machine uses
	if l, err := time.LoadLocation("Australia/Lord_Howe"); err == nil {
		time.Local = l
	}
	gobinlog.SetLogger(logger)
	cov.Main(m)
	os.Exit(0)
}

// full is the widest kind of history.
var full = hist.Opts{Files: 3, Units: 6, Tables: 4, Cols: 7, Rows: 4, BigOffset: true, ReuseIDs: true, Big: 40000}

// simple histories have small rows; used where the fault or the schedule is
// the point.
var simple = hist.Opts{Files: 2, Units: 4, Tables: 2, Cols: 3, Rows: 2, Simple: true, MinTxn: 2}

// bulky histories have many changes, rows, tables, transactions or statements.
var bulky = hist.Opts{Files: 2, Units: 4, Tables: 3, Cols: 4, Rows: 2, Simple: true, MinTxn: 2, ReuseIDs: true, Bulk: 1 << 12}

// boundaries lists the coordinates a replica may start from.
func boundaries(h *hist.History) []hist.Pos {
	out := []hist.Pos{h.Start}
	for i, f := range h.Files {
		if i > 0 {
			out = append(out, hist.Pos{File: f.Name, Off: 4})
		}
		for _, e := range f.Events {
			if e.Txn != nil {
				out = append(out, e.Txn.Next)
			}
		}
	}
	return out
}

// genStart draws where to start, mostly at the beginning.
func genStart(rt *rapid.T, h *hist.History) hist.Pos {
	if rapid.IntRange(0, 2).Draw(rt, "from") > 0 {
		return h.Start
	}
	return rapid.SampledFrom(boundaries(h)).Draw(rt, "start")
}

// pacing draws how bytes are cut into socket writes.
func pacing(rt *rapid.T) func(w *master.Writer) {
	mode := rapid.IntRange(0, 4).Draw(rt, "pacing")
	seed := rapid.Uint64().Draw(rt, "paceseed")
	return func(w *master.Writer) {
		r := vals.PRNG(seed)
		n := 0
		size := func(max uint64) func() int {
			return func() int {
				if n++; n > 3000 { // small pieces first, then big ones, for time's sake
					return 1 << 16
				}
				return 1 + int(r.Next()%max)
			}
		}
		switch mode {
		case 0:
			w.Chunk = size(7)
		case 1:
			w.Chunk = size(2000)
		}
	}
}

// packets asks the model what a master serves from a position.
func packets(t run.T, h *hist.History, p hist.Pos) []*hist.Packet {
	t.Helper()
	ps, err := h.Serve(p.File, uint32(p.Off))
	if err != nil {
		cov.Infra("the model cannot serve its own position %v: %v", p, err)
	}
	return ps
}

// digest identifies a served stream.
func digest(ps []*hist.Packet, extra ...interface{}) string {
	h := sha256.New()
	for _, p := range ps {
		h.Write(p.Bytes)
	}
	fmt.Fprint(h, extra...)
	return string(h.Sum(nil))
}

// sendAll sends packets with a pacing, then EOF.
func sendAll(ps []*hist.Packet, pace func(w *master.Writer)) func(d *master.Dump, w *master.Writer) {
	return func(d *master.Dump, w *master.Writer) {
		if pace != nil {
			pace(w)
		}
		run.SendAll(ps)(d, w)
	}
}

// clean runs a whole history from a position and compares all that is
// delivered with the model.
func clean(rt *rapid.T, e *run.Env, h *hist.History, ps []*hist.Packet, pace func(w *master.Writer)) *run.Out {
	out := e.Run(rt, run.Attempt{Script: master.Script{Serve: sendAll(ps, pace)}, NoError: true})
	if out.Stream != nil {
		rt.Fatalf("a clean stream ended with %s\n%s", out.Describe(), h.Describe())
	}
	if err := run.MatchAll(out.Snaps(), hist.Expected(ps)); err != nil {
		rt.Fatalf("%v\n%s", err, h.Describe())
	}
	return out
}

// changes counts the changes of a list of transactions.
func changes(ts []*hist.Txn) (n, rows int) {
	for _, t := range ts {
		n += len(t.Events)
		for _, e := range t.Events {
			rows += len(e.Before) + len(e.After)
		}
	}
	return
}

// mixed tells whether a history has enough in it to count.
func mixed(ts []*hist.Txn) bool {
	n, r := changes(ts)
	return len(ts) >= 2 && n >= 2 && r >= 1
}

func sample(h *hist.History, ts []*hist.Txn) func() string {
	return func() string {
		n, r := changes(ts)
		return fmt.Sprintf("%d files, %d transactions, %d changes, %d row images: %s", len(h.Files), len(ts), n, r, h.Describe())
	}
}

func classes(h *hist.History, ts []*hist.Txn) {
	if len(h.Files) > 1 {
		cov.Class("several files")
	}
	algs := map[byte]bool{}
	for _, f := range h.Files {
		algs[f.Format.Alg] = true
		cov.Class(fmt.Sprintf("checksum %d", f.Format.Alg))
		cov.Class(fmt.Sprintf("4-byte table ids %v", f.Format.ID4))
		if f.Mode != "" {
			cov.Class("file ends with " + f.Mode)
		}
		if f.Base > 1<<31 {
			cov.Class("offsets above 2^31")
		}
		for _, e := range f.Events {
			cov.Class(fmt.Sprintf("event type %d", e.Type))
		}
	}
	if len(algs) > 1 {
		cov.Class("checksum algorithm changes")
	}
	for _, t := range ts {
		cov.Class("transaction ended by: " + t.Note)
		for _, e := range t.Events {
			cov.Class("change " + e.Kind)
			for _, rs := range [][]hist.ExpRow{e.Before, e.After} {
				for _, r := range rs {
					for _, c := range r {
						cov.Class("column " + c.State.String())
					}
				}
			}
		}
	}
}
