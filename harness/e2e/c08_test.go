package e2e

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/vals"
)

// values calls f for the data of each column of a transaction.
func values(t *gobinlog.Transaction, f func(path string, c *gobinlog.ColumnData)) {
	for i, e := range t.Events {
		for what, rows := range map[string][]*gobinlog.RowData{"before": e.RowIdentifies, "after": e.RowValues} {
			for j, r := range rows {
				for k, c := range r.Columns {
					f(fmt.Sprintf("change %d, %s image %d, column %d (%v)", i, what, j, k, c.Type), c)
				}
			}
		}
	}
}

// kept is a delivered transaction that is looked at again later.
type kept struct {
	tx, snap *gobinlog.Transaction
}

// scribbled is a delivered value that has been overwritten.
type scribbled struct {
	where string
	data  []byte
	want  []byte
}

type keeper struct {
	mu    sync.Mutex
	txs   []kept
	marks []scribbled
	n     byte
	rnd   *vals.Rand
}

// scribble overwrites each value of a transaction with bytes of its own.
func (k *keeper) scribble(label string, tx *gobinlog.Transaction) {
	values(tx, func(path string, c *gobinlog.ColumnData) {
		if len(c.Data) == 0 {
			return
		}
		for i := range c.Data {
			c.Data[i] = byte(k.rnd.Next())
		}
		k.marks = append(k.marks, scribbled{label + ": " + path, c.Data, append([]byte(nil), c.Data...)})
	})
}

// check compares all that has been kept with how it was.
func (k *keeper) check() error {
	k.mu.Lock()
	defer k.mu.Unlock()
	for i, x := range k.txs {
		if err := run.Same(x.tx, x.snap); err != nil {
			return fmt.Errorf("delivered transaction %d has changed since its delivery: %v", i, err)
		}
	}
	for _, m := range k.marks {
		if !bytes.Equal(m.data, m.want) {
			return fmt.Errorf("the value %s was overwritten with % x, later it was % x", m.where, m.want, m.data)
		}
	}
	return nil
}

func sizes(o hist.Opts, kind int) hist.Opts {
	o.Files, o.Units, o.Tables = 2, 8, 3
	switch kind {
	case 0:
	case 1: // around the driver's buffer of 4096 bytes
		o.Kinds = func(t *rapid.T) vals.Kind {
			return rapid.SampledFrom([]vals.Kind{vals.BlobCap(252, 2, 300), vals.Int(4, false), vals.BlobCap(252, 3, 5000)}).Draw(t, "kind")
		}
		o.Big = 4200
	case 2:
		o.Big = 70000
	}
	return o
}

// stable keeps the delivered transactions over several streams.
func stable(rt *rapid.T, scribble bool) {
	stableOf(rt, scribble, sizes(full, rapid.IntRange(0, 2).Draw(rt, "sizes")))
}

func stableOf(rt *rapid.T, scribble bool, o hist.Opts) {
	h := hist.Generate(rt, o)
	ps := packets(rt, h, h.Start)
	want := hist.Expected(ps)
	e := run.NewEnv(rt, h.Tables, h.Start)
	defer e.Close()
	cov.Describe(h.Describe())
	k := &keeper{rnd: vals.PRNG(rapid.Uint64().Draw(rt, "bytes"))}
	part := rapid.SampledFrom([]string{"all", "alternate", "first"}).Draw(rt, "scribble")
	var bad error
	round := 0
	handler := func(i int, tx *gobinlog.Transaction) error {
		k.mu.Lock()
		if scribble && (part == "all" || (part == "alternate" && i%2 == 0) || (part == "first" && i == 0)) {
			k.scribble(fmt.Sprintf("stream %d transaction %d", round, i), tx)
		} else {
			k.txs = append(k.txs, kept{tx, run.Snap(tx)})
		}
		k.mu.Unlock()
		if i%(3+len(want)/50) == 2 && bad == nil {
			bad = k.check()
		}
		return nil
	}
	rounds := rapid.IntRange(1, 3).Draw(rt, "streams")
	pace := pacing(rt)
	for round = 0; round < rounds; round++ {
		e.NewStreamer(rt, h.Start)
		out := e.Run(rt, run.Attempt{Handler: handler, Script: master.Script{Serve: sendAll(ps, pace)}})
		if out.Stream != nil {
			rt.Fatalf("a clean stream ended with %s\n%s", out.Describe(), h.Describe())
		}
		if bad == nil {
			bad = k.check()
		}
		if bad != nil {
			rt.Fatalf("stream %d of %d: %v\n%s", round+1, rounds, bad, h.Describe())
		}
		// what was overwritten must not show in what is delivered
		if err := run.MatchAll(out.Snaps(), want); err != nil {
			rt.Fatalf("stream %d of %d (values overwritten: %v): %v\n%s", round+1, rounds, scribble, err, h.Describe())
		}
	}
	nv := 0
	for _, x := range k.txs {
		values(x.snap, func(_ string, c *gobinlog.ColumnData) {
			if len(c.Data) > 0 {
				nv++
				cov.Class(fmt.Sprintf("kept type %v", c.Type))
			}
		})
	}
	for _, m := range k.marks {
		_ = m
		cov.Class("value overwritten")
	}
	n := nv + len(k.marks)
	cov.Note(len(want) >= 2 && n >= 2, digest(ps, scribble, part, rounds), func() string {
		return fmt.Sprintf("%d streams, %d values kept, %d overwritten (%s): %s", rounds, nv, len(k.marks), part, h.Describe())
	})
}

// apart: several streamers at once, one of them overwrites what it gets.
func apart(rt *rapid.T) {
	n := rapid.IntRange(2, 3).Draw(rt, "streamers")
	o := full
	o.Files, o.Big = 1, 0
	var es []*run.Env
	var pss [][]*hist.Packet
	var hs []*hist.History
	for i := 0; i < n; i++ {
		h := hist.Generate(rt, o)
		hs = append(hs, h)
		pss = append(pss, packets(rt, h, h.Start))
		es = append(es, run.NewEnv(rt, h.Tables, h.Start))
		defer es[i].Close()
	}
	ks := make([]*keeper, n)
	outs := make([]*run.Out, n)
	msgs := make([]string, n)
	var wg sync.WaitGroup
	for i := range es {
		wg.Add(1)
		ks[i] = &keeper{rnd: vals.PRNG(uint64(i + 1))}
		go func(i int) {
			defer wg.Done()
			outs[i] = es[i].Run(&collect{&msgs[i]}, run.Attempt{Script: master.Script{Serve: run.SendAll(pss[i])}, Handler: func(j int, tx *gobinlog.Transaction) error {
				k := ks[i]
				k.mu.Lock()
				defer k.mu.Unlock()
				if i == 0 {
					k.scribble(fmt.Sprintf("streamer 0 transaction %d", j), tx)
				} else {
					k.txs = append(k.txs, kept{tx, run.Snap(tx)})
				}
				return nil
			}})
		}(i)
	}
	wg.Wait()
	for i := range es {
		if msgs[i] != "" {
			rt.Fatalf("streamer %d of %d: %s", i, n, msgs[i])
		}
		if err := ks[i].check(); err != nil {
			rt.Fatalf("streamer %d of %d: %v\n%s", i, n, err, hs[i].Describe())
		}
		if err := run.MatchAll(outs[i].Snaps(), hist.Expected(pss[i])); err != nil {
			rt.Fatalf("streamer %d of %d (streamer 0 overwrites its values): %v\n%s", i, n, err, hs[i].Describe())
		}
	}
	cov.Class("several streamers")
	cov.Note(len(ks[0].marks) > 1, digest(pss[0]), func() string {
		return fmt.Sprintf("%d streamers, %d values overwritten by the first: %s", n, len(ks[0].marks), hs[0].Describe())
	})
}

func TestC08(t *testing.T) {
	cov.Rule("at least two transactions with at least two non-empty values, kept or overwritten in the handler, and compared after later deliveries and after the end of the streams")
	patienceC08(t)
	veryLong(t, []string{"transactions", "changes"}, longKept)
	cov.Check(t, "kept", 600, 10000, func(rt *rapid.T) { stable(rt, false) })
	cov.Check(t, "overwritten", 700, 12000, func(rt *rapid.T) { stable(rt, true) })
	cov.Check(t, "bulk", 20, 400, func(rt *rapid.T) {
		o := bulky
		o.Bulk, o.Units = 2100, 3
		stableOf(rt, rapid.Bool().Draw(rt, "overwrite"), o)
	})
	cov.Check(t, "several-streamers", 100, 2000, apart)
}
