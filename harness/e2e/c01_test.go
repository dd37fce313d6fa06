package e2e

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/run"
	"verifharness/vals"
	"verifharness/wire"
)

// fidelity is the property of C01: one history, one start, one stream.
func fidelity(rt *rapid.T, o hist.Opts) {
	h := hist.Generate(rt, o)
	start := genStart(rt, h)
	ps := packets(rt, h, start)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	cov.Describe(h.Describe())
	clean(rt, e, h, ps, pacing(rt))
	want := hist.Expected(ps)
	classes(h, want)
	cov.Note(mixed(want), digest(ps), sample(h, want))
}

func TestC01(t *testing.T) {
	cov.Rule("a generated binlog, streamed over TCP, with at least two transactions, two changes and one row image from the start position on")
	patienceC01(t)
	veryLong(t, hist.LongKinds, longFidelity)
	cov.Check(t, "histories", 1500, 25000, func(rt *rapid.T) { fidelity(rt, full) })
	cov.Check(t, "simple-long", 300, 5000, func(rt *rapid.T) {
		o := full
		o.Simple, o.Units, o.Files, o.Big = true, 25, 4, 0
		fidelity(rt, o)
	})
	cov.Check(t, "bulk", 40, 700, func(rt *rapid.T) {
		o := bulky
		if rapid.IntRange(0, 9).Draw(rt, "huge") == 0 {
			o.Bulk = 1 << 17
		}
		fidelity(rt, o)
	})
	cov.Check(t, "many-files", 60, 1000, func(rt *rapid.T) {
		o := simple
		o.Files, o.Units, o.ReuseIDs = 60, 2, true
		fidelity(rt, o)
	})
	cov.Check(t, "wide", 150, 2500, func(rt *rapid.T) {
		o := full
		o.Cols, o.Units, o.Files, o.Rows, o.Big = 60, 3, 1, 10, 0
		fidelity(rt, o)
	})
	cov.Check(t, "every-format", 240, 4000, func(rt *rapid.T) {
		// the cross product of checksum and table id width, GTIDs drawn inside
		f := wire.Format{ServerVersion: "5.7.30-log", HeaderLen: 19, ID4: rapid.Bool().Draw(rt, "id4")}
		f.Alg = rapid.SampledFrom([]byte{wire.AlgOff, wire.AlgCRC32}).Draw(rt, "alg")
		f.Sizes = wire.PostHeaderSizes(f.ID4, rapid.SampledFrom([]int{35, 38, 41}).Draw(rt, "sizes"))
		o := full
		o.FixedFormat = &f
		fidelity(rt, o)
	})
	cov.Check(t, "altered-tables", 250, 4000, altered)
	cov.Check(t, "several-streamers", 100, 1500, func(rt *rapid.T) {
		abreast(rt, func() hist.Opts {
			o := full
			o.Big, o.Files = 0, 2
			if rapid.Bool().Draw(rt, "bulky") {
				o.Bulk = 600
			}
			return o
		})
	})
	cov.Check(t, "big-packets", 12, 150, func(rt *rapid.T) {
		o := full
		o.Files, o.Units, o.Tables, o.Cols, o.Rows = 1, 4, 1, 2, 3
		o.Kinds = func(t *rapid.T) vals.Kind { return vals.BlobCap(252, 4, 300) }
		o.Big = rapid.SampledFrom([]int{1 << 20, 1<<24 + 5000, 9 << 20}).Draw(rt, "size")
		fidelity(rt, o)
	})
}
