package rep

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Breeze0806/gobinlog/replication"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/vals"
	"verifharness/wire"
)

// A program may run several streamers: what one decodes must not depend on
// what another decodes at the same time.

// task decodes something and compares it; any goroutine may run it.
type task func(t fataler)

// report is a fataler for other goroutines.
type report struct{ msg string }

func (r *report) Helper() {}
func (r *report) Fatalf(format string, args ...any) {
	r.msg = fmt.Sprintf(format, args...)
	runtime.Goexit()
}

// atOnce runs lists of tasks in as many goroutines at the same time.
func atOnce(t fataler, lists [][]task, rounds int) {
	t.Helper()
	// each one must be right when it is alone
	for _, l := range lists {
		for _, f := range l {
			f(t)
		}
	}
	rs := make([]report, len(lists))
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i := range lists {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					rs[i].msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
				}
			}()
			ready.Add(1)
			for n := 0; int(ready.Load()) < len(lists) && n < 1<<20; n++ {
				runtime.Gosched()
			}
			for n := 0; n < rounds; n++ {
				for _, f := range lists[i] {
					f(&rs[i])
				}
			}
		}(i)
	}
	wg.Wait()
	for i := range rs {
		if rs[i].msg != "" {
			t.Fatalf("goroutine %d of %d that decode at the same time (each of them right when it is alone): %s", i, len(lists), rs[i].msg)
		}
	}
}

// sideBySide checks a kind of task in several goroutines.
func sideBySide(t *testing.T, quick, thorough, rounds int, gen func(rt *rapid.T) (task, string)) {
	cov.Check(t, "at-once", quick, thorough, func(rt *rapid.T) {
		n := rapid.IntRange(2, 6).Draw(rt, "goroutines")
		lists := make([][]task, n)
		var what []string
		for i := range lists {
			for m := rapid.IntRange(1, 4).Draw(rt, "tasks"); m > 0; m-- {
				f, w := gen(rt)
				lists[i] = append(lists[i], f)
				what = append(what, w)
			}
		}
		atOnce(rt, lists, rounds)
		cov.Class(fmt.Sprintf("%d goroutines at once", n))
		cov.Note(true, strings.Join(what, "|"), func() string { return fmt.Sprintf("%d goroutines: %s", n, strings.Join(what, " | ")) })
	})
}

// cellTask decodes a cell a few times over.
func cellTask(k vals.Kind, v vals.Val) task {
	return func(t fataler) {
		t.Helper()
		first := decodeCell(t, k, v, nil, nil)
		for i := 0; i < 8; i++ {
			got, n, err := replication.CellBytes(v.Enc, 0, k.Type, k.MetaVal, k.Unsigned)
			if err != nil || n != len(v.Enc) || !bytes.Equal(got, first) {
				t.Fatalf("%s: cell % x decodes to %s (%d bytes, error %v); before that to %s", k.Name, clip(v.Enc), wire.Trunc(got), n, err, wire.Trunc(first))
			}
		}
	}
}

// cellsAtOnce is sideBySide for values of some kinds.
func cellsAtOnce(t *testing.T, quick, thorough int, kind func(rt *rapid.T) vals.Kind) {
	sideBySide(t, quick, thorough, 25, func(rt *rapid.T) (task, string) {
		k := kind(rt)
		v := k.Gen(rt)
		return cellTask(k, v), fmt.Sprintf("%s % x", k.Name, clip(v.Enc[:min(len(v.Enc), 40)]))
	})
}
