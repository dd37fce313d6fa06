package e2e

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/mysql"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/wire"
)

// fault is what goes wrong in a stream attempt.
type fault struct {
	Kind  string
	At    int // where in the served stream, in 1/1000 of its packets
	Part  int // for truncated packets, in 1/1000 of the packet's bytes
	Call  int // which handler or mapper call
	Var   int // variant
	Sub   int // what is wrong with an undecodable event
	Delay time.Duration
	Slow  time.Duration // how long handler calls take
	Code  uint16
	State string
	Msg   string
}

func (f fault) String() string {
	s := f.Kind
	switch f.Kind {
	case "handler", "handler+cancel", "mapper", "columns", "cancel-handler", "handler-panic", "mapper-panic":
		s += fmt.Sprintf(" at call %d (variant %d)", f.Call, f.Var)
	case "err", "greet-refuse", "auth-refuse", "set-refuse":
		s += fmt.Sprintf(" %d %q at %d/1000", f.Code, f.Msg, f.At)
	case "truncate":
		s += fmt.Sprintf(" at %d/1000, %d/1000 of the packet", f.At, f.Part)
	case "undecodable":
		s += fmt.Sprintf(" at %d/1000 (variant %d, %d)", f.At, f.Sub, f.Part)
	default:
		s += fmt.Sprintf(" at %d/1000 (variant %d)", f.At, f.Var)
	}
	if f.Slow > 0 {
		s += fmt.Sprintf(", handler takes %v", f.Slow)
	}
	if f.Delay > 0 {
		s += fmt.Sprintf(", delay %v", f.Delay)
	}
	return s
}

// What may go wrong, by what must be reported for it.
var (
	cleanKinds  = []string{"eof", "eof-cut"}
	cancelKinds = []string{"cancel-sent", "cancel-idle", "cancel-handler", "cancel-before", "cancel-auth", "cancel-set", "cancel-part", "cancel-blocked"}
	errKinds    = []string{"err"}
	lossKinds   = []string{"close", "abort", "truncate", "badseq", "zero", "shorterr"}
	failKinds   = []string{"handler", "mapper", "columns", "invalid", "undecodable"}
	otherKinds  = []string{"handler+cancel", "unsupported"}
	panicKinds  = []string{"handler-panic", "mapper-panic"} // of the application, which goes on
	preKinds    = []string{"greet-refuse", "greet-drop", "greet-truncate", "auth-refuse", "auth-drop", "set-refuse", "set-drop", "set-truncate"}
	allKinds    = concat(cleanKinds, cancelKinds, errKinds, lossKinds, failKinds, otherKinds, preKinds)
)

func concat(l ...[]string) []string {
	var out []string
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

func in(k string, l []string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func genFault(rt *rapid.T, kinds []string) fault {
	f := fault{Kind: rapid.SampledFrom(kinds).Draw(rt, "fault")}
	f.At = rapid.IntRange(0, 1000).Draw(rt, "at")
	f.Part = rapid.IntRange(0, 999).Draw(rt, "part")
	f.Call = rapid.IntRange(1, 6).Draw(rt, "call")
	f.Var = rapid.IntRange(0, 11).Draw(rt, "variant")
	f.Sub = rapid.IntRange(0, undecodables-1).Draw(rt, "undecodable")
	if rapid.IntRange(0, 3).Draw(rt, "delayed") == 0 {
		f.Delay = time.Duration(rapid.IntRange(1, 2000).Draw(rt, "delay")) * time.Microsecond
	}
	if rapid.IntRange(0, 5).Draw(rt, "slowed") == 0 {
		f.Slow = time.Duration(rapid.IntRange(1, 1500).Draw(rt, "slow")) * time.Microsecond
	}
	f.Code = rapid.SampledFrom([]uint16{1236, 1045, 1227, 1, 65535, 1290, 1792, 3024, 1158}).Draw(rt, "code")
	f.State = rapid.SampledFrom([]string{"HY000", "42000", "08S01", ""}).Draw(rt, "state")
	f.Msg = rapid.SampledFrom([]string{"Could not find first log file name in binary log index file", "Slave can not handle replication events with the checksum", "100% wrong %d %s", "binlog truncated in the middle of event; consider out of disk space", "stream reached EOF", "context canceled", "x", "Ошибка \"quoted\" 'text'\n", "invalid connection"}).Draw(rt, "msg")
	if rapid.IntRange(0, 3).Draw(rt, "anymsg") == 0 {
		f.Msg = string(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "msgbytes"))
		f.Code = rapid.Uint16().Draw(rt, "anycode")
	}
	if rapid.IntRange(0, 5).Draw(rt, "longmsg") == 0 {
		f.Msg += strings.Repeat(" long", rapid.IntRange(1, 200).Draw(rt, "len"))
	}
	return f
}

// independent draws up to max faults that have nothing to do with one another.
func independent(rt *rapid.T, kinds []string, min, max int) []fault {
	var out []fault
	for n := rapid.IntRange(min, max).Draw(rt, "attempts"); n > 0; n-- {
		out = append(out, genFault(rt, kinds))
	}
	return out
}

// persistent draws faults of which one comes again and again, at the same spot.
func persistent(rt *rapid.T, kinds []string) []fault {
	out := independent(rt, kinds, 0, 2)
	f := genFault(rt, kinds)
	f.Delay, f.Slow = 0, 0
	if rapid.IntRange(0, 2).Draw(rt, "first") > 0 {
		f.Call = 1
	}
	for n := rapid.SampledFrom([]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129}).Draw(rt, "times"); n > 0; n-- {
		out = append(out, f)
	}
	cov.Class("the same fault again and again: " + f.Kind)
	return append(out, independent(rt, kinds, 0, 2)...)
}

// attempt is a Stream call with a planned fault.
type attempt struct {
	f     fault
	ctx   context.Context
	stop  context.CancelFunc
	Fired atomic.Bool // the fault took place
	// Sent counts complete event packets written.
	Sent atomic.Int64
	// before counts the transactions committed ahead of the fault.
	before atomic.Int64
	a      run.Attempt
}

var errHandler = errors.New("the handler does not want this: 100%")
var errMapper = errors.New("the mapper does not know: %d")

type emptyError struct{}

func (emptyError) Error() string { return "" }

// refusal is an error of a handler or table mapper, by variant: among them the
// errors that mean something else when they come from elsewhere.
func refusal(plain error, v int) error {
	switch v % 12 {
	case 1:
		return context.Canceled
	case 2:
		return fmt.Errorf("storing: %w", context.Canceled)
	case 3:
		return context.DeadlineExceeded
	case 4:
		return io.EOF
	case 5:
		return errors.New("stream reached EOF")
	case 6:
		return emptyError{}
	case 7:
		return mysql.ErrInvalidConn
	case 8:
		return fmt.Errorf("storing: %v", context.Canceled)
	case 9:
		return &net.OpError{Op: "read", Err: io.ErrUnexpectedEOF}
	}
	return plain
}

// leaving is how a callback ends without returning.
func leaving(v int, where string) func() {
	if v%4 == 3 {
		return runtime.Goexit
	}
	return func() { panic(run.Panic{Where: where}) }
}

// plan turns a fault into a Stream call; serve gives what the master would send
// for a dump request.
func plan(e *run.Env, f fault, serve func(d *master.Dump) ([]*hist.Packet, error), formatOf func(file string) wire.Format, pace func(w *master.Writer)) *attempt {
	x := &attempt{f: f}
	x.ctx, x.stop = context.WithCancel(context.Background())
	cancel := func() { x.Fired.Store(true); x.stop() }
	sc := master.Script{ErrCode: f.Code, ErrMsg: f.Msg}
	switch f.Kind {
	case "greet-refuse":
		sc.Greeting = master.Refuse
	case "greet-drop":
		sc.Greeting = master.Drop
	case "greet-truncate":
		sc.Greeting = master.Truncate
	case "auth-refuse":
		sc.Auth = master.Refuse
	case "auth-drop":
		sc.Auth = master.Drop
	case "set-refuse":
		sc.Set = master.Refuse
	case "set-drop":
		sc.Set = master.Drop
	case "set-truncate":
		sc.Set = master.Truncate
	case "cancel-auth":
		sc.Auth = master.Hang
		sc.OnAuth = func() { go func() { time.Sleep(f.Delay); cancel() }() }
	case "cancel-set":
		sc.Set = master.Hang
		sc.OnSet = func() { go func() { time.Sleep(f.Delay); cancel() }() }
	case "cancel-before":
		cancel()
	}
	if in(f.Kind, preKinds) {
		x.Fired.Store(true)
	}
	e.M.Arm(0, nil, 0)
	switch f.Kind {
	case "undecodable":
		e.M.Add(bad)
	case "mapper":
		e.M.Arm(f.Call, refusal(errMapper, f.Var), 0)
		e.M.WithTable(f.Part%3 == 0)
	case "columns":
		w := []int{1, -1, 2, -100}[f.Var%4]
		e.M.Arm(f.Call, nil, w)
	case "mapper-panic":
		e.M.Arm(f.Call, nil, 0)
		e.M.Leave(leaving(f.Var, "the table mapper"))
	}
	sc.Serve = func(d *master.Dump, w *master.Writer) {
		if pace != nil {
			pace(w)
		}
		ps, err := serve(d)
		if err != nil {
			w.Err(1236, "HY000", err.Error())
			w.WaitClosedFor(run.Limit)
			return
		}
		k := f.At * len(ps) / 1000
		if k > len(ps) {
			k = len(ps)
		}
		format := formatOf(d.File)
		x.before.Store(int64(len(hist.Expected(ps[:k]))))
		for i := 0; i <= len(ps); i++ {
			if i == k && x.inject(w, ps, i, format, cancel) {
				return
			}
			if i == len(ps) {
				break
			}
			if ps[i].FDE {
				format = formatOf(ps[i].File)
			}
			if w.Event(ps[i].Bytes) != nil {
				return
			}
			x.Sent.Add(1)
		}
		if in(f.Kind, cancelKinds) {
			// a blocking dump: nothing more to send, wait for the replica to leave
			switch f.Kind {
			case "cancel-handler", "cancel-idle", "cancel-blocked":
				w.Sleep(f.Delay + 200*time.Microsecond)
				cancel()
			}
			w.WaitClosedFor(run.Limit)
			return
		}
		w.EOFPacket(f.Var)
		w.WaitClosedFor(run.Limit)
	}
	x.a = run.Attempt{Script: sc, Ctx: x.ctx, Panics: in(f.Kind, panicKinds), Handler: func(i int, tx *gobinlog.Transaction) error {
		if f.Slow > 0 {
			time.Sleep(f.Slow)
		}
		if i+1 != f.Call {
			return nil
		}
		switch f.Kind {
		case "handler":
			x.Fired.Store(true)
			return refusal(errHandler, f.Var)
		case "handler-panic":
			x.Fired.Store(true)
			leaving(f.Var, "the handler")()
		case "handler+cancel":
			cancel()
			time.Sleep(f.Delay)
			return refusal(errHandler, f.Var)
		case "cancel-handler":
			cancel()
			time.Sleep(f.Delay)
		case "cancel-blocked":
			// cancelled from outside while the handler is busy
			go cancel()
			time.Sleep(f.Delay + time.Millisecond)
		}
		return nil
	}}
	return x
}

// committed is the number of transactions ahead of the fault.
func (x *attempt) committed() int { return int(x.before.Load()) }

// inject does at packet i what the fault is; it returns true when the
// connection's script ends there.
func (x *attempt) inject(w *master.Writer, ps []*hist.Packet, i int, format wire.Format, cancel func()) bool {
	f := x.f
	x2 := func() { x.Fired.Store(true) }
	switch f.Kind {
	case "eof-cut":
		x2()
		w.Sleep(f.Delay)
		w.EOFPacket(f.Var)
		w.WaitClosedFor(run.Limit)
		return true
	case "err":
		x2()
		w.Sleep(f.Delay)
		if f.State == "" && f.Msg[0] != '#' {
			w.Packet(append([]byte{0xff, byte(f.Code), byte(f.Code >> 8)}, f.Msg...))
		} else {
			w.Err(f.Code, (f.State + "HY000")[:5], f.Msg)
		}
		w.WaitClosedFor(run.Limit)
		return true
	case "shorterr":
		x2()
		// an ERR packet that ends in its error number or SQL state
		w.Packet(append([]byte{0xff, byte(f.Part), byte(f.Part % 7 * 5)}, "#HY00"...)[:1+f.Var%8])
		w.WaitClosedFor(run.Limit)
		return true
	case "zero":
		x2()
		w.Packet(nil)
		w.WaitClosedFor(run.Limit)
		return true
	case "badseq":
		x2()
		b := w.Frame([]byte{0, 1, 2, 3})
		b[3] += byte(1 + f.Var*20)
		w.RawBytes(b)
		w.WaitClosedFor(run.Limit)
		return true
	case "close":
		x2()
		w.Sleep(f.Delay)
		w.CloseWrite()
		if f.Var%2 == 0 {
			w.WaitClosedFor(run.Limit)
		}
		return true
	case "abort":
		x2()
		w.Sleep(f.Delay)
		w.Abort()
		return true
	case "truncate":
		x2()
		ev := []byte{0, 0, 0, 0}
		if i < len(ps) {
			ev = ps[i].Bytes
		}
		n := f.Part * master.EventFrameLen(ev) / 1000
		w.EventPart(ev, n)
		w.Sleep(f.Delay)
		if f.Var%2 == 0 {
			w.CloseWrite()
			w.WaitClosedFor(run.Limit)
		} else {
			w.Abort()
		}
		return true
	case "invalid":
		x2()
		var ev []byte
		if i < len(ps) {
			ev = append([]byte{}, ps[i].Bytes...)
		} else {
			ev = format.Frame(wire.Header{Type: wire.EvXID, ServerID: 1, NextPos: 77}, wire.U64(1))
		}
		w.Event(malform(ev, f.Var, f.Part))
	case "unsupported":
		x2()
		var ev []byte
		switch f.Var % 3 {
		case 0:
			ev = format.Frame(wire.Header{Type: 5, ServerID: 1, NextPos: 77}, append([]byte{2}, wire.U64(5)...))
		case 1:
			ev = format.Frame(wire.Header{Type: 13, ServerID: 1, NextPos: 77}, append(wire.U64(5), wire.U64(6)...))
		default:
			ev = format.Frame(wire.Header{Type: 29, ServerID: 1, NextPos: 77}, append([]byte{8}, "select 1"...))
		}
		w.Event(ev)
	case "undecodable":
		if i >= 2 || f.Sub != 6 { // a rotate event before the format description is not looked at
			x2()
		}
		for _, ev := range undecodable(format, f.Sub, f.Part) {
			w.Event(ev)
		}
	case "cancel-sent":
		cancel()
	case "cancel-idle":
		w.Sleep(f.Delay + 200*time.Microsecond)
		cancel()
		w.WaitClosedFor(run.Limit)
		return true
	case "cancel-part":
		if i < len(ps) {
			w.EventPart(ps[i].Bytes, 1+f.Part*(master.EventFrameLen(ps[i].Bytes)-1)/1000)
		}
		w.Sleep(f.Delay)
		cancel()
		w.WaitClosedFor(run.Limit)
		return true
	}
	return false
}

// malform makes a packet that the validity gate must refuse.
func malform(ev []byte, v, part int) []byte {
	ev = append([]byte{}, ev...)
	switch v % 6 {
	case 0: // shorter than its length field says
		return ev[:part*len(ev)/1000]
	case 1: // longer
		return append(ev, make([]byte, 1+part%50)...)
	case 2: // length field one off
		if v < 6 {
			ev[9]++
		} else {
			ev[9]--
		}
		return ev
	case 3: // no full header, though the length field may agree
		n := part % 19
		if n >= 13 {
			ev = ev[:n]
			ev[9], ev[10], ev[11], ev[12] = byte(n), 0, 0, 0
			return ev
		}
		return ev[:n]
	case 4: // garbage
		for i := range ev {
			ev[i] = byte(i*part + v)
		}
		ev[9], ev[10], ev[11], ev[12] = byte(len(ev)+1), 0xff, 0xff, 0x7f
		return ev
	default: // the length field in another byte order, or with high bits
		ev[12] |= 0x80
		return ev
	}
}

// undecodables is the number of kinds of undecodable events.
const undecodables = 36

// undecodable makes well-framed events whose bodies cannot be decoded.
func undecodable(f wire.Format, v, part int) [][]byte {
	frame := func(typ byte, body []byte) [][]byte {
		return [][]byte{f.Frame(wire.Header{Type: typ, ServerID: 1, NextPos: 77}, body)}
	}
	spec := wire.TableSpec{ID: 0x123456, DB: "db", Name: "t0", Cols: []wire.Col{{Type: 3}, {Type: 15, Meta: []byte{60, 0}, MetaVal: 60}}}
	rows := wire.RowsSpec{Kind: wire.Insert, ID: 0x7ffffffe, NCols: 1, Flags: 1, After: []bool{true}, Afters: []wire.Image{{{Enc: []byte{1, 2, 3, 4}}}}}
	switch v {
	case 0:
		rows.Kind = wire.Update
		rows.Before, rows.Befores = rows.After, rows.Afters
		return frame(wire.RowsType(wire.Update, false), rows.Body(f))
	case 1:
		rows.Kind = wire.Delete
		rows.Before, rows.Befores = rows.After, rows.Afters
		return frame(wire.RowsType(wire.Delete, false), rows.Body(f))
	case 2: // a query event that ends in its fixed part
		return frame(wire.EvQuery, wire.QuerySpec{DB: "db", SQL: "BEGIN"}.Body()[:7])
	case 3: // status variables longer than the event
		q := wire.QuerySpec{DB: "db", SQL: "BEGIN"}.Body()
		q[11], q[12] = 0xff, 0xff
		return frame(wire.EvQuery, q)
	case 4: // a table map that ends in a name
		return frame(wire.EvTableMap, spec.Body(f)[:11])
	case 5: // a table map that ends in the column types
		b := spec.Body(f)
		return frame(wire.EvTableMap, b[:len(b)-5])
	case 6: // a rotate event without a position
		return frame(wire.EvRotate, []byte{1, 2, 3})
	case 7: // rows event that ends in its table id
		return frame(wire.RowsType(wire.Insert, false), []byte{1, 2})
	case 8: // rows of a table id that was not announced
		return frame(wire.RowsType(wire.Insert, false), rows.Body(f))
	case 9: // the end of the stream's last statement is not there
		q := wire.QuerySpec{DB: "db", SQL: ""}.Body()
		return frame(wire.EvQuery, q[:len(q)-1])
	case 10: // a format description of a version nobody knows
		return formatEvent(f, func(b []byte) { b[0] = byte(part) | 8 })
	case 11: // a header that is shorter than a header
		return formatEvent(f, func(b []byte) { b[2+50+4] = byte(part % 19) })
	}
	// rows of a known table, of every kind of rows event
	kind := []wire.RowsKind{wire.Insert, wire.Update, wire.Delete}[v%3]
	v2 := part%2 == 1
	tm := wire.TableSpec{ID: 0x7ffffff0, DB: bad.DB, Name: bad.Name, Cols: []wire.Col{{Type: 3}, {Type: 15, Meta: []byte{0xff, 0xff}, MetaVal: 65535}}}
	num := wire.Cell{Enc: []byte{1, 2, 3, 4}}
	good, second := wire.Cell{Enc: []byte{1, 0, 'x'}}, wire.Cell{Enc: []byte{0xe0, 0xee, 'x'}}
	first := num
	r := wire.RowsSpec{Kind: kind, V2: v2, ID: tm.ID, Flags: 1, NCols: 2}
	present := []bool{true, true}
	empty := false
	var tail []byte
	cut := 0
	switch v / 3 {
	case 4: // a value that is much longer than the event
		if part%5 == 0 {
			tail = []byte{1, 2, 3}
		}
	case 5: // a value that ends some bytes after the event does
		n := 1 + part%300
		second = wire.Cell{Enc: append([]byte{byte(n), byte(n >> 8)}, make([]byte, n)...)}
		good = second
		cut = 1 + part%min(n, 8)
	case 6: // a number that ends after the event does
		present = []bool{true, false}
		cut = 1 + part%3
	case 7: // a column type nobody knows
		tm.Cols[1] = wire.Col{Type: []byte{200, 100, 20, 31, 232, 14 + 2 + 4}[part%6]}
		if part%4 == 0 {
			second, good = wire.Cell{}, wire.Cell{}
		}
	case 8: // no columns at all, yet data
		r.NCols, present, empty = 0, nil, true
		tail = []byte{1, 2, 3}
	case 9: // an image without columns, yet data
		present, empty = []bool{false, false}, true
		tail = []byte{1, 2, 3}
	case 10: // a document that is not JSON
		tm.Cols[1] = wire.Col{Type: 245, Meta: []byte{2}, MetaVal: 2}
		doc := [][]byte{{0x10}, {0xff}, {4}, {4, 9}, {5, 1}, {7, 1, 2, 3}, {12, 5, 'a'}, {12}, {0x02, 1, 0}, {2, 1, 0, 7},
			{0x00, 2, 0, 20, 0, 1}, {11, 1, 2, 3, 4}, {15, 7, 8, 1}, {15, 246, 2, 5}, {0x0d, 1},
			// values in an array whose opaque first one is shorter than its type
			{2, 2, 0, 24, 0, 15, 10, 0, 7, 16, 0, 10, 4, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
			{2, 2, 0, 24, 0, 15, 10, 0, 7, 15, 0, 246, 3, 18, 9, 0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9},
			{2, 2, 0, 24, 0, 15, 10, 0, 7, 18, 0, 12, 7, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}}[part%18]
		second = wire.Cell{Enc: append([]byte{byte(len(doc)), 0}, doc...)}
		good = second
	case 11: // rows with fewer columns than the table
		r.NCols, present = 1, []bool{true}
	}
	img := func(c wire.Cell) []wire.Image {
		if empty {
			return nil
		}
		var im wire.Image
		for i, c := range []wire.Cell{first, c} {
			if i < len(present) && present[i] {
				im = append(im, c)
			}
		}
		return []wire.Image{im}
	}
	if kind != wire.Insert {
		r.Before, r.Befores = present, img(second)
	}
	if kind != wire.Delete {
		r.After, r.Afters = present, img(second)
		if kind == wire.Update && v/3 != 4 && v/3 != 7 {
			// the image that goes wrong is the second one, or both
			r.Befores = img(good)
		}
		if kind == wire.Update && v/3 == 10 && part%2 == 0 {
			if part%4 == 0 {
				r.Afters = img(wire.Cell{Enc: []byte{2, 0, 4, 1}})
			} else {
				r.Befores = img(wire.Cell{Enc: []byte{2, 0, 4, 1}})
			}
		}
	}
	b := append(r.Body(f), tail...)
	b = b[:len(b)-cut]
	return append(frame(wire.EvTableMap, tm.Body(f)), frame(wire.RowsType(kind, v2), b)...)
}

// formatEvent makes a format description event with a change to its body.
func formatEvent(f wire.Format, change func(b []byte)) [][]byte {
	ev := f.FDE(wire.Header{ServerID: 1, NextPos: 77}, 4, 0)
	change(ev[19:])
	return [][]byte{ev}
}

// bad is a table of which undecodable rows are sent.
var bad = &hist.Table{DB: "bad db", Name: "bad", Cols: []hist.Column{{Name: "a"}, {Name: "b"}}}

// formats gives the format of each file.
func formats(h *hist.History) func(file string) wire.Format {
	return func(file string) wire.Format {
		if _, f := h.Find(file); f != nil {
			return f.Format
		}
		return h.Files[0].Format
	}
}
