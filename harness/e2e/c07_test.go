package e2e

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/Breeze0806/gobinlog"
	"pgregory.net/rapid"

	"verifharness/cov"
	"verifharness/hist"
	"verifharness/master"
	"verifharness/run"
	"verifharness/wire"
)

var announces = regexp.MustCompile(`(?is)^\s*set\s+(session\s+)?@master_binlog_checksum\s*:?=\s*(@@(global\.)?binlog_checksum|'crc32'|'none'|"crc32"|"none")\s*;?\s*$`)

// handshake checks the commands of one Stream call: when it got as far as the
// dump request, or always if must is set.
func handshake(o *run.Out, id uint32, where []hist.Pos, must bool) error {
	dumps := 0
	for _, c := range o.Conns {
		announced := false
		var log []string
		for _, cmd := range c.Commands() {
			log = append(log, cmd.String())
			if cmd.Code == 3 && announces.MatchString(cmd.Query) {
				announced = true
			}
			if cmd.Dump == nil {
				if cmd.Code == 0x12 || cmd.Code == 0x1e {
					return fmt.Errorf("undecodable dump request % x", cmd.Raw)
				}
				continue
			}
			dumps++
			d := cmd.Dump
			if !announced {
				return fmt.Errorf("the dump was requested without announcing checksum awareness before: %s", strings.Join(log, ", "))
			}
			if dumps > 1 {
				return fmt.Errorf("more than one dump request: %s", strings.Join(log, ", "))
			}
			if d.ServerID != id {
				return fmt.Errorf("the dump request carries server id %d, configured is %d", d.ServerID, id)
			}
			if d.Flags&1 != 0 {
				return fmt.Errorf("the dump request is not a blocking one (flags %#x)", d.Flags)
			}
			ok := false
			for _, p := range where {
				ok = ok || (p.File == d.File && uint32(p.Off) == d.Pos)
			}
			if !ok {
				return fmt.Errorf("the dump request asks for %q at %d, the streamer is at %v", d.File, d.Pos, where)
			}
		}
	}
	if must && dumps != 1 {
		return fmt.Errorf("%d dump requests on %d connections, should be one", dumps, len(o.Conns))
	}
	return nil
}

func genID(rt *rapid.T) uint32 {
	if rapid.Bool().Draw(rt, "edgeid") {
		return rapid.SampledFrom([]uint32{1, 0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 24, 255, 256, 65535, 65536, 0x01020304}).Draw(rt, "id")
	}
	return rapid.Uint32().Draw(rt, "id")
}

func genOff(rt *rapid.T) int64 {
	if rapid.Bool().Draw(rt, "edgeoff") {
		return rapid.SampledFrom([]int64{4, 5, 120, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 24, 65535, 65536, 0x01020304}).Draw(rt, "off")
	}
	return rapid.Int64Range(4, 1<<32-1).Draw(rt, "off")
}

func genFile(rt *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(rt, "filekind") {
	case 0:
		return fmt.Sprintf("mysql-bin.%06d", rapid.IntRange(1, 9999999).Draw(rt, "n"))
	case 1:
		return rapid.StringMatching(`[A-Za-z0-9_./ %-]{1,60}`).Draw(rt, "file")
	case 2:
		return strings.Repeat("b", rapid.IntRange(1, 512).Draw(rt, "len"))
	case 3:
		return rapid.StringN(1, 40, 200).Draw(rt, "file")
	}
	b := rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(rt, "file")
	for i := range b {
		if b[i] == 0 {
			b[i] = 1
		}
	}
	return string(b)
}

// configured: any server id, file name and offset; the master answers with at
// most one transaction and at most one rotation, so that the resume position is
// known exactly.
// dsns are schemas and parameters of the connection.
var dsns = []string{"", "", "", "shop", "?charset=utf8mb4,utf8", "db?timeout=30s&readTimeout=60s&writeTimeout=30s", "?autocommit=1&wait_timeout=28800", "?parseTime=true&loc=UTC", "x?multiStatements=true&interpolateParams=true", "?collation=utf8mb4_general_ci&clientFoundRows=true&maxAllowedPacket=1000000"}

func configured(rt *rapid.T) {
	id := genID(rt)
	at := hist.Pos{File: genFile(rt), Off: genOff(rt)}
	srv := run.NewEnv(rt, nil, at)
	defer srv.Close()
	srv.ID = id
	srv.DSN = rapid.SampledFrom(dsns).Draw(rt, "dsn")
	srv.NewStreamer(rt, at)
	where := []hist.Pos{at}
	n := rapid.IntRange(1, 4).Draw(rt, "attempts")
	var log []string
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 3).Draw(rt, "reposition") == 0 {
			at = hist.Pos{File: genFile(rt), Off: genOff(rt)}
			if rapid.Bool().Draw(rt, "samefile") { // back or forth in the current file
				at.File = where[0].File
				if rapid.Bool().Draw(rt, "sameoffset") {
					at.Off = where[0].Off
				}
			}
			srv.S.SetBinlogPosition(gobinlog.Position{Filename: at.File, Offset: at.Off})
			where = []hist.Pos{at}
			log = append(log, fmt.Sprintf("SetBinlogPosition(%v)", at))
		}
		f := wire.Format{ServerVersion: "5.7.30-log", HeaderLen: 19, Sizes: wire.PostHeaderSizes(false, 38)}
		if rapid.Bool().Draw(rt, "crc") {
			f.Alg = wire.AlgCRC32
		}
		txn := rapid.IntRange(0, 2).Draw(rt, "txn")
		rot := rapid.IntRange(0, 3).Draw(rt, "rotate")
		next, target := genOff(rt), hist.Pos{File: genFile(rt), Off: genOff(rt)}
		if rapid.Bool().Draw(rt, "usual") {
			target.Off = 4
		}
		refuse := rapid.IntRange(0, 3).Draw(rt, "refuse") == 0
		end := rapid.SampledFrom([]string{"eof", "err", "close", "abort"}).Draw(rt, "end")
		before := where
		out := srv.Run(rt, run.Attempt{Script: master.Script{Serve: func(d *master.Dump, w *master.Writer) {
			w.Event(f.Frame(wire.Header{Type: wire.EvRotate, ServerID: 1, Flags: wire.FlagArtficial}, wire.RotateBody(uint64(d.Pos), d.File)))
			w.Event(f.FDE(wire.Header{ServerID: 1}, 4, 0))
			if txn > 0 {
				w.Event(f.Frame(wire.Header{Timestamp: 9, Type: wire.EvQuery, ServerID: 1, NextPos: uint32(next)}, wire.QuerySpec{DB: "db", SQL: "CREATE TABLE x (a int)"}.Body()))
			}
			if rot == 0 {
				w.Event(f.Frame(wire.Header{Timestamp: 9, Type: wire.EvRotate, ServerID: 1, NextPos: uint32(next) + 50}, wire.RotateBody(uint64(target.Off), target.File)))
			}
			switch end {
			case "eof":
				w.EOF()
			case "err":
				w.Err(1236, "HY000", "no")
			case "close":
				w.CloseWrite()
			case "abort":
				w.Abort()
				return
			}
			w.WaitClosedFor(run.Limit)
		}}, Handler: func(int, *gobinlog.Transaction) error {
			if refuse {
				return errHandler
			}
			return nil
		}})
		log = append(log, fmt.Sprintf("txn %v to %d, rotate %v to %v, refuse %v, end %s: %s", txn > 0, next, rot == 0, target, refuse, end, out.Describe()))
		if err := handshake(out, id, before, true); err != nil {
			rt.Fatalf("attempt %d: %v\nserver id %d\n%s", i+1, err, id, strings.Join(log, "\n"))
		}
		// where the streamer is now
		if txn > 0 && len(out.Accepted()) == 1 {
			p := hist.Pos{File: before[0].File, Off: next}
			for _, d := range out.Conns[0].Dumps() {
				p.File = d.File
			}
			where = []hist.Pos{p}
		}
		if rot == 0 && !(txn > 0 && refuse) {
			where = append(where, target) // when the rotation has been read
		}
		if len(where) > 1 && end == "eof" {
			cov.Class("after a rotation")
		}
	}
	cov.Class(fmt.Sprintf("server id above 2^31 %v", id >= 1<<31))
	cov.Class(fmt.Sprintf("offset above 2^31 %v", at.Off >= 1<<31))
	cov.Note(true, fmt.Sprint(id, at, log), func() string { return fmt.Sprintf("id %d, %v; %s", id, at, strings.Join(log, " | ")) })
}

// resumed: sequences of failing attempts over generated histories, each of them
// with one dump request for the model's resume position.
func resumed(rt *rapid.T, kinds []string) {
	resumedOf(rt, func() []fault { return independent(rt, kinds, 2, 4) })
}

func resumedOf(rt *rapid.T, faults func() []fault) {
	h := hist.Generate(rt, simple)
	start := genStart(rt, h)
	l := newLedger(rt, h, start)
	e := run.NewEnv(rt, h.Tables, start)
	defer e.Close()
	e.ID = genID(rt)
	e.NewStreamer(rt, start)
	serve := func(d *master.Dump) ([]*hist.Packet, error) { return h.Serve(d.File, d.Pos) }
	reached := 0
	for i, f := range faults() {
		x := plan(e, f, serve, formats(h), nil)
		x.a.NoError = rapid.Bool().Draw(rt, "noerror")
		where := l.resume(start)
		out := e.Run(rt, x.a)
		x.stop()
		must := !in(f.Kind, preKinds) && !in(f.Kind, cancelKinds)
		if err := handshake(out, e.ID, where, must); err != nil {
			l.fatalf(rt, "attempt %d [%v]: %v", i+1, f, err)
		}
		for _, c := range out.Conns {
			reached += len(c.Dumps())
			if in(f.Kind, []string{"set-refuse", "set-drop", "set-truncate", "cancel-set"}) && len(c.Dumps()) > 0 {
				l.fatalf(rt, "attempt %d [%v]: the dump was requested although the master did not accept the statement that announces checksum awareness", i+1, f)
			}
		}
		for _, c := range out.Calls {
			if c.Err == nil && l.acc < len(l.want) {
				l.acc++
			}
		}
		l.log = append(l.log, fmt.Sprintf("[%v] %s", f, out.Describe()))
	}
	cov.Note(reached >= 2, digest(l.all, l.log), func() string { return strings.Join(l.log, " | ") })
}

func TestC07(t *testing.T) {
	cov.Rule("at least one dump request with a drawn configuration was decoded (for resumed sequences: at least two)")
	patienceC07(t)
	veryLong(t, []string{"transactions", "files"}, longHandshake)
	cov.Check(t, "configurations", 2000, 40000, configured)
	cov.Check(t, "resumed", 800, 15000, func(rt *rapid.T) { resumed(rt, concat(allKinds, panicKinds)) })
	cov.Check(t, "persistent", 80, 1600, func(rt *rapid.T) {
		resumedOf(rt, func() []fault { return persistent(rt, concat(allKinds, panicKinds)) })
	})
	cov.Check(t, "clean-ends", 200, 4000, func(rt *rapid.T) { resumed(rt, concat(cleanKinds, lossKinds, []string{"handler"})) })
}
