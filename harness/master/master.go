// Package master is a fake MySQL master on the loopback interface: enough of
// the client/server protocol for the real driver to connect, run statements and
// request a binlog dump, with scripted behaviour per connection and a complete
// record of what the replica sent.
package master

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Dump is a decoded COM_BINLOG_DUMP.
type Dump struct {
	Pos      uint32
	Flags    uint16
	ServerID uint32
	File     string
	Raw      []byte
}

// Command is one command packet as received.
type Command struct {
	Code  byte
	Query string
	Dump  *Dump
	Raw   []byte
}

func (c Command) String() string {
	switch {
	case c.Dump != nil:
		return fmt.Sprintf("COM_BINLOG_DUMP{file %q pos %d server_id %d flags %#x}", c.Dump.File, c.Dump.Pos, c.Dump.ServerID, c.Dump.Flags)
	case c.Code == 3:
		return fmt.Sprintf("COM_QUERY{%s}", c.Query)
	case c.Code == 1:
		return "COM_QUIT"
	}
	return fmt.Sprintf("COM_%d{% x}", c.Code, c.Raw)
}

// Reply selects how a handshake step or statement is answered.
type Reply int

// Replies.
const (
	OK       Reply = iota
	Refuse         // ERR packet
	Drop           // close the connection
	Hang           // never answer (until the replica closes)
	Truncate       // send part of an answer, then close
)

// Script is the behaviour of one connection.
type Script struct {
	Greeting Reply // the initial handshake packet
	Auth     Reply // the reply to the client's authentication
	Set      Reply // the reply to SET statements
	// SetDelay and GreetDelay postpone the replies.
	GreetDelay, SetDelay time.Duration
	// ErrCode and ErrMsg are used by Refuse.
	ErrCode uint16
	ErrMsg  string
	// OnAuth and OnSet run when the client's authentication, or a SET statement,
	// has been received.
	OnAuth, OnSet func()
	// Serve answers a dump request; when it returns the connection is closed.
	Serve func(d *Dump, w *Writer)
}

// Conn is the record of one connection.
type Conn struct {
	Index int

	mu       sync.Mutex
	commands []Command
	conn     net.Conn
	closed   chan struct{} // the replica closed its end (or the connection broke)
	done     chan struct{} // the server is through with it
}

// Commands returns what the replica sent so far.
func (c *Conn) Commands() []Command {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Command(nil), c.commands...)
}

// Dumps returns the dump requests.
func (c *Conn) Dumps() []*Dump {
	var out []*Dump
	for _, x := range c.Commands() {
		if x.Dump != nil {
			out = append(out, x.Dump)
		}
	}
	return out
}

// Queries returns the statements.
func (c *Conn) Queries() []string {
	var out []string
	for _, x := range c.Commands() {
		if x.Code == 3 {
			out = append(out, x.Query)
		}
	}
	return out
}

// PeerClosed is closed when the replica's end of the socket was closed.
func (c *Conn) PeerClosed() <-chan struct{} { return c.closed }

// Server accepts replicas.
type Server struct {
	ln     net.Listener
	mu     sync.Mutex
	conns  []*Conn
	script func(i int) Script
	wg     sync.WaitGroup
	dying  atomic.Bool
}

// New starts a server.
func New() (*Server, error) {
	ln, err := listen()
	if err != nil {
		return nil, err
	}
	s := &Server{ln: ln}
	s.wg.Add(1)
	go s.loop()
	return s, nil
}

var listeners atomic.Uint32

// listen uses many loopback addresses, so that ports do not run out.
func listen() (net.Listener, error) {
	n := listeners.Add(1)
	var err error
	for try := 0; try < 300; try++ {
		a := fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()%200, n/200%250, 1+n%200)
		if try%2 == 1 {
			a = "127.0.0.1:0"
			time.Sleep(200 * time.Millisecond)
		}
		var ln net.Listener
		if ln, err = net.Listen("tcp", a); err == nil {
			return ln, nil
		}
	}
	return nil, err
}

// Addr is host:port.
func (s *Server) Addr() string { return s.ln.Addr().String() }

// DSN builds a data source name for this server.
func (s *Server) DSN() string { return "repl:secret@tcp(" + s.Addr() + ")/" }

// SetScript installs the behaviour; i counts connections since then.
func (s *Server) SetScript(f func(i int) Script) {
	s.mu.Lock()
	s.script = f
	s.conns = nil
	s.mu.Unlock()
}

// Conns returns the connections accepted since SetScript.
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn(nil), s.conns...)
}

// Reset breaks all connections and waits for their goroutines.
func (s *Server) Reset() {
	for _, c := range s.Conns() {
		c.finish()
		<-c.done
	}
	s.SetScript(nil)
}

// Close stops the server.
func (s *Server) Close() {
	s.dying.Store(true)
	s.ln.Close()
	s.Reset()
	s.wg.Wait()
}

func (s *Server) loop() {
	defer s.wg.Done()
	for {
		c, err := s.ln.Accept()
		if err != nil {
			if s.dying.Load() {
				return
			}
			time.Sleep(5 * time.Millisecond)
			continue
		}
		s.mu.Lock()
		f := s.script
		if f == nil {
			s.mu.Unlock()
			c.Close()
			continue
		}
		i := len(s.conns)
		rec := &Conn{Index: i, conn: c, closed: make(chan struct{}), done: make(chan struct{})}
		s.conns = append(s.conns, rec)
		s.mu.Unlock()
		go rec.serve(f(i))
	}
}

func (c *Conn) add(x Command) {
	c.mu.Lock()
	c.commands = append(c.commands, x)
	c.mu.Unlock()
}

// in is an unbounded-enough queue of packets read from the replica. Reading
// happens in its own goroutine so that the close of the replica's end is seen
// at once, whatever the script is doing.
type in struct {
	ch chan packet
}

type packet struct {
	seq  byte
	data []byte
}

func (c *Conn) reader(q *in) {
	defer close(q.ch)
	defer close(c.closed)
	for {
		seq, data, err := readPacket(c.conn)
		if err != nil {
			return
		}
		q.ch <- packet{seq, data}
	}
}

func readPacket(r io.Reader) (byte, []byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return 0, nil, err
	}
	return h[3], b, nil
}

// finish closes the connection. When the replica has closed its end already, a
// reset spares it the TIME_WAIT state, of which thousands of cases would make
// too many.
func (c *Conn) finish() {
	select {
	case <-c.closed:
		if t, ok := c.conn.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	default:
	}
	c.conn.Close()
}

func (c *Conn) serve(sc Script) {
	defer close(c.done)
	defer c.finish()
	q := &in{ch: make(chan packet, 256)}
	w := &Writer{c: c}
	go c.reader(q)
	if sc.GreetDelay > 0 {
		c.sleep(sc.GreetDelay)
	}
	fail := func(r Reply) bool {
		switch r {
		case Refuse:
			w.Err(sc.ErrCode, "HY000", sc.ErrMsg)
			c.linger()
			return true
		case Drop:
			return true
		case Truncate:
			w.RawBytes([]byte{20, 0, 0, w.seq, 10, 53})
			return true
		case Hang:
			<-c.closed
			return true
		}
		return false
	}
	if sc.Greeting == Refuse {
		// before the handshake an ERR packet has no SQL state marker
		b := []byte{0xff, byte(sc.ErrCode), byte(sc.ErrCode >> 8)}
		if sc.ErrMsg == "" || sc.ErrMsg[0] == '#' { // it would read as an SQL state
			b = append(b, "#HY000"...)
		}
		b = append(b, sc.ErrMsg...)
		w.Packet(b)
		c.linger()
		return
	}
	if fail(sc.Greeting) {
		return
	}
	w.Packet(greeting())
	p, ok := <-q.ch
	if !ok {
		return
	}
	w.seq = p.seq + 1
	if sc.OnAuth != nil {
		sc.OnAuth()
	}
	if fail(sc.Auth) {
		return
	}
	w.ok()
	for p := range q.ch {
		w.seq = p.seq + 1
		if len(p.data) == 0 {
			return
		}
		cmd := Command{Code: p.data[0], Raw: p.data}
		switch p.data[0] {
		case 1: // QUIT
			c.add(cmd)
			return
		case 3: // QUERY
			cmd.Query = string(p.data[1:])
			c.add(cmd)
			low := strings.ToLower(strings.TrimSpace(cmd.Query))
			if strings.HasPrefix(low, "select") {
				w.resultSet("4194304")
				continue
			}
			if sc.OnSet != nil {
				sc.OnSet()
			}
			if sc.SetDelay > 0 {
				c.sleep(sc.SetDelay)
			}
			if sc.Set == Refuse { // a refused statement does not end the session
				w.Err(sc.ErrCode, "HY000", sc.ErrMsg)
				continue
			}
			if fail(sc.Set) {
				return
			}
			w.ok()
		case 0x12: // BINLOG_DUMP
			if len(p.data) < 11 {
				c.add(cmd)
				w.Err(1236, "HY000", "short COM_BINLOG_DUMP")
				return
			}
			d := &Dump{Pos: binary.LittleEndian.Uint32(p.data[1:]), Flags: binary.LittleEndian.Uint16(p.data[5:]), ServerID: binary.LittleEndian.Uint32(p.data[7:]), File: string(p.data[11:]), Raw: p.data}
			cmd.Dump = d
			c.add(cmd)
			// keep draining so that later commands are recorded and the close is seen
			go func() {
				for p := range q.ch {
					x := Command{Raw: p.data}
					if len(p.data) > 0 {
						x.Code = p.data[0]
						if x.Code == 3 {
							x.Query = string(p.data[1:])
						}
						if x.Code == 0x12 && len(p.data) >= 11 {
							x.Dump = &Dump{Pos: binary.LittleEndian.Uint32(p.data[1:]), Flags: binary.LittleEndian.Uint16(p.data[5:]), ServerID: binary.LittleEndian.Uint32(p.data[7:]), File: string(p.data[11:]), Raw: p.data}
						}
					}
					c.add(x)
				}
			}()
			if sc.Serve != nil {
				sc.Serve(d, w)
			}
			return
		default:
			c.add(cmd)
			w.ok()
		}
	}
}

func (c *Conn) sleep(d time.Duration) {
	select {
	case <-time.After(d):
	case <-c.closed:
	}
}

// linger gives the replica the chance to read what was written before the
// socket is closed with unread input (which would reset it).
func (c *Conn) linger() {
	if t, ok := c.conn.(*net.TCPConn); ok {
		t.CloseWrite()
	}
	select {
	case <-c.closed:
	case <-time.After(2 * time.Second):
	}
}

func greeting() []byte {
	b := []byte{10}
	b = append(b, "5.7.30-log\x00"...)
	b = append(b, 9, 0, 0, 0)
	b = append(b, "abcdefgh\x00"...)
	caps := uint32(0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000 | 0x10000 | 0x20000)
	b = append(b, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, "ijklmnopqrst\x00"...)
	return append(b, "mysql_native_password\x00"...)
}

// Writer sends packets.
type Writer struct {
	c   *Conn
	seq byte
	// Chunk, when set, gives the sizes in which bytes are written to the socket;
	// Pause the delay between two such writes.
	Chunk func() int
	Pause func() time.Duration
}

// Closed reports whether the replica closed its end.
func (w *Writer) Closed() bool {
	select {
	case <-w.c.closed:
		return true
	default:
		return false
	}
}

// WaitClosed blocks until the replica closes its end.
func (w *Writer) WaitClosed() { <-w.c.closed }

// WaitClosedFor blocks until the replica closes its end, at most d.
func (w *Writer) WaitClosedFor(d time.Duration) bool {
	select {
	case <-w.c.closed:
		return true
	case <-time.After(d):
		return false
	}
}

// Sleep pauses unless the replica goes away.
func (w *Writer) Sleep(d time.Duration) {
	if d > 0 {
		w.c.sleep(d)
	}
}

// RawBytes writes bytes to the socket as they are.
func (w *Writer) RawBytes(b []byte) error {
	if w.Chunk == nil {
		_, err := w.c.conn.Write(b)
		return err
	}
	for len(b) > 0 {
		n := w.Chunk()
		if n <= 0 || n > len(b) {
			n = len(b)
		}
		if _, err := w.c.conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && w.Pause != nil {
			w.Sleep(w.Pause())
		}
	}
	return nil
}

const maxPacket = 1<<24 - 1

// Frame returns the bytes of a packet (split when it is too long) and advances
// the sequence number.
func (w *Writer) Frame(payload []byte) []byte {
	var out []byte
	for {
		n := len(payload)
		if n > maxPacket {
			n = maxPacket
		}
		out = append(out, byte(n), byte(n>>8), byte(n>>16), w.seq)
		out = append(out, payload[:n]...)
		w.seq++
		payload = payload[n:]
		if n < maxPacket {
			return out
		}
	}
}

// Packet sends a payload.
func (w *Writer) Packet(payload []byte) error { return w.RawBytes(w.Frame(payload)) }

// Event sends a binlog event.
func (w *Writer) Event(ev []byte) error {
	return w.Packet(append([]byte{0}, ev...))
}

// EventPart sends the first n bytes of an event packet (header included) only.
func (w *Writer) EventPart(ev []byte, n int) error {
	b := w.Frame(append([]byte{0}, ev...))
	if n > len(b) {
		n = len(b)
	}
	return w.RawBytes(b[:n])
}

// EventFrameLen is the number of bytes Event puts on the socket.
func EventFrameLen(ev []byte) int { return len(ev) + 5 + 4*((len(ev)+1)/maxPacket) }

// EOF sends an EOF packet.
func (w *Writer) EOF() error { return w.Packet([]byte{0xfe, 0, 0, 2, 0}) }

// EOFPacket sends an EOF packet in one of its forms.
func (w *Writer) EOFPacket(v int) error {
	return w.Packet([][]byte{{0xfe, 0, 0, 2, 0}, {0xfe}, {0xfe, 1, 0, 0x22, 0}}[v%3])
}

// Err sends an ERR packet.
func (w *Writer) Err(code uint16, state, msg string) error {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, state...)
	return w.Packet(append(b, msg...))
}

func (w *Writer) ok() error { return w.Packet([]byte{0, 0, 0, 2, 0, 0, 0}) }

func (w *Writer) resultSet(v string) error {
	name := "@@max_allowed_packet"
	col := []byte{3, 'd', 'e', 'f', 0, 0, 0, byte(len(name))}
	col = append(col, name...)
	col = append(col, 0, 12, 63, 0, 21, 0, 0, 0, 8, 0x80, 0, 0, 0, 0)
	for _, p := range [][]byte{{1}, col, {0xfe, 0, 0, 2, 0}, append([]byte{byte(len(v))}, v...), {0xfe, 0, 0, 2, 0}} {
		if err := w.Packet(p); err != nil {
			return err
		}
	}
	return nil
}

// CloseWrite half-closes the socket: the replica reads EOF.
func (w *Writer) CloseWrite() error {
	if t, ok := w.c.conn.(*net.TCPConn); ok {
		return t.CloseWrite()
	}
	return errors.New("not TCP")
}

// Abort resets the connection (RST).
func (w *Writer) Abort() {
	if t, ok := w.c.conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	w.c.conn.Close()
}
