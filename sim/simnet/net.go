// Package simnet is the simulated network: reliable ordered byte streams (TCP as
// the code under test sees it) whose segmentation, delays and failures the simulator decides.
package simnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
	xtime "verif.local/sim/shim/time"
)

// Net is the network of a world.
type Net struct {
	w         *rt.World
	listeners map[string]*Listener
	conns     []*Conn
	parts     map[string]int64 // partitioned host pair -> heal time (-1 = until told)
	nextPort  int
	nextID    int

	// Parameters, set by the plan.
	MinLat, Jitter int64   // ns
	SegP           float64 // probability that a write is cut into pieces
	SmallSeg       bool    // pieces are mostly tiny
	ReadP          float64 // probability that a read returns less than there is
	DelayP         float64 // probability that a segment is delayed
	DelayMax       int64
	ResetP         float64 // probability that a connection is reset at a write or read
	AcceptErrP     float64
	AcceptErrMax   int
	RefuseP        float64
	Window         int
	Quiet          bool // no more faults
	acceptErrs     int
	OnEvent        func(kind string, c *Conn)
	DialTime       map[*rt.Node]int64 // time spent connecting
	Sent           int64              // bytes put on the wire
	OnSend         func()             // must not block
}

// Of returns the network of the world.
func Of(w *rt.World) *Net {
	n, _ := w.Ext["net"].(*Net)
	if n == nil {
		n = &Net{w: w, listeners: map[string]*Listener{}, parts: map[string]int64{}, Window: 65536, DialTime: map[*rt.Node]int64{}, MinLat: 100000, nextPort: 40000}
		w.Ext["net"] = n
	}
	return n
}

// Addr is a simulated address.
type Addr struct{ S string }

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return a.S }

type pipe struct {
	buf      []byte
	inflight int
	wire     []item // in flight, in order
	rstHeld  bool
	last     int64 // arrival time of the last segment
	fin      bool  // end of stream after buf
	rst      bool  // reset: error after buf
	rq, wq   rt.WaitQ
	total    int64 // bytes ever written
	read     int64 // bytes ever read
}

// Conn is one end of a simulated connection.
type Conn struct {
	n         *Net
	ID        int
	Node      *rt.Node
	gen       int
	in, out   *pipe
	Peer      *Conn
	laddr     string
	raddr     string
	closed    bool // by the local process
	hostDead  bool
	rd, wd    int64 // deadlines, 0 none, -1 passed
	Opened    int64
	ClosedAt  int64
	LastWrite int64 // time of the last completed write
	Handling  bool  // a handler works for it (set by the harness)
	HandledAt int64 // when the last handler returned (set by the harness)
	AcceptAt  int64
	EofAt     int64 // time at which the peer's FIN or RST arrived
	side      string
	ByCrash   bool // closed by a crash of its process or host
}

func (c *Conn) host() string { return c.Node.Name }

type netErr struct {
	s       string
	timeout bool
}

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

func operr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: Addr{c.laddr}, Addr: Addr{c.raddr}, Err: err}
}

func pair(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

// Partition cuts two hosts off from each other until the time (or -1).
func (n *Net) Partition(a, b string, until int64) {
	n.parts[pair(a, b)] = until
	n.w.Count("fault.net.partition")
	n.w.Note("partition %s %s until %d", a, b, until)
}

// Heal ends a partition.
func (n *Net) Heal(a, b string) {
	delete(n.parts, pair(a, b))
	n.w.Note("heal %s %s", a, b)
	for _, c := range n.conns {
		if pair(c.host(), c.Peer.host()) != pair(a, b) {
			continue
		}
		if c.out.rstHeld {
			c.out.rstHeld = false
			c.rstAt(n.w.Now() + n.MinLat)
		}
		if len(c.out.wire) > 0 && c.out.wire[0].held {
			c.out.wire[0].at = n.w.Now() + n.MinLat
			n.w.At(c.out.wire[0].at, c.pump)
		}
	}
}

// cut tells whether the hosts cannot reach each other now, and until when.
func (n *Net) cut(a, b string) (bool, int64) {
	u, ok := n.parts[pair(a, b)]
	if !ok {
		return false, 0
	}
	if u >= 0 && u <= n.w.Now() {
		delete(n.parts, pair(a, b))
		return false, 0
	}
	return true, u
}

// Listener is a simulated listening socket.
type Listener struct {
	n      *Net
	addr   string
	Node   *rt.Node
	gen    int
	queue  []*Conn
	q      rt.WaitQ
	closed bool
	dl     int64
}

func (n *Net) Listen(addr string) (*Listener, error) {
	if rt.Dying() {
		return nil, errors.New("dead")
	}
	n.w.Pause()
	if addr == "" || strings.HasSuffix(addr, ":0") {
		n.nextPort++
		addr = fmt.Sprintf("%s:%d", strings.TrimSuffix(addr, ":0"), n.nextPort)
	}
	if l := n.listeners[addr]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: Addr{addr}, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	t := n.w.Cur()
	l := &Listener{n: n, addr: addr, Node: t.Node, gen: t.Node.Gen}
	n.listeners[addr] = l
	n.w.Note("listen %s", addr)
	return l, nil
}

func (l *Listener) Addr() net.Addr { return Addr{l.addr} }

func (l *Listener) SetDeadline(t time.Time) error {
	l.dl = dl(t)
	l.n.w.WakeAll(&l.q)
	return nil
}

// Accept waits for a connection.
func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *Listener) AcceptTCP() (*Conn, error) {
	w := l.n.w
	if rt.Dying() {
		return nil, errors.New("dead")
	}
	w.Pause()
	if l.n.AcceptErrP > 0 && !l.n.Quiet && l.n.acceptErrs < l.n.AcceptErrMax && w.Chance("net.accepterr", l.n.AcceptErrP) {
		l.n.acceptErrs++
		w.Count("fault.net.accept_error")
		w.Note("accept fails")
		e := []error{syscall.EMFILE, syscall.ECONNABORTED, syscall.ENFILE}[w.Uniform("net.acceptkind", 3)]
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: Addr{l.addr}, Err: os.NewSyscallError("accept4", e)}
	}
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: Addr{l.addr}, Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.Node = w.Cur().Node
			c.gen = c.Node.Gen
			c.AcceptAt = w.Now()
			w.Note("accept c%d", c.ID)
			return c, nil
		}
		if l.dl != 0 && (l.dl < 0 || l.dl <= w.Now()) {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: Addr{l.addr}, Err: os.ErrDeadlineExceeded}
		}
		w.Wait(&l.q, l.dl)
	}
}

func (l *Listener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: Addr{l.addr}, Err: net.ErrClosed}
	}
	l.closed = true
	if l.n.listeners[l.addr] == l {
		delete(l.n.listeners, l.addr)
	}
	for _, c := range l.queue {
		c.abort()
	}
	if !rt.Dying() {
		l.n.w.WakeAll(&l.q)
	}
	return nil
}

const synTimeout = 127 * int64(time.Second)

// Dial connects; deadline 0 = the operating system's own limit.
func (n *Net) Dial(addr string, deadline int64) (*Conn, error) {
	w := n.w
	if rt.Dying() {
		return nil, errors.New("dead")
	}
	w.Pause()
	t := w.Cur()
	limit := w.Now() + synTimeout
	var lerr error = os.NewSyscallError("connect", syscall.ETIMEDOUT)
	if deadline != 0 && deadline < limit {
		limit = deadline
		lerr = &netErr{"i/o timeout", true}
	}
	fail := func(err error) (*Conn, error) {
		w.Note("dial %s: %v", addr, err)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: Addr{addr}, Err: err}
	}
	host := hostOf(addr)
	t0 := w.Now()
	defer func() { n.DialTime[t.Node] += w.Now() - t0 }()
	wait := n.lat()
	for {
		if w.Now() >= limit {
			return fail(lerr)
		}
		w.Sleep(wait)
		cut, until := n.cut(t.Node.Name, host)
		down := false
		if d, ok := n.w.Ext["down."+host].(bool); ok && d {
			down = true
		}
		if !cut && !down {
			break
		}
		// SYN retransmission
		wait = int64(time.Second)
		if until > 0 && until-w.Now() < wait && until > w.Now() {
			wait = until - w.Now()
		}
	}
	if w.Now() >= limit && deadline != 0 {
		return fail(lerr)
	}
	if n.RefuseP > 0 && !n.Quiet && w.Chance("net.refuse", n.RefuseP) {
		w.Count("fault.net.refused")
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l := n.listeners[addr]
	if l == nil || l.closed || l.Node.Gen != l.gen {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextID++
	n.nextPort++
	a, b := &pipe{}, &pipe{}
	id := n.nextID
	cl := &Conn{n: n, ID: id, Node: t.Node, gen: t.Node.Gen, in: a, out: b, laddr: fmt.Sprintf("%s:%d", t.Node.Name, n.nextPort), raddr: addr, Opened: w.Now(), side: "client"}
	sv := &Conn{n: n, ID: id, Node: l.Node, gen: l.Node.Gen, in: b, out: a, laddr: addr, raddr: cl.laddr, Opened: w.Now(), side: "server"}
	cl.Peer, sv.Peer = sv, cl
	n.conns = append(n.conns, cl, sv)
	l.queue = append(l.queue, sv)
	w.WakeOne(&l.q)
	w.Count("net.connections")
	w.Note("dial %s: c%d", addr, id)
	if n.OnEvent != nil {
		n.OnEvent("dial", cl)
	}
	return cl, nil
}

func hostOf(addr string) string {
	if i := strings.LastIndex(addr, ":"); i >= 0 {
		return addr[:i]
	}
	return addr
}

func (n *Net) lat() int64 {
	l := n.MinLat
	if n.Jitter > 0 {
		l += n.Jitter * int64(n.w.Choose("net.jitter", 100, func(r *rt.Rand) int { return r.Intn(101) })) / 100
	}
	return l
}

func (c *Conn) alive() bool { return !c.closed && !c.hostDead }

func expired(d, now int64) bool { return d != 0 && (d < 0 || d <= now) }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(xtime.Base))
	if d <= 0 {
		return -1
	}
	return d
}

func (c *Conn) SetDeadline(t time.Time) error {
	if c.closed {
		return operr("set", c, net.ErrClosed)
	}
	c.rd, c.wd = dl(t), dl(t)
	c.wake()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return operr("set", c, net.ErrClosed)
	}
	c.rd = dl(t)
	c.wake()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return operr("set", c, net.ErrClosed)
	}
	c.wd = dl(t)
	c.wake()
	return nil
}

func (c *Conn) wake() {
	if !rt.Dying() {
		c.n.w.WakeAll(&c.in.rq)
		c.n.w.WakeAll(&c.out.wq)
	}
}

func (c *Conn) LocalAddr() net.Addr  { return Addr{c.laddr} }
func (c *Conn) RemoteAddr() net.Addr { return Addr{c.raddr} }

func (c *Conn) SetKeepAlive(b bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *Conn) SetNoDelay(b bool) error                  { return nil }
func (c *Conn) SetLinger(s int) error                    { return nil }
func (c *Conn) SetReadBuffer(n int) error                { return nil }
func (c *Conn) SetWriteBuffer(n int) error               { return nil }
func (c *Conn) ReadFrom(r io.Reader) (int64, error)      { return io.Copy(struct{ io.Writer }{c}, r) }

var errTimeout error = &netErr{"i/o timeout", true}

func (e *netErr) Is(t error) bool { return e.timeout && t == os.ErrDeadlineExceeded }

func (c *Conn) maybeReset(where string) {
	n := c.n
	if n.ResetP > 0 && !n.Quiet && !c.in.rst && n.w.Chance("net.reset", n.ResetP) {
		n.w.Count("fault.net.reset")
		n.w.Note("c%d reset by the network at %s", c.ID, where)
		c.resetBoth()
	}
}

// resetBoth breaks the connection for both ends.
func (c *Conn) resetBoth() {
	c.gotRST()
	c.Peer.gotRST()
}

func (c *Conn) gotRST() {
	if c.in.rst {
		return
	}
	c.in.rst = true
	c.out.rst = true
	if c.EofAt == 0 {
		c.EofAt = c.n.w.Now()
	}
	c.n.w.WakeAll(&c.in.rq)
	c.n.w.WakeAll(&c.out.wq)
	if c.n.OnEvent != nil {
		c.n.OnEvent("rst", c)
	}
}

// Read reads what has arrived.
func (c *Conn) Read(p []byte) (int, error) {
	if rt.Dying() {
		return 0, io.EOF
	}
	w := c.n.w
	w.Pause()
	c.maybeReset("read")
	for {
		if c.closed {
			return 0, operr("read", c, net.ErrClosed)
		}
		if expired(c.rd, w.Now()) {
			w.Count("net.read_timeouts")
			w.Note("c%d %s read times out", c.ID, c.side)
			return 0, operr("read", c, errTimeout)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			k := min(len(p), len(c.in.buf))
			if c.n.ReadP > 0 && k > 1 {
				v := w.Choose("net.read", k-1, func(r *rt.Rand) int {
					if !r.P(c.n.ReadP) {
						return 0
					}
					if r.P(0.6) {
						return 1 + r.Intn(min(k-1, 6))
					}
					return 1 + r.Intn(k-1)
				})
				if v > 0 {
					w.Count("fault.net.short_read")
					k = v
				}
			}
			copy(p, c.in.buf[:k])
			c.in.buf = c.in.buf[k:]
			c.in.read += int64(k)
			w.WakeAll(&c.in.wq)
			w.Note("c%d %s read %d", c.ID, c.side, k)
			return k, nil
		}
		if c.in.rst {
			return 0, operr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.in.fin {
			w.Note("c%d %s read EOF", c.ID, c.side)
			return 0, io.EOF
		}
		d := c.rd
		w.Wait(&c.in.rq, d)
	}
}

// Write queues the bytes for delivery; it blocks when the peer does not take them.
func (c *Conn) Write(p []byte) (int, error) {
	if rt.Dying() {
		return len(p), nil
	}
	w := c.n.w
	w.Pause()
	c.maybeReset("write")
	n := 0
	for {
		if c.closed {
			return n, operr("write", c, net.ErrClosed)
		}
		if expired(c.wd, w.Now()) {
			w.Count("net.write_timeouts")
			w.Note("c%d %s write times out after %d", c.ID, c.side, n)
			return n, operr("write", c, errTimeout)
		}
		if c.out.rst {
			return n, operr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if n == len(p) {
			break
		}
		space := c.n.Window - len(c.out.buf) - c.out.inflight
		if space <= 0 {
			w.Count("fault.net.backpressure")
			w.Wait(&c.out.wq, c.wd)
			continue
		}
		k := min(space, len(p)-n)
		if c.n.SegP > 0 && k > 1 {
			v := w.Choose("net.seg", k-1, func(r *rt.Rand) int {
				if !r.P(c.n.SegP) {
					return 0
				}
				if c.n.SmallSeg || r.P(0.5) {
					return 1 + r.Intn(min(k-1, 5))
				}
				return 1 + r.Intn(k-1)
			})
			if v > 0 {
				w.Count("fault.net.segmented")
				k = v
			}
		}
		seg := append([]byte(nil), p[n:n+k]...)
		n += k
		c.send(seg)
		if n == len(p) {
			break
		}
	}
	c.LastWrite = w.Now()
	w.Note("c%d %s write %d", c.ID, c.side, n)
	return n, nil
}

// send puts one segment on the wire.
func (c *Conn) send(seg []byte) {
	n := c.n
	w := n.w
	at := w.Now() + n.lat()
	if n.DelayP > 0 && !n.Quiet {
		v := w.Choose("net.delay", 1000, func(r *rt.Rand) int {
			if !r.P(n.DelayP) {
				return 0
			}
			return 1 + r.Intn(1000)
		})
		if v > 0 {
			at += n.DelayMax * int64(v) / 1000
			w.Count("fault.net.delay")
		}
	}
	if at < c.out.last {
		at = c.out.last
	}
	c.out.last = at
	c.out.inflight += len(seg)
	c.out.total += int64(len(seg))
	n.Sent += int64(len(seg))
	if n.OnSend != nil {
		n.OnSend()
	}
	c.out.wire = append(c.out.wire, item{data: seg, at: at})
	w.At(at, c.pump)
}

// item is a segment, or the end of the stream, on its way.
type item struct {
	data []byte
	fin  bool
	at   int64
	held bool // by a partition
}

// pump delivers what has arrived, in order.
func (c *Conn) pump() {
	n := c.n
	for len(c.out.wire) > 0 {
		it := &c.out.wire[0]
		if it.at > n.w.Now() {
			return
		}
		if cut, until := n.cut(c.host(), c.Peer.host()); cut {
			// TCP retransmits: it arrives some time after the partition heals
			if !it.held {
				n.w.Count("fault.net.held_by_partition")
			}
			it.held = true
			if until >= 0 {
				it.at = until + n.MinLat
				n.w.At(it.at, c.pump)
			}
			return
		}
		x := *it
		c.out.wire = c.out.wire[1:]
		if x.fin {
			c.arriveFin()
		} else {
			c.arrive(x.data)
		}
	}
}

func (c *Conn) arrive(seg []byte) {
	p := c.Peer
	if p.hostDead {
		if p.rebooted() {
			// the rebooted host does not know this connection
			c.gotRST()
		}
		return // never acknowledged
	}
	c.out.inflight -= len(seg)
	if p.closed {
		// data for a closed socket
		c.gotRST()
		return
	}
	if c.out.rst {
		return
	}
	c.out.buf = append(c.out.buf, seg...)
	c.n.w.WakeAll(&c.out.rq)
}

func (c *Conn) arriveFin() {
	p := c.Peer
	if p.hostDead || p.closed {
		return
	}
	c.out.fin = true
	if p.EofAt == 0 {
		p.EofAt = c.n.w.Now()
	}
	c.n.w.WakeAll(&c.out.rq)
	if c.n.OnEvent != nil {
		c.n.OnEvent("fin", p)
	}
}

func (c *Conn) rebooted() bool {
	d, _ := c.n.w.Ext["down."+c.Node.Name].(bool)
	return !d
}

// ctlSeg sends FIN (after the data in flight) or RST.
func (c *Conn) ctlSeg(rst bool) {
	n := c.n
	at := n.w.Now() + n.lat()
	if !rst {
		if at < c.out.last {
			at = c.out.last
		}
		c.out.last = at
		c.out.wire = append(c.out.wire, item{fin: true, at: at})
		n.w.At(at, c.pump)
		return
	}
	c.rstAt(at)
}

func (c *Conn) rstAt(at int64) {
	n := c.n
	n.w.At(at, func() {
		p := c.Peer
		if cut, until := n.cut(c.host(), p.host()); cut {
			if until >= 0 {
				c.rstAt(until + n.MinLat)
			} else {
				c.out.rstHeld = true
			}
			return
		}
		if !p.hostDead {
			p.gotRST()
		}
	})
}

// Close closes the local end.
func (c *Conn) Close() error {
	if c.closed {
		return operr("close", c, net.ErrClosed)
	}
	if c.hostDead {
		return nil
	}
	if rt.Dying() {
		return nil
	}
	c.closed = true
	c.ClosedAt = c.n.w.Now()
	c.n.w.Note("c%d %s close", c.ID, c.side)
	c.wake()
	c.n.w.WakeAll(&c.out.wq)
	if c.in.rst {
		return nil
	}
	c.ctlSeg(len(c.in.buf) > 0)
	return nil
}

// CloseWrite sends FIN and keeps reading.
func (c *Conn) CloseWrite() error {
	if c.closed {
		return operr("close", c, net.ErrClosed)
	}
	c.ctlSeg(false)
	return nil
}
func (c *Conn) CloseRead() error { return nil }

// Abort resets the connection from this end (RST to the peer).
func (c *Conn) Abort() {
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedAt = c.n.w.Now()
	c.n.w.Count("fault.net.abort")
	c.n.w.Note("c%d %s abort", c.ID, c.side)
	c.ctlSeg(true)
}

func (c *Conn) abort() {
	c.closed = true
	c.Peer.gotRST()
}

// Closed tells if this end was closed.
func (c *Conn) Closed() bool     { return c.closed }
func (c *Conn) Dead() bool       { return c.closed || c.hostDead }
func (c *Conn) Side() string     { return c.side }
func (c *Conn) Unread() int      { return len(c.in.buf) }
func (c *Conn) Reset() bool      { return c.in.rst }
func (c *Conn) SentBytes() int64 { return c.out.total }
func (c *Conn) ReadBytes() int64 { return c.in.read }

// Conns lists all connection ends ever made.
func (n *Net) Conns() []*Conn { return n.conns }

// Open lists the ends that processes of the node hold open.
func (n *Net) Open(node *rt.Node, side string) []*Conn {
	var r []*Conn
	for _, c := range n.conns {
		if c.Node == node && c.alive() && (side == "" || c.side == side) {
			r = append(r, c)
		}
	}
	return r
}

// ResetAll breaks every connection of a node.
func (n *Net) ResetAll(node *rt.Node) {
	for _, c := range n.conns {
		if c.Node == node && c.alive() && c.side == "server" {
			n.w.Count("fault.net.reset")
			c.resetBoth()
		}
	}
}

// CrashNode is called after the tasks of the node were killed. hard = the machine
// lost power (peers hear nothing), otherwise the kernel closes the sockets.
func (n *Net) CrashNode(node *rt.Node, hard bool) {
	for _, l := range n.listeners {
		if l.Node == node && !l.closed {
			l.closed = true
		}
	}
	for a, l := range n.listeners {
		if l.closed {
			delete(n.listeners, a)
		}
	}
	if hard {
		n.w.Ext["down."+node.Name] = true
		n.w.Count("fault.crash.host")
	} else {
		n.w.Count("fault.crash.process")
	}
	for _, c := range n.conns {
		if c.Node != node || !c.alive() {
			continue
		}
		c.ByCrash = true
		if hard {
			c.hostDead = true
			c.ClosedAt = n.w.Now()
			continue
		}
		c.closed = true
		c.ClosedAt = n.w.Now()
		if !c.in.rst {
			c.ctlSeg(len(c.in.buf) > 0)
		}
	}
	n.w.Note("crash of %s (hard=%v)", node.Name, hard)
}

// Boot makes a crashed machine answer again.
func (n *Net) Boot(node *rt.Node) {
	delete(n.w.Ext, "down."+node.Name)
}

// DialContext supports Dialer.
func (n *Net) DialContext(ctx interface {
	Deadline() (time.Time, bool)
	Err() error
}, addr string, deadline int64) (*Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: Addr{addr}, Err: err}
	}
	if d, ok := ctx.Deadline(); ok {
		x := dl(d)
		if deadline == 0 || x < deadline {
			deadline = x
		}
	}
	return n.Dial(addr, deadline)
}

// Pipe is a synchronous-looking pair of connected ends.
func (n *Net) Pipe() (*Conn, *Conn) {
	node := n.w.Cur().Node
	a, b := &pipe{}, &pipe{}
	n.nextID++
	x := &Conn{n: n, ID: n.nextID, Node: node, in: a, out: b, laddr: "pipe", raddr: "pipe", side: "client"}
	y := &Conn{n: n, ID: n.nextID, Node: node, in: b, out: a, laddr: "pipe", raddr: "pipe", side: "server"}
	x.Peer, y.Peer = y, x
	n.conns = append(n.conns, x, y)
	return x, y
}

// DL converts a deadline.
func DL(t time.Time) int64 { return dl(t) }
