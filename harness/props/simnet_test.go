package props

import (
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
)

// An in-memory network for use inside a bubble: byte streams with latency,
// segmentation, bounded windows, deadlines, half-close and reset, and datagram
// connections. Everything that passes is recorded with its (fake) time.

type segment struct {
	data []byte
	at   time.Time
	mark func() // called when the last byte has been read
}

// stream is one direction of a connection.
type stream struct {
	mu       sync.Mutex
	segs     []segment
	queued   int
	window   int
	eof      bool // writer closed
	reset    bool
	readerGo bool // reader closed
	changed  chan struct{}
	rdl, wdl time.Time
	datagram bool
}

func newStream(window int) *stream {
	return &stream{window: window, changed: make(chan struct{})}
}

func (s *stream) wake() {
	close(s.changed)
	s.changed = make(chan struct{})
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "sim", Err: err} }

func (s *stream) read(p []byte, closed *atomic.Bool) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		now := time.Now()
		if closed.Load() {
			return 0, opErr("read", net.ErrClosed)
		}
		if !s.rdl.IsZero() && !now.Before(s.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		var wait time.Time
		if len(s.segs) > 0 {
			g := &s.segs[0]
			if !g.at.After(now) {
				if len(p) == 0 && !s.datagram {
					return 0, nil
				}
				n := copy(p, g.data)
				s.queued -= n
				if s.datagram {
					s.queued -= len(g.data) - n
					g.data = nil
				} else {
					g.data = g.data[n:]
				}
				if len(g.data) == 0 {
					m := g.mark
					s.segs = s.segs[1:]
					if m != nil {
						m()
					}
				}
				s.wake()
				return n, nil
			}
			wait = g.at
		} else if s.reset {
			return 0, opErr("read", syscall.ECONNRESET)
		} else if s.eof {
			return 0, io.EOF
		}
		s.pause(wait, s.rdl)
	}
}

// pause waits for a change or until the earlier of the given times.
func (s *stream) pause(a, b time.Time) {
	ch := s.changed
	t := a
	if t.IsZero() || (!b.IsZero() && b.Before(t)) {
		t = b
	}
	s.mu.Unlock()
	defer s.mu.Lock()
	if t.IsZero() {
		<-ch
		return
	}
	tm := time.NewTimer(time.Until(t))
	defer tm.Stop()
	select {
	case <-ch:
	case <-tm.C:
	}
}

func (s *stream) write(p []byte, closed *atomic.Bool, latency time.Duration, mark func()) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for {
		if closed.Load() || s.eof {
			return n, opErr("write", net.ErrClosed)
		}
		if s.readerGo || s.reset {
			return n, opErr("write", syscall.EPIPE)
		}
		if !s.wdl.IsZero() && !time.Now().Before(s.wdl) {
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		if s.datagram {
			s.push(append([]byte(nil), p...), latency, mark)
			return len(p), nil
		}
		if room := s.window - s.queued; room > 0 {
			k := min(room, len(p)-n)
			var m func()
			if n+k == len(p) {
				m = mark
			}
			s.push(append([]byte(nil), p[n:n+k]...), latency, m)
			n += k
			if n == len(p) {
				return n, nil
			}
			continue
		}
		s.pause(time.Time{}, s.wdl)
	}
}

func (s *stream) push(data []byte, latency time.Duration, mark func()) {
	at := time.Now().Add(latency)
	if s.datagram { // datagrams overtake each other
		i := len(s.segs)
		for i > 0 && s.segs[i-1].at.After(at) {
			i--
		}
		s.segs = append(s.segs[:i], append([]segment{{data, at, mark}}, s.segs[i:]...)...)
		s.queued += len(data)
		s.wake()
		return
	}
	if l := len(s.segs); l > 0 && s.segs[l-1].at.After(at) {
		at = s.segs[l-1].at
	}
	s.segs = append(s.segs, segment{data, at, mark})
	s.queued += len(data)
	s.wake()
}

// simConn is one end of a connection.
type simConn struct {
	in, out *stream
	mu      sync.Mutex
	closed  atomic.Bool
	raddr   string
	onClose func()
	onRead  func(n int)
	onWrite func(p []byte)
	latency time.Duration
}

func simPair(window int) (client, server *simConn) {
	a, b := newStream(window), newStream(window)
	return &simConn{in: a, out: b}, &simConn{in: b, out: a}
}

func (c *simConn) Read(p []byte) (int, error) {
	n, err := c.in.read(p, &c.closed)
	if c.onRead != nil && n > 0 {
		c.onRead(n)
	}
	return n, err
}

func (c *simConn) Write(p []byte) (int, error) {
	n, err := c.out.write(p, &c.closed, c.latency, nil)
	if c.onWrite != nil && n > 0 {
		c.onWrite(p[:n])
	}
	return n, err
}

// send queues one segment that arrives after d; mark runs once it was read.
func (c *simConn) send(p []byte, d time.Duration, mark func()) error {
	_, err := c.out.write(p, &c.closed, d, mark)
	return err
}

func (c *simConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in.mu.Lock()
	if c.closed.Load() {
		c.in.mu.Unlock()
		return opErr("close", net.ErrClosed)
	}
	c.closed.Store(true)
	c.in.readerGo = true
	c.in.wake()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.eof = true
	c.out.wake()
	c.out.mu.Unlock()
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

// abort closes with a reset: what is queued is lost.
func (c *simConn) abort() {
	c.out.mu.Lock()
	c.out.reset = true
	c.out.segs, c.out.queued = nil, 0
	c.out.mu.Unlock()
	c.Close()
}

func (c *simConn) isClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.closed.Load()
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

func (c *simConn) LocalAddr() net.Addr  { return simAddr("10.0.0.1:50000") }
func (c *simConn) RemoteAddr() net.Addr { return simAddr(c.raddr) }
func (c *simConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	if c.closed.Load() {
		return opErr("set", net.ErrClosed)
	}
	c.in.rdl = t
	c.in.wake()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", net.ErrClosed)
	}
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	c.out.wdl = t
	c.out.wake()
	return nil
}

// ---------------------------------------------------------------------------

// simNet answers gotitnet.Dial.
type simNet struct {
	mu     sync.Mutex
	hosts  map[string]func(n *simNet, network, addr string, timeout time.Duration) (net.Conn, error)
	conns  []*simConn // client ends, in order of dialling
	addrs  []string
	srv    []*simConn
	open   map[string]int
	maxDup map[string]int
	wg     sync.WaitGroup
	dials  int
	over   bool
	log    []dialRec
	most   int // addresses of peers connected at the same time
}

type dialRec struct {
	addr string
	at   time.Time
}

// peersOpen are the addresses of peers with an open connection.
func (n *simNet) peersOpen() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.peersOpenLocked()
}

func (n *simNet) peersOpenLocked() []string {
	var out []string
	for a, k := range n.open {
		if k > 0 && isPeerAddr(a) {
			out = append(out, a)
		}
	}
	return out
}

// dialsOf are the times at which addr was dialled.
func (n *simNet) dialsOf(addr string) []time.Time {
	n.mu.Lock()
	defer n.mu.Unlock()
	var at []time.Time
	for _, d := range n.log {
		if d.addr == addr {
			at = append(at, d.at)
		}
	}
	return at
}

func newSimNet(c *C) *simNet {
	n := &simNet{hosts: map[string]func(*simNet, string, string, time.Duration) (net.Conn, error){}, open: map[string]int{}, maxDup: map[string]int{}}
	old := gotitnet.Dial
	gotitnet.Dial = n.dial
	c.Cleanup(func() { gotitnet.Dial = old })
	return n
}

type hostFunc = func(n *simNet, network, addr string, timeout time.Duration) (net.Conn, error)

func (n *simNet) setHost(addr string, h hostFunc) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.hosts[addr] = h
}

// mostDials is where a client that dials without end is slowed down.
const mostDials = 20000

func (n *simNet) dial(network, addr string, timeout time.Duration) (net.Conn, error) {
	if a, err := netip.ParseAddrPort(addr); err == nil { // as net.Dial does
		addr = netip.AddrPortFrom(a.Addr().Unmap(), a.Port()).String()
	}
	n.mu.Lock()
	n.dials++
	n.log = append(n.log, dialRec{addr, time.Now()})
	h := n.hosts[addr]
	over := n.over
	runaway := len(n.log) > mostDials
	n.mu.Unlock()
	if runaway && !over {
		time.Sleep(time.Hour) // enough to judge by; do not fill the memory
	}
	if over || runaway || h == nil {
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	return h(n, network, addr, timeout)
}

// connect makes a connection to addr whose remote end is run by serve.
func (n *simNet) connect(addr string, window int, serve func(*simConn)) *simConn {
	cl, sv := simPair(window)
	cl.raddr = addr
	n.mu.Lock()
	n.conns = append(n.conns, cl)
	n.addrs = append(n.addrs, addr)
	n.srv = append(n.srv, sv)
	over := n.over
	n.open[addr]++
	n.maxDup[addr] = max(n.maxDup[addr], n.open[addr])
	n.most = max(n.most, len(n.peersOpenLocked()))
	n.mu.Unlock()
	cl.onClose = func() {
		n.mu.Lock()
		n.open[addr]--
		n.mu.Unlock()
	}
	if over {
		sv.Close()
		return cl
	}
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		serve(sv)
	}()
	return cl
}

func refuse(d time.Duration) func(*simNet, string, string, time.Duration) (net.Conn, error) {
	return func(_ *simNet, _, _ string, timeout time.Duration) (net.Conn, error) {
		if d >= timeout && timeout > 0 {
			time.Sleep(timeout)
			return nil, opErr("dial", os.ErrDeadlineExceeded)
		}
		time.Sleep(d)
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
}

// shutdown ends every fake remote; to be called before the bubble's end.
func (n *simNet) shutdown() {
	n.mu.Lock()
	n.over = true
	srv := append([]*simConn(nil), n.srv...)
	n.mu.Unlock()
	for _, s := range srv {
		s.Close()
	}
	n.wg.Wait()
}

func (n *simNet) unclosed() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []string
	for i, c := range n.conns {
		if !c.isClosed() {
			out = append(out, n.addrs[i])
		}
	}
	return out
}

var errSimEnd = errors.New("remote ends")

// udpHost answers datagrams: for each one received, the replies it returns are
// delivered after their delay.
type reply struct {
	d    time.Duration
	data []byte
}

func udpHost(handle func(pkt []byte) []reply) func(*simNet, string, string, time.Duration) (net.Conn, error) {
	return func(n *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
		cl := n.connect(addr, 1<<20, func(sv *simConn) {
			buf := make([]byte, 64<<10)
			for {
				k, err := sv.Read(buf)
				if err != nil {
					return
				}
				for _, r := range handle(append([]byte(nil), buf[:k]...)) {
					if sv.send(r.data, r.d, nil) != nil {
						return
					}
				}
			}
		})
		cl.in.mu.Lock()
		cl.in.datagram = true
		cl.in.mu.Unlock()
		cl.out.mu.Lock()
		cl.out.datagram = true
		cl.out.mu.Unlock()
		return cl, nil
	}
}
