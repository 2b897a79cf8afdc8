package props

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"sync"
	"time"

	"pgregory.net/rapid"
)

func init() {
	register("C14", "wire",
		"1 to 3 peers share a download; each sends a timed history of have, bitfield, choke, unchoke, keepalive and other messages and answers requests after any delay, or not at all; every byte the client writes is recorded with what it had read before: frames well-formed, requests in bounds, tiling their piece, after interest, while unchoked, for announced pieces; non-trivial: a request was sent and the history has a choke, a partial availability or an unanswered request",
		2000, 20000, genC14, runC14)
}

type Ev struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	D int    `json:"d,omitempty"`
}

type c14Peer struct {
	Evs []Ev  `json:"evs"`
	Ans []int `json:"ans"` // ms until each request is answered, -1 = never; cyclic
}

type c14Case struct {
	T     TSpec     `json:"t"`
	Peers []c14Peer `json:"peers"`
	Len   int       `json:"len"` // seconds
}

func genC14(t *rapid.T) c14Case {
	s := c14Case{T: genSwarmSpec(t, rapid.SampledFrom([]int{2, 6, 12, 70}).Draw(t, "np"), true),
		Len: rapid.SampledFrom([]int{3, 30, 120}).Draw(t, "len")}
	n := s.T.pieces()
	for k := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "peers"); k > 0; k-- {
		var p c14Peer
		p.Ans = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 5, 400, 3000, 9900, -1}), 1, 5).Draw(t, "ans")
		if rapid.IntRange(0, 4).Draw(t, "start") != 0 {
			first := Ev{K: rapid.SampledFrom([]string{"have", "haverange", "haveall", "bitfield"}).Draw(t, "first")}
			first.N = rapid.IntRange(0, n-1).Draw(t, "firstn")
			p.Evs = []Ev{first, {K: "unchoke"}}
			if rapid.Bool().Draw(t, "unchoke-first") {
				p.Evs = []Ev{{K: "unchoke"}, first}
			}
		}
		for e := rapid.IntRange(0, 14).Draw(t, "events"); e > 0; e-- {
			ev := Ev{K: rapid.SampledFrom([]string{"have", "have", "haveall", "haverange", "bitfield", "choke", "unchoke", "unchoke", "keepalive", "interested", "notinterested", "request", "cancel", "port"}).Draw(t, "ev"),
				D: rapid.SampledFrom([]int{0, 0, 0, 1, 200, 1000, 1500, 4000, 11000}).Draw(t, "d")}
			switch ev.K {
			case "have", "haverange", "request", "cancel":
				ev.N = rapid.IntRange(0, n-1).Draw(t, "n")
			case "bitfield":
				ev.N = rapid.IntRange(0, 1<<12).Draw(t, "pattern")
			}
			p.Evs = append(p.Evs, ev)
		}
		s.Peers = append(s.Peers, p)
	}
	return s
}

// bfHas is the meaning of the bitfield drawn as pattern p.
func bfHas(p, i int) bool {
	switch p % 4 {
	case 0:
		return true
	case 1:
		return i%(2+p%5) == 0
	case 2:
		return i < p%70
	}
	return (p>>(uint(i)%12))&1 == 1
}

// clientLog is what one connection saw, in the order the client did it.
type clientLog struct {
	mu     sync.Mutex
	c      *C
	spec   TSpec
	group  *c14Group
	buf    []byte
	hs     bool
	intr   bool
	ever   bool // an unchoke was read
	choked time.Time
	chokes bool
	have   map[int]bool
	bits   map[int]bool // as read in the mirrored order
	reqs   int
	fail   string
}

type c14Group struct {
	mu    sync.Mutex
	asked map[int]bool
	rng   map[int]map[request]bool
	total int
}

func (l *clientLog) failf(m string) {
	if l.fail == "" {
		l.fail = m
	}
}

// wrote is called with every byte the client sends.
func (l *clientLog) wrote(p []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.buf = append(l.buf, p...)
	if !l.hs {
		if len(l.buf) < 68 {
			return
		}
		l.hs, l.buf = true, l.buf[68:]
	}
	for len(l.buf) >= 4 {
		n := int(l.buf[0])<<24 | int(l.buf[1])<<16 | int(l.buf[2])<<8 | int(l.buf[3])
		if n > 1<<20 {
			l.failf("the client announces a frame of absurd length")
			return
		}
		if len(l.buf) < 4+n {
			return
		}
		body := l.buf[4 : 4+n]
		l.buf = l.buf[4+n:]
		l.frame(body)
	}
}

func (l *clientLog) frame(body []byte) {
	if e := frameError(body, l.spec.pieces()); e != "" {
		l.failf("the client sent " + e + ": " + short(body))
		return
	}
	if len(body) == 0 {
		return
	}
	switch body[0] {
	case 2:
		l.intr = true
	case 3:
		l.intr = false
	case 6:
		l.request(parseRequest(body))
	}
}

func (l *clientLog) request(r request) {
	l.reqs++
	if r.index >= l.spec.pieces() {
		l.failf(fmt.Sprintf("request %+v: the torrent has %d pieces", r, l.spec.pieces()))
		return
	}
	size := l.spec.pieceSize(r.index)
	if r.length <= 0 || r.offset+r.length > size {
		l.failf(fmt.Sprintf("request %+v is outside its piece of %d bytes", r, size))
		return
	}
	if !l.intr {
		l.failf(fmt.Sprintf("request %+v without declared interest", r))
	}
	if !l.ever {
		l.failf(fmt.Sprintf("request %+v before the peer unchoked the client", r))
	}
	if l.chokes && time.Now().After(l.choked) {
		l.failf(fmt.Sprintf("request %+v %v after the peer choked the client", r, time.Since(l.choked)))
	}
	g := l.group
	g.mu.Lock()
	defer g.mu.Unlock()
	if !l.have[r.index] {
		switch {
		case l.bits[r.index]:
			l.c.Known("bitfield-bit-order")
		case g.asked[r.index]:
			l.c.Known("retry-unannounced")
		default:
			l.failf(fmt.Sprintf("request %+v for a piece the peer did not announce", r))
		}
	}
	g.total++
	g.asked[r.index] = true
	if g.rng[r.index] == nil {
		g.rng[r.index] = map[request]bool{}
	}
	g.rng[r.index][r] = true
}

// tiles checks the ranges requested of one piece against each other.
func tiles(c *C, spec TSpec, index int, set map[request]bool, complete bool) {
	var rs []request
	for r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].offset < rs[j].offset })
	at := 0
	for _, r := range rs {
		if r.offset < at {
			c.Failf("requests for piece %d overlap: %+v", index, rs)
		}
		if r.offset > at && complete {
			c.Failf("requests for piece %d leave a gap at %d: %+v", index, at, rs)
		}
		at = r.offset + r.length
	}
	if complete && at != spec.pieceSize(index) {
		c.Failf("requests for piece %d end at %d of %d bytes: %+v", index, at, spec.pieceSize(index), rs)
	}
}

func runC14(c *C, s c14Case) {
	n := s.T.pieces()
	g := &c14Group{asked: map[int]bool{}, rng: map[int]map[request]bool{}}
	var logs []*clientLog
	interesting := len(s.Peers) > 1
	for _, p := range s.Peers {
		for _, e := range p.Evs {
			interesting = interesting || e.K == "choke" || e.K == "have" || e.K == "haverange" || e.K == "bitfield"
		}
		for _, a := range p.Ans {
			interesting = interesting || a < 0
		}
	}
	bubble(c, func() {
		x := newSession(c, s.T)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		for i, p := range s.Peers {
			l := &clientLog{c: c, spec: s.T, group: g, have: map[int]bool{}, bits: map[int]bool{}}
			logs = append(logs, l)
			x.net.setHost(addrN(i).String(), func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
				cl := sn.connect(addr, 4<<20, func(sv *simConn) { s.serve(x, p, l, sv) })
				cl.onWrite = l.wrote
				return cl, nil
			})
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				pr := x.newPeer(i)
				if err := pr.Announce(x.tor); err == nil {
					pr.Run(ctx)
				}
				pr.Close()
			}()
		}
		time.AfterFunc(time.Duration(s.Len)*time.Second, cancel)
		x.finish()
		for i, l := range logs {
			if l.fail != "" {
				c.Failf("peer %d: %s", i, l.fail)
			}
			if len(l.buf) != 0 {
				c.Failf("peer %d: the stream ends inside a frame: %x", i, l.buf)
			}
		}
		on := x.piecesOnDisk()
		for i := 0; i < n; i++ {
			tiles(c, s.T, i, g.rng[i], on[i])
		}
		if g.total > 0 {
			c.Label("requests")
			if interesting {
				c.NonTrivial()
			}
		}
	})
}

func (s c14Case) serve(x *session, p c14Peer, l *clientLog, sv *simConn) {
	defer sv.Close()
	if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
		return
	}
	n := s.T.pieces()
	var mu sync.Mutex
	choking := true
	sv.send(handshake(x.hash(), fakeID), 0, nil)
	done := make(chan struct{})
	quit := make(chan struct{})
	go func() {
		defer close(done)
		mark := func(f func()) func() {
			return func() {
				l.mu.Lock()
				defer l.mu.Unlock()
				f()
			}
		}
		have := func(i int) error {
			return sv.send(haveFrame(i), 0, mark(func() { l.have[i] = true }))
		}
		for _, e := range p.Evs {
			select {
			case <-time.After(ms(e.D)):
			case <-quit:
				return
			}
			var err error
			switch e.K {
			case "have":
				err = have(e.N)
			case "haveall":
				for i := 0; i < n; i++ {
					err = have(i)
				}
			case "haverange":
				for i := e.N; i < min(n, e.N+5); i++ {
					err = have(i)
				}
			case "bitfield":
				err = sv.send(bitfieldFrame(n, func(i int) bool { return bfHas(e.N, i) }), 0, mark(func() {
					for i := 0; i < (n+63)/64*64; i++ {
						if i < n && bfHas(e.N, i) {
							l.have[i] = true
							l.bits[i/64*64+63-i%64] = true
						}
					}
				}))
			case "choke":
				mu.Lock()
				choking = true
				err = sv.send(frame(0), 0, mark(func() { l.chokes, l.choked = true, time.Now() }))
				mu.Unlock()
			case "unchoke":
				mu.Lock()
				choking = false
				err = sv.send(frame(1), 0, mark(func() { l.ever, l.chokes = true, false }))
				mu.Unlock()
			case "keepalive":
				err = sv.send(frame(), 0, nil)
			case "interested":
				err = sv.send(frame(2), 0, nil)
			case "notinterested":
				err = sv.send(frame(3), 0, nil)
			case "request", "cancel":
				t := byte(6)
				if e.K == "cancel" {
					t = 8
				}
				b := append([]byte{t}, u32(e.N)...)
				b = append(b, u32(0)...)
				b = append(b, u32(s.T.pieceSize(e.N))...)
				err = sv.send(frame(b...), 0, nil)
			case "port":
				err = sv.send(frame(9, 1, 2), 0, nil)
			}
			if err != nil {
				return
			}
		}
	}()
	k := 0
	for {
		b, err := readFrame(sv)
		if err != nil {
			break
		}
		if len(b) != 13 || b[0] != 6 {
			continue
		}
		r := parseRequest(b)
		d := p.Ans[k%len(p.Ans)]
		k++
		mu.Lock()
		drop := choking || d < 0 || r.index >= n || r.length <= 0 || r.offset+r.length > s.T.pieceSize(r.index)
		mu.Unlock()
		if drop {
			continue
		}
		// a choke sent meanwhile drops the answer
		select {
		case <-time.After(ms(d)):
		case <-quit:
		}
		mu.Lock()
		if !choking {
			sv.send(pieceFrame(r.index, r.offset, x.block(r.index, r.offset, r.length)), 0, nil)
		}
		mu.Unlock()
	}
	close(quit)
	<-done
}
