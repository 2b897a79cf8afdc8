package props

import (
	"bytes"
	"errors"
	"net"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/util"
	"pgregory.net/rapid"
)

func init() {
	register("C12", "handshake",
		"handshake answers right except for one altered byte anywhere, another hash, protocol or length byte, any reserved bits and peer id, cut anywhere, closed or silent anywhere, in any segments, followed by more data, or a refused connection; accepted iff complete and right; non-trivial: the answer is altered, cut, segmented or delayed",
		6000, 60000, genC12, runC12)
	register("C13", "frames",
		"frame sequences (0 to 300 KiB each) cut into any segments with delays below and above the read timeout, ending at a frame boundary or inside a frame by close, reset or silence; frames read are exactly those sent; non-trivial: a segment boundary inside a frame",
		2000, 20000, genC13, runC13)
	register("C13", "bounded",
		"every read and write operation of a connection against a remote that is silent, stops in the middle, trickles bytes or does not drain; returns within the timeout and never with partial data as success; non-trivial: the remote does not complete the operation",
		4000, 40000, genC13b, runC13b)
}

// --- handshake --------------------------------------------------------------

type c12Case struct {
	Hash   Bytes  `json:"hash,omitempty"` // unused bytes come from the torrent
	Seed   uint64 `json:"seed"`
	Mut    string `json:"mut"`
	At     int    `json:"at"`
	Res    Bytes  `json:"res"`
	ID     Bytes  `json:"id"`
	Cut    int    `json:"cut"` // bytes of the answer sent, 68 = all
	Segs   []int  `json:"segs,omitempty"`
	Gap    int    `json:"gap"` // ms between segments
	End    string `json:"end"`
	Tail   int    `json:"tail"`
	Refuse int    `json:"refuse"` // 0 no, else ms
	Early  bool   `json:"early"`  // the peer answers before it reads
}

func genC12(t *rapid.T) c12Case {
	s := c12Case{
		Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed"),
		Mut:  rapid.SampledFrom([]string{"", "", "", "byte", "byte", "proto", "len", "hash", "hashbit", "hash0", "swap", "shift"}).Draw(t, "mut"),
		At:   rapid.IntRange(0, 67).Draw(t, "at"),
		Res:  rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "reserved"),
		ID:   rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "id"),
		Cut:  68,
		Gap:  rapid.SampledFrom([]int{0, 0, 1, 20, 100}).Draw(t, "gap"),
		End:  rapid.SampledFrom([]string{"stay", "stay", "close", "reset"}).Draw(t, "end"),
		Tail: rapid.SampledFrom([]int{0, 0, 1, 5, 500}).Draw(t, "tail"),
	}
	switch rapid.IntRange(0, 9).Draw(t, "idkind") {
	case 0:
		s.ID = make([]byte, 20)
	case 1:
		s.ID = bytes.Repeat([]byte{0xff}, 20)
	case 2:
		s.ID = append([]byte(nil), "-GO0100-abcdefghijkl"...)
	case 3:
		s.ID = append([]byte(nil), "-UT355S-\x00\x01\x02\x80\xfe\r\n 'x.y"...)
	}
	s.Early = rapid.Bool().Draw(t, "early")
	if rapid.IntRange(0, 2).Draw(t, "iscut") == 0 {
		s.Cut = rapid.OneOf(rapid.IntRange(0, 67), rapid.SampledFrom([]int{0, 1, 19, 20, 28, 47, 48, 67})).Draw(t, "cut")
	}
	// at most 8 segments, so the answer is complete 900 ms after it began
	s.Segs = rapid.SliceOfN(rapid.IntRange(1, 67), 0, 7).Draw(t, "segs")
	if rapid.IntRange(0, 15).Draw(t, "norefuse") == 0 {
		s.Refuse = rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "refuse")
	}
	return s
}

func runC12(c *C, s c12Case) {
	spec := TSpec{Name: Bytes("t"), PieceLen: 4, Len: 10, Seed: s.Seed}
	hash := infoHash(spec)
	ans := handshake(hash, s.ID)
	copy(ans[20:28], s.Res)
	switch s.Mut {
	case "byte":
		ans[s.At] ^= byte(1 + s.Seed%255)
	case "proto":
		copy(ans[1:20], "Bittorrent Protocol")
	case "len":
		ans[0] = byte(s.At)
	case "hash":
		copy(ans[28:48], content(s.Seed+1, 20))
	case "hashbit":
		ans[28+s.At%20] ^= 1 << (s.Seed % 8)
	case "hash0":
		copy(ans[28:48], make([]byte, 20))
	case "swap":
		copy(ans[28:48], s.ID)
		copy(ans[48:68], hash)
	case "shift":
		ans = append(ans[1:], 0)
	}
	right := bytes.Equal(ans[:20], []byte(proto)) && bytes.Equal(ans[28:48], hash)
	accept := right && s.Cut == 68 && s.Refuse == 0
	if s.Mut != "" || s.Cut != 68 || len(s.Segs) > 0 || s.Refuse != 0 {
		c.NonTrivial()
	}
	full := s.Cut == 68
	if full {
		ans = append(ans, make([]byte, s.Tail)...)
	} else {
		ans = ans[:s.Cut]
	}
	bubble(c, func() {
		x := newSession(c, spec)
		var got []byte
		gotAll := make(chan struct{})
		var fed *simConn
		x.net.setHost(addrN(0).String(), func(sn *simNet, network, addr string, to time.Duration) (net.Conn, error) {
			if network != "tcp" {
				c.Failf("peer dialled over %s", network)
			}
			if s.Refuse > 0 {
				return refuse(ms(s.Refuse))(sn, network, addr, to)
			}
			return sn.connect(addr, 1<<20, func(sv *simConn) {
				fed = sv
				defer close(gotAll)
				buf := make([]byte, 4096)
				read := func() bool {
					n, err := sv.Read(buf)
					got = append(got, buf[:n]...)
					return err == nil
				}
				if !s.Early {
					for len(got) < 68 {
						if !read() {
							return
						}
					}
				}
				b := ans
				for _, k := range s.Segs {
					k = min(k, len(b))
					if k > 0 {
						sv.send(b[:k], 0, nil)
						b = b[k:]
						time.Sleep(ms(s.Gap))
					}
				}
				if len(b) > 0 {
					sv.send(b, 0, nil)
				}
				if !accept && s.End != "stay" {
					if s.End == "close" {
						time.Sleep(ms(s.Gap))
						sv.out.mu.Lock() // half-close: what the client writes is still read
						sv.out.eof = true
						sv.out.wake()
						sv.out.mu.Unlock()
					} else {
						sv.abort()
						return
					}
				}
				for read() {
				}
			}), nil
		})
		p := x.newPeer(0)
		t0 := time.Now()
		var err error
		if g := guard(func() { err = p.Announce(x.tor) }); g != nil {
			c.Failf("Announce: %v", g)
		}
		took := time.Since(t0)
		if took > 5*time.Second {
			c.Failf("Announce took %v", took)
		}
		if accept && err != nil {
			c.Failf("a right handshake is refused: %v", err)
		}
		if !accept && err == nil {
			c.Failf("session accepted although the answer was %x (mutation %q, %d bytes, refused %d)", ans, s.Mut, s.Cut, s.Refuse)
		}
		if err != nil && fed != nil {
			// the session is over
			time.Sleep(time.Second)
		}
		p.Close()
		if fed != nil {
			<-gotAll
			want := handshake(hash, peer.ClientId)
			aborted := !accept && s.End == "reset"
			if len(got) < 68 && !(aborted && s.Early) {
				c.Failf("only %d bytes of the handshake were sent", len(got))
			}
			if len(got) >= 68 {
				copy(got[20:28], make([]byte, 8)) // reserved bits are the client's choice
				if !bytes.Equal(got[:68], want) {
					c.Failf("handshake sent is %x, want %x", got[:68], want)
				}
			}
			if len(peer.ClientId) != 20 {
				c.Failf("client id %q", peer.ClientId)
			}
		}
		x.finish()
	})
}

// --- frames -----------------------------------------------------------------

type c13Case struct {
	Sizes []int  `json:"sizes"`
	Cuts  []int  `json:"cuts"` // segment sizes, cyclic
	Gaps  []int  `json:"gaps"` // ms before each segment, cyclic
	Drop  int    `json:"drop"` // bytes missing at the end
	End   string `json:"end"`
	Time  int    `json:"time"` // timeout of the connection in ms
	Big   uint32 `json:"big"`  // length of a last frame of which only few bytes come
	BigN  int    `json:"bign"`
}

func genC13(t *rapid.T) c13Case {
	s := c13Case{
		Sizes: rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{0, 1, 5, 13, 17, 255, 256, 16384, 65535, 65536, 65537, 131081, 300000, 1 << 20, 2<<20 + 9})), 0, 8).Draw(t, "sizes"),
		Cuts:  rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.SampledFrom([]int{1, 2, 3, 4, 5, 1448, 16000, 65536, 400000})), 1, 6).Draw(t, "cuts"),
		Gaps:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 100, 499, 500, 501, 999, 1000, 1001, 2500}), 1, 6).Draw(t, "gaps"),
		End:   rapid.SampledFrom([]string{"close", "close", "reset", "silent"}).Draw(t, "end"),
		Time:  rapid.SampledFrom([]int{1000, 1000, 500, 50}).Draw(t, "timeout"),
	}
	if rapid.IntRange(0, 2).Draw(t, "dropped") == 0 {
		s.Drop = rapid.IntRange(1, 30).Draw(t, "drop")
	}
	if s.Drop == 0 && rapid.IntRange(0, 2).Draw(t, "over") == 0 {
		// far longer than what follows, whichever bytes or bits of the length are looked at
		s.Big = uint32(1)<<rapid.IntRange(12, 31).Draw(t, "bit") | uint32(rapid.IntRange(0, 20).Draw(t, "low"))
		if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
			s.Big = ^uint32(0) - uint32(rapid.IntRange(0, 5).Draw(t, "minus"))
		}
		s.BigN = rapid.IntRange(0, 60).Draw(t, "bign")
	}
	return s
}

func isTO(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func dialSim(c *C, n *simNet, to time.Duration, serve func(*simConn)) *gotitnet.TimeoutConn {
	n.setHost("h:1", func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
		return sn.connect(addr, 1<<20, serve), nil
	})
	conn, err := gotitnet.NewTimeoutConn("tcp", "h:1", to)
	if err != nil {
		c.Failf("connecting: %v", err)
	}
	return conn
}

func runC13(c *C, s c13Case) {
	var wire []byte
	var bodies [][]byte
	var ends []int
	for i, n := range s.Sizes {
		b := content(uint64(i+1), n)
		bodies = append(bodies, b)
		wire = append(wire, frame(b...)...)
		ends = append(ends, len(wire))
	}
	wire = wire[:max(0, len(wire)-s.Drop)]
	if s.Big > 0 {
		c.NonTrivial()
		c.Label("ends inside a huge frame")
		wire = append(append(wire, u32(int(s.Big))...), content(99, s.BigN)...)
	}
	whole := 0
	for _, e := range ends {
		if e <= len(wire) {
			whole++
		}
	}
	// segments and the time at which each frame is complete
	type seg struct {
		b  []byte
		at time.Duration
	}
	var segs []seg
	var at time.Duration
	for i, k := 0, 0; k < len(wire); i++ {
		n := min(s.Cuts[i%len(s.Cuts)], len(wire)-k)
		if len(segs) > 3000 {
			n = len(wire) - k
		}
		if len(segs) < 40 {
			at += ms(s.Gaps[i%len(s.Gaps)])
		}
		segs = append(segs, seg{wire[k : k+n], at})
		k += n
		inside := true
		for _, e := range ends {
			if e == k {
				inside = false
			}
		}
		if inside {
			c.NonTrivial()
		}
	}
	last := at
	to := ms(s.Time)
	bubble(c, func() {
		n := newSimNet(c)
		conn := dialSim(c, n, to, func(sv *simConn) {
			t0 := time.Now()
			for _, g := range segs {
				time.Sleep(time.Until(t0.Add(g.at)))
				if sv.send(g.b, 0, nil) != nil {
					return
				}
			}
			switch s.End {
			case "close":
				sv.Close()
			case "reset":
				time.Sleep(ms(1)) // what was sent is read first or lost; the segments before are there
				sv.abort()
			}
		})
		start := time.Now()
		got := 0
		var kept [][]byte
		limit := last + 10*to + time.Second
		for {
			t0 := time.Now()
			var b []byte
			var err error
			if g := guard(func() { b, err = conn.ReadPeerMessage() }); g != nil {
				c.Failf("ReadPeerMessage: %v", g)
			}
			now := time.Now()
			if now.Sub(t0) > to {
				c.Failf("a read took %v, the timeout is %v", now.Sub(t0), to)
			}
			if err != nil {
				if b != nil && len(b) > 0 {
					c.Failf("a read returned an error and data")
				}
				if isTO(err) {
					if now.Sub(start) > limit {
						break
					}
					continue
				}
				if got == whole && s.Big > 0 {
					break // refused as too long
				}
				if s.End == "silent" || now.Sub(start) < last || (got < whole && s.End == "close") {
					c.Failf("frame %d of %d: read failed with %v although the bytes were sent", got, whole, err)
				}
				break
			}
			if got >= whole {
				c.Failf("a frame of %d bytes that was never sent whole was returned (after %d frames)", len(b), got)
			}
			if !bytes.Equal(b, bodies[got]) {
				c.Failf("frame %d is %s, sent was %s", got, short(b), short(bodies[got]))
			}
			kept = append(kept, b)
			got++
		}
		for i, b := range kept {
			if !bytes.Equal(b, bodies[i]) {
				c.Failf("frame %d of %d was %s when it was read, afterwards it is %s", i, len(kept), short(bodies[i]), short(b))
			}
		}
		if s.End != "reset" && got != whole {
			c.Failf("%d of %d frames were read", got, whole)
		}
		conn.Close()
		n.shutdown()
	})
}

// --- bounded operations -----------------------------------------------------

type c13b struct {
	Op   string `json:"op"`
	Size int    `json:"size"` // bytes the remote sends, or the write's size
	Step int    `json:"step"` // bytes per segment
	Gap  int    `json:"gap"`  // ms
	End  string `json:"end"`
	Win  int    `json:"win"`
	Time int    `json:"time"`
	Reps int    `json:"reps"`
}

func genC13b(t *rapid.T) c13b {
	return c13b{
		Op:   rapid.SampledFrom([]string{"message", "handshake", "udp", "all", "datagram", "write", "writemsg"}).Draw(t, "op"),
		Size: rapid.OneOf(rapid.IntRange(0, 80), rapid.SampledFrom([]int{0, 3, 15, 16, 17, 67, 68, 69, 5000})).Draw(t, "size"),
		Step: rapid.SampledFrom([]int{1, 2, 7, 1000}).Draw(t, "step"),
		Gap:  rapid.SampledFrom([]int{0, 1, 40, 300, 700}).Draw(t, "gap"),
		End:  rapid.SampledFrom([]string{"silent", "silent", "close", "reset"}).Draw(t, "end"),
		Win:  rapid.SampledFrom([]int{0, 1, 16, 17, 34, 100, 4096}).Draw(t, "win"),
		Time: rapid.SampledFrom([]int{50, 500, 1000, 3000}).Draw(t, "timeout"),
		Reps: rapid.IntRange(1, 3).Draw(t, "reps"),
	}
}

func runC13b(c *C, s c13b) {
	to := ms(s.Time)
	sent := content(5, s.Size)
	if s.Op == "message" && s.Size >= 4 {
		// a frame one byte longer than what is sent
		sent = append(u32(s.Size-4+1), sent[4:]...)
	}
	bubble(c, func() {
		n := newSimNet(c)
		n.setHost("h:1", func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
			cl := sn.connect(addr, s.Win, func(sv *simConn) {
				sv.out.mu.Lock()
				sv.out.window = 1 << 20
				sv.out.datagram = s.Op == "datagram"
				sv.out.mu.Unlock()
				if s.Op == "write" || s.Op == "writemsg" {
					return // never drains
				}
				b := sent
				for len(b) > 0 {
					k := min(s.Step, len(b))
					time.Sleep(ms(s.Gap))
					if sv.send(b[:k], 0, nil) != nil {
						return
					}
					b = b[k:]
				}
				switch s.End {
				case "close":
					sv.Close()
				case "reset":
					sv.abort()
				}
			})
			return cl, nil
		})
		conn, err := gotitnet.NewTimeoutConn("tcp", "h:1", to)
		if err != nil {
			c.Failf("connecting: %v", err)
		}
		total := 0
		read := 0
		for rep := 0; rep < s.Reps; rep++ {
			t0 := time.Now()
			var b []byte
			var k int
			var err error
			if g := guard(func() {
				switch s.Op {
				case "message":
					b, err = conn.ReadPeerMessage()
				case "handshake":
					b, err = conn.ReadPeerHandshake()
				case "udp":
					b, err = conn.ReadUdpHandshake()
				case "all":
					b, err = conn.ReadAll()
				case "datagram":
					b, err = conn.ReadDatagram()
				case "write":
					k, err = conn.Write(content(6, s.Size))
				case "writemsg":
					k, err = conn.WriteMsg(util.CreatePieceMessage(1, 2, 3))
				}
			}); g != nil {
				c.Failf("%s: %v", s.Op, g)
			}
			if d := time.Since(t0); d > to {
				c.Failf("%s took %v, the timeout is %v", s.Op, d, to)
			}
			if err != nil {
				c.NonTrivial()
				c.Label(s.Op + "-error")
			}
			fixed := map[string]int{"handshake": 68, "udp": 16}[s.Op]
			switch {
			case err != nil:
			case fixed > 0:
				if len(b) != fixed || read+fixed > len(sent) || !bytes.Equal(b, sent[read:read+fixed]) {
					c.Failf("%s returned %x, sent was %x", s.Op, b, sent)
				}
				read += fixed
			case s.Op == "message":
				if s.Size >= 4 {
					c.Failf("an incomplete frame was returned: %s", short(b))
				}
				c.Failf("a frame was invented: %s", short(b))
			case s.Op == "all":
				if rep == 0 && !bytes.Equal(b, sent) {
					c.Failf("read %s until the end, sent was %s", short(b), short(sent))
				}
			case s.Op == "datagram":
				if read+len(b) > len(sent) || !bytes.Equal(b, sent[read:read+len(b)]) || len(b) != min(s.Step, len(sent)-read) {
					c.Failf("datagram %x, sent was %x in datagrams of %d", b, sent, s.Step)
				}
				read += len(b)
			default:
				want := s.Size
				if s.Op == "writemsg" {
					want = 17
				}
				if k != want {
					c.Failf("%s of %d bytes reported %d and no error", s.Op, want, k)
				}
				if total += want; total > s.Win {
					c.Failf("%s of %d bytes in all succeeded, the remote took at most %d", s.Op, total, s.Win)
				}
			}
			if err != nil && s.Op != "write" && s.Op != "writemsg" && s.Op != "message" {
				break
			}
		}
		conn.Close()
		n.shutdown()
	})
}
