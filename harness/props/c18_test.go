package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"net/netip"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

func init() {
	register("C18", "announce",
		"one to four announces to a simulated UDP tracker: any hash, figures and ids; connect and announce are answered well, wrongly (transaction id, action, error, any truncation, random datagram), not at all, late or repeatedly; packets and peers compared exactly; non-trivial: two or more peers listed or an answer that is not simply good",
		2500, 30000, genC18, runC18)
}

type uReply struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	D int    `json:"d,omitempty"` // ms
}

type uStep struct {
	Hash Bytes    `json:"hash"`
	Down uint64   `json:"down"`
	Up   uint64   `json:"up"`
	Left uint64   `json:"left"`
	Port int      `json:"port"`
	Conn uint64   `json:"conn"`
	CR   []uReply `json:"cr"`
	AR   []uReply `json:"ar"`
	Peer []hPeer  `json:"peer"`
	Int  uint32   `json:"int"`
	Gap  int      `json:"gap"`
}

type c18Case struct {
	Steps []uStep `json:"steps"`
}

// Replies: good; pre-* precede a good one; the others stand alone.
func genReplies(t *rapid.T) []uReply {
	d := func() int { return rapid.SampledFrom([]int{0, 0, 1, 100, 400}).Draw(t, "d") }
	switch rapid.IntRange(0, 5).Draw(t, "rk") {
	case 0: // wrong in one way
		return []uReply{{rapid.SampledFrom([]string{"silent", "txid", "action", "error", "cut", "cut", "raw", "empty", "late", "flood"}).Draw(t, "bad"), rapid.IntRange(0, 4000).Draw(t, "n"), d()}}
	case 1: // stray datagrams of other transactions first
		var r []uReply
		for k := rapid.IntRange(1, 3).Draw(t, "strays"); k > 0; k-- {
			r = append(r, uReply{"txid", rapid.IntRange(0, 4000).Draw(t, "n"), 0})
		}
		return append(r, uReply{K: "good", D: d()})
	case 2: // repeated
		return []uReply{{K: "good", D: d()}, {K: "good", D: 0}}
	case 3: // longer than it has to be, where that is allowed
		return []uReply{{K: "good", N: pick(t, "more", 1, 4, 16, 400), D: d()}}
	}
	return []uReply{{K: "good", D: d()}}
}

func genC18(t *rapid.T) c18Case {
	var s c18Case
	for k := rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "steps"); k > 0; k-- {
		st := uStep{Hash: genHash(t), Down: genU64(t, "down"), Up: genU64(t, "up"), Left: genU64(t, "left"),
			Port: rapid.IntRange(0, 65535).Draw(t, "lport"), Conn: genU64(t, "conn"),
			CR: genReplies(t), AR: genReplies(t),
			Int: uint32(rapid.IntRange(0, 1<<32-1).Draw(t, "interval")),
			Gap: rapid.SampledFrom([]int{0, 0, 1000, 2000}).Draw(t, "gap")}
		for i := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 200)).Draw(t, "npeers"); i > 0; i-- {
			st.Peer = append(st.Peer, hPeer{IP: genV4(t), Port: genPort(t)})
			if rapid.IntRange(0, 15).Draw(t, "again") == 0 {
				st.Peer = append(st.Peer, st.Peer[rapid.IntRange(0, len(st.Peer)-1).Draw(t, "which")])
			}
		}
		if rapid.IntRange(0, 24).Draw(t, "crowd") == 0 {
			st.Peer = append(st.Peer, crowd(pick(t, "many", 50, 74, 200, 255, 256, 1000, 5000, 10600))...)
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func (st uStep) replies(rs []uReply, action uint32, txid uint32) []reply {
	var out []reply
	for _, r := range rs {
		b := binary.BigEndian.AppendUint32(nil, action)
		b = binary.BigEndian.AppendUint32(b, txid)
		if action == 0 {
			b = binary.BigEndian.AppendUint64(b, st.Conn)
			if r.K == "good" { // at least 16 bytes
				b = append(b, content(9, r.N)...)
			}
		} else {
			b = binary.BigEndian.AppendUint32(b, st.Int)
			b = append(b, u32(3)...)
			b = append(b, u32(4)...)
			for _, p := range st.Peer {
				a := netip.MustParseAddr(p.IP).As4()
				b = append(b, a[:]...)
				b = append(b, byte(p.Port>>8), byte(p.Port))
			}
		}
		d := ms(r.D)
		switch r.K {
		case "silent":
			continue
		case "txid":
			x := uint32(1 + r.N)
			switch r.N % 4 { // other bits differ
			case 1:
				x <<= 16
			case 2:
				x = 1 << (r.N / 4 % 32)
			}
			binary.BigEndian.PutUint32(b[4:], txid^x)
		case "action":
			a := []uint32{1 - action, 2, 4, 1 << 31, 1<<32 - 1, 256}[r.N%6]
			binary.BigEndian.PutUint32(b, a)
		case "error":
			b = append(append(u32(3), b[4:8]...), []byte("denied")[:r.N%7]...)
		case "cut":
			n := r.N % len(b)
			if action == 1 && n >= 20 && (n-20)%6 == 0 {
				n-- // still a truncated entry, or a header too short
			}
			b = b[:n]
		case "raw":
			b = content(uint64(r.N+1), r.N%60)
		case "empty":
			b = nil
		case "flood": // of other transactions, longer than anybody waits
			for k := 0; k < 40; k++ {
				x := append([]byte(nil), b...)
				binary.BigEndian.PutUint32(x[4:], txid^uint32(1+r.N+k))
				out = append(out, reply{ms(r.D + 200*k), x})
			}
			continue
		case "late":
			d += 1300 * time.Millisecond
		}
		out = append(out, reply{d, b})
	}
	return out
}

func goodReplies(rs []uReply) bool {
	for _, r := range rs {
		if r.K == "good" {
			return true
		}
	}
	return false
}

func runC18(c *C, s c18Case) {
	bubble(c, func() {
		n := newSimNet(c)
		var cur uStep
		var pkts [][]byte
		n.setHost("tracker.test:6969", udpHost(func(p []byte) []reply {
			pkts = append(pkts, p)
			if len(p) < 16 {
				return nil
			}
			txid := binary.BigEndian.Uint32(p[12:])
			switch binary.BigEndian.Uint32(p[8:]) {
			case 0:
				return cur.replies(cur.CR, 0, txid)
			case 1:
				return cur.replies(cur.AR, 1, txid)
			}
			return nil
		}))
		tr, err := tracker.New("udp://tracker.test:6969/announce", zap.NewNop())
		if err != nil {
			c.Failf("tracker: %v", err)
		}
		for i, st := range s.Steps {
			cur, pkts = st, nil
			connOK := goodReplies(st.CR)
			ok := connOK && goodReplies(st.AR)
			if !ok || len(st.CR) > 1 || len(st.AR) > 1 || len(st.Peer) > 1 {
				c.NonTrivial()
			}
			if ok {
				c.Label("good")
			}
			t0 := time.Now()
			var got []netip.AddrPort
			if g := guard(func() {
				got, err = tr.Announce(context.Background(), string(st.Hash), &gotit.AnnounceData{Downloaded: st.Down, Uploaded: st.Up, Left: st.Left, Port: st.Port})
			}); g != nil {
				c.Failf("Announce: %v", g)
			}
			if d := time.Since(t0); d > 3*time.Second {
				c.Failf("announce %d took %v", i, d)
			}
			// let every datagram of this step arrive
			time.Sleep(ms(st.Gap))
			if len(pkts) == 0 {
				c.Failf("announce %d sent nothing", i)
			}
			if len(pkts[0]) != 16 || binary.BigEndian.Uint64(pkts[0]) != 0x41727101980 || binary.BigEndian.Uint32(pkts[0][8:]) != 0 {
				c.Failf("announce %d: connect packet is %x", i, pkts[0])
			}
			if !connOK && len(pkts) > 1 {
				c.Failf("announce %d: a packet was sent without a connection id: %x", i, pkts[1])
			}
			if connOK && len(pkts) < 2 {
				c.Failf("announce %d: connected but no announce was sent (%v)", i, err)
			}
			if connOK {
				p := pkts[1]
				if len(p) != 98 {
					c.Failf("announce %d: announce packet has %d bytes: %x", i, len(p), p)
				}
				want := binary.BigEndian.AppendUint64(nil, st.Conn)
				want = append(want, u32(1)...)
				want = append(want, p[12:16]...)
				want = append(want, st.Hash...)
				want = append(want, peer.ClientId...)
				want = binary.BigEndian.AppendUint64(want, st.Down)
				want = binary.BigEndian.AppendUint64(want, st.Left)
				want = binary.BigEndian.AppendUint64(want, st.Up)
				if !bytes.Equal(p[:80], want) {
					c.Failf("announce %d: packet is %x, want it to begin with %x", i, p, want)
				}
				if ev := binary.BigEndian.Uint32(p[80:]); ev > 3 {
					c.Failf("announce %d: event %d", i, ev)
				}
				if pt := binary.BigEndian.Uint16(p[96:]); int(pt) != st.Port {
					c.Failf("announce %d: port %d, want %d", i, pt, st.Port)
				}
			}
			if !ok {
				if err == nil {
					c.Failf("announce %d succeeded with %v although it was answered by %+v and %+v", i, got, st.CR, st.AR)
				}
				continue
			}
			if err != nil {
				c.Failf("announce %d failed with %v although it was answered by %+v and %+v", i, err, st.CR, st.AR)
			}
			if len(got) != len(st.Peer) {
				c.Failf("announce %d yields %d peers, the response lists %d", i, len(got), len(st.Peer))
			}
			for k, p := range st.Peer {
				if want := netip.AddrPortFrom(netip.MustParseAddr(p.IP), uint16(p.Port)); got[k] != want {
					c.Failf("announce %d: peer %d is %v, listed is %v", i, k, got[k], want)
				}
			}
		}
		tr.Close()
		n.shutdown()
	})
}
