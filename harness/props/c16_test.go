package props

import (
	"context"
	"sync"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// C16: a download with an honest seeder finishes with byte-identical content.

type c16Case struct {
	Kind  string    `json:"kind"` // seeder, joint, bitfield, empty
	Swarm SwarmSpec `json:"swarm"`
}

func genC16(t *rapid.T) c16Case {
	s := c16Case{Kind: pick(t, "case", "seeder", "seeder", "seeder", "seeder", "joint", "joint", "joint", "bitfield", "empty", "crowd", "patient")}
	w := &s.Swarm
	w.T = genSwarmSpec(t, pick(t, "maxpieces", 1, 4, 9, 9, 30, 70), true)
	if s.Kind == "seeder" && rapid.IntRange(0, 59).Draw(t, "manypieces") == 0 {
		w.T = manyPieces(t)
	}
	w.T.Fill = genFill(t)
	w.Port = rapid.IntRange(1, 65535).Draw(t, "port")
	n := w.T.pieces()
	switch s.Kind {
	case "joint":
		k := rapid.IntRange(2, 4).Draw(t, "peers")
		for i := 0; i < k; i++ {
			w.Peers = append(w.Peers, genHonest(t))
		}
		for i := 0; i < n; i++ {
			o := rapid.IntRange(0, k-1).Draw(t, "owner")
			w.Peers[o].Has = append(w.Peers[o].Has, i)
			if o2 := rapid.IntRange(0, 3*k).Draw(t, "owner2"); o2 < k && o2 != o {
				w.Peers[o2].Has = append(w.Peers[o2].Has, i)
			}
		}
	case "empty":
		w.T = TSpec{Name: Bytes("e"), PieceLen: rapid.IntRange(1, 100).Draw(t, "pl"), Seed: 1}
		if rapid.Bool().Draw(t, "multi") {
			w.T.Multi, w.T.Files = true, []TFile{{Path: []Bytes{Bytes("a")}}, {Path: []Bytes{Bytes("b")}}}
		}
		if rapid.Bool().Draw(t, "peer") {
			w.Peers = append(w.Peers, genAny(t, 0))
		}
	case "patient": // of several blocks of a piece some come, long after the start, from a peer that leaves
		w.T.PieceLen = pick(t, "piecelen", 128<<10+1, 256<<10, 384<<10-1)
		w.T.Multi, w.T.Files = false, nil
		n = rapid.IntRange(1, 3).Draw(t, "pieces")
		w.T.Len = n * w.T.PieceLen
		seed := genHonest(t)
		seed.All, seed.UD = true, pick(t, "ud", 0, 125000, 300000)
		seed.Skip = pick(t, "skip", 0, 0, 6)
		p := PeerB{Kind: "serve", All: true, UD: pick(t, "ud", 0, 113900, 114000, 115000, 119000, 235000), Conns: 1, Tail: PAct{K: pick(t, "tail", "last", "close", "ignore")}}
		for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
			p.Acts = append(p.Acts, PAct{K: "honest", D: pick(t, "delay", 0, 100, 5000, 9000)})
		}
		p.Acts = append(p.Acts, PAct{K: pick(t, "act", "last", "last", "close"), D: pick(t, "delay", 0, 100, 5000)})
		w.Peers = append(w.Peers, seed, p)
	case "crowd":
		seed := genHonest(t)
		seed.All = true
		w.Peers = append(w.Peers, seed)
		any := genFaulty(t, n)
		for i := rapid.IntRange(10, 60).Draw(t, "others"); i > 0; i-- {
			w.Peers = append(w.Peers, any)
		}
	default:
		seed := genHonest(t)
		seed.All = true
		if n > 1000 {
			seed.Tail.D = min(seed.Tail.D, 20)
		}
		if s.Kind == "bitfield" {
			seed.Bf, seed.Later = true, false
		} else {
			for i := rapid.IntRange(0, 4).Draw(t, "others"); i > 0; i-- {
				w.Peers = append(w.Peers, genFaulty(t, n))
			}
		}
		at := rapid.IntRange(0, len(w.Peers)).Draw(t, "place")
		w.Peers = append(w.Peers[:at:at], append([]PeerB{seed}, w.Peers[at:]...)...)
	}
	w.T.Stale = genStale(t)
	w.Max = len(w.Peers) + pick(t, "room", 0, 0, 1, 50)
	// one tracker gives every peer in the end, the others may do anything
	good := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "http", "udp")}
	good.Late = pick(t, "late", 0, 0, 1, 4)
	for i := pick(t, "fails", 0, 0, 0, 1, 3, 7); i > 0; i-- {
		good.Resp = append(good.Resp, genBadResp(t))
	}
	ints := []int{0, 30, 60, 300, 1800}
	if rapid.IntRange(0, 3).Draw(t, "partial") == 0 {
		good.Resp = append(good.Resp, genOKResp(t, genSome(t, "some", len(w.Peers), 4), ints...))
	}
	good.Resp = append(good.Resp, genOKResp(t, upto(len(w.Peers)), ints...))
	w.Trk = []Trk{good}
	for i := pick(t, "trks", 0, 0, 1, 3); i > 0; i-- {
		x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk2", "http", "udp", "bad", "dead")}
		if rapid.Bool().Draw(t, "works") {
			x.Resp = []TrkResp{genOKResp(t, genSome(t, "some", len(w.Peers), 5), ints...)}
		} else {
			x.Resp = []TrkResp{genBadResp(t)}
		}
		w.Trk = append(w.Trk, x)
	}
	if len(w.Trk) > 1 && rapid.Bool().Draw(t, "swap") {
		w.Trk[0], w.Trk[1] = w.Trk[1], w.Trk[0]
	}
	if rapid.IntRange(0, 4).Draw(t, "v6") == 0 {
		w.listV6()
	}
	w.Lone = rapid.Bool().Draw(t, "lone")
	w.Tier = pick(t, "tier", 0, 1, 2)
	return s
}

// genFaulty is any peer that does not come back for ever.
func genFaulty(t *rapid.T, n int) PeerB {
	p := genAny(t, n)
	p.Conns = rapid.IntRange(1, 4).Draw(t, "conns")
	return p
}

func runC16(c *C, s c16Case) {
	n := s.Swarm.T.pieces()
	if n > 0 {
		c.NonTrivial()
	}
	all := func(int) bool { return true }
	excused := s.Kind == "bitfield" && !bitOrderSame(n, all)
	limit := 6*time.Hour + time.Duration(n)*time.Second
	if excused {
		limit = 10 * time.Minute
	}
	c.Label(s.Kind)
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		ended, took, err := w.run(context.Background(), limit)
		w.close()
		if !ended {
			if excused {
				c.Known("bitfield-bit-order")
				return
			}
			c.Failf("the download does not end although every piece is offered by honest peers: %d of %d bytes stored after %v",
				w.stored(), len(w.data), took)
		}
		if err != nil {
			c.Failf("the finished download reports %v", err)
		}
		s.Swarm.T.compareDisk(c, w.dir, all, false)
		if took > time.Minute {
			c.Label("took over a minute")
		}
		if took > time.Hour {
			c.Label("took over an hour")
		}
	})
}

// two downloads at once in one process, from peers that serve both.

type c16Two struct {
	A  SwarmSpec `json:"a"`
	B  SwarmSpec `json:"b"`
	At int       `json:"at"` // ms until the second one starts
}

func genC16Two(t *rapid.T) c16Two {
	one := func(off int, name string) SwarmSpec {
		s := SwarmSpec{T: genSwarmSpec(t, pick(t, "maxpieces", 1, 4, 9, 30), true), Off: off, Port: 1 + off}
		s.T.Name = Bytes(name)
		s.T.Seed += uint64(off)
		n := s.T.pieces()
		k := rapid.IntRange(1, 4).Draw(t, "peers")
		for i := 0; i < k; i++ {
			p := genHonest(t)
			p.All, p.Bf = i == 0, false
			for j := 0; i > 0 && j < n; j++ {
				if rapid.Bool().Draw(t, "has") {
					p.Has = append(p.Has, j)
				}
			}
			s.Peers = append(s.Peers, p)
		}
		s.Max = k
		s.Trk = []Trk{{Kind: pick(t, "trk", "http", "udp"), Resp: []TrkResp{genOKResp(t, upto(k), 0, 30, 300)}}}
		return s
	}
	return c16Two{one(0, "first"), one(100, "second"), pick(t, "at", 0, 0, 1, 300, 2500)}
}

func runC16Two(c *C, s c16Two) {
	if s.A.T.pieces() > 0 && s.B.T.pieces() > 0 {
		c.NonTrivial()
	}
	all := func(int) bool { return true }
	bubble(c, func() {
		a := newSwarm(c, s.A)
		b := newSwarmOn(c, s.B, a.net, a)
		var wg sync.WaitGroup
		ended := [2]bool{}
		for i, w := range []*swarm{a, b} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(i * s.At))
				ended[i], _, _ = w.run(context.Background(), 6*time.Hour)
			}()
		}
		wg.Wait()
		a.mng.Stop()
		b.close()
		for i, w := range []*swarm{a, b} {
			if !ended[i] {
				c.Failf("of two downloads at once, number %d does not end although an honest peer has everything: %d of %d bytes stored",
					i+1, w.stored(), len(w.data))
			}
			w.spec.T.compareDisk(c, w.dir, all, false)
		}
		if len(a.deliv) > 0 && len(b.deliv) > 0 && !a.deliv[len(a.deliv)-1].at.Before(b.deliv[0].at) && !b.deliv[len(b.deliv)-1].at.Before(a.deliv[0].at) {
			c.Label("overlapping")
		}
	})
}

// slow disk: blocks are taken from the peers one at a time, now and then late.

type c16Slow struct {
	T     TSpec `json:"t"`
	Peers int   `json:"peers"`
	Lag   []int `json:"lag"` // ms until the next block is taken, repeated
}

func genC16Slow(t *rapid.T) c16Slow {
	s := c16Slow{T: genSwarmSpec(t, 9, true), Peers: rapid.IntRange(1, 3).Draw(t, "peers")}
	if rapid.Bool().Draw(t, "blocks") {
		s.T = TSpec{Name: Bytes("b"), Seed: 5, PieceLen: 384 << 10, Len: rapid.IntRange(1, 3).Draw(t, "pieces")*384<<10 - rapid.SampledFrom([]int{0, 1, 200000}).Draw(t, "short")}
	}
	s.Lag = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 50, 1200, 3000, 11000, 40000}), 1, 6).Draw(t, "lag")
	return s
}

func runC16Slow(c *C, s c16Slow) {
	for _, l := range s.Lag {
		if l > 0 {
			c.NonTrivial()
		}
	}
	bubble(c, func() {
		x := newSession(c, s.T)
		cov := newCoverage(s.T, x.data)
		slow := make(chan *util.PeerMessage)
		taken := make(chan struct{})
		go func() {
			defer close(taken)
			for k := 0; ; k++ {
				time.Sleep(ms(s.Lag[k%len(s.Lag)]))
				m, ok := <-slow
				if !ok {
					return
				}
				x.ch <- m
			}
		}()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		for i := 0; i < s.Peers; i++ {
			x.hostilePeer(i, c10Peer{Tail: "honest"}, cov, func() {})
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				p := peer.NewPeer(addrN(i), x.tor, x.queue, slow, zap.NewNop())
				if err := p.Announce(x.tor); err == nil {
					p.Run(ctx)
				}
				p.Close()
			}()
		}
		time.AfterFunc(2*time.Hour, cancel)
		x.wg.Wait()
		close(slow)
		<-taken
		x.finish()
		if !x.tor.Done() {
			c.Failf("honest peers served every piece, but the torrent is not complete: %d of %d bytes stored", x.st.Download(), len(x.data))
		}
		s.T.compareDisk(c, x.dir, func(int) bool { return true }, false)
	})
}

func init() {
	register("C16", "slow-disk", "sessions with 1-3 honest peers whose blocks are taken over one at a time and late; non-trivial: some block is taken late", 300, 6000, genC16Slow, runC16Slow)
	register("C16", "two", "two downloads at once in one process, both torrents have pieces", 200, 6000, genC16Two, runC16Two, inRaceSome(6))
	register("C16", "swarm", "the torrent has at least one piece", 1500, 40000, genC16, runC16, inRaceSome(6))
}
