package props

import (
	"context"
	"regexp"
	"strconv"
	"sync"
	"time"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// C21: the peer pool holds distinct peers and never exceeds the maximum.

// --- AddPeer ----------------------------------------------------------------

type c21Add struct {
	Max   int     `json:"max"`
	Lists [][]int `json:"lists"` // one goroutine each
}

func genC21Add(t *rapid.T) c21Add {
	s := c21Add{Max: rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(-1, 60), rapid.IntRange(60, 400)).Draw(t, "max")}
	span := pick(t, "span", 1, 5, 20, 60, 300)
	for k := pick(t, "lists", 1, 2, 4, 8); k > 0; k-- {
		s.Lists = append(s.Lists, rapid.SliceOfN(rapid.IntRange(0, span), 0, pick(t, "length", 10, 40, 150)).Draw(t, "list"))
	}
	return s
}

func runC21Add(c *C, s c21Add) {
	spec := TSpec{Name: Bytes("t"), PieceLen: 4, Len: 10, Seed: 1}
	tor := spec.open(c, c.TempDir(), "http://t/")
	m := download.NewMng(tor, zap.NewNop(), s.Max, 1)
	defer m.Stop()
	q := torrent.NewPiecesQueue()
	add := func(i int) bool {
		return m.AddPeer(peer.NewPeer(SwarmSpec{V6: true}.addr(i), tor, q, nil, zap.NewNop()))
	}
	distinct := map[int]bool{}
	for _, l := range s.Lists {
		for _, i := range l {
			distinct[i] = true
		}
	}
	want := max(0, min(s.Max, len(distinct)))
	if len(distinct) > 0 && s.Max > 0 {
		c.NonTrivial()
	}
	if len(s.Lists) == 1 {
		c.Label("one list")
		in := map[int]bool{}
		for k, i := range s.Lists[0] {
			ok := !in[i] && len(in) < s.Max
			if got := add(i); got != ok {
				c.Failf("AddPeer number %d (address %d, %d peers in the pool, maximum %d, already there: %v) = %v", k, i, len(in), s.Max, in[i], got)
			}
			if ok {
				in[i] = true
			}
		}
		return
	}
	c.Label("concurrent lists")
	acc := make([][]int, len(s.Lists))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k, l := range s.Lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range l {
				if add(i) {
					acc[k] = append(acc[k], i)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	n, seen := 0, map[int]bool{}
	for _, a := range acc {
		for _, i := range a {
			if seen[i] {
				c.Failf("address %d was accepted twice", i)
			}
			seen[i] = true
			n++
		}
	}
	if n != want {
		c.Failf("%d peers accepted, want %d: maximum %d, %d distinct addresses", n, want, s.Max, len(distinct))
	}
}

// --- downloads --------------------------------------------------------------

type c21Case struct {
	Swarm SwarmSpec `json:"swarm"`
	For   int       `json:"for"` // s
}

func genC21Peer(t *rapid.T, one bool) PeerB {
	k := pick(t, "kind", "choker", "choker", "choker", "choker", "refuse", "hang", "silent", "badhs", "shut")
	p := PeerB{Kind: k, All: true, HSD: pick(t, "hsd", 0, 0, 20, 400)}
	if k == "choker" {
		switch pick(t, "more", 0, 0, 0, 1, 2) {
		case 1:
			p.Bye = pick(t, "bye", 1, 500, 5000, 40000)
		case 2:
			p.Skip = pick(t, "skip", 1, 3, 6)
		}
	}
	return p
}

// genC21 draws one tracker whose rounds are far enough apart for the pool to
// come to rest between them.
func genC21(t *rapid.T) c21Case {
	var s c21Case
	w := &s.Swarm
	w.T = TSpec{Name: Bytes("t"), PieceLen: 7, Len: 40, Seed: 3}
	w.Port = 1
	np := pick(t, "peers", 1, 3, 6, 10, 25, 25, 70, 150, 330)
	stay := rapid.Bool().Draw(t, "stay") // nobody leaves: the displayed count can be judged
	for i := 0; i < np; i++ {
		if i > 100 { // like the ones before
			w.Peers = append(w.Peers, w.Peers[i-50])
			continue
		}
		p := genC21Peer(t, true)
		if stay {
			p.Bye = 0
		}
		w.Peers = append(w.Peers, p)
	}
	w.Max = pick(t, "max", 1, 2, 3, 5, 10, 30, 0, 60, 120, 200, 400)
	x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "udp")}
	for r := pick(t, "rounds", 1, 2, 3, 5); r > 0; r-- {
		l := rapid.SliceOfN(rapid.SampledFrom(upto(np)), 0, 2*np).Draw(t, "list")
		if rapid.Bool().Draw(t, "all") {
			l = append(upto(np), l...)
		}
		x.Resp = append(x.Resp, genOKResp(t, l, 90, 0, 60, 61))
		s.For += 90
		if rapid.IntRange(0, 5).Draw(t, "fails") == 5 {
			x.Resp = append(x.Resp, TrkResp{K: "failure"})
			s.For += 5
		}
	}
	w.Trk = []Trk{x}
	if rapid.IntRange(0, 3).Draw(t, "v6") == 0 {
		w.listV6()
	}
	s.For += 35
	return s
}

// genC21Many draws several trackers that answer whenever they like.
func genC21Many(t *rapid.T) c21Case {
	var s c21Case
	w := &s.Swarm
	w.T = genSwarmSpec(t, 9, false)
	w.Port = 1
	np := pick(t, "peers", 2, 4, 8, 20, 70)
	for i := 0; i < np; i++ {
		if rapid.Bool().Draw(t, "any") {
			w.Peers = append(w.Peers, genAny(t, w.T.pieces()))
		} else {
			w.Peers = append(w.Peers, genC21Peer(t, false))
		}
	}
	w.Max = pick(t, "max", 1, 2, 3, 5, 10, 30, 100)
	for k := pick(t, "trks", 2, 3, 5); k > 0; k-- {
		x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "udp")}
		for r := pick(t, "rounds", 1, 2, 4); r > 0; r-- {
			if pick(t, "ok", true, true, true, false) {
				l := rapid.SliceOfN(rapid.SampledFrom(upto(np)), 0, 2*np).Draw(t, "list")
				x.Resp = append(x.Resp, genOKResp(t, l, 1, 2, 5, 17, 60))
			} else {
				x.Resp = append(x.Resp, genBadResp(t))
			}
		}
		w.Trk = append(w.Trk, x)
	}
	if rapid.IntRange(0, 3).Draw(t, "v6") == 0 {
		w.listV6()
	}
	s.For = pick(t, "for", 5, 30, 200)
	return s
}

var peersShown = regexp.MustCompile(`peers \((\d+)\)`)

func (w *swarm) judgePool(c *C) {
	for a, k := range w.net.maxDup {
		if k > 1 && isPeerAddr(a) {
			c.Failf("%d connections to %s at the same time", k, a)
		}
	}
	if w.net.most > w.spec.Max {
		c.Failf("connected to %d peers at the same time, maximum is %d", w.net.most, w.spec.Max)
	}
}

func runC21Many(c *C, s c21Case) {
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		w.lookPool = true
		end := time.Now().Add(time.Duration(s.For) * time.Second) // cancelled then
		w.run(context.Background(), time.Duration(s.For)*time.Second)
		w.close()
		if w.net.most > 1 || w.net.most == s.Swarm.Max {
			c.NonTrivial()
		}
		w.judgePool(c)
		// everything fits: whoever was listed is connected to
		if len(s.Swarm.Peers) <= s.Swarm.Max {
			c.Label("room for all")
			first := map[string]bool{}
			for _, d := range w.net.log {
				first[d.addr] = true
			}
			for _, r := range w.recs {
				if !r.ok || end.Sub(r.answered) < time.Second || w.stored() == uint64(len(w.data)) {
					continue
				}
				for _, i := range r.resp.Peers {
					if !first[s.Swarm.addr(i).String()] {
						c.Failf("peer %d was listed at %v, there is room for it and it was not connected to", i, r.answered)
					}
				}
			}
		}
	})
}

func runC21(c *C, s c21Case) {
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		w.lookPool = true
		end := time.Now().Add(time.Duration(s.For) * time.Second) // cancelled then
		w.run(context.Background(), time.Duration(s.For)*time.Second)
		w.close()
		w.judgePool(c)
		byes := 0
		for _, p := range s.Swarm.Peers {
			if p.Bye > 0 {
				byes++
			}
		}
		var rounds []annRec
		for _, r := range w.recs {
			if r.ok && end.Sub(r.answered) >= 20*time.Second {
				rounds = append(rounds, r)
			}
		}
		for k, r := range rounds {
			before := map[string]bool{}
			for _, a := range r.open {
				before[a] = true
			}
			// a peer that left may not have been noticed yet
			limbo := 0
			if k > 0 {
				for i, p := range s.Swarm.Peers {
					if p.Bye > 0 && !before[s.Swarm.addr(i).String()] {
						limbo++
					}
				}
				if limbo == 0 && byes == 0 {
					m := peersShown.FindStringSubmatch(r.shown)
					if m == nil {
						c.Failf("no peer count displayed a minute into the download: %q", r.shown)
					}
					if n, _ := strconv.Atoi(m[1]); n != len(r.open) {
						c.Failf("%s peers displayed while %d peers are in the pool (no change for 40 s)", m[1], len(r.open))
					}
					c.Label("displayed count judged")
					if len(r.open) > 30 {
						c.Label("displayed count above 30 judged")
					}
				}
			}
			fresh := map[string]bool{}
			for _, i := range r.resp.Peers {
				if a := s.Swarm.addr(i).String(); !before[a] && s.Swarm.Peers[i].Bye == 0 {
					fresh[a] = true
				}
			}
			until := time.Now().Add(time.Hour)
			if k+1 < len(rounds) {
				until = rounds[k+1].at
			}
			dialled := map[string]bool{}
			for _, d := range w.net.log {
				if fresh[d.addr] && !d.at.Before(r.at) && d.at.Before(until) {
					dialled[d.addr] = true
				}
			}
			left := 0 // places peers with a goodbye may hold
			for _, i := range r.resp.Peers {
				if s.Swarm.Peers[i].Bye > 0 {
					left++
				}
			}
			room := s.Swarm.Max - len(r.open) - limbo - left
			if want := min(room, len(fresh)); len(dialled) < want {
				c.Failf("round %d: %d peers in the pool, maximum %d, %d new addresses listed, only %d of them connected to",
					k, len(r.open), s.Swarm.Max, len(fresh), len(dialled))
			} else if want > 0 {
				c.NonTrivial()
				if k > 0 {
					c.Label("later round with room")
				}
			}
			if len(fresh) > room {
				c.Label("more new addresses than room")
			}
		}
	})
}

func init() {
	register("C21", "add", "an address is offered and the maximum is positive", 1500, 40000, genC21Add, runC21Add, inRace)
	register("C21", "rounds", "a round of the tracker lists new addresses and there is room", 1500, 40000, genC21, runC21)
	register("C21", "trackers", "several peers were connected at a time, or the maximum was reached", 800, 25000, genC21Many, runC21Many, inRaceSome(6))
}
