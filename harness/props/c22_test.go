package props

import (
	"context"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// C22: cancelling a download at any moment stops it cleanly.

type c22Case struct {
	Swarm SwarmSpec `json:"swarm"`
	How   string    `json:"how"`   // ctx, stop, both, stop-stop, pre-ctx, pre-stop, stops
	Trig  string    `json:"trig"`  // time, block, announce, dial
	N     int       `json:"n"`     // ms or number of events
	After int       `json:"after"` // ns after the event
}

const c22Bound = 10 * time.Second

func genC22(t *rapid.T) c22Case {
	s := c22Case{How: pick(t, "how", "ctx", "ctx", "ctx", "ctx", "ctx", "ctx", "stop", "stop", "stop", "both", "stop-stop", "stops", "pre-ctx", "pre-stop"),
		Trig:  pick(t, "trig", "block", "time", "block", "time", "dial", "announce"),
		After: pick(t, "after", 0, 0, 0, 1, 1000, 1000000, 500000000)}
	if s.Trig == "time" {
		s.N = pick(t, "at", 1500, 2000, 3000, 1001, 1000, 999, 10000, 700, 500, 501, 499, 20000, 60000, 200, 199, 900, 10100, 20, 5, 1, 0) +
			pick(t, "plus", 0, 0, 1, 250, 700, 4000)
	} else {
		s.N = 1 + pick(t, "n", upto(12)...)
		if s.Trig == "announce" {
			s.N = min(s.N, 4)
		}
	}
	w := &s.Swarm
	w.T = genSwarmSpec(t, pick(t, "maxpieces", 9, 30, 4, 1), true)
	w.Port = 6881
	n := w.T.pieces()
	for i := pick(t, "peers", 2, 1, 3, 1, 2, 5, 2, 1, 3, 2, 0); i > 0; i-- {
		if pick(t, "honest", true, true, false) {
			p := genHonest(t)
			if pick(t, "prompt", true, true, false) {
				p.Chokes, p.Skip = nil, 0
				p.UD = min(p.UD, 1500)
				p.Tail.D = min(p.Tail.D, 5000)
			}
			p.All = pick(t, "all", true, true, false)
			if !p.All {
				p.Has = genSome(t, "has", n, 5)
			}
			w.Peers = append(w.Peers, p)
		} else {
			w.Peers = append(w.Peers, genAny(t, n))
		}
	}
	for i := range w.Peers {
		w.Peers[i].CD = pick(t, "cd", 0, 0, 0, 0, 1, 150, 900, 990)
	}
	w.Max = pick(t, "max", 6, 6, 6, 6, 6, 6, 6, 0, 1, 2)
	if pick(t, "good", true, true, true, false) {
		w.Trk = append(w.Trk, Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "udp"), Resp: []TrkResp{genOKResp(t, upto(len(w.Peers)), 0, 1, 30, 1800)}})
	}
	for i := pick(t, "trks", 0, 0, 1, 2, 3); i > 0; i-- {
		x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "http", "udp", "udp", "bad", "dead"), CD: pick(t, "tcd", 0, 0, 0, 300), Late: pick(t, "late", 0, 0, 0, 1, 9)}
		for j := rapid.IntRange(0, 2).Draw(t, "resps"); j >= 0; j-- {
			if rapid.IntRange(0, 3).Draw(t, "ok") != 0 {
				x.Resp = append(x.Resp, genOKResp(t, genSome(t, "some", len(w.Peers), 8), 0, 1, 30, 1800))
			} else {
				x.Resp = append(x.Resp, genBadResp(t))
			}
		}
		w.Trk = append(w.Trk, x)
	}
	return s
}

// prompt peers answer every request truly and in time.
func (b PeerB) prompt() bool {
	if b.Kind != "serve" || len(b.Chokes) > 0 || b.Lim > 0 || b.Tail.K != "honest" || b.Tail.D > 5000 {
		return false
	}
	for _, a := range b.Acts {
		if a.K != "honest" || a.D > 5000 {
			return false
		}
	}
	return true
}

func runC22(c *C, s c22Case) {
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		fire := make(chan struct{})
		var once sync.Once
		if s.Trig != "time" {
			w.event = func(kind string, n int) {
				if kind == s.Trig && n >= s.N {
					once.Do(func() { close(fire) })
				}
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		switch s.How {
		case "pre-ctx":
			cancel()
		case "pre-stop":
			w.mng.Stop()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			w.mng.Download(ctx)
		}()
		early := false
		if s.How != "pre-ctx" && s.How != "pre-stop" {
			var tm <-chan time.Time
			if s.Trig == "time" {
				tm = time.After(ms(s.N) + time.Duration(s.After))
			} else {
				tm = time.After(100 * time.Second)
			}
			select {
			case <-fire:
				select {
				case <-time.After(time.Duration(s.After)):
				case <-done:
					early = true
				}
			case <-tm:
			case <-done:
				early = true
			}
		}
		at := time.Now()
		switch s.How {
		case "ctx":
			cancel()
		case "stop":
			w.mng.Stop()
		case "both":
			cancel()
			w.mng.Stop()
		case "stop-stop":
			w.mng.Stop()
			w.mng.Stop()
		case "stops":
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.mng.Stop()
				}()
			}
			wg.Wait()
		}
		select {
		case <-done:
		case <-time.After(c22Bound):
			// give it the means to end, so that the case ends
			w.net.shutdown()
			select {
			case <-done:
			case <-time.After(time.Hour):
			}
			c.Failf("the download is still running %v after it was cancelled (%s)", c22Bound, s.How)
		}
		took := time.Since(at)
		if u := w.net.unclosed(); len(u) > 0 {
			c.Failf("the download returned and left connections open: %v", u)
		}
		onDisk := s.Swarm.T.piecesOnDisk(c, w.dir, w.data)
		w.mng.Stop()
		w.net.shutdown()
		if g := clientGoroutines(); len(g) > 0 {
			c.Failf("%d goroutines of the client still run after the download returned and was stopped, e.g.\n%s", len(g), g[0])
		}
		again := s.Swarm.T.piecesOnDisk(c, w.dir, w.data)
		w.mu.Lock()
		defer w.mu.Unlock()
		// pieces a prompt peer delivered completely before the cancellation
		type key struct{ conn, index int }
		got := map[key]int{}
		need := 0
		for _, d := range w.deliv {
			if !s.Swarm.Peers[d.peer].prompt() || !d.at.Before(at) {
				continue
			}
			k := key{d.conn, d.index}
			if got[k] += d.n; got[k] == s.Swarm.T.pieceSize(d.index) {
				need++
				if !onDisk[d.index] {
					c.Failf("piece %d was delivered completely %v before the cancellation and is not on disk when the download returns", d.index, at.Sub(d.at))
				}
			}
		}
		for i := range onDisk {
			if onDisk[i] != again[i] {
				c.Failf("piece %d is written after the download returned", i)
			}
		}
		if w.conns > 0 && !early {
			c.NonTrivial()
		}
		switch {
		case early:
			c.Label("ended before the cancellation")
		case need > 0:
			c.Label("cancelled with pieces delivered")
		case w.conns > 0:
			c.Label("cancelled with connections open")
		default:
			c.Label("cancelled before any connection")
		}
		c.Label(s.How)
		if took > 3*time.Second {
			c.Label("took over 3 s")
		}
	})
}

func init() {
	register("C22", "cancel", "a peer was connected to and the download was still running when it was cancelled", 2500, 60000, genC22, runC22, inRaceSome(6))
}
