package props

import (
	"context"
	"time"

	"pgregory.net/rapid"
)

// C27: nobody is hammered: attempts that fail are repeated a bounded number of
// times and with pauses.

type c27Case struct {
	Swarm SwarmSpec `json:"swarm"`
	For   int       `json:"for"` // s
}

func genC27(t *rapid.T) c27Case {
	s := c27Case{For: pick(t, "for", 30, 90, 300, 1800)}
	w := &s.Swarm
	w.T = TSpec{Name: Bytes("t"), PieceLen: 50, Len: 400, Seed: 3}
	w.Port = 1
	np := rapid.IntRange(0, 6).Draw(t, "peers")
	for i := 0; i < np; i++ {
		p := PeerB{Kind: pick(t, "kind", "refuse", "refuse", "hang", "silent", "badhs", "shut", "choker", "choker", "serve", "serve"),
			HSD: pick(t, "hsd", 0, 0, 20, 400), CD: pick(t, "cd", 0, 0, 0, 300, 1500)}
		switch p.Kind {
		case "choker":
			p.All = rapid.Bool().Draw(t, "all")
		case "serve":
			p.All = rapid.Bool().Draw(t, "all")
			p.UD = pick(t, "ud", 0, 5, 3000, 30000)
			p.Tail = PAct{K: pick(t, "tail", "ignore", "ignore", "corrupt", "close")}
		}
		if rapid.IntRange(0, 3).Draw(t, "leaves") == 0 {
			p.Bye = pick(t, "bye", 1, 200, 4000, 40000)
		}
		p.Skip = pick(t, "skip", 0, 0, 0, 1, 3, 6)
		w.Peers = append(w.Peers, p)
	}
	w.Max = pick(t, "max", 1, 3, 10)
	for k := pick(t, "trks", 1, 1, 2); k > 0; k-- {
		x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "udp"), Mute: pick(t, "mute", 0, 0, 0, 1, 4, 30), Late: pick(t, "late", 0, 0, 0, 1, 30)}
		for r := rapid.IntRange(1, 9).Draw(t, "resps"); r > 0; r-- {
			if rapid.IntRange(0, 2).Draw(t, "ok") == 0 {
				x.Resp = append(x.Resp, genOKResp(t, genSome(t, "some", np, 7), 1, 5, 20, 60, 0, 300))
			} else {
				x.Resp = append(x.Resp, genBadResp(t))
			}
		}
		w.Trk = append(w.Trk, x)
	}
	if rapid.IntRange(0, 3).Draw(t, "v6") == 0 {
		w.listV6()
	}
	return s
}

const (
	c27Announces = 500 * time.Millisecond // between announces to a tracker
	c27Dials     = 100 * time.Millisecond // between attempts to connect to a peer
	c27Attempts  = 5
	c27Frames    = 20 // to a peer that says nothing, in ten seconds
)

func runC27(c *C, s c27Case) {
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		t0 := time.Now()
		w.run(context.Background(), time.Duration(s.For)*time.Second)
		w.close()
		since := func(t time.Time) time.Duration { return t.Sub(t0) }

		for i, k := range s.Swarm.Trk {
			var as []attempt
			for _, a := range w.connects {
				if a.trk == i {
					as = append(as, a)
				}
			}
			for _, r := range w.recs {
				if r.trk != i {
					continue
				}
				a := attempt{trk: i, at: r.at, ok: r.ok, in: time.Duration(r.resp.Int) * time.Second}
				if k.Kind == "http" {
					as = append(as, a)
					continue
				}
				for j := len(as) - 1; j >= 0; j-- { // the connect packet before it
					if !as[j].at.After(r.at) {
						as[j].ok, as[j].in = a.ok, a.in
						break
					}
				}
			}
			if k.Kind == "udp" { // a name that is not resolved is a failed attempt, too
				var last time.Time
				for n, d := range w.net.dialsOf(udpTrkHost(i)) {
					if gap := d.Sub(last); n > 0 && n <= k.Late && gap < c27Announces {
						c.Failf("udp tracker: attempts to resolve its name after %v and %v", since(last), since(d))
					}
					if n > 0 {
						c.NonTrivial()
						c.Label("tracker dialled again")
					}
					last = d
				}
			}
			in, failed := time.Minute, 0
			for j, a := range as {
				if j > 0 {
					gap := a.at.Sub(as[j-1].at)
					if gap < c27Announces {
						c.Failf("%s tracker: attempts to announce after %v and %v", k.Kind, since(as[j-1].at), since(a.at))
					}
					if gap >= in {
						failed = 0
					}
				}
				if a.ok {
					failed, in = 0, a.in
					if in == 0 {
						in = time.Minute
					}
					continue
				}
				if failed++; failed > c27Attempts {
					c.Failf("%s tracker: %d attempts in a row failed, the last after %v, and its interval of %v was not waited between any of them", k.Kind, failed, since(a.at), in)
				}
				if failed > 1 {
					c.NonTrivial()
					c.Label("announce repeated")
				}
			}
		}

		for i, p := range s.Swarm.Peers {
			addr := s.Swarm.addr(i).String()
			var listed []time.Time
			for _, r := range w.recs {
				if !r.ok {
					continue
				}
				for _, k := range r.resp.Peers {
					if k == i {
						listed = append(listed, r.answered)
						break
					}
				}
			}
			n := 0
			var last time.Time
			for _, d := range w.net.log {
				if d.addr != addr {
					continue
				}
				if n++; n > 1 {
					again := false
					for _, l := range listed {
						again = again || (!l.Before(last) && !l.After(d.at))
					}
					if gap := d.at.Sub(last); gap < c27Dials && !again {
						c.Failf("peer %d (%s): attempts to connect after %v and %v", i, p.Kind, since(last), since(d.at))
					}
					c.NonTrivial()
					c.Label("dialled again")
				}
				last = d.at
			}
			if n > c27Attempts*len(listed) {
				c.Failf("peer %d (%s): %d attempts to connect, it was listed %d times", i, p.Kind, n, len(listed))
			}
		}

		// fifteen seconds into the session these peers say nothing any more,
		// except for an unchoke
		for _, f := range w.frames {
			for j := range f {
				if f[j].Sub(f[0]) < 15*time.Second {
					continue
				}
				if k := j + c27Frames; k < len(f) && f[k].Sub(f[j]) < 10*time.Second {
					c.Failf("a silent peer got %d messages in %v", c27Frames+1, f[k].Sub(f[j]))
				}
				c.Label("long session")
			}
		}
	})
}

func init() {
	register("C27", "retries", "an announce that failed was repeated, or a peer was dialled again", 1000, 30000, genC27, runC27)
}
