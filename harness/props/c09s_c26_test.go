package props

import (
	"context"
	"io"
	"net"
	"sync"
	"time"

	"pgregory.net/rapid"
)

func init() {
	register("C09", "sessions",
		"1 to 5 sessions with peers that answer promptly and never choke, each with its own share of the pieces announced before or in the middle of the session, over one torrent; no block is requested twice and every announced piece is requested as a whole; non-trivial: two peers share a piece and the torrent has three or more",
		1000, 20000, genC09Sess, runC09Sess)
	register("C26", "quiet",
		"one session of up to 20 minutes with a peer that chokes, unchokes, announces pieces late or never, trickles bytes, ignores requests or says nothing; the times of everything the client sends; non-trivial: the client had nothing else to say for 100 s or more and the session went on",
		2500, 60000, genC26, runC26)
}

// --- C09 sessions -----------------------------------------------------------

type c09Have struct {
	I int `json:"i"`
	D int `json:"d,omitempty"` // ms after the former one
}

type c09SPeer struct {
	Have []c09Have `json:"have"`
	Un   int       `json:"un"`  // ms until the unchoke
	Ans  []int     `json:"ans"` // ms until each answer
	At   int       `json:"at"`  // ms until the session starts
}

type c09Sess struct {
	T     TSpec      `json:"t"`
	Peers []c09SPeer `json:"peers"`
}

func genC09Sess(t *rapid.T) c09Sess {
	s := c09Sess{T: genSwarmSpec(t, pick(t, "maxpieces", 3, 9, 30, 70), true)}
	n := s.T.pieces()
	for k := rapid.IntRange(1, 5).Draw(t, "peers"); k > 0; k-- {
		p := c09SPeer{Un: pick(t, "un", 0, 0, 10, 900, 2500), At: pick(t, "at", 0, 0, 0, 5, 1500)}
		share := pick(t, "share", 10, 10, 7, 3)
		for _, i := range rapid.Permutation(upto(n)).Draw(t, "order") {
			if rapid.IntRange(0, 9).Draw(t, "has") < share {
				p.Have = append(p.Have, c09Have{i, pick(t, "hd", 0, 0, 0, 0, 0, 5, 300, 1500)})
			}
		}
		for a := rapid.IntRange(1, 4).Draw(t, "ans"); a > 0; a-- {
			p.Ans = append(p.Ans, pick(t, "answer", 0, 0, 0, 1, 100, 990, 1000, 1010, 2500))
		}
		s.Peers = append(s.Peers, p)
	}
	return s
}

func runC09Sess(c *C, s c09Sess) {
	n := s.T.pieces()
	holders := make([]int, n)
	for _, p := range s.Peers {
		for _, h := range p.Have {
			holders[h.I]++
		}
	}
	shared := false
	for _, k := range holders {
		shared = shared || k > 1
	}
	if shared && n > 2 {
		c.NonTrivial()
	}
	bubble(c, func() {
		x := newSession(c, s.T)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var mu sync.Mutex
		asked := map[request]int{}
		for i, p := range s.Peers {
			x.net.setHost(addrN(i).String(), func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
				return sn.connect(addr, 8<<20, func(sv *simConn) {
					defer sv.Close()
					if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
						return
					}
					sv.send(handshake(x.hash(), fakeID), 0, nil)
					quit, done := make(chan struct{}), make(chan struct{})
					defer func() { close(quit); <-done }()
					go func() {
						defer close(done)
						sleep := func(d int) bool {
							select {
							case <-time.After(ms(d)):
								return true
							case <-quit:
								return false
							}
						}
						at, un := 0, false
						unchoke := func() {
							if !un && at >= p.Un {
								sv.send(frame(1), 0, nil)
								un = true
							}
						}
						for _, h := range p.Have {
							unchoke()
							if h.D > 0 && !sleep(h.D) {
								return
							}
							at += h.D
							if sv.send(haveFrame(h.I), 0, nil) != nil {
								return
							}
						}
						if !un && sleep(p.Un-at) {
							at = p.Un
							unchoke()
						}
					}()
					for k := 0; ; k++ {
						b, err := readFrame(sv)
						if err != nil {
							return
						}
						if len(b) != 13 || b[0] != 6 {
							k--
							continue
						}
						r := parseRequest(b)
						mu.Lock()
						asked[r]++
						mu.Unlock()
						if r.index >= n || r.length <= 0 || r.offset+r.length > s.T.pieceSize(r.index) {
							return // C14
						}
						time.Sleep(ms(p.Ans[k%len(p.Ans)]))
						if sv.send(pieceFrame(r.index, r.offset, x.block(r.index, r.offset, r.length)), 0, nil) != nil {
							return
						}
					}
				}), nil
			})
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				time.Sleep(ms(p.At))
				pr := x.newPeer(i)
				if err := pr.Announce(x.tor); err == nil {
					pr.Run(ctx)
				}
				pr.Close()
			}()
		}
		time.AfterFunc(15*time.Minute, cancel)
		x.finish()
		got := make([]int, n)
		for r, k := range asked {
			if k > 1 {
				c.Failf("block %+v is requested %d times although every request is answered", r, k)
			}
			if r.index < n {
				got[r.index] += r.length
			}
		}
		for i, g := range got {
			if want := s.T.pieceSize(i); holders[i] > 0 && g != want {
				c.Failf("%d of the %d bytes of piece %d are requested although %d peers have it and every request is answered", g, want, i, holders[i])
			}
		}
	})
}

// --- C26 --------------------------------------------------------------------

type c26Ev struct {
	K string `json:"k"` // have, haveall, choke, unchoke, keepalive, interested, drip, port
	N int    `json:"n,omitempty"`
	D int    `json:"d,omitempty"` // ms after the former one
}

type c26Case struct {
	T   TSpec   `json:"t"`
	Evs []c26Ev `json:"evs"`
	Ans []int   `json:"ans"` // ms until the answer to a request, -1 = none; the last repeats
	For int     `json:"for"` // s
	Bye int     `json:"bye,omitempty"`
}

func genC26(t *rapid.T) c26Case {
	s := c26Case{T: genSwarmSpec(t, pick(t, "maxpieces", 3, 9, 30), true), For: pick(t, "for", 130, 250, 400, 1200)}
	n := s.T.pieces()
	if pick(t, "early", false, true) {
		s.Evs = append(s.Evs, c26Ev{K: "unchoke"})
	}
	for k := rapid.IntRange(0, 8).Draw(t, "events"); k > 0; k-- {
		e := c26Ev{K: pick(t, "ev", "unchoke", "choke", "have", "have", "haveall", "keepalive", "interested", "drip", "port"),
			D: pick(t, "gap", 0, 0, 100, 1000, 5000, 30000, 90000, 113000, 119000, 200000)}
		switch e.K {
		case "have":
			e.N = rapid.IntRange(0, n-1).Draw(t, "piece")
		case "drip": // a frame of that many bytes, one every 0.9 s
			e.N = pick(t, "drip", 3, 60, 150, 300)
		}
		s.Evs = append(s.Evs, e)
	}
	for k := rapid.IntRange(1, 4).Draw(t, "ans"); k > 0; k-- {
		s.Ans = append(s.Ans, pick(t, "answer", 0, 0, 500, 3000, 9000, 11000, -1, -1))
	}
	if pick(t, "bye", false, false, true) {
		s.Bye = rapid.IntRange(1, s.For).Draw(t, "byeat")
	}
	return s
}

func runC26(c *C, s c26Case) {
	n := s.T.pieces()
	bubble(c, func() {
		x := newSession(c, s.T)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var mu sync.Mutex
		type write struct {
			at   time.Time
			what []byte
		}
		var sent []write
		x.net.setHost(addrN(0).String(), func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
			cl := sn.connect(addr, 8<<20, func(sv *simConn) {
				defer sv.Close()
				if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
					return
				}
				sv.send(handshake(x.hash(), fakeID), 0, nil)
				if s.Bye > 0 {
					tm := time.AfterFunc(time.Duration(s.Bye)*time.Second, func() { sv.Close() })
					defer tm.Stop()
				}
				quit, done := make(chan struct{}), make(chan struct{})
				defer func() { close(quit); <-done }()
				turn := make(chan struct{}, 1) // one frame at a time
				go func() {
					defer close(done)
					sleep := func(d time.Duration) bool {
						select {
						case <-time.After(d):
							return true
						case <-quit:
							return false
						}
					}
					for _, e := range s.Evs {
						if !sleep(ms(e.D)) {
							return
						}
						var b []byte
						switch e.K {
						case "have":
							b = haveFrame(e.N)
						case "haveall":
							for i := 0; i < n; i++ {
								b = append(b, haveFrame(i)...)
							}
						case "choke":
							b = frame(0)
						case "unchoke":
							b = frame(1)
						case "keepalive":
							b = frame()
						case "interested":
							b = frame(2)
						case "port":
							b = frame(9, 1, 2)
						case "drip":
							f := frame(append([]byte{20}, make([]byte, e.N)...)...)
							turn <- struct{}{}
							for i := range f {
								if sv.send(f[i:i+1], 0, nil) != nil || !sleep(900*time.Millisecond) {
									break
								}
							}
							<-turn
							continue
						}
						turn <- struct{}{}
						err := sv.send(b, 0, nil)
						<-turn
						if err != nil {
							return
						}
					}
				}()
				for k := 0; ; {
					b, err := readFrame(sv)
					if err != nil {
						return
					}
					if len(b) != 13 || b[0] != 6 {
						continue
					}
					r := parseRequest(b)
					d := s.Ans[min(k, len(s.Ans)-1)]
					k++
					if d < 0 || r.index >= n || r.length <= 0 || r.offset+r.length > s.T.pieceSize(r.index) {
						continue
					}
					select {
					case <-time.After(ms(d)):
					case <-ctx.Done():
					}
					turn <- struct{}{}
					sv.send(pieceFrame(r.index, r.offset, x.block(r.index, r.offset, r.length)), 0, nil)
					<-turn
				}
			})
			cl.onWrite = func(p []byte) {
				mu.Lock()
				defer mu.Unlock()
				sent = append(sent, write{time.Now(), append([]byte(nil), p[:min(len(p), 17)]...)})
			}
			return cl, nil
		})
		time.AfterFunc(time.Duration(s.For)*time.Second, cancel)
		var end time.Time
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			pr := x.newPeer(0)
			if err := pr.Announce(x.tor); err == nil {
				pr.Run(ctx)
			}
			end = time.Now()
			pr.Close()
		}()
		x.finish()
		if len(sent) == 0 {
			c.Failf("nothing was sent to the peer")
		}
		t0 := sent[0].at
		sent = append(sent, write{end, nil})
		var kept time.Time
		for _, w := range sent {
			if len(w.what) == 4 && string(w.what) == "\x00\x00\x00\x00" {
				if d := w.at.Sub(kept); !kept.IsZero() && d < time.Minute {
					c.Failf("two keep-alives within %v, %v into the session", d, w.at.Sub(t0))
				}
				kept = w.at
			}
		}
		for i := 1; i < len(sent); i++ {
			gap := sent[i].at.Sub(sent[i-1].at)
			if gap > 2*time.Minute {
				c.Failf("the client sent nothing for %v, from %v (%x) to %v into the session", gap, sent[i-1].at.Sub(t0), sent[i-1].what, sent[i].at.Sub(t0))
			}
			if gap > 100*time.Second && sent[i].what != nil {
				c.NonTrivial()
			}
		}
	})
}
