package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// C19: trackers are announced to at their interval with true progress.

const defaultWait = time.Minute

func waitOf(seconds int64) time.Duration {
	switch {
	case seconds <= 0:
		return defaultWait
	case seconds > int64(1<<63-1)/int64(time.Second):
		return 1<<63 - 1
	}
	return time.Duration(seconds) * time.Second
}

// --- WaitInterval -----------------------------------------------------------

type c19Step struct {
	Int    int64 `json:"int"`
	None   bool  `json:"none,omitempty"`   // no interval given
	Fail   bool  `json:"fail,omitempty"`   // the announce fails
	Cancel int64 `json:"cancel,omitempty"` // ms after which the wait is cancelled
	Pre    bool  `json:"pre,omitempty"`    // cancelled before the wait
}

type c19Wait struct {
	UDP   bool      `json:"udp,omitempty"`
	Steps []c19Step `json:"steps"`
}

func genC19Wait(t *rapid.T) c19Wait {
	s := c19Wait{UDP: rapid.Bool().Draw(t, "udp")}
	for k := rapid.IntRange(1, 4).Draw(t, "steps"); k > 0; k-- {
		var st c19Step
		hi := int64(1<<63 - 1)
		if s.UDP {
			hi = 1<<31 - 1
		}
		st.Int = rapid.OneOf(rapid.SampledFrom([]int64{1, 2, 30, 59, 60, 61, 1800, 3600, 86400, 0}), rapid.Int64Range(1, 100000), rapid.Int64Range(1, hi)).Draw(t, "int")
		if !s.UDP {
			switch pick(t, "odd", 0, 0, 0, 0, 1, 2, 3) {
			case 1:
				st.None, st.Int = true, 0
			case 2:
				st.Int = -st.Int
			case 3:
				st.Int = pick(t, "huge", hi, hi/int64(time.Second), hi/int64(time.Second)+1, hi/1000, 9223372037, 18446744074, -hi-1)
			}
		}
		st.Fail = pick(t, "fail", false, false, false, true)
		if rapid.IntRange(0, 2).Draw(t, "cancelled") == 0 {
			st.Cancel = rapid.OneOf(rapid.Int64Range(1, 5000), rapid.Int64Range(1, 4e6)).Draw(t, "cancel")
			st.Pre = rapid.IntRange(0, 5).Draw(t, "pre") == 0
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

type roundTrip func(*http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func runC19Wait(c *C, s c19Wait) {
	bubble(c, func() {
		var cur c19Step
		url := "http://t.test/announce"
		if s.UDP {
			url = "udp://u.test:6969/announce"
			newSimNet(c).setHost("u.test:6969", udpHost(func(p []byte) []reply {
				if len(p) < 16 {
					return nil
				}
				txid := p[12:16]
				if binary.BigEndian.Uint32(p[8:]) == 0 {
					return []reply{{0, append(append(u32(0), txid...), "connect!"...)}}
				}
				if cur.Fail {
					return []reply{{0, append(append(u32(3), txid...), "no"...)}}
				}
				b := append(u32(1), txid...)
				b = append(append(append(b, u32(int(cur.Int))...), u32(0)...), u32(0)...)
				return []reply{{0, b}}
			}))
		} else {
			rt := roundTrip(func(r *http.Request) (*http.Response, error) {
				d := BV{K: "d"}
				if cur.Fail {
					d.D = append(d.D, kv("failure reason", bStr("no")))
				} else if !cur.None {
					d.D = append(d.D, kv("interval", bInt(cur.Int)))
					if cur.Int > 1 && cur.Int%2 == 0 {
						d.D = append(d.D, kv("min interval", bInt(cur.Int/2)), kv("incomplete", bInt(3)))
					}
				}
				d.D = append(d.D, kv("peers", bStr("")))
				b := encSorted(d)
				return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
					Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
			})
			o1, o2 := http.DefaultClient.Transport, http.DefaultTransport
			http.DefaultClient.Transport, http.DefaultTransport = rt, rt
			c.Cleanup(func() { http.DefaultClient.Transport, http.DefaultTransport = o1, o2 })
		}
		tr, err := tracker.New(url, zap.NewNop())
		if err != nil {
			c.Failf("tracker %s: %v", url, err)
		}
		defer tr.Close()
		known := false // an announce succeeded
		want := defaultWait
		for i, st := range s.Steps {
			cur = st
			_, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{})
			if (err != nil) != st.Fail {
				c.Failf("announce %d: error %v", i, err)
			}
			if !st.Fail {
				known = true
				want = waitOf(st.Int)
			}
			ctx, cancel := context.WithCancel(context.Background())
			limit := 200 * 24 * time.Hour // longer waits are cut
			if st.Cancel > 0 {
				limit = time.Duration(st.Cancel) * time.Millisecond
			}
			if st.Pre {
				limit = 0
				cancel()
			}
			tm := time.AfterFunc(limit, cancel)
			t0 := time.Now()
			err = tr.WaitInterval(ctx)
			took := time.Since(t0)
			tm.Stop()
			cancel()
			if !known || st.Fail {
				continue // what a tracker asked for before a failure is not judged
			}
			c.NonTrivial()
			name := fmt.Sprintf("step %d: interval %d (given: %v), cancelled after %v: WaitInterval returned %v after %v", i, st.Int, !st.None, limit, err, took)
			switch {
			case want < limit:
				if err != nil || took < want || took > want+time.Second {
					c.Failf("%s, want to wait %v", name, want)
				}
				c.Label("waited")
			case want > limit:
				if err == nil || took > limit+time.Second {
					c.Failf("%s, want it to be cancelled", name)
				}
				c.Label("cancelled")
			}
		}
	})
}

// --- announces of a download ------------------------------------------------

type c19Case struct {
	Swarm SwarmSpec `json:"swarm"`
	For   int       `json:"for"`          // s
	Up    uint64    `json:"up,omitempty"` // reported as uploaded before the start
}

func genC19(t *rapid.T) c19Case {
	var s c19Case
	w := &s.Swarm
	w.T = genSwarmSpec(t, pick(t, "maxpieces", 9, 30, 4), true)
	w.Port = rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{65535, 6881, 256, 255})).Draw(t, "port")
	w.Max = 30
	w.Tier = pick(t, "tier", 0, 1, 2)
	w.Dup = rapid.Bool().Draw(t, "dup")
	w.Lone = rapid.Bool().Draw(t, "lone")
	n := w.T.pieces()
	for k := pick(t, "peers", 1, 2, 3, 0); k > 0; k-- {
		if pick(t, "any", false, false, true) {
			w.Peers = append(w.Peers, genAny(t, n))
			continue
		}
		p := PeerB{Kind: "serve", Tail: PAct{K: "honest", D: pick(t, "delay", 0, 300, 900, 1000, 2500, 5000)}, UD: pick(t, "ud", 0, 500, 3000, 20000)}
		p.Has = genSome(t, "has", n, 7)
		w.Peers = append(w.Peers, p)
	}
	if pick(t, "good", true, true, false) {
		w.Trk = []Trk{{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "udp"), Resp: []TrkResp{genOKResp(t, upto(len(w.Peers)), 5, 10, 2, 17, 0)}}}
	}
	for k := pick(t, "trks", 1, 2, 3, 6, 1, 2, 3, 6, 12, 27); k > 0; k-- {
		if k > 9 {
			w.Trk = append(w.Trk, Trk{Kind: pick(t, "trk", "http", "udp"), Resp: []TrkResp{{K: "ok", Int: 30}}})
			continue
		}
		x := Trk{Form: pick(t, "form", 0, 0, 1, 2, 3, 4), Kind: pick(t, "trk", "http", "http", "http", "udp", "udp", "bad", "dead"), Late: pick(t, "late", 0, 0, 0, 0, 0, 1)}
		for r := pick(t, "resps", 1, 2, 4); r > 0; r-- {
			if pick(t, "ok", true, true, true, false) {
				x.Resp = append(x.Resp, genOKResp(t, genSome(t, "some", len(w.Peers), 9), 2, 5, 10, 17, 1, 0, 60, 100, 1800))
			} else {
				x.Resp = append(x.Resp, genBadResp(t))
			}
		}
		w.Trk = append(w.Trk, x)
	}
	s.For = pick(t, "for", 20, 50, 100, 150)
	if rapid.Bool().Draw(t, "uploaded") {
		s.Up = genU64(t, "up")
	}
	return s
}

var shownTrackers = regexp.MustCompile(`trackers \((\d+)\)`)

func runC19(c *C, s c19Case) {
	bubble(c, func() {
		w := newSwarm(c, s.Swarm)
		w.lookDisk, w.lookPool = true, true
		if s.Up > 0 {
			w.mng.UpdateStatus(0, s.Up)
		}
		inUse, late := 0, false
		for _, x := range s.Swarm.Trk {
			late = late || x.Kind == "udp" && x.Late > 0
			if x.Kind == "http" || x.Kind == "udp" {
				inUse++
			}
		}
		t0 := time.Now()
		ended, took, _ := w.run(context.Background(), time.Duration(s.For)*time.Second)
		end := t0.Add(min(took, time.Duration(s.For)*time.Second)) // finished or cancelled then
		w.close()
		total := uint64(len(w.data))
		hash := string(infoHash(s.Swarm.T))
		// bytes of pieces a prompt peer delivered completely before t
		type key struct{ conn, index int }
		got, whole := map[key]int{}, map[int]time.Time{}
		for _, d := range w.deliv {
			if !s.Swarm.Peers[d.peer].prompt() {
				continue
			}
			k := key{d.conn, d.index}
			if got[k] += d.n; got[k] == s.Swarm.T.pieceSize(d.index) && whole[d.index].IsZero() {
				whole[d.index] = d.at
			}
		}
		delivered := func(t time.Time) (n uint64) {
			for i, at := range whole {
				if at.Before(t) {
					n += uint64(s.Swarm.T.pieceSize(i))
				}
			}
			return n
		}
		last := map[int]annRec{}
		id := ""
		for _, r := range w.recs {
			kind := s.Swarm.Trk[r.trk].Kind
			name := fmt.Sprintf("announce %d of tracker %d (%s), %v into the download", r.n, r.trk, kind, r.at.Sub(t0))
			if r.hash != hash {
				c.Failf("%s: info-hash %x, want %x", name, r.hash, hash)
			}
			if r.port != s.Swarm.Port {
				c.Failf("%s: port %d, want %d", name, r.port, s.Swarm.Port)
			}
			if len(r.id) != 20 || (id != "" && r.id != id) {
				c.Failf("%s: peer id %q, before %q", name, r.id, id)
			}
			id = r.id
			if r.up != s.Up {
				c.Failf("%s: uploaded %d, want %d", name, r.up, s.Up)
			}
			if m := shownTrackers.FindStringSubmatch(r.shown); m != nil && r.at.Before(end) && !r.complete && !late {
				if m[1] != fmt.Sprint(inUse) {
					c.Failf("%s: %s trackers are displayed, %d are in use", name, m[1], inUse)
				}
				c.Label("trackers displayed")
			}
			if r.down+r.left != total {
				c.Failf("%s: downloaded %d and left %d do not add up to %d", name, r.down, r.left, total)
			}
			if r.down > r.disk {
				c.Failf("%s: downloaded %d, only %d bytes are stored", name, r.down, r.disk)
			}
			since := r.at
			if kind == "udp" {
				since = r.at.Add(-3 * time.Second)
			}
			if d := delivered(since); r.down < d {
				c.Failf("%s: downloaded %d, %d bytes were delivered and verified", name, r.down, d)
			} else if d > 0 {
				c.NonTrivial()
				if d < total {
					c.Label("announced in the middle of the download")
				}
			}
			p, again := last[r.trk]
			if again {
				if r.down < p.down {
					c.Failf("%s: downloaded %d, %d before", name, r.down, p.down)
				}
				if p.ok {
					gap, want := r.at.Sub(p.answered), waitOf(int64(p.resp.Int))
					if gap < want {
						c.Failf("%s: %v after the former answer, which asked for %v", name, gap, want)
					}
					if gap > want+5*time.Second {
						c.Failf("%s: only %v after the former answer, which asked for %v", name, gap, want)
					}
					c.Label("announced again after its interval")
				}
			}
			last[r.trk] = r
		}
		for i, x := range s.Swarm.Trk {
			if x.Kind != "http" && x.Kind != "udp" {
				continue
			}
			p, ok := last[i]
			if !ok {
				wait := 3 * time.Second
				if x.Kind == "udp" {
					wait += time.Duration(x.Late) * 65 * time.Second
				}
				if took > wait && !(ended && len(w.data) == 0) {
					c.Failf("tracker %d (%s) was never announced to in %v", i, x.Kind, took)
				}
				continue
			}
			if p.ok && end.Sub(p.answered) > waitOf(int64(p.resp.Int))+5*time.Second {
				c.Failf("tracker %d (%s) was not announced to again %v after an answer that asked for %v", i, x.Kind, end.Sub(p.answered), waitOf(int64(p.resp.Int)))
			}
		}
	})
}

func init() {
	register("C19", "wait", "the wait follows a successful announce", 3000, 80000, genC19Wait, runC19Wait)
	register("C19", "announces", "an announce was made after pieces had been stored", 1200, 40000, genC19, runC19)
}
