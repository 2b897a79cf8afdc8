package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/gosuri/uilive"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// A whole swarm on the simulated network: trackers, peers and the download
// manager of the code under test.

// TrkResp is how a tracker answers one announce.
type TrkResp struct {
	K     string `json:"k"` // ok, status, failure, garbage, silent
	Peers []int  `json:"peers,omitempty"`
	Int   int    `json:"int,omitempty"` // interval in seconds, 0 = not given
	D     int    `json:"d,omitempty"`   // ms
	Dict  bool   `json:"dict,omitempty"`
	Map   bool   `json:"map,omitempty"` // IPv4 addresses written as IPv6 ones
}

// Trk is a tracker; its last response repeats.
type Trk struct {
	Kind string    `json:"kind"` // http, udp, bad, dead
	Resp []TrkResp `json:"resp,omitempty"`
	CD   int       `json:"cd,omitempty"` // ms until its name is resolved (udp)
	Form int       `json:"form,omitempty"`
	Mute int       `json:"mute,omitempty"` // connect packets that are not answered (udp)
	Late int       `json:"late,omitempty"` // times its name is not resolved at first (udp)
}

// PeerB is the behaviour of a fake peer.
type PeerB struct {
	Kind   string `json:"kind"` // serve, refuse, hang, silent, badhs, shut, choker
	Has    []int  `json:"has,omitempty"`
	All    bool   `json:"all,omitempty"`
	Bf     bool   `json:"bf,omitempty"` // announced by bitfield
	HSD    int    `json:"hsd,omitempty"`
	UD     int    `json:"ud,omitempty"` // ms until the unchoke
	Acts   []PAct `json:"acts,omitempty"`
	Tail   PAct   `json:"tail"`
	Chokes []int  `json:"chokes,omitempty"` // ms unchoked, choked, unchoked, choked...
	Lim    int    `json:"lim,omitempty"`    // closes after that many requests
	Later  bool   `json:"later,omitempty"`  // announces pieces one by one, a second apart
	CD     int    `json:"cd,omitempty"`     // ms until the connection is established
	Skip   int    `json:"skip,omitempty"`   // refuses that many connections first
	Bye    int    `json:"bye,omitempty"`    // closes that many ms after the handshake
	Talk   int    `json:"talk,omitempty"`   // says something that does not matter every so many ms
	Conns  int    `json:"conns,omitempty"`  // accepts at most that many connections
}

type SwarmSpec struct {
	T     TSpec   `json:"t"`
	Trk   []Trk   `json:"trk"`
	Peers []PeerB `json:"peers"`
	V6    bool    `json:"v6,omitempty"` // every other peer has an IPv6 address
	Max   int     `json:"max"`
	Port  int     `json:"port"`
	Tier  int     `json:"tier,omitempty"` // trackers per tier of the announce list, 0 = all
	Dup   bool    `json:"dup,omitempty"`  // every tracker is listed twice
	Lone  bool    `json:"lone,omitempty"` // the first tracker is not in the announce list
	Off   int     `json:"off,omitempty"`  // number of the first tracker
}

type annRec struct {
	trk            int
	at, answered   time.Time
	hash, id       string
	down, up, left uint64
	port           int
	ok             bool
	n              int      // announces of this tracker before
	open           []string // peers connected when it was made
	shown          string   // the last progress shown before it
	complete       bool     // the torrent was complete when shown was read
	resp           TrkResp
	disk           uint64 // bytes on disk, with lookDisk
}

// attempt is one attempt to announce to a tracker.
type attempt struct {
	trk int
	at  time.Time
	ok  bool
	in  time.Duration // interval the tracker asked for
}

type delivery struct {
	index, offset, n int
	conn             int
	at               time.Time
	peer             int
}

type swarm struct {
	c      *C
	spec   SwarmSpec
	net    *simNet
	others *swarm // on the same network
	dir    string
	data   []byte
	tor    *torrent.Torrent
	mng    *download.Manager
	out    *lockedBuf
	cov    *coverage
	mu     sync.Mutex
	recs   []annRec
	deliv  []delivery
	seq    map[int]int
	conns  int
	reqs   int
	// what is noted down at each announce
	lookPool, lookDisk bool
	event              func(kind string, n int) // block, announce, dial
	connects           []attempt                // connect packets (udp)
	frames             map[int][]time.Time      // frames received, by connection
}

func (s SwarmSpec) addr(i int) netip.AddrPort {
	if s.V6 && i%2 == 0 {
		return addr6(i)
	}
	return addrN(i)
}

// listV6 gives half of the peers IPv6 addresses. Only the dictionary form has
// room for those.
func (s *SwarmSpec) listV6() {
	s.V6 = true
	for i, t := range s.Trk {
		if t.Kind == "udp" {
			s.Trk[i].Kind = "http"
		}
		for k := range t.Resp {
			t.Resp[k].Dict = true
		}
	}
}

func (b PeerB) has(i int) bool {
	if b.All {
		return true
	}
	for _, k := range b.Has {
		if k == i {
			return true
		}
	}
	return false
}

func udpTrkHost(i int) string { return fmt.Sprintf("u%d.test:6969", i) }

func trackerURL(kind string, form, i int) string {
	switch kind {
	case "http":
		return fmt.Sprintf([]string{"http://t%d.test/announce?k=%d", "https://t%d.test/announce?k=%d", "HTTPS://t%d.test:8443/a/b/announce.php?k=%d", "http://t%d.test:80/?k=%d", "http://user:pw@t%d.test?k=%d"}[form%5], i, i)
	case "udp":
		return fmt.Sprintf([]string{"udp://u%d.test:6969/announce", "udp://u%d.test:6969", "UDP://u%d.test:6969/", "udp://u%d.test:6969/announce?x=1"}[form%4], i)
	case "bad":
		return []string{"wss://b.test/announce", "", "tcp://b.test:1", "http://[::1", "udp://", "%zz"}[i%6]
	}
	return fmt.Sprintf("udp://dead%d.test:1/announce", i)
}

func (s SwarmSpec) urls() []string {
	var u []string
	for i, t := range s.Trk {
		u = append(u, trackerURL(t.Kind, t.Form, i+s.Off))
	}
	return u
}

// newSwarm builds everything; to be called inside the bubble.
func newSwarm(c *C, spec SwarmSpec) *swarm { return newSwarmOn(c, spec, newSimNet(c), nil) }

// newSwarmOn adds a swarm to a network that has others; peers at the same
// address as theirs serve both torrents.
func newSwarmOn(c *C, spec SwarmSpec, sn *simNet, others *swarm) *swarm {
	w := &swarm{c: c, spec: spec, net: sn, others: others, dir: c.TempDir(), data: spec.T.content(), out: &lockedBuf{},
		seq: map[int]int{}}
	w.cov = newCoverage(spec.T, w.data)
	for i, p := range spec.Peers {
		w.net.setHost(spec.addr(i).String(), w.peerHost(i, p))
	}
	for i, t := range spec.Trk {
		if t.Kind == "udp" {
			h := w.udpTracker(i, t)
			var dialled atomic.Int32
			w.net.setHost(udpTrkHost(i+spec.Off), func(n *simNet, network, addr string, timeout time.Duration) (net.Conn, error) {
				if t.CD > 0 {
					time.Sleep(ms(t.CD))
				}
				if int(dialled.Add(1)) <= t.Late {
					return nil, opErr("dial", &net.DNSError{Err: "no such host", Name: addr, IsNotFound: true})
				}
				return h(n, network, addr, timeout)
			})
		}
	}
	oldT, oldD, oldOut, oldR := http.DefaultClient.Transport, http.DefaultTransport, uilive.Out, uilive.RefreshInterval
	http.DefaultClient.Transport, http.DefaultTransport = w, w
	uilive.Out, uilive.RefreshInterval = w.out, 24*time.Hour
	c.Cleanup(func() {
		http.DefaultClient.Transport, http.DefaultTransport = oldT, oldD
		uilive.Out, uilive.RefreshInterval = oldOut, oldR
	})
	u := spec.urls()
	first := ""
	if len(u) > 0 {
		first = u[0]
	}
	if spec.Lone && len(u) > 0 {
		u = u[1:]
	}
	if spec.Dup {
		u = append(u, u...)
	}
	var tiers [][]string
	if len(u) > 0 {
		tiers = [][]string{u}
	}
	if spec.Tier > 0 {
		tiers = slices.Collect(slices.Chunk(u, spec.Tier))
	}
	spec.T.litter(w.dir)
	w.tor = spec.T.open(c, w.dir, first, tiers...)
	w.mng = download.NewMng(w.tor, zap.NewNop(), spec.Max, spec.Port)
	return w
}

// lastShown is the last line of progress that was displayed.
func (w *swarm) lastShown() string {
	s := w.out.String()
	if i := strings.LastIndex(s, "downloaded ("); i >= 0 {
		return s[i:]
	}
	return ""
}

func (w *swarm) note(kind string, n int) {
	if w.event != nil {
		w.event(kind, n)
	}
}

// clientGoroutines are the stacks of goroutines that run or were started by
// the code under test; call it when everything else has come to rest.
func clientGoroutines() []string {
	synctest.Wait()
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "anivanovic/gotit/") {
			out = append(out, g)
		}
	}
	return out
}

// --- trackers ---------------------------------------------------------------

// mostAnnounces is where a client that announces without end is left alone.
const mostAnnounces = 20000

func (w *swarm) nextResp(i int, rec annRec) (TrkResp, int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.recs) > mostAnnounces {
		return TrkResp{K: "silent"}, len(w.recs) - 1
	}
	t := w.spec.Trk[i]
	n := w.seq[i]
	w.seq[i]++
	rec.trk, rec.at, rec.n = i, time.Now(), n
	if w.lookPool {
		rec.open, rec.shown = w.net.peersOpen(), w.lastShown()
		rec.complete = w.tor.Done()
	}
	if w.lookDisk {
		rec.disk = w.present()
	}
	if len(t.Resp) > 0 {
		rec.resp = t.Resp[min(n, len(t.Resp)-1)]
	}
	w.recs = append(w.recs, rec)
	id := len(w.recs) - 1
	w.note("announce", len(w.recs))
	if len(t.Resp) == 0 {
		return TrkResp{K: "silent"}, id
	}
	return t.Resp[min(n, len(t.Resp)-1)], id
}

func (w *swarm) answered(id int, ok bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.recs[id].answered, w.recs[id].ok = time.Now(), ok
}

func (r TrkResp) compact() []byte {
	var b []byte
	for _, i := range r.Peers {
		a := addrN(i)
		ip := a.Addr().As4()
		b = append(b, ip[:]...)
		b = append(b, byte(a.Port()>>8), byte(a.Port()))
	}
	return b
}

// RoundTrip is the HTTP side of the simulated network.
func (w *swarm) RoundTrip(req *http.Request) (*http.Response, error) {
	host := req.URL.Hostname()
	if !strings.HasPrefix(host, "t") || !strings.HasSuffix(host, ".test") {
		return nil, errors.New("no such host")
	}
	i, err := strconv.Atoi(strings.TrimSuffix(host[1:], ".test"))
	if err == nil && i < w.spec.Off && w.others != nil {
		return w.others.RoundTrip(req)
	}
	i -= w.spec.Off
	if err != nil || i < 0 || i >= len(w.spec.Trk) || w.spec.Trk[i].Kind != "http" {
		return nil, errors.New("no such host")
	}
	q := req.URL.Query()
	num := func(k string) uint64 {
		v, err := strconv.ParseUint(q.Get(k), 10, 64)
		if err != nil {
			return 1<<64 - 1
		}
		return v
	}
	port, _ := strconv.Atoi(q.Get("port"))
	r, id := w.nextResp(i, annRec{hash: q.Get("info_hash"), id: q.Get("peer_id"), down: num("downloaded"), up: num("uploaded"), left: num("left"), port: port})
	var wait <-chan time.Time
	if r.K != "silent" {
		wait = time.After(ms(r.D))
	}
	select {
	case <-req.Context().Done():
		return nil, req.Context().Err()
	case <-wait:
	}
	d := BV{K: "d"}
	status := 200
	switch r.K {
	case "ok":
		if r.Int != 0 {
			d.D = append(d.D, kv("interval", bInt(int64(r.Int))))
			if r.Int%2 == 1 {
				d.D = append(d.D, kv("min interval", bInt(int64(r.Int/2))), kv("complete", bInt(1)), kv("tracker id", bStr("x")))
			}
		}
		p := BV{K: "s", S: append(Bytes{}, r.compact()...)}
		if r.Dict {
			p = BV{K: "l"}
			for _, k := range r.Peers {
				ip := w.spec.addr(k).Addr().String()
				if r.Map && w.spec.addr(k).Addr().Is4() {
					ip = "::ffff:" + ip
				}
				p.L = append(p.L, bDict(kv("ip", bStr(ip)), kv("port", bInt(int64(w.spec.addr(k).Port())))))
			}
		}
		d.D = append(d.D, kv("peers", p))
	case "failure":
		d.D = append(d.D, kv("failure reason", bStr("no")))
	case "status":
		status = 503
	}
	body := encSorted(d)
	if r.K == "garbage" {
		body = []byte("<html>not a tracker</html>")
	}
	w.answered(id, r.K == "ok")
	return &http.Response{StatusCode: status, Status: strconv.Itoa(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}, nil
}

func (w *swarm) udpTracker(i int, t Trk) hostFunc {
	return udpHost(func(p []byte) []reply {
		if len(p) < 16 {
			return nil
		}
		action, txid := binary.BigEndian.Uint32(p[8:]), p[12:16]
		if action == 0 {
			w.mu.Lock()
			if len(w.connects) > mostAnnounces {
				w.mu.Unlock()
				return nil
			}
			w.connects = append(w.connects, attempt{trk: i, at: time.Now()})
			mute := t.Mute > 0
			t.Mute--
			w.mu.Unlock()
			if mute {
				return nil
			}
			return []reply{{0, append(append(u32(0), txid...), "connect!"...)}}
		}
		if len(p) < 98 {
			return nil
		}
		f := func(k int) uint64 { return binary.BigEndian.Uint64(p[k:]) }
		r, id := w.nextResp(i, annRec{hash: string(p[16:36]), id: string(p[36:56]), down: f(56), left: f(64), up: f(72), port: int(binary.BigEndian.Uint16(p[96:]))})
		b := append(u32(1), txid...)
		switch r.K {
		case "silent":
			return nil
		case "ok":
			b = append(b, u32(r.Int)...)
			b = append(b, u32(1)...)
			b = append(b, u32(1)...)
			b = append(b, r.compact()...)
		case "garbage":
			b = append(b, 1, 2, 3)
		default:
			b = append(append(u32(3), txid...), "no"...)
		}
		d := min(r.D, 400)
		w.answered(id, r.K == "ok")
		w.mu.Lock()
		w.recs[id].answered = time.Now().Add(ms(d))
		w.mu.Unlock()
		return []reply{{ms(d), b}}
	})
}

// --- peers ------------------------------------------------------------------

func (w *swarm) peerHost(i int, b PeerB) hostFunc {
	switch b.Kind {
	case "refuse":
		return refuse(ms(b.HSD))
	case "hang":
		return refuse(time.Hour)
	}
	skip, taken := b.Skip, 0
	return func(n *simNet, network, addr string, timeout time.Duration) (net.Conn, error) {
		w.mu.Lock()
		if skip > 0 {
			skip--
			w.mu.Unlock()
			return refuse(ms(b.HSD))(n, network, addr, timeout)
		}
		if taken++; b.Conns > 0 && taken > b.Conns {
			w.mu.Unlock()
			return refuse(0)(n, network, addr, timeout)
		}
		w.conns++
		id := w.conns
		w.note("dial", id)
		w.mu.Unlock()
		if b.CD > 0 {
			if d := ms(b.CD); timeout > 0 && d >= timeout {
				return refuse(d)(n, network, addr, timeout)
			}
			time.Sleep(ms(b.CD))
		}
		return n.connect(addr, 4<<20, func(sv *simConn) { w.serve(i, id, b, sv) }), nil
	}
}

func (w *swarm) serve(i, id int, b PeerB, sv *simConn) {
	defer sv.Close()
	hello := make([]byte, 68)
	if _, err := io.ReadFull(sv, hello); err != nil {
		return
	}
	for w.others != nil && !bytes.Equal(hello[28:48], infoHash(w.spec.T)) {
		if w = w.others; i >= len(w.spec.Peers) {
			return
		}
		b = w.spec.Peers[i]
	}
	read := func() ([]byte, error) {
		f, err := readFrame(sv)
		if err == nil {
			w.mu.Lock()
			if w.frames == nil {
				w.frames = map[int][]time.Time{}
			}
			if len(w.frames[id]) < 100000 {
				w.frames[id] = append(w.frames[id], time.Now())
			}
			w.mu.Unlock()
		}
		return f, err
	}
	drain := func() {
		for {
			if _, err := read(); err != nil {
				return
			}
		}
	}
	switch b.Kind {
	case "silent":
		drain()
		return
	case "shut":
		return
	case "badhs":
		h := handshake(infoHash(w.spec.T), fakeID)
		h[30] ^= 1
		sv.send(h, 0, nil)
		drain()
		return
	}
	if b.Bye > 0 {
		tm := time.AfterFunc(ms(b.Bye), func() { sv.Close() })
		defer tm.Stop()
	}
	n := w.spec.T.pieces()
	sv.send(handshake(infoHash(w.spec.T), fakeID), ms(b.HSD), nil)
	if b.Bf {
		sv.send(bitfieldFrame(n, b.has), 0, nil)
	}
	var mu sync.Mutex
	choking := true
	quit, done := make(chan struct{}), make(chan struct{})
	sleep := func(d int) bool {
		if d == 0 {
			return true
		}
		select {
		case <-time.After(ms(d)):
			return true
		case <-quit:
			return false
		}
	}
	set := func(v bool) {
		mu.Lock()
		defer mu.Unlock()
		choking = v
		t := byte(1)
		if v {
			t = 0
		}
		sv.send(frame(t), 0, nil)
	}
	go func() {
		defer close(done)
		announce := func() bool {
			if b.Bf {
				return true
			}
			for k := 0; k < n; k++ {
				if b.has(k) {
					if b.Later && !sleep(1000) {
						return false
					}
					if sv.send(haveFrame(k), 0, nil) != nil {
						return false
					}
				}
			}
			return true
		}
		if !b.Later && !announce() {
			return
		}
		if b.Kind == "choker" {
			return
		}
		if !sleep(b.UD) {
			return
		}
		set(false)
		if b.Later && !announce() {
			return
		}
		for k := 0; k+1 < len(b.Chokes); k += 2 {
			if !sleep(b.Chokes[k]) {
				return
			}
			set(true)
			if !sleep(b.Chokes[k+1]) {
				return
			}
			set(false)
		}
	}()
	talked := make(chan struct{})
	go func() {
		defer close(talked)
		for k := 0; b.Talk > 0 && k < 40000; k++ {
			f := [][]byte{{0, 0, 0, 0}, frame(2), frame(3), haveFrame(k / 4 % max(n, 1))}[k%4]
			if k%4 == 3 && (b.Bf || n == 0 || !b.has(k/4%n)) {
				f = []byte{0, 0, 0, 0}
			}
			if !sleep(b.Talk) || sv.send(f, 0, nil) != nil {
				return
			}
		}
	}()
	h := &hostile{spec: w.spec.T, data: w.data, cov: w.cov, odd: func() {}, conn: sv,
		mark: func(index, offset, n int) func() {
			return func() {
				w.mu.Lock()
				defer w.mu.Unlock()
				w.deliv = append(w.deliv, delivery{index, offset, n, id, time.Now(), i})
				w.note("block", len(w.deliv))
			}
		}}
	acts := b.Acts
	count := 0
	for {
		f, err := read()
		if err != nil {
			break
		}
		if len(f) != 13 || f[0] != 6 {
			continue
		}
		r := parseRequest(f)
		w.mu.Lock()
		w.reqs++
		w.mu.Unlock()
		mu.Lock()
		ch := choking
		mu.Unlock()
		if ch || r.index >= n || !b.has(r.index) {
			continue
		}
		count++
		a := b.Tail
		if len(acts) > 0 {
			a, acts = acts[0], acts[1:]
		}
		mu.Lock()
		err = h.act(a, r)
		mu.Unlock()
		if err != nil || (b.Lim > 0 && count >= b.Lim) {
			break
		}
	}
	if b.Lim > 0 && count >= b.Lim {
		time.Sleep(ms(50)) // what was sent arrives
	}
	close(quit)
	sv.Close()
	<-done
	<-talked
}

// download runs the manager; it returns the time Download returned and whether
// it did so before the limit.
func (w *swarm) run(ctx context.Context, limit time.Duration) (ended bool, took time.Duration, err error) {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	t0 := time.Now()
	done := make(chan error, 1)
	go func() { done <- w.mng.Download(ctx) }()
	select {
	case err = <-done:
		ended = true
	case <-time.After(limit):
		cancel()
		w.mng.Stop()
		err = <-done
	}
	return ended, time.Since(t0), err
}

func (w *swarm) close() {
	w.mng.Stop()
	w.net.shutdown()
}

func (w *swarm) stored() uint64 {
	var n uint64
	for i, o := range w.spec.T.piecesOnDisk(w.c, w.dir, w.data) {
		if o {
			n += uint64(w.spec.T.pieceSize(i))
		}
	}
	return n
}

// present counts the bytes on disk; content has no zero bytes.
func (w *swarm) present() (n uint64) {
	for _, p := range w.spec.T.paths() {
		b, err := os.ReadFile(filepath.Join(w.dir, p))
		if err != nil {
			continue
		}
		n += uint64(len(b) - bytes.Count(b, []byte{0}))
	}
	return n
}

// --- generators -------------------------------------------------------------

func pick[V any](t *rapid.T, label string, v ...V) V { return rapid.SampledFrom(v).Draw(t, label) }

func genSome(t *rapid.T, label string, n, k int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, label) < k {
			out = append(out, i)
		}
	}
	return out
}

// genHonest is a peer that serves what it has, in time, for as long as it is asked.
func genHonest(t *rapid.T) PeerB {
	p := PeerB{Kind: "serve", Tail: PAct{K: "honest", D: pick(t, "delay", 0, 0, 1, 40, 900, 2500, 8000)},
		HSD: pick(t, "hsd", 0, 0, 20, 700), UD: pick(t, "ud", 0, 0, 5, 500, 1500, 30000),
		Later: rapid.IntRange(0, 5).Draw(t, "later") == 0,
		Skip:  pick(t, "skip", 0, 0, 0, 0, 1, 3, 7),
		Talk:  pick(t, "talk", 0, 0, 0, 0, 900, 4000)}
	for i := rapid.IntRange(0, 4).Draw(t, "acts"); i > 0; i-- {
		p.Acts = append(p.Acts, PAct{K: "honest", D: pick(t, "delay", 0, 10, 999, 1000, 1001, 3000, 8000)})
	}
	for i := pick(t, "chokes", 0, 0, 0, 1, 3); i > 0; i-- {
		p.Chokes = append(p.Chokes, pick(t, "on", 1, 300, 2000, 20000), pick(t, "off", 1, 500, 5000, 150000))
	}
	return p
}

// genAny is a peer that may do anything.
func genAny(t *rapid.T, n int) PeerB {
	k := pick(t, "kind", "serve", "serve", "serve", "serve", "refuse", "hang", "silent", "badhs", "shut", "choker")
	p := PeerB{Kind: k, HSD: pick(t, "hsd", 0, 0, 20, 900, 1100, 5000), Skip: pick(t, "skip", 0, 0, 0, 2)}
	if k != "serve" && k != "choker" {
		return p
	}
	p.All = rapid.Bool().Draw(t, "all")
	if !p.All {
		p.Has = genSome(t, "has", n, 5)
	}
	p.Bf = rapid.IntRange(0, 3).Draw(t, "bf") == 0
	p.UD = pick(t, "ud", 0, 0, 5, 500, 30000)
	p.Talk = pick(t, "talk", 0, 0, 0, 300, 900, 4000)
	p.Tail = PAct{K: pick(t, "tail", "honest", "honest", "ignore", "corrupt", "close"), D: pick(t, "delay", 0, 0, 500, 9500, 12000)}
	for i := rapid.IntRange(0, 6).Draw(t, "acts"); i > 0; i-- {
		p.Acts = append(p.Acts, PAct{pick(t, "act", pacts...), rapid.IntRange(0, 1000).Draw(t, "arg"), pick(t, "delay", 0, 0, 0, 1, 300, 1500, 9000, 10500)})
	}
	if rapid.IntRange(0, 3).Draw(t, "lim") == 0 {
		p.Lim = rapid.IntRange(1, 6).Draw(t, "limn")
	}
	for i := pick(t, "chokes", 0, 0, 1, 3); i > 0; i-- {
		p.Chokes = append(p.Chokes, pick(t, "on", 1, 300, 2000), pick(t, "off", 1, 500, 5000))
	}
	return p
}

func genBadResp(t *rapid.T) TrkResp {
	return TrkResp{K: pick(t, "resp", "status", "failure", "garbage", "silent"), D: pick(t, "rd", 0, 10, 300)}
}

func genOKResp(t *rapid.T, peers []int, ints ...int) TrkResp {
	return TrkResp{K: "ok", Peers: peers, Int: pick(t, "interval", ints...), D: pick(t, "rd", 0, 0, 10, 300), Dict: rapid.Bool().Draw(t, "dict"), Map: rapid.IntRange(0, 5).Draw(t, "map") == 0}
}

func upto(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
