package props

import (
	"compress/gzip"
	"slices"
	"testing/iotest"

	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

func init() {
	register("C17", "announce",
		"one to three announces to a loopback HTTP tracker: any hash bytes, figures over all of uint64, URLs with path and query, answered by compact or dictionary peer lists with extra keys, failures, other statuses or damaged bodies; parameters and peers compared exactly; non-trivial: a peer list with two or more peers, an answer that must be an error, or a URL with a query",
		4000, 40000, genC17, runC17)
	register("C17", "silence",
		"responses that never start, stop in the middle, trickle or come late, and announces that are cancelled; an error within a minute, at once when cancelled, and the peers when the response was in time; non-trivial: a response that does not end, takes over 10 s or a cancelled announce",
		1500, 20000, genC17Quiet, runC17Quiet)
	register("C17", "long",
		"complete responses of up to a megabyte, which list exactly their peers, and responses that go on for ever (one string, one list, nesting, text; with and without a length), which end in an error before 64 MiB of them are read; non-trivial: all",
		160, 4000, genC17Long, runC17Long)
}

type c17Quiet struct {
	Head   int   `json:"head"`   // ms until the response starts, -1 = never
	Parts  []int `json:"parts"`  // ms between the bytes of the body; the last repeats
	Stop   int   `json:"stop"`   // bytes after which nothing more comes, -1 = complete
	Cancel int   `json:"cancel"` // ms until the announce is cancelled, 0 = never
	Peers  int   `json:"peers"`
}

func genC17Quiet(t *rapid.T) c17Quiet {
	s := c17Quiet{Head: pick(t, "head", -1, 0, 0, 100, 3000, 20000, 29000, 100000), Stop: pick(t, "stop", -1, -1, -1, -1, 0, 1, 5, 20), Peers: rapid.IntRange(0, 5).Draw(t, "peers")}
	for k := rapid.IntRange(1, 4).Draw(t, "parts"); k > 0; k-- {
		s.Parts = append(s.Parts, pick(t, "gap", 0, 0, 0, 1, 20, 100, 2000, 25000))
	}
	if pick(t, "cancelled", false, true) {
		s.Cancel = pick(t, "cancel", 1, 50, 1000, 10000, 28000)
	}
	return s
}

// dripBody is a response body as the transport gives it: it fails when the
// request is cancelled.
type dripBody struct {
	ctx   context.Context
	b     []byte
	parts []int
	stop  int
	n     int
}

func (d *dripBody) Read(p []byte) (int, error) {
	var wait <-chan time.Time
	if d.stop < 0 || d.n < d.stop {
		wait = time.After(ms(d.parts[min(d.n, len(d.parts)-1)]))
	}
	select {
	case <-d.ctx.Done():
		return 0, d.ctx.Err()
	case <-wait:
	}
	if d.n == len(d.b) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = d.b[d.n]
	d.n++
	return 1, nil
}

func (d *dripBody) Close() error { return nil }

func runC17Quiet(c *C, s c17Quiet) {
	body := hStep{Form: "compact", Peer: crowd(s.Peers)}.body()
	// needs is when the response has ended, least when its last byte was there
	// (a client may or may not read on to the end).
	var needs, least time.Duration
	never, unended := s.Head < 0 || s.Stop >= 0 && s.Stop < len(body), s.Stop == len(body)
	if s.Head > 0 {
		needs = ms(s.Head)
	}
	for i := 0; i <= len(body); i++ {
		least = needs
		needs += ms(s.Parts[min(i, len(s.Parts)-1)])
	}
	if never || needs > 10*time.Second || s.Cancel > 0 {
		c.NonTrivial()
	}
	bubble(c, func() {
		rt := roundTrip(func(r *http.Request) (*http.Response, error) {
			var wait <-chan time.Time
			if s.Head >= 0 {
				wait = time.After(ms(s.Head))
			}
			select {
			case <-r.Context().Done():
				return nil, r.Context().Err()
			case <-wait:
			}
			return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
				Body: &dripBody{ctx: r.Context(), b: body, parts: s.Parts, stop: s.Stop}, ContentLength: int64(len(body)), Request: r}, nil
		})
		o1, o2 := http.DefaultClient.Transport, http.DefaultTransport
		http.DefaultClient.Transport, http.DefaultTransport = rt, rt
		c.Cleanup(func() { http.DefaultClient.Transport, http.DefaultTransport = o1, o2 })
		tr, err := tracker.New("http://t.test/announce", zap.NewNop())
		if err != nil {
			c.Failf("tracker: %v", err)
		}
		defer tr.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		limit := time.Minute
		if s.Cancel > 0 {
			limit = ms(s.Cancel)
			time.AfterFunc(limit, cancel)
		}
		type result struct {
			peers []netip.AddrPort
			err   error
		}
		done := make(chan result, 1)
		t0 := time.Now()
		go func() {
			p, err := tr.Announce(ctx, "01234567890123456789", &gotit.AnnounceData{})
			done <- result{p, err}
		}()
		var r result
		select {
		case r = <-done:
		case <-time.After(limit + time.Second):
			cancel()
			<-done
			c.Failf("the announce has not returned after %v (cancelled after %d ms)", limit+time.Second, s.Cancel)
		}
		took := time.Since(t0)
		switch {
		case never || least > limit:
			if r.err == nil {
				c.Failf("the announce succeeded after %v although the response never ended", took)
			}
			c.Label("error")
		case !unended && needs < min(limit, 10*time.Second): // in time by any standard
			if r.err != nil {
				c.Failf("the announce failed with %v after %v although the response was complete after %v", r.err, took, needs)
			}
			if len(r.peers) != s.Peers {
				c.Failf("%d peers, the response lists %d", len(r.peers), s.Peers)
			}
			c.Label("answered")
		}
	})
}

// long responses: up to a megabyte they are read, endless ones are given up.

type c17Long struct {
	Status int    `json:"status"`
	Kind   string `json:"kind"` // compact, dict, extra: complete; string, list, nest, text: endless
	N      int    `json:"n"`    // peers or bytes of the complete ones
	Known  bool   `json:"known,omitempty"`
	Chunk  int    `json:"chunk"`
}

const (
	c17Endless = 96 << 20
	c17Enough  = 64 << 20
)

func genC17Long(t *rapid.T) c17Long {
	s := c17Long{Status: 200, Kind: pick(t, "kind", "compact", "dict", "extra", "string", "list", "nest", "text"), Known: rapid.Bool().Draw(t, "known"),
		Chunk: pick(t, "chunk", 1<<20, 32<<10, 4096, 1000)}
	switch s.Kind {
	case "compact":
		s.N = rapid.IntRange(1000, 170000).Draw(t, "n")
	case "dict":
		s.N = rapid.IntRange(1000, 20000).Draw(t, "n")
	case "extra":
		s.N = rapid.IntRange(10000, 1000000).Draw(t, "n")
	default:
		s.Status = pick(t, "status", 200, 200, 404, 503)
	}
	return s
}

func (s c17Long) peers() int {
	if s.Kind == "extra" {
		return 3
	}
	return s.N
}

// endless is a body that repeats its tail up to a size no announce has.
type endless struct {
	head, tail string
	n, chunk   int
	ctx        context.Context
}

func (e *endless) Read(p []byte) (int, error) {
	if err := e.ctx.Err(); err != nil {
		return 0, err
	}
	if e.n >= c17Endless {
		return 0, io.EOF
	}
	k := 0
	for k < min(len(p), e.chunk) {
		if e.n < len(e.head) {
			p[k] = e.head[e.n]
			k, e.n = k+1, e.n+1
			continue
		}
		m := copy(p[k:min(len(p), e.chunk)], e.tail[(e.n-len(e.head))%len(e.tail):])
		k, e.n = k+m, e.n+m
	}
	return k, nil
}

func (e *endless) Close() error { return nil }

func runC17Long(c *C, s c17Long) {
	c.NonTrivial()
	c.Label(s.Kind)
	d := bDict(kv("interval", bInt(60)))
	v4 := func(i int) [4]byte { return [4]byte{1, byte(i >> 16), byte(i >> 8), byte(i)} }
	peers := BV{K: "s"}
	var want []netip.AddrPort
	for i := 0; i < s.peers(); i++ {
		ip := v4(i)
		want = append(want, netip.AddrPortFrom(netip.AddrFrom4(ip), 80))
		if s.Kind == "dict" {
			peers.L = append(peers.L, bDict(kv("ip", bStr(want[i].Addr().String())), kv("port", bInt(80))))
		} else {
			peers.S = append(append(peers.S, ip[:]...), 0, 80)
		}
	}
	if s.Kind == "dict" {
		peers.K = "l"
	}
	d.D = append(d.D, kv("peers", peers))
	if s.Kind == "extra" {
		d.D = append(d.D, kv("extra", bStr(strings.Repeat("x", s.N))))
	}
	whole := string(encSorted(d))
	e := &endless{chunk: s.Chunk}
	ends := false
	switch s.Kind {
	case "string":
		e.head, e.tail = fmt.Sprintf("d8:intervali60e5:peers%d:", c17Endless+c17Endless%6), "\x01\x02\x03\x04\x00P"
	case "list":
		e.head, e.tail = "d8:intervali60e5:peersl", "d2:ip7:1.2.3.44:porti80ee"
	case "nest":
		e.head, e.tail = "d8:intervali60e1:x", "l"
	case "text":
		e.tail = "<html>go away</html>\n"
	default:
		ends = true
	}
	bubble(c, func() {
		rt := roundTrip(func(r *http.Request) (*http.Response, error) {
			res := &http.Response{StatusCode: s.Status, Status: strconv.Itoa(s.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Request: r}
			e.ctx = r.Context()
			res.Body = e
			if ends {
				res.Body = io.NopCloser(iotest.OneByteReader(strings.NewReader(whole)))
				if s.Chunk > 4096 {
					res.Body = io.NopCloser(strings.NewReader(whole))
				}
			}
			if s.Known {
				res.ContentLength = c17Endless
				if ends {
					res.ContentLength = int64(len(whole))
				}
			}
			return res, nil
		})
		o1, o2 := http.DefaultClient.Transport, http.DefaultTransport
		http.DefaultClient.Transport, http.DefaultTransport = rt, rt
		c.Cleanup(func() { http.DefaultClient.Transport, http.DefaultTransport = o1, o2 })
		tr, err := tracker.New("http://t.test/announce", zap.NewNop())
		if err != nil {
			c.Failf("tracker: %v", err)
		}
		defer tr.Close()
		got, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{})
		if ends {
			if err != nil {
				c.Failf("a complete response of %d bytes is an error: %v", len(whole), err)
			}
			if !slices.Equal(got, want) {
				c.Failf("%d peers from a response of %d bytes that lists %d; they differ", len(got), len(whole), len(want))
			}
			return
		}
		if e.n > c17Enough {
			c.Failf("%d MiB of a response that does not end were read", e.n>>20)
		}
		if err == nil {
			c.Failf("the announce succeeded although the response never ended")
		}
	})
}

type hPeer struct {
	IP   string `json:"ip"`
	Port int    `json:"port"`
	Text string `json:"text,omitempty"` // instead of the port, not one
}

type hStep struct {
	Hash Bytes   `json:"hash"`
	Down uint64  `json:"down"`
	Up   uint64  `json:"up"`
	Left uint64  `json:"left"`
	Port int     `json:"port"`
	Form string  `json:"form"` // compact, dict
	Peer []hPeer `json:"peer"`
	Keys []int   `json:"keys,omitempty"`
	Bad  string  `json:"bad,omitempty"`
	N    int     `json:"n,omitempty"`
	Raw  Bytes   `json:"raw,omitempty"`
	Way  string  `json:"way,omitempty"` // how the body is transferred
}

type c17Case struct {
	Path  string  `json:"path"`
	Query string  `json:"query"`
	Steps []hStep `json:"steps"`
}

var oddV4 = []string{"0.0.0.0", "255.255.255.255", "1.2.3.4", "10.0.0.1", "127.0.0.1", "58.108.101.49", "105.49.101.52"}

func genV4(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
		return rapid.SampledFrom(oddV4).Draw(t, "ip")
	}
	b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip4")
	return fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
}

func genPort(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 80, 255, 256, 6881, 32767, 32768, 65535, 58, 0x3a65})).Draw(t, "port")
}

func genU64(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Uint64Range(0, 1<<20), rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(t, label)
}

func genHash(t *rapid.T) Bytes {
	switch rapid.IntRange(0, 3).Draw(t, "hashkind") {
	case 0:
		return rapid.SliceOfN(rapid.SampledFrom([]byte(" +&=%?#/;~.\x00\xff\x7f\n\r\"'<>aA0")), 20, 20).Draw(t, "hash")
	}
	return rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "hash")
}

// crowd is a list of n peers.
func crowd(n int) []hPeer {
	var l []hPeer
	b := content(uint64(n), 6*n)
	for i := 0; i < len(b); i += 6 {
		l = append(l, hPeer{IP: fmt.Sprintf("%d.%d.%d.%d", b[i], b[i+1], b[i+2], b[i+3]), Port: int(b[i+4])<<8 | int(b[i+5])})
	}
	return l
}

func genC17(t *rapid.T) c17Case {
	s := c17Case{
		Path:  rapid.SampledFrom([]string{"/announce", "/announce", "/", "", "/a/b/announce.php", "/0123456789abcdef/announce", "/with%20space/ann", "/x%2Fy", "/trailing/"}).Draw(t, "path"),
		Query: rapid.SampledFrom([]string{"", "", "", "passkey=abc", "k=v&k=w", "a%26b=c%3Dd", "flag", "auth=x%20y+z", "uid=1&pk=", "a;b=c", "pk=1;2&x=y", "x=%00%ff%7e", "numbers=1&numbers=2&z=&y", "q=http://a/?b"}).Draw(t, "query"),
	}
	for k := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "steps"); k > 0; k-- {
		st := hStep{Hash: genHash(t), Down: genU64(t, "down"), Up: genU64(t, "up"), Left: genU64(t, "left"),
			Port: rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{1, 6881, 65535})).Draw(t, "lport"),
			Form: rapid.SampledFrom([]string{"compact", "dict"}).Draw(t, "form")}
		for i := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 60)).Draw(t, "npeers"); i > 0; i-- {
			p := hPeer{IP: genV4(t), Port: genPort(t)}
			if len(st.Peer) > 0 && rapid.IntRange(0, 15).Draw(t, "again") == 0 {
				p = st.Peer[rapid.IntRange(0, len(st.Peer)-1).Draw(t, "which")]
			}
			if st.Form == "dict" {
				switch rapid.IntRange(0, 7).Draw(t, "pkind") {
				case 0:
					p.IP = rapid.SampledFrom([]string{"::1", "2001:db8::7", "fe80::1", "::ffff:1.2.3.4"}).Draw(t, "ip6")
				case 1:
					p.IP = rapid.SampledFrom([]string{"", "peer.example.org", "1.2.3", "999.1.1.1", "1.2.3.4:5", " 1.2.3.4", "x"}).Draw(t, "badip")
				case 2:
					p.Port = rapid.SampledFrom([]int{-1, 65536, 65537, 1 << 20, 1 << 40, -6881, 65536 + 80}).Draw(t, "badport")
				case 3:
					p.Text = rapid.SampledFrom([]string{"0x50", "0X1AE1", "0o17", "0b101", "1_000", "8e1", "http", "80.", "-", "6881a", "\x1a\xe1"}).Draw(t, "badtext")
				}
			}
			st.Peer = append(st.Peer, p)
		}
		if rapid.IntRange(0, 24).Draw(t, "crowd") == 0 {
			st.Peer = append(st.Peer, crowd(pick(t, "many", 50, 200, 255, 256, 1000, 5000))...)
		}
		st.Keys = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 4).Draw(t, "keys")
		if rapid.IntRange(0, 2).Draw(t, "isbad") == 0 {
			st.Bad = rapid.SampledFrom([]string{"failure", "failure-peers", "status", "cut", "cut", "raw", "list", "string", "int", "nopeers", "ragged", "peersint", "bodycut", "empty", "drop"}).Draw(t, "bad")
			st.N = rapid.IntRange(0, 1000).Draw(t, "n")
			if st.Bad == "raw" {
				st.Raw = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "raw")
			}
		}
		st.Way = pick(t, "way", "", "", "pieces", "close", "gzip")
		s.Steps = append(s.Steps, st)
	}
	return s
}

func (st hStep) body() []byte {
	d := BV{K: "d"}
	set := func(k string, v BV) {
		if d.get(k) == nil {
			d.D = append(d.D, kv(k, v))
		}
	}
	for _, k := range st.Keys {
		switch k {
		case 0:
			set("interval", bInt(int64(900+st.N)))
		case 1:
			set("min interval", bInt(60))
		case 2:
			set("tracker id", bStr("T:i3e\x00"))
		case 3:
			set("complete", bInt(7))
		case 4:
			set("warning message", bStr("be warned"))
		case 5:
			set("external ip", bStr("\x01\x02\x03\x04"))
		case 6:
			set("zzz", bList(bInt(1), bDict(kv("peers", bInt(2)))))
		}
	}
	peers := BV{K: "s", S: Bytes{}}
	if st.Form == "compact" {
		for _, p := range st.Peer {
			a := netip.MustParseAddr(p.IP).As4()
			peers.S = append(peers.S, a[:]...)
			peers.S = append(peers.S, byte(p.Port>>8), byte(p.Port))
		}
	} else {
		peers = BV{K: "l"}
		for i, p := range st.Peer {
			e := bDict(kv("ip", bStr(p.IP)))
			if i%2 == 1 {
				e.D = append(e.D, kv("peer id", bStr("-XX0001-abcdefghijkl")))
			}
			if p.Text != "" {
				e.D = append(e.D, kv("port", bStr(p.Text)))
			} else {
				e.D = append(e.D, kv("port", bInt(int64(p.Port))))
			}
			peers.L = append(peers.L, e)
		}
	}
	switch st.Bad {
	case "failure":
		set("failure reason", bStr("torrent not registered"))
		return encSorted(d)
	case "failure-peers":
		set("failure reason", bStr("x"))
	case "nopeers":
		return encSorted(d)
	case "ragged":
		peers = BV{K: "s", S: content(uint64(st.N+1), 6*(st.N%5)+1+st.N%5)}
	case "peersint":
		peers = bInt(int64(st.N))
	}
	set("peers", peers)
	b := encSorted(d)
	switch st.Bad {
	case "cut":
		b = b[:st.N%len(b)]
	case "raw":
		b = []byte(st.Raw)
	case "list":
		b = enc(bList(d))
	case "string":
		b = enc(bStr(string(b)))
	case "int":
		b = enc(bInt(int64(st.N)))
	case "empty":
		b = nil
	}
	return b
}

// want is the list of valid peers, in order.
func (st hStep) want() []netip.AddrPort {
	out := []netip.AddrPort{}
	for _, p := range st.Peer {
		a, err := netip.ParseAddr(p.IP)
		if err != nil || p.Port < 0 || p.Port > 65535 || p.Text != "" {
			continue
		}
		out = append(out, netip.AddrPortFrom(a.Unmap(), uint16(p.Port)))
	}
	return out
}

// One HTTP server for the whole process; its behaviour is set per case.
var (
	httpOnce    sync.Once
	httpAddr    string
	httpHandler atomic.Pointer[http.HandlerFunc]
)

func httpServer(h http.HandlerFunc) string {
	httpHandler.Store(&h)
	httpOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		httpAddr = l.Addr().String()
		go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { (*httpHandler.Load())(w, r) }))
	})
	return httpAddr
}

// parseQuery decodes a query string into name/value pairs, in order.
func parseQuery(c *C, q string) [][2]string {
	var out [][2]string
	if q == "" {
		return nil
	}
	for _, f := range strings.Split(q, "&") {
		k, v, _ := strings.Cut(f, "=")
		dk, err1 := url.QueryUnescape(k)
		dv, err2 := url.QueryUnescape(v)
		if err1 != nil || err2 != nil {
			c.Failf("the announce query %q can not be decoded", q)
		}
		out = append(out, [2]string{dk, dv})
	}
	return out
}

// checkQuery compares a decoded query with the figures announced.
func checkQuery(c *C, raw, own string, hash []byte, down, up, left uint64, port int) {
	got := parseQuery(c, raw)
	vals := map[string][]string{}
	for _, kv := range got {
		vals[kv[0]] = append(vals[kv[0]], kv[1])
	}
	for k, w := range map[string]string{
		"info_hash": string(hash), "peer_id": string(peer.ClientId), "port": strconv.Itoa(port),
		"downloaded": strconv.FormatUint(down, 10), "uploaded": strconv.FormatUint(up, 10), "left": strconv.FormatUint(left, 10),
	} {
		if len(vals[k]) != 1 || vals[k][0] != w {
			c.Failf("announce parameter %s is %q, want %q (query %q)", k, vals[k], w, raw)
		}
	}
	ownVals := map[string][]string{}
	for _, kv := range parseQuery(c, own) {
		ownVals[kv[0]] = append(ownVals[kv[0]], kv[1])
	}
	for k, w := range ownVals {
		if fmt.Sprint(vals[k]) != fmt.Sprint(w) {
			c.Failf("parameter %q of the tracker URL is sent as %q, want %q (query %q)", k, vals[k], w, raw)
		}
	}
}

func runC17(c *C, s c17Case) {
	type seen struct{ method, path, query, host string }
	var mu sync.Mutex
	var reqs []seen
	var cur hStep
	addr := httpServer(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		reqs = append(reqs, seen{r.Method, r.URL.EscapedPath(), r.URL.RawQuery, r.Host})
		b := cur.body()
		switch cur.Bad {
		case "status":
			w.WriteHeader([]int{400, 404, 500, 503, 204, 201, 403}[cur.N%7])
			if cur.N%7 == 4 {
				return
			}
		case "bodycut":
			w.Header().Set("Content-Length", strconv.Itoa(len(b)+1+cur.N))
		case "drop":
			conn, _, err := w.(http.Hijacker).Hijack()
			must(err)
			conn.Close()
			return
		}
		if cur.Bad == "" {
			switch cur.Way {
			case "pieces": // of unknown length, one after another
				k := len(b) * 2 / 3
				w.Write(b[:k])
				w.(http.Flusher).Flush()
				w.Write(b[k:])
				return
			case "close":
				w.Header().Set("Connection", "close")
			case "gzip": // if that is understood
				if strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
					w.Header().Set("Content-Encoding", "gzip")
					z := gzip.NewWriter(w)
					z.Write(b)
					z.Close()
					return
				}
			}
		}
		w.Write(b)
		if cur.Bad == "bodycut" {
			w.(http.Flusher).Flush() // the body arrives, the end of it does not
			panic(http.ErrAbortHandler)
		}
	})
	u := "http://" + addr + s.Path
	if s.Query != "" {
		u += "?" + s.Query
		c.NonTrivial()
	}
	tr, err := tracker.New(u, zap.NewNop())
	if err != nil {
		c.Failf("tracker %s: %v", u, err)
	}
	defer tr.Close()
	for i, st := range s.Steps {
		mu.Lock()
		reqs, cur = nil, st
		mu.Unlock()
		wantErr := st.Bad != ""
		if st.Bad == "raw" && !mustFail(st.body()) {
			continue // random bytes that may be a response
		}
		if wantErr || len(st.Peer) > 1 {
			c.NonTrivial()
		}
		var got []netip.AddrPort
		var err error
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		if g := guard(func() {
			got, err = tr.Announce(ctx, string(st.Hash), &gotit.AnnounceData{Downloaded: st.Down, Uploaded: st.Up, Left: st.Left, Port: st.Port})
		}); g != nil {
			c.Failf("Announce (response %s): %v", short(st.body()), g)
		}
		cancel()
		mu.Lock()
		r := append([]seen(nil), reqs...)
		mu.Unlock()
		if len(r) == 0 {
			c.Failf("no request was sent (error %v)", err)
		}
		// net/http repeats a request whose connection was dropped
		for _, q := range r {
			wantPath := s.Path
			if wantPath == "" {
				wantPath = "/"
			}
			if q.method != "GET" || q.path != wantPath || q.host != addr {
				c.Failf("announce is %s %s to %s, want GET %s to %s", q.method, q.path, q.host, wantPath, addr)
			}
			checkQuery(c, q.query, s.Query, st.Hash, st.Down, st.Up, st.Left, st.Port)
		}
		if wantErr {
			c.Label("error-" + st.Bad)
			if err == nil {
				c.Failf("announce %d succeeded with %v although the response was %q: %s", i, got, st.Bad, short(st.body()))
			}
			continue
		}
		if err != nil {
			c.Failf("announce %d failed with %v although the response was good: %s", i, err, short(st.body()))
		}
		want := st.want()
		if len(got) != len(want) {
			c.Failf("announce %d (%s) yields %d peers %v, the response lists %v", i, st.Form, len(got), got, want)
		}
		for k := range want {
			if netip.AddrPortFrom(got[k].Addr().Unmap(), got[k].Port()) != want[k] {
				c.Failf("announce %d (%s): peer %d is %v, the response lists %v", i, st.Form, k, got[k], want[k])
			}
		}
	}
}

// mustFail tells that bytes can not be a dictionary by their first byte.
func mustFail(b []byte) bool { return len(b) == 0 || b[0] != 'd' }
