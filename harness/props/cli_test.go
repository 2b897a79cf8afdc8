package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// What the download properties promise must also hold for the command the user
// runs: the same oracles over the built binary, with trackers and peers on
// loopback sockets and in real time, so only a few cases each.

func init() {
	register("C16", "cli", "the built binary downloads from loopback peers, one of them an honest seeder; non-trivial: the torrent has at least one piece", 16, 600, genCLI("C16"), runCLI16)
	register("C19", "cli", "the built binary announces to loopback trackers; non-trivial: announced at least twice", 16, 600, genCLI("C19"), runCLI19)
	register("C21", "cli", "the built binary is told of loopback peers that do not serve; non-trivial: more peers than the maximum", 16, 600, genCLI("C21"), runCLI21)
	register("C22", "cli", "the built binary is interrupted by a signal; every case counts", 24, 800, genCLI("C22"), runCLI22)
}

type cliCase struct {
	T     TSpec    `json:"t"`
	Port  int      `json:"port,omitempty"` // -p, 0 = not given
	Max   int      `json:"max,omitempty"`  // -n
	Swap  bool     `json:"swap,omitempty"` // options after the file, -n before -p
	Long  bool     `json:"long,omitempty"`
	Peers []string `json:"peers"` // seed, refuse, hangup, corrupt, idle, mute
	Dup   bool     `json:"dup,omitempty"`
	Trks  []string `json:"trks"`           // http, udp, wss, slow
	Serve int      `json:"serve"`          // requests a seeder answers, -1 = all
	Pace  int      `json:"pace,omitempty"` // ms until each answer
	Sig   int      `json:"sig,omitempty"`
	When  string   `json:"when,omitempty"` // announce, connect, request
	After int      `json:"after,omitempty"`
}

func genCLI(prop string) func(*rapid.T) cliCase {
	return func(t *rapid.T) cliCase {
		s := cliCase{T: genSwarmSpec(t, pick(t, "maxpieces", 1, 5, 12), true), Serve: -1, Swap: rapid.Bool().Draw(t, "swap"), Long: rapid.Bool().Draw(t, "long"), Dup: rapid.Bool().Draw(t, "dup")}
		if rapid.Bool().Draw(t, "hasport") {
			s.Port = rapid.IntRange(1, 65535).Draw(t, "port")
		}
		s.Trks = rapid.SampledFrom([][]string{{"http"}, {"udp"}, {"http", "udp"}, {"wss", "http"}, {"udp", "wss"}}).Draw(t, "trks")
		switch prop {
		case "C16":
			if rapid.Bool().Draw(t, "hasmax") {
				s.Max = rapid.IntRange(8, 60).Draw(t, "max")
			}
			for k := rapid.IntRange(0, 4).Draw(t, "others"); k > 0; k-- {
				s.Peers = append(s.Peers, pick(t, "other", "refuse", "hangup", "corrupt", "idle"))
			}
			s.Peers = append(s.Peers, "seed")
			s.T.Stale = genStale(t)
		case "C19":
			s.Peers = []string{"seed"}
			s.Pace = pick(t, "pace", 50, 300, 1200)
			s.Serve = max(min(pick(t, "serve", 0, 1, 2, 5), s.T.pieces()-1), 0) // it does not complete
		case "C21":
			if pick(t, "hasmax", true, true, false) {
				s.Max = pick(t, "max", 1, 2, 5, 12, 29, 33, 60, 110)
			}
			for k := pick(t, "peers", 1, 3, 13, 31, 40, 65, 120); k > 0; k-- {
				s.Peers = append(s.Peers, "idle")
			}
		case "C22":
			s.Sig = pick(t, "sig", int(syscall.SIGINT), int(syscall.SIGTERM))
			s.When = pick(t, "when", "announce", "connect", "request", "request")
			s.After = pick(t, "after", 0, 0, 5, 150, 1200)
			for k := rapid.IntRange(0, 3).Draw(t, "others"); k > 0; k-- {
				s.Peers = append(s.Peers, pick(t, "other", "refuse", "hangup", "idle", "mute"))
			}
			s.Peers = append(s.Peers, "seed")
			s.Serve = rapid.IntRange(0, 4).Draw(t, "serve")
			if rapid.Bool().Draw(t, "slow") {
				s.Trks = append(s.Trks, "slow")
			}
		}
		return s
	}
}

type cliAnn struct {
	at         time.Time // the response was written
	came       time.Time
	hash       string
	port       string
	down, left uint64
}

// cliNet is the other side of one run of the binary.
type cliNet struct {
	mu    sync.Mutex
	cond  *sync.Cond
	anns  map[int][]cliAnn // by tracker
	open  map[int]int      // sessions by peer
	most  int              // distinct peers at a time
	twice bool
	reqs  int
	sure  map[int]bool // pieces the client had verified
	urls  []string
}

func (x *cliNet) hook(f func()) {
	x.mu.Lock()
	f()
	x.cond.Broadcast()
	x.mu.Unlock()
}

// until waits for a condition; false when it did not come in time.
func (x *cliNet) until(d time.Duration, done <-chan struct{}, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		x.mu.Lock()
		ok := f()
		x.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-done:
			return false
		case <-time.After(2 * time.Millisecond):
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func (x *cliNet) peer(s cliCase, data []byte, k int, kind string, conn net.Conn) {
	defer conn.Close()
	x.hook(func() {
		x.open[k]++
		x.twice = x.twice || x.open[k] > 1
		x.most = max(x.most, len(x.open))
	})
	defer x.hook(func() {
		if x.open[k]--; x.open[k] == 0 {
			delete(x.open, k)
		}
	})
	if _, err := io.ReadFull(conn, make([]byte, 68)); err != nil || kind == "hangup" {
		return
	}
	if kind == "mute" {
		io.Copy(io.Discard, conn)
		return
	}
	conn.Write(handshake(infoHash(s.T), fakeID))
	if kind == "idle" {
		io.Copy(io.Discard, conn)
		return
	}
	for i := 0; i < s.T.pieces(); i++ {
		conn.Write(haveFrame(i))
	}
	conn.Write(frame(1))
	got := map[int]int{}
	last := -1
	for n := 0; ; {
		f, err := readFrame(conn)
		if err != nil {
			return
		}
		if len(f) != 13 || f[0] != 6 {
			continue
		}
		r := parseRequest(f)
		if r.index >= s.T.pieces() || r.length < 0 || r.offset+r.length > s.T.pieceSize(r.index) {
			return
		}
		x.hook(func() {
			x.reqs++
			if last >= 0 && got[last] == s.T.pieceSize(last) && kind == "seed" {
				x.sure[last] = true
			}
		})
		if kind == "seed" && s.Serve >= 0 && n >= s.Serve {
			continue
		}
		n++
		time.Sleep(ms(s.Pace))
		from := r.index*s.T.PieceLen + r.offset
		b := append([]byte(nil), data[from:from+r.length]...)
		if kind == "corrupt" {
			b[len(b)/2] ^= 0x10
		}
		if _, err := conn.Write(pieceFrame(r.index, r.offset, b)); err != nil {
			return
		}
		last = r.index
		got[last] += r.length
	}
}

func newCLINet(c *C, s cliCase) *cliNet {
	x := &cliNet{anns: map[int][]cliAnn{}, open: map[int]int{}, sure: map[int]bool{}}
	x.cond = sync.NewCond(&x.mu)
	data := s.T.content()
	var conns []net.Conn
	listen := func() net.Listener {
		l, err := net.Listen("tcp4", "127.0.0.1:0")
		if err != nil {
			panic(harnessError{err.Error()})
		}
		c.Cleanup(func() { l.Close() })
		return l
	}
	c.Cleanup(func() {
		x.mu.Lock()
		defer x.mu.Unlock()
		for _, k := range conns {
			k.Close()
		}
	})
	var list []byte
	for k, kind := range s.Peers {
		l := listen()
		a := append([]byte{127, 0, 0, 1}, binary.BigEndian.AppendUint16(nil, uint16(l.Addr().(*net.TCPAddr).Port))...)
		list = append(list, a...)
		if s.Dup && k%2 == 0 {
			list = append(list, a...)
		}
		if kind == "refuse" {
			l.Close()
			continue
		}
		go func() {
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				x.hook(func() { conns = append(conns, conn) })
				go x.peer(s, data, k, kind, conn)
			}
		}()
	}
	for k, kind := range s.Trks {
		switch kind {
		case "http", "slow":
			l := listen()
			srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				q := r.URL.Query()
				a := cliAnn{came: time.Now(), hash: q.Get("info_hash"), port: q.Get("port")}
				a.down, _ = strconv.ParseUint(q.Get("downloaded"), 10, 64)
				a.left, _ = strconv.ParseUint(q.Get("left"), 10, 64)
				if kind == "slow" {
					x.hook(func() { x.anns[k] = append(x.anns[k], a) })
					select {
					case <-r.Context().Done():
					case <-time.After(20 * time.Second):
					}
					return
				}
				a.at = time.Now()
				x.hook(func() { x.anns[k] = append(x.anns[k], a) })
				rw.Write(encSorted(bDict(kv("interval", bInt(1)), kv("peers", BV{K: "s", S: list}))))
			})}
			go srv.Serve(l)
			c.Cleanup(func() { srv.Close() })
			x.urls = append(x.urls, "http://"+l.Addr().String()+"/announce")
		case "udp":
			l, err := net.ListenPacket("udp4", "127.0.0.1:0")
			if err != nil {
				panic(harnessError{err.Error()})
			}
			c.Cleanup(func() { l.Close() })
			go func() {
				buf := make([]byte, 2000)
				for {
					n, from, err := l.ReadFrom(buf)
					if err != nil {
						return
					}
					p := buf[:n]
					switch {
					case n == 16 && binary.BigEndian.Uint32(p[8:]) == 0:
						b := append([]byte{0, 0, 0, 0}, p[12:16]...)
						l.WriteTo(append(b, 0, 0, 0, 0, 0, 0, 0, 7), from)
					case n >= 98 && binary.BigEndian.Uint32(p[8:]) == 1:
						a := cliAnn{came: time.Now(), hash: string(p[16:36]), port: strconv.Itoa(int(binary.BigEndian.Uint16(p[96:])))}
						a.down, a.left = binary.BigEndian.Uint64(p[56:]), binary.BigEndian.Uint64(p[64:])
						b := append([]byte{0, 0, 0, 1}, p[12:16]...)
						b = append(b, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1)
						a.at = time.Now()
						x.hook(func() { x.anns[k] = append(x.anns[k], a) })
						l.WriteTo(append(b, list...), from)
					}
				}
			}()
			x.urls = append(x.urls, "udp://"+l.LocalAddr().String())
		default:
			x.urls = append(x.urls, kind+"://nowhere.test/x")
		}
	}
	return x
}

type cliRun struct {
	*cliProc
	what, dir, out string
}

func (s cliCase) start(c *C, x *cliNet) cliRun {
	dir := c.TempDir()
	out := filepath.Join(dir, "out")
	must(os.Mkdir(out, 0o755))
	s.T.litter(out)
	file := filepath.Join(dir, "f.torrent")
	list := [][]string{x.urls}
	if !s.Dup { // the announce url need not be in the announce list
		if list[0] = x.urls[1:]; len(list[0]) == 0 {
			list = nil
		}
	}
	must(os.WriteFile(file, s.T.doc(x.urls[0], list...), 0o644))
	opt := func(short, long, v string) []string {
		if s.Long {
			return []string{"--" + long + "=" + v}
		}
		return []string{"-" + short, v}
	}
	var opts [][]string
	opts = append(opts, opt("o", "out", out))
	if s.Port != 0 {
		opts = append(opts, opt("p", "port", strconv.Itoa(s.Port)))
	}
	if s.Max != 0 {
		opts = append(opts, opt("n", "num-peer", strconv.Itoa(s.Max)))
	}
	args := []string{"download", "--log-level", "error"}
	if s.Swap {
		args = append(args, file)
		for k := len(opts) - 1; k >= 0; k-- {
			args = append(args, opts[k]...)
		}
	} else {
		for _, o := range opts {
			args = append(args, o...)
		}
		args = append(args, file)
	}
	return cliRun{startCLI(c, dir, args...), fmt.Sprintf("gotit %q", args), dir, out}
}

// stop interrupts the run and waits for its end.
func (r cliRun) stop(c *C, sig int) cliResult {
	r.cmd.Process.Signal(syscall.Signal(sig))
	res, ok := r.wait(30 * time.Second)
	if !ok {
		c.Failf("%s: still running 30 s after signal %d", r.what, sig)
	}
	return res
}

func runCLI16(c *C, s cliCase) {
	if s.T.pieces() > 0 {
		c.NonTrivial()
	}
	x := newCLINet(c, s)
	r := s.start(c, x)
	res, ok := r.wait(150 * time.Second)
	if !ok {
		c.Failf("%s: the download from %q does not end", r.what, s.Peers)
	}
	if strings.Contains(res.err, "goroutine ") {
		c.Failf("%s: crashed: %v", r.what, res)
	}
	s.T.compareDisk(c, r.out, func(int) bool { return true }, false)
}

func runCLI19(c *C, s cliCase) {
	x := newCLINet(c, s)
	r := s.start(c, x)
	port := "6666"
	if s.Port != 0 {
		port = strconv.Itoa(s.Port)
	}
	ended := make(chan struct{})
	go func() { <-r.done; close(ended) }()
	x.until(20*time.Second, ended, func() bool {
		for k, kind := range s.Trks {
			if kind != "wss" && len(x.anns[k]) < 3 {
				return false
			}
		}
		return true
	})
	alive := true
	select {
	case <-r.done:
		alive = false
	default:
	}
	r.stop(c, int(syscall.SIGINT))
	x.mu.Lock()
	defer x.mu.Unlock()
	for k, kind := range s.Trks {
		if kind == "wss" {
			continue
		}
		if alive && len(x.anns[k]) < 3 {
			c.Failf("%s: %d announces to the %s tracker in 20 s, its interval is 1 s", r.what, len(x.anns[k]), kind)
		}
		if len(x.anns[k]) > 1 {
			c.NonTrivial()
		}
		for i, a := range x.anns[k] {
			if a.port != port {
				c.Failf("%s: port %s announced, want %s", r.what, a.port, port)
			}
			if a.hash != string(infoHash(s.T)) {
				c.Failf("%s: info-hash %x announced", r.what, a.hash)
			}
			if a.down+a.left != uint64(s.T.total()) {
				c.Failf("%s: downloaded %d and left %d announced of %d bytes", r.what, a.down, a.left, s.T.total())
			}
			if i > 0 {
				if gap := a.came.Sub(x.anns[k][i-1].at); gap < time.Second {
					c.Failf("%s: announced to the %s tracker again after %v, its interval is 1 s", r.what, kind, gap)
				}
			}
		}
	}
}

func runCLI21(c *C, s cliCase) {
	most := 30
	if s.Max != 0 {
		most = s.Max
	}
	if len(s.Peers) > most {
		c.NonTrivial()
	}
	x := newCLINet(c, s)
	r := s.start(c, x)
	want := min(most, len(s.Peers))
	full := x.until(30*time.Second, r.done, func() bool { return len(x.open) >= want })
	x.until(1300*time.Millisecond, r.done, func() bool { return x.most > want || x.twice })
	x.mu.Lock()
	now, peak, twice := len(x.open), x.most, x.twice
	x.mu.Unlock()
	r.stop(c, int(syscall.SIGTERM))
	if peak > most {
		c.Failf("%s: sessions with %d peers at a time, the maximum is %d", r.what, peak, most)
	}
	if twice {
		c.Failf("%s: two sessions with the same peer", r.what)
	}
	if !full && s.T.pieces() > 0 {
		c.Failf("%s: sessions with %d of %d peers, the maximum is %d", r.what, now, len(s.Peers), most)
	}
}

func runCLI22(c *C, s cliCase) {
	c.NonTrivial()
	x := newCLINet(c, s)
	r := s.start(c, x)
	// before its first announce the client may not be listening to signals
	x.until(60*time.Second, r.done, func() bool {
		switch s.When {
		case "announce":
			return len(x.anns) > 0
		case "connect":
			return len(x.open) > 0 || x.reqs > 0
		case "request":
			return x.reqs > 0
		}
		return true
	})
	time.Sleep(ms(s.After))
	x.mu.Lock()
	sure := map[int]bool{}
	for i := range x.sure {
		sure[i] = true
	}
	x.mu.Unlock()
	c.Label(s.When)
	res := r.stop(c, s.Sig)
	if res.code != 0 || strings.Contains(res.err, "goroutine ") {
		c.Failf("%s: signal %d at %s: %v", r.what, s.Sig, s.When, res)
	}
	have := s.T.piecesOnDisk(c, r.out, s.T.content())
	for i := range sure {
		if !have[i] {
			c.Failf("%s: signal %d at %s: piece %d was complete and is not on disk", r.what, s.Sig, s.When, i)
		}
	}
	if !x.until(10*time.Second, nil, func() bool { return len(x.open) == 0 }) {
		c.Failf("%s: signal %d at %s: connections are left open", r.what, s.Sig, s.When)
	}
}
