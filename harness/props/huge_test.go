package props

import (
	"bytes"
	"context"
	"crypto/sha1"
	"io"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// Torrents of many gigabytes. Nothing of that size is ever stored: the files
// are sparse and only some blocks or pieces are delivered. The content repeats
// with a period that divides the piece length, so one hash serves all pieces.

func init() {
	register("C07", "huge",
		"torrents of 1 to 40 GiB in sparse files, blocks around the powers of two, the file boundaries and the end; all data regions of all files compared; non-trivial: a block beyond 2 GiB",
		400, 8000, genC07Huge, runC07Huge)
	register("C14", "huge",
		"one honest peer has some pieces, known by have, of a torrent of 1 to 40 GiB; exactly these are requested, in tiles, and stored where they belong; non-trivial: a piece beyond 2 GiB",
		60, 1500, genC14Huge, runC14Huge)
}

// Huge is the geometry; a negative or zero entry of Files means an empty file.
type Huge struct {
	PieceLen int   `json:"pieceLen"`
	Files    []int `json:"files"` // one: a single file torrent
}

const hugePeriod = 4096

func (h Huge) total() int {
	n := 0
	for _, f := range h.Files {
		n += f
	}
	return n
}
func (h Huge) pieces() int         { return (h.total() + h.PieceLen - 1) / h.PieceLen }
func (h Huge) pieceSize(i int) int { return min(h.PieceLen, h.total()-i*h.PieceLen) }

var hugePattern = content(77, hugePeriod)

func (h Huge) bytes(at, n int) []byte {
	b := make([]byte, 0, n+hugePeriod)
	b = append(b, hugePattern[at%hugePeriod:]...)
	for len(b) < n {
		b = append(b, hugePattern...)
	}
	return b[:n]
}

var hugeHashes sync.Map

func hugeHash(n int) []byte {
	if v, ok := hugeHashes.Load(n); ok {
		return v.([]byte)
	}
	s := sha1.New()
	for left := n; left > 0; left -= hugePeriod {
		s.Write(hugePattern[:min(left, hugePeriod)])
	}
	v := s.Sum(nil)
	hugeHashes.Store(n, v)
	return v
}

// spec has the names; hashes may be left out (zero) when no piece is checked.
func (h Huge) open(c *C, dir string, hashed bool) (*torrent.Torrent, []byte) {
	info := bDict()
	if len(h.Files) > 1 {
		l := BV{K: "l"}
		for i, f := range h.Files {
			l.L = append(l.L, bDict(kv("length", bInt(int64(f))), kv("path", bList(bStr("f"+strconv.Itoa(i))))))
		}
		info.D = append(info.D, kv("files", l))
	} else {
		info.D = append(info.D, kv("length", bInt(int64(h.Files[0]))))
	}
	n := h.pieces()
	hs := make([]byte, 20*n)
	if hashed {
		full := hugeHash(h.PieceLen)
		for i := 0; i < n; i++ {
			if h.pieceSize(i) == h.PieceLen {
				copy(hs[20*i:], full)
			} else {
				copy(hs[20*i:], hugeHash(h.pieceSize(i)))
			}
		}
	}
	info.D = append(info.D, kv("name", bStr("big")), kv("piece length", bInt(int64(h.PieceLen))), kv("pieces", BV{K: "s", S: hs}))
	doc := enc(info)
	hash := sha1.Sum(doc)
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(enc(bDict(kv("announce", bStr("http://t/")), kv("info", info))), m); err != nil {
		c.Failf("a well-formed torrent file is refused: %v", err)
	}
	t, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		c.Failf("a consistent torrent is refused: %v", err)
	}
	c.Cleanup(func() { t.Close() })
	return t, hash[:]
}

func (h Huge) path(dir string, i int) string {
	if len(h.Files) == 1 {
		return filepath.Join(dir, "big")
	}
	return filepath.Join(dir, "big", "f"+strconv.Itoa(i))
}

type span struct{ from, to int }

// compare checks the data regions of the files against the spans of the
// content that were stored.
func (h Huge) compare(c *C, dir string, spans []span) {
	base := 0
	for i, n := range h.Files {
		f, err := os.Open(h.path(dir, i))
		if err != nil {
			c.Failf("file %d: %v", i, err)
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			panic(harnessError{"stat: " + err.Error()})
		}
		if fi.Size() > int64(n) {
			c.Failf("file %d has %d bytes, declared length %d", i, fi.Size(), n)
		}
		// what must be there
		for _, s := range spans {
			from, to := max(s.from, base), min(s.to, base+n)
			if from >= to {
				continue
			}
			b := make([]byte, to-from)
			if k, err := f.ReadAt(b, int64(from-base)); k < len(b) {
				c.Failf("file %d: only %d of %d bytes at %d: %v", i, k, len(b), from-base, err)
			}
			if !bytes.Equal(b, h.bytes(from, len(b))) {
				c.Failf("file %d, bytes %d to %d (position %d of the content): not what was stored", i, from-base, to-base, from)
			}
		}
		// what must not be there
		var at int64
		for at < fi.Size() {
			d, err := f.Seek(at, 3) // SEEK_DATA
			if err != nil {
				if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENXIO {
					break
				}
				panic(harnessError{"SEEK_DATA: " + err.Error()})
			}
			e, err := f.Seek(d, 4) // SEEK_HOLE
			if err != nil {
				panic(harnessError{"SEEK_HOLE: " + err.Error()})
			}
			if e-d > 256<<20 {
				c.Failf("file %d: %d bytes of data at %d, far more than was delivered", i, e-d, d)
			}
			b := make([]byte, e-d)
			if _, err := f.ReadAt(b, d); err != nil && err != io.EOF {
				panic(harnessError{"read: " + err.Error()})
			}
			for k := 0; k < len(b); k++ {
				if b[k] == 0 {
					continue
				}
				p := base + int(d) + k
				ok := false
				for _, s := range spans {
					if p >= s.from && p < s.to {
						ok = true
						k = min(len(b), s.to-base-int(d)) - 1
						break
					}
				}
				if !ok {
					c.Failf("file %d, byte %d (position %d of the content) was written although it was not stored", i, int(d)+k, p)
				}
			}
			at = e
		}
		base += n
	}
}

var hugeOK = sync.OnceValue(func() bool {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	f, err := os.CreateTemp(d, "sparse")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	defer f.Close()
	if _, err := f.WriteAt([]byte{1}, 44<<30); err != nil {
		return false
	}
	at, err := f.Seek(0, 3)
	return err == nil && at > 40<<30
})

func genHuge(t *rapid.T, lens ...int) Huge {
	h := Huge{PieceLen: pick(t, "piecelen", lens...)}
	const g = 1 << 30
	edge := func() int {
		n := pick(t, "edge", g, 2*g, 2*g, 4*g, 4*g, 4*g, 8*g, 16*g)
		return n + pick(t, "off", 0, 0, 1, -1, 5, 70000, -70000, 123456789)
	}
	for i := pick(t, "files", 1, 1, 2, 3, 4); i > 0; i-- {
		switch pick(t, "fk", 0, 0, 1, 2) {
		case 0:
			h.Files = append(h.Files, edge())
		case 1:
			h.Files = append(h.Files, pick(t, "small", 0, 1, 100, 300000))
		default:
			h.Files = append(h.Files, rapid.IntRange(0, 6*g).Draw(t, "flen"))
		}
	}
	if h.total() < g {
		h.Files[0] = edge()
	}
	return h
}

// places of interest in the content
func (h Huge) place(t *rapid.T) int {
	const g = 1 << 30
	var l []int
	at := 0
	for _, f := range h.Files {
		l = append(l, at)
		for _, x := range []int{2 * g, 4 * g} {
			if at+x < h.total() {
				l = append(l, at+x) // within the file
			}
		}
		at += f
	}
	for _, x := range []int{2 * g, 4 * g, 8 * g, h.total(), h.total() / 2} {
		if x <= h.total() {
			l = append(l, x)
		}
	}
	p := pick(t, "place", l...) + pick(t, "delta", 0, -1, -40, -70000, 30, -h.PieceLen)
	return max(0, min(p, h.total()-1))
}

type c07Huge struct {
	H Huge    `json:"h"`
	B []Block `json:"b"`
}

func genC07Huge(t *rapid.T) c07Huge {
	s := c07Huge{H: genHuge(t, 1<<20, 1<<20+4096, 16<<20, 1<<28, 1<<30, 1<<31-4096, 1<<31, 1<<31+4096, 1<<32-4096)}
	for k := rapid.IntRange(1, 6).Draw(t, "blocks"); k > 0; k-- {
		at := s.H.place(t)
		i := at / s.H.PieceLen
		off := at - i*s.H.PieceLen
		l := min(pick(t, "len", 100, 1, 16384, 131072), s.H.pieceSize(i)-off)
		s.B = append(s.B, Block{i, off, l})
	}
	return s
}

func runC07Huge(c *C, s c07Huge) {
	if !hugeOK() {
		c.Label("no sparse files here")
		return
	}
	dir := c.TempDir()
	tor, _ := s.H.open(c, dir, false)
	ch := make(chan *util.PeerMessage, len(s.B))
	var spans []span
	for _, b := range s.B {
		from := b.P*s.H.PieceLen + b.Off
		spans = append(spans, span{from, from + b.Len})
		if from+b.Len > 1<<31 {
			c.NonTrivial()
		}
		ch <- pieceMsg(b.P, b.Off, s.H.bytes(from, b.Len))
	}
	close(ch)
	if p := guard(func() { tor.WritePiece(ch, stats.NewStats(uint64(tor.Length))) }); p != nil {
		c.Failf("WritePiece: %v", p)
	}
	s.H.compare(c, dir, spans)
}

type c14Huge struct {
	H    Huge  `json:"h"`
	Have []int `json:"have"`
}

func genC14Huge(t *rapid.T) c14Huge {
	s := c14Huge{H: genHuge(t, 256<<10, 1<<20, 1<<20+4096, 4<<20)}
	seen := map[int]bool{}
	for k := rapid.IntRange(1, 5).Draw(t, "n"); k > 0; k-- {
		i := s.H.place(t) / s.H.PieceLen
		if !seen[i] {
			seen[i] = true
			s.Have = append(s.Have, i)
		}
	}
	return s
}

func runC14Huge(c *C, s c14Huge) {
	if !hugeOK() {
		c.Label("no sparse files here")
		return
	}
	bubble(c, func() {
		dir := c.TempDir()
		tor, hash := s.H.open(c, dir, true)
		sn := newSimNet(c)
		st := stats.NewStats(uint64(s.H.total()))
		ch := make(chan *util.PeerMessage, 1024)
		wrote := make(chan struct{})
		go func() {
			defer close(wrote)
			tor.WritePiece(ch, st)
		}()
		var mu sync.Mutex
		fail := ""
		sets := map[int]map[request]bool{}
		have := map[int]bool{}
		for _, i := range s.Have {
			have[i] = true
		}
		a := addrN(0)
		sn.setHost(a.String(), func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
			return sn.connect(addr, 4<<20, func(sv *simConn) {
				defer sv.Close()
				if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
					return
				}
				sv.send(handshake(hash, fakeID), 0, nil)
				for _, i := range s.Have {
					sv.send(haveFrame(i), 0, nil)
				}
				sv.send(frame(1), 0, nil)
				for {
					b, err := readFrame(sv)
					if err != nil {
						return
					}
					if len(b) != 13 || b[0] != 6 {
						continue
					}
					r := parseRequest(b)
					mu.Lock()
					if !have[r.index] || r.length <= 0 || r.offset+r.length > s.H.pieceSize(r.index) {
						if fail == "" {
							fail = "request " + strconv.Itoa(r.index) + "/" + strconv.Itoa(r.offset) + "/" + strconv.Itoa(r.length) + " is not for an announced piece or outside it"
						}
						mu.Unlock()
						continue
					}
					if sets[r.index] == nil {
						sets[r.index] = map[request]bool{}
					}
					sets[r.index][r] = true
					mu.Unlock()
					sv.send(pieceFrame(r.index, r.offset, s.H.bytes(r.index*s.H.PieceLen+r.offset, r.length)), 0, nil)
				}
			}), nil
		})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		time.AfterFunc(time.Minute, cancel)
		p := peer.NewPeer(a, tor, torrent.NewPiecesQueue(), ch, zap.NewNop())
		if err := p.Announce(tor); err != nil {
			c.Failf("the handshake fails: %v", err)
		}
		p.Run(ctx)
		p.Close()
		close(ch)
		<-wrote
		sn.shutdown()
		if fail != "" {
			c.Failf("%s", fail)
		}
		var spans []span
		sum := 0
		for _, i := range s.Have {
			from := i * s.H.PieceLen
			if from > 1<<31 {
				c.NonTrivial()
			}
			if sets[i] == nil {
				c.Failf("piece %d is offered and never requested", i)
			}
			tiles(c, TSpec{PieceLen: s.H.PieceLen, Len: s.H.total()}, i, sets[i], true)
			spans = append(spans, span{from, from + s.H.pieceSize(i)})
			sum += s.H.pieceSize(i)
		}
		if st.Download() != uint64(sum) {
			c.Failf("%d bytes were delivered and stored, downloaded is %d", sum, st.Download())
		}
		s.H.compare(c, dir, spans)
	})
}
