package props

import (
	"crypto/sha1"
	"encoding/binary"
	"io"
	"net/netip"
	"strings"
	"sync"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// Peer-wire protocol written down independently of the code under test.

const proto = "\x13BitTorrent protocol"

func handshake(hash, id []byte) []byte {
	b := append([]byte(proto), make([]byte, 8)...)
	b = append(b, hash...)
	return append(b, id...)
}

var fakeID = []byte("-XX0001-abcdefghijkl")

func frame(body ...byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(body))), body...)
}

func u32(v int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }

func haveFrame(i int) []byte { return frame(append([]byte{4}, u32(i)...)...) }

func pieceFrame(index, offset int, data []byte) []byte {
	return frame(pieceBody(index, offset, data)...)
}

// bitfieldFrame sets bit i of byte i/8 counted from the most significant bit.
func bitfieldFrame(n int, has func(int) bool) []byte {
	b := make([]byte, 1+(n+7)/8)
	b[0] = 5
	for i := 0; i < n; i++ {
		if has(i) {
			b[1+i/8] |= 0x80 >> (i % 8)
		}
	}
	return frame(b...)
}

// bitOrderSame tells that a bitfield means the same to a reader that takes the
// bits of each 64-bit word in reverse (known finding bitfield-bit-order).
func bitOrderSame(n int, has func(int) bool) bool {
	for i := 0; i < (n+63)/64*64; i++ {
		m := i/64*64 + 63 - i%64
		if (i < n && has(i)) != (m < n && has(m)) {
			return false
		}
	}
	return true
}

func readFrame(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 1<<20 {
		return nil, errBadFrame
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return b, err
}

var errBadFrame = &badFrame{}

type badFrame struct{}

func (*badFrame) Error() string { return "absurd frame length" }

// frameError tells what is wrong with a frame the client sent, or "".
func frameError(body []byte, pieces int) string {
	if len(body) == 0 {
		return ""
	}
	want := -1
	switch body[0] {
	case 0, 1, 2, 3:
		want = 1
	case 4:
		want = 5
	case 5:
		want = 1 + (pieces+7)/8
	case 6, 8:
		want = 13
	case 7:
		if len(body) < 9 {
			return "a piece message shorter than its header"
		}
		return ""
	default:
		return "a message of an unknown type"
	}
	if len(body) != want {
		return "a message of the wrong length for its type"
	}
	return ""
}

type request struct{ index, offset, length int }

func parseRequest(body []byte) request {
	f := func(i int) int { return int(binary.BigEndian.Uint32(body[i:])) }
	return request{f(1), f(5), f(9)}
}

// ---------------------------------------------------------------------------

// session drives the client's peer code against fake remotes, with the writer
// the download manager uses.
type session struct {
	c     *C
	net   *simNet
	spec  TSpec
	data  []byte
	dir   string
	tor   *torrent.Torrent
	queue *torrent.PiecesQueue
	ch    chan *util.PeerMessage
	st    *stats.Stats
	wrote chan struct{}
	wg    sync.WaitGroup
}

// newSession must be called inside the bubble.
func newSession(c *C, spec TSpec) *session {
	s := &session{c: c, net: newSimNet(c), spec: spec, data: spec.content(), dir: c.TempDir()}
	s.tor = spec.open(c, s.dir, "http://t/")
	s.queue = torrent.NewPiecesQueue()
	s.ch = make(chan *util.PeerMessage, 1024)
	s.st = stats.NewStats(uint64(spec.total()))
	s.wrote = make(chan struct{})
	go func() {
		defer close(s.wrote)
		s.tor.WritePiece(s.ch, s.st)
	}()
	return s
}

func (s *session) hash() []byte { return infoHash(s.spec) }

// finish ends the writer; every message sent to it is on disk afterwards.
func (s *session) finish() {
	s.wg.Wait()
	close(s.ch)
	<-s.wrote
	s.net.shutdown()
}

// addrN are distinct addresses, some of which differ only in the port and some
// only in the host.
func addrN(i int) netip.AddrPort {
	h := i - i%3/2 // 2, 5, 8... are at the host of 1, 4, 7...
	return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 1, byte(h / 200), byte(1 + h%200)}), uint16(6000+i%3))
}

// addr6 are like addrN, at IPv6 hosts.
func addr6(i int) netip.AddrPort {
	h := i - i%3/2
	return netip.AddrPortFrom(netip.AddrFrom16([16]byte{0x20, 1, 0xd, 0xb8, 14: byte(h >> 8), 15: byte(h)}), uint16(6000+i%3))
}

func isPeerAddr(a string) bool {
	return strings.HasPrefix(a, "10.1.") || strings.HasPrefix(a, "[2001:db8:")
}

func (s *session) newPeer(i int) *peer.Peer {
	return peer.NewPeer(addrN(i), s.tor, s.queue, s.ch, zap.NewNop())
}

// pieceData is the true content of a block.
func (s *session) block(index, offset, length int) []byte {
	from := index*s.spec.PieceLen + offset
	return s.data[from : from+length]
}

// valid marks the bytes of a piece message that carry true content.
type coverage struct {
	mu   sync.Mutex
	spec TSpec
	data []byte
	got  []bool
}

func newCoverage(spec TSpec, data []byte) *coverage {
	return &coverage{spec: spec, data: data, got: make([]bool, len(data))}
}

func (v *coverage) add(index, offset int, b []byte) {
	if index < 0 || index >= v.spec.pieces() || offset < 0 {
		return
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	size := v.spec.pieceSize(index)
	for i, x := range b {
		if offset+i >= size {
			return
		}
		at := index*v.spec.PieceLen + offset + i
		if v.data[at] == x {
			v.got[at] = true
		}
	}
}

func (v *coverage) whole(index int) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	at := index * v.spec.PieceLen
	for _, g := range v.got[at : at+v.spec.pieceSize(index)] {
		if !g {
			return false
		}
	}
	return true
}

// piecesOnDisk tells for every piece whether all or none of its bytes are on
// disk; every byte must be either true content or never written.
func (s *session) piecesOnDisk() []bool { return s.spec.piecesOnDisk(s.c, s.dir, s.data) }

func (s TSpec) piecesOnDisk(c *C, dir string, data []byte) []bool {
	s.compareDisk(c, dir, func(int) bool { return false }, true)
	var all []byte
	lens := []int{s.Len}
	if s.Multi {
		lens = nil
		for _, f := range s.Files {
			lens = append(lens, f.Len)
		}
	}
	for k, b := range s.readBack(c, dir) {
		all = append(all, b...)
		all = append(all, make([]byte, lens[k]-len(b))...)
	}
	out := make([]bool, s.pieces())
	for i := range out {
		at := i * s.PieceLen
		n := 0
		for _, b := range all[at : at+s.pieceSize(i)] {
			if b != 0 {
				n++
			}
		}
		if n != 0 && n != s.pieceSize(i) {
			c.Failf("piece %d is on disk in part: %d of %d bytes", i, n, s.pieceSize(i))
		}
		out[i] = n != 0
	}
	return out
}

// genSwarmSpec draws small torrents for network scenarios: mostly tiny pieces,
// some whose pieces consist of several 128 KiB blocks.
func genSwarmSpec(t *rapid.T, maxPieces int, big bool) TSpec {
	s := TSpec{Name: Bytes("t"), Seed: rapid.Uint64Range(1, 1000).Draw(t, "seed")}
	n := rapid.OneOf(rapid.IntRange(1, maxPieces), rapid.SampledFrom(upto(maxPieces + 1)[1:])).Draw(t, "pieces")
	if big && rapid.IntRange(0, 4).Draw(t, "big") == 0 {
		s.PieceLen = rapid.SampledFrom([]int{16 << 10, 128<<10 - 1, 128 << 10, 128<<10 + 1, 256 << 10, 256<<10 - 5, 256<<10 + 7, 384 << 10}).Draw(t, "piecelen")
		n = min(n, 3)
	} else {
		s.PieceLen = rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 2000)).Draw(t, "piecelen")
	}
	total := n * s.PieceLen
	if s.PieceLen > 1 {
		total -= rapid.OneOf(rapid.Just(0), rapid.IntRange(0, s.PieceLen-1), rapid.Just(s.PieceLen-1)).Draw(t, "short")
	}
	if n == 1 && total > 0 && rapid.IntRange(0, 5).Draw(t, "hugepiece") == 0 {
		s.PieceLen = rapid.SampledFrom([]int{total + 1, 1 << 31, 1<<32 + 1, 1<<32 + 16, 1 << 40}).Draw(t, "hugelen")
	}
	if rapid.IntRange(0, 2).Draw(t, "multi") != 0 {
		s.Len = total
		return s
	}
	s.Multi = true
	k := rapid.IntRange(1, 4).Draw(t, "files")
	left := total
	for i := 0; i < k; i++ {
		l := left
		if i < k-1 {
			l = rapid.IntRange(0, left).Draw(t, "flen")
		}
		left -= l
		f := TFile{Path: []Bytes{Bytes("f" + string(rune('0'+i)))}, Len: l}
		if i%2 == 1 {
			f.Path = append([]Bytes{Bytes("sub")}, f.Path...)
		}
		s.Files = append(s.Files, f)
	}
	return s
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func infoHash(s TSpec) []byte {
	h := sha1.Sum(enc(s.infoBV()))
	return h[:]
}
