package props

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// TFile is one file of a generated torrent.
type TFile struct {
	Path []Bytes `json:"path"`
	Len  int     `json:"len"`
}

// TSpec is a torrent: its geometry, its layout and, through Seed, its content.
type TSpec struct {
	Name     Bytes   `json:"name"`
	PieceLen int     `json:"pieceLen"`
	Multi    bool    `json:"multi,omitempty"`
	Len      int     `json:"len,omitempty"` // single file
	Files    []TFile `json:"files,omitempty"`
	Seed     uint64  `json:"seed"`
	Fill     string  `json:"fill,omitempty"`  // random, zero, holes or same
	Flip     int     `json:"flip,omitempty"`  // the listed hashes are wrong in bit Flip-1
	Stale    string  `json:"stale,omitempty"` // what is at the files' paths before: longer, shorter, same, empty, mixed
}

func genStale(t *rapid.T) string {
	return pick(t, "stale", "", "", "longer", "shorter", "same", "empty", "mixed")
}

// litter leaves former files where those of the torrent will be.
func (s TSpec) litter(dir string) {
	if s.Stale == "" {
		return
	}
	for i, p := range s.paths() {
		n := s.Len
		if s.Multi {
			n = s.Files[i].Len
		}
		switch s.Stale {
		case "longer":
			n += 1 + i*7
		case "shorter":
			n /= 2
		case "empty":
			n = 0
		case "mixed":
			if i%2 == 1 {
				continue
			}
			n += 3 - 2*(i%4)
		}
		f := filepath.Join(dir, p)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, content(s.Seed+77, max(n, 0)), 0o644))
	}
}

func (s TSpec) total() int {
	if !s.Multi {
		return s.Len
	}
	n := 0
	for _, f := range s.Files {
		n += f.Len
	}
	return n
}

func (s TSpec) pieces() int { return (s.total() + s.PieceLen - 1) / s.PieceLen }

func (s TSpec) pieceSize(i int) int { return min(s.PieceLen, s.total()-i*s.PieceLen) }

// content is a deterministic stream in which neighbouring bytes and pieces differ.
func content(seed uint64, n int) []byte {
	b := make([]byte, (n+7)/8*8)
	x := seed*0x9e3779b97f4a7c15 + 1
	for i := 0; i < len(b); i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		binary.LittleEndian.PutUint64(b[i:], x*0x2545f4914f6cdd1d)
	}
	for i := range b {
		if b[i] == 0 {
			b[i] = 1 // a zero on disk is a byte that was never written
		}
	}
	return b[:n]
}

func (s TSpec) content() []byte {
	b := content(s.Seed, s.total())
	switch s.Fill {
	case "zero":
		clear(b)
	case "holes": // runs of zeros of all sizes, anywhere and at the end
		for at, x := 0, int(s.Seed); at < len(b); x = x*1103515245/65536 + 12345 {
			n := min(1+(x&0xffff)%max(1, 2*s.PieceLen), len(b)-at)
			if x&0x10000 == 0 || at+n == len(b) {
				clear(b[at : at+n])
			}
			at += n
		}
	case "same": // all pieces are alike
		for at := s.PieceLen; at < len(b); at += s.PieceLen {
			copy(b[at:], b[:s.PieceLen])
		}
	}
	return b
}

func genFill(t *rapid.T) string {
	return pick(t, "fill", "", "", "", "zero", "holes", "holes", "same")
}

func (s TSpec) hashes() []byte {
	data := s.content()
	var out []byte
	for i := 0; i < s.pieces(); i++ {
		h := sha1.Sum(data[i*s.PieceLen : i*s.PieceLen+s.pieceSize(i)])
		out = append(out, h[:]...)
	}
	if s.Flip > 0 && len(out) > 0 {
		b := (s.Flip - 1) % (8 * len(out))
		out[b/8] ^= 1 << (b % 8)
	}
	return out
}

func (s TSpec) infoBV() BV {
	info := bDict()
	if s.Multi {
		l := BV{K: "l"}
		for _, f := range s.Files {
			p := BV{K: "l"}
			for _, c := range f.Path {
				p.L = append(p.L, BV{K: "s", S: c})
			}
			l.L = append(l.L, bDict(kv("length", bInt(int64(f.Len))), kv("path", p)))
		}
		info.D = append(info.D, kv("files", l))
	} else {
		info.D = append(info.D, kv("length", bInt(int64(s.Len))))
	}
	info.D = append(info.D, kv("name", BV{K: "s", S: s.Name}), kv("piece length", bInt(int64(s.PieceLen))),
		kv("pieces", BV{K: "s", S: s.hashes()}))
	return info
}

func (s TSpec) doc(announce string, list ...[]string) []byte {
	d := bDict(kv("announce", bStr(announce)))
	if len(list) > 0 {
		l := BV{K: "l"}
		for _, tier := range list {
			t := BV{K: "l"}
			for _, u := range tier {
				t.L = append(t.L, bStr(u))
			}
			l.L = append(l.L, t)
		}
		d.D = append(d.D, kv("announce-list", l))
	}
	d.D = append(d.D, kv("info", s.infoBV()))
	return enc(d)
}

// open decodes the torrent file and opens it in dir; both must succeed.
func (s TSpec) open(c *C, dir, announce string, list ...[]string) *torrent.Torrent {
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(s.doc(announce, list...), m); err != nil {
		c.Failf("a well-formed torrent file is refused: %v", err)
	}
	t, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		c.Failf("a consistent torrent is refused: %v", err)
	}
	c.Cleanup(func() { t.Close() })
	return t
}

// paths of the files under the download directory, in content order.
func (s TSpec) paths() []string {
	if !s.Multi {
		return []string{string(s.Name)}
	}
	var out []string
	for _, f := range s.Files {
		p := string(s.Name)
		for _, c := range f.Path {
			p += "/" + string(c)
		}
		out = append(out, p)
	}
	return out
}

// readBack returns the file contents, each padded or marked against its length.
func (s TSpec) readBack(c *C, dir string) [][]byte {
	var out [][]byte
	for _, p := range s.paths() {
		b, err := os.ReadFile(filepath.Join(dir, p))
		if err != nil {
			c.Failf("file %q: %v", p, err)
		}
		out = append(out, b)
	}
	return out
}

// compareDisk checks every byte on disk against the content: bytes inside
// written must be there, others must be absent or zero unless mayBe allows
// the true content there.
func (s TSpec) compareDisk(c *C, dir string, written func(i int) bool, mayBe bool) {
	data := s.content()
	at := 0
	lens := []int{s.Len}
	if s.Multi {
		lens = nil
		for _, f := range s.Files {
			lens = append(lens, f.Len)
		}
	}
	for k, b := range s.readBack(c, dir) {
		if len(b) > lens[k] {
			c.Failf("file %d (%s) has %d bytes, declared length %d", k, s.paths()[k], len(b), lens[k])
		}
		for i := 0; i < lens[k]; i++ {
			g := byte(0)
			if i < len(b) {
				g = b[i]
			}
			want := data[at+i]
			if written(at + i) {
				if i >= len(b) {
					c.Failf("file %d (%s) has %d bytes, byte %d was stored, declared length %d", k, s.paths()[k], len(b), i, lens[k])
				}
				if g != want {
					c.Failf("byte %d of file %d (%s), position %d of the content (piece %d), is %#x, want %#x (stored data)",
						i, k, s.paths()[k], at+i, (at+i)/s.PieceLen, g, want)
				}
			} else if g != 0 && !(mayBe && g == want) {
				c.Failf("byte %d of file %d (%s), position %d of the content (piece %d), is %#x although it was not stored",
					i, k, s.paths()[k], at+i, (at+i)/s.PieceLen, g)
			}
		}
		at += lens[k]
	}
}

// pieceMsg is a piece message as it arrives from the wire.
func pieceMsg(index, offset int, data []byte) *util.PeerMessage {
	return util.NewPeerMessage(pieceBody(index, offset, data))
}

func pieceBody(index, offset int, data []byte) []byte {
	var b bytes.Buffer
	b.WriteByte(7)
	binary.Write(&b, binary.BigEndian, uint32(index))
	binary.Write(&b, binary.BigEndian, uint32(offset))
	b.Write(data)
	return b.Bytes()
}

var plainNames = []string{"a", "b", "c.bin", "name with space", "UPPER", ".hidden", "ž ć", "x..y", "..z", "...", "a.torrent", "-dash", "x\ny", "back\\slash", "tab\t", "%2e%2e", "~", "$HOME", "a${HOME}b", "*", "a?[x]", "C:", "a;b&c|d", "trail ", "dot.", strings.Repeat("n", 255), strings.Repeat("ž", 60) + "1"}

func genName(t *rapid.T, label string) Bytes {
	return Bytes(rapid.SampledFrom(plainNames).Draw(t, label))
}

// genLayout draws a torrent whose names are all plain path components and
// whose paths do not clash.
func genLayout(t *rapid.T, maxTotal int) TSpec {
	s := TSpec{Name: genName(t, "name"), Seed: rapid.Uint64Range(1, 1<<20).Draw(t, "seed")}
	genLen := func(hi int) int {
		return rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, hi), rapid.SampledFrom([]int{0, 1, 7, 8, 9, 16, 64})).Draw(t, "flen")
	}
	if s.Multi = rapid.IntRange(0, 3).Draw(t, "multi") != 0; s.Multi {
		n := rapid.IntRange(1, 8).Draw(t, "nfiles")
		many := rapid.IntRange(0, 15).Draw(t, "many") == 0
		if many {
			n = rapid.SampledFrom([]int{9, 10, 15, 17, 33, 40, 65, 80, 101, 130}).Draw(t, "mfiles")
		}
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			var p []Bytes
			depth := rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 2, 2, 2, 3, 4, 10}).Draw(t, "pdepth")
			for d := 0; d < depth; d++ {
				p = append(p, genName(t, "comp"))
			}
			if many {
				p = append(p, Bytes(strconv.Itoa(i)))
			}
			if len(s.Files) > 0 && !many && rapid.IntRange(0, 6).Draw(t, "near") == 0 {
				p = nearPath(t, s.Files[rapid.IntRange(0, len(s.Files)-1).Draw(t, "to")].Path)
			}
			key := joinBytes(p)
			clash := used[key]
			for u := range used {
				if strings.HasPrefix(u, key+"/") || strings.HasPrefix(key, u+"/") {
					clash = true
				}
			}
			if clash {
				continue
			}
			used[key] = true
			s.Files = append(s.Files, TFile{Path: p, Len: min(genLen(maxTotal/4), maxTotal*2/n)})
		}
	} else {
		s.Len = min(genLen(maxTotal), maxTotal)
	}
	total := s.total()
	s.PieceLen = rapid.OneOf(
		rapid.IntRange(1, 16),
		rapid.IntRange(1, max(1, total+5)),
		rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32, 64, 100, max(1, total), max(1, total-1), total + 1, max(1, total/2), max(1, total/3)}),
	).Draw(t, "piecelen")
	if rapid.IntRange(0, 15).Draw(t, "hugepiece") == 0 { // pieces longer than everything there is
		s.PieceLen = rapid.SampledFrom([]int{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 16, 1 << 33, 1 << 40}).Draw(t, "hugelen")
	}
	if total/s.PieceLen > 400 {
		s.PieceLen = total/400 + 1
	}
	return s
}

// nearPath is a path that differs from p only a little.
func nearPath(t *rapid.T, p []Bytes) []Bytes {
	q := slices.Clone(p)
	k := rapid.IntRange(0, len(q)-1).Draw(t, "comp")
	switch pick(t, "how", "case", "case", "tail", "deeper", "join", "head", "sibling") {
	case "case":
		q[k] = slices.Clone(q[k])
		for i, c := range q[k] {
			if c|32 >= 'a' && c|32 <= 'z' {
				q[k][i] = c ^ 32
			}
		}
	case "tail":
		q[k] = append(slices.Clone(q[k]), pick(t, "end", " ", ".", "~", "_", "1", ".part")...)
	case "deeper":
		q = append([]Bytes{genName(t, "dir")}, q...)
	case "join":
		if len(q) > 1 {
			q = append([]Bytes{append(slices.Clone(q[0]), q[1]...)}, q[2:]...)
		}
	case "head":
		q[k] = append(Bytes(pick(t, "start", " ", ".x", "-")), q[k]...)
	case "sibling":
		q[len(q)-1] = genName(t, "other")
	}
	for _, c := range q {
		if len(c) > 255 {
			return p
		}
	}
	return q
}

// manyPieces draws a torrent of thousands of pieces.
func manyPieces(t *rapid.T) TSpec {
	n := rapid.SampledFrom([]int{1025, 1639, 3277, 4097, 6000, 8200}).Draw(t, "npieces")
	s := TSpec{Name: Bytes("many"), PieceLen: rapid.IntRange(1, 3).Draw(t, "piecelen"), Seed: 9}
	s.Len = n * s.PieceLen
	if rapid.Bool().Draw(t, "multi") {
		k := rapid.IntRange(0, s.Len).Draw(t, "first")
		s.Multi, s.Files = true, []TFile{{Path: []Bytes{Bytes("a")}, Len: k}, {Path: []Bytes{Bytes("b")}, Len: s.Len - k}}
		s.Len = 0
	}
	return s
}

func joinBytes(p []Bytes) string {
	var l []string
	for _, c := range p {
		l = append(l, string(c))
	}
	return strings.Join(l, "/")
}
