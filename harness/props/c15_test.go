package props

import (
	"bytes"
	"encoding/binary"
	"slices"

	"github.com/anivanovic/gotit/pkg/util"
	"pgregory.net/rapid"
)

func init() {
	register("C15", "encode",
		"every message the client builds, with generated index, offset and length; the bytes sent compared with the protocol, then decoded again; non-trivial: a request with a field above 255",
		1500, 20000, genC15Enc, runC15Enc)
	register("C15", "decode",
		"bodies of every message type with generated fields and data of 0 to 40000 bytes; non-trivial: a type with fields",
		1500, 20000, genC15Dec, runC15Dec)
	register("C15", "bitfield",
		"bitfields of 1 to 70001 pieces with generated bits; non-trivial: some but not all bits set",
		1500, 20000, genC15Bits, runC15Bits)
}

func genU32(t *rapid.T, l string) uint32 {
	return rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32(),
		rapid.SampledFrom([]uint32{0, 255, 256, 65535, 65536, 1 << 14, 1 << 17, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})).Draw(t, l)
}

type c15Enc struct {
	Kind string `json:"kind"`
	I    uint32 `json:"i"`
	O    uint32 `json:"o"`
	L    uint32 `json:"l"`
}

func genC15Enc(t *rapid.T) c15Enc {
	return c15Enc{rapid.SampledFrom([]string{"request", "request", "request", "keepalive", "choke", "unchoke", "interested"}).Draw(t, "kind"),
		genU32(t, "i"), genU32(t, "o"), genU32(t, "l")}
}

func runC15Enc(c *C, s c15Enc) {
	var m *util.PeerMessage
	var want []byte
	switch s.Kind {
	case "keepalive":
		m, want = util.KeepalivePeerMessage, []byte{0, 0, 0, 0}
	case "choke":
		m, want = util.CreateChokeMessage(), []byte{0, 0, 0, 1, 0}
	case "unchoke":
		m, want = util.CreateUnchokeMessage(), []byte{0, 0, 0, 1, 1}
	case "interested":
		m, want = util.CreateInterestedMessage(), []byte{0, 0, 0, 1, 2}
	default:
		m = util.CreatePieceMessage(s.I, s.O, s.L)
		want = []byte{0, 0, 0, 13, 6}
		want = binary.BigEndian.AppendUint32(want, s.I)
		want = binary.BigEndian.AppendUint32(want, s.O)
		want = binary.BigEndian.AppendUint32(want, s.L)
		if s.I > 255 || s.O > 255 || s.L > 255 {
			c.NonTrivial()
		}
		if m.Index() != s.I || m.Offset() != s.O || m.BlockLength() != s.L || m.Type != util.RequestMessageType {
			c.Failf("request built for (%d,%d,%d) says (%d,%d,%d)", s.I, s.O, s.L, m.Index(), m.Offset(), m.BlockLength())
		}
	}
	for k := 0; k < 2; k++ {
		var buf bytes.Buffer
		n, err := m.Send(&buf)
		if err != nil || n != len(want) {
			c.Failf("%s: Send returned %d, %v", s.Kind, n, err)
		}
		if !bytes.Equal(buf.Bytes(), want) {
			c.Failf("%s (%d,%d,%d) is sent as %x, the protocol prescribes %x", s.Kind, s.I, s.O, s.L, buf.Bytes(), want)
		}
	}
	back := util.NewPeerMessage(append([]byte(nil), want[4:]...))
	if back.Type != m.Type || back.Index() != m.Index() || back.Offset() != m.Offset() || back.BlockLength() != m.BlockLength() {
		c.Failf("%s (%d,%d,%d) decodes to type %d (%d,%d,%d)", s.Kind, s.I, s.O, s.L, back.Type, back.Index(), back.Offset(), back.BlockLength())
	}
}

type c15Dec struct {
	Type int    `json:"type"`
	I    uint32 `json:"i"`
	O    uint32 `json:"o"`
	L    uint32 `json:"l"`
	Data int    `json:"data"`
	Seed uint64 `json:"seed"`
}

func genC15Dec(t *rapid.T) c15Dec {
	return c15Dec{rapid.IntRange(0, 8).Draw(t, "type"), genU32(t, "i"), genU32(t, "o"), genU32(t, "l"),
		rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{0, 1, 255, 256, 4095, 4096, 4097, 16384, 16383, 16385, 16393, 40000})).Draw(t, "data"), rapid.Uint64Range(1, 1000).Draw(t, "seed")}
}

func runC15Dec(c *C, s c15Dec) {
	body := []byte{byte(s.Type)}
	var wi, wo, wl uint32
	var data []byte
	switch s.Type {
	case 4:
		wi = s.I
		body = binary.BigEndian.AppendUint32(body, s.I)
	case 6, 8:
		wi, wo, wl = s.I, s.O, s.L
		body = binary.BigEndian.AppendUint32(body, s.I)
		body = binary.BigEndian.AppendUint32(body, s.O)
		body = binary.BigEndian.AppendUint32(body, s.L)
	case 7:
		wi, wo = s.I, s.O
		data = content(s.Seed, s.Data)
		body = pieceBody(int(s.I), int(s.O), data)
	case 5:
		body = append(body, content(s.Seed, s.Data)...)
	}
	if s.Type >= 4 {
		c.NonTrivial()
	}
	orig := append([]byte(nil), body...)
	m := util.NewPeerMessage(slices.Clip(body))
	if int(m.Type) != s.Type {
		c.Failf("message of type %d decodes as type %d", s.Type, m.Type)
	}
	if m.Index() != wi || m.Offset() != wo {
		c.Failf("type %d with index %d offset %d decodes as (%d,%d)", s.Type, wi, wo, m.Index(), m.Offset())
	}
	if (s.Type == 6 || s.Type == 8) && m.BlockLength() != wl {
		c.Failf("type %d with length %d decodes as %d", s.Type, wl, m.BlockLength())
	}
	if !bytes.Equal(m.Data(), data) {
		c.Failf("type %d: data of %d bytes decodes to %d bytes or other bytes", s.Type, len(data), len(m.Data()))
	}
	if s.Type != 5 && m.Bitfield() != nil {
		c.Failf("type %d has a bitfield", s.Type)
	}
	// what was received is sent on unchanged
	var buf bytes.Buffer
	if _, err := m.Send(&buf); err != nil {
		c.Failf("Send: %v", err)
	}
	want := append(binary.BigEndian.AppendUint32(nil, uint32(len(orig))), orig...)
	if !bytes.Equal(buf.Bytes(), want) {
		c.Failf("type %d: decoded message is sent as %s, it was received as %s", s.Type, short(buf.Bytes()), short(want))
	}
}

type c15Bits struct {
	N   int   `json:"n"`
	Set []int `json:"set"`
}

func genC15Bits(t *rapid.T) c15Bits {
	n := rapid.OneOf(rapid.IntRange(1, 70), rapid.SampledFrom([]int{1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 512, 700, 8192, 16385, 32769, 70001})).Draw(t, "n")
	c := c15Bits{N: n}
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0:
		c.Set = seq(n)
	case 1:
		c.Set = []int{rapid.IntRange(0, n-1).Draw(t, "one")}
	default:
		c.Set = rapid.SliceOfNDistinct(rapid.IntRange(0, n-1), 0, min(n, 20), rapid.ID[int]).Draw(t, "set")
	}
	return c
}

// bitfieldBytes is the wire form of a set of pieces.
func bitfieldBytes(n int, set []int) []byte {
	b := make([]byte, (n+7)/8)
	for _, i := range set {
		b[i/8] |= 0x80 >> (i % 8)
	}
	return b
}

// mirrored is the known finding: the order of bits is reversed inside each
// 64-bit word.
func mirrored(i int) int { return i/64*64 + 63 - i%64 }

func runC15Bits(c *C, s c15Bits) {
	if len(s.Set) > 0 && len(s.Set) < s.N {
		c.NonTrivial()
	}
	wire := bitfieldBytes(s.N, s.Set)
	var got map[int]bool
	if p := guard(func() {
		bf := util.NewPeerMessage(append([]byte{5}, wire...)).Bitfield()
		got = map[int]bool{}
		for i, ok := bf.NextSet(0); ok; i, ok = bf.NextSet(i + 1) {
			got[int(i)] = true
		}
	}); p != nil {
		c.Failf("Bitfield: %v", p)
	}
	same := func(f func(int) int) bool {
		want := map[int]bool{}
		for _, i := range s.Set {
			want[f(i)] = true
		}
		if len(want) != len(got) {
			return false
		}
		for i := range want {
			if !got[i] {
				return false
			}
		}
		return true
	}
	switch {
	case same(func(i int) int { return i }):
	case same(mirrored):
		c.Known("bitfield-bit-order")
	default:
		l := []int{}
		for i := 0; i < s.N+64; i++ {
			if got[i] {
				l = append(l, i)
			}
		}
		c.Failf("bitfield of %d pieces with pieces %v set (%x) denotes pieces %v", s.N, s.Set, wire, l)
	}
}
