package props

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"runtime"
	"slices"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
	"pgregory.net/rapid"
)

func init() {
	register("C11", "messages",
		"message bodies of every type byte and length, with boundary fields, parsed and every accessor called; non-trivial: a known type with a body shorter or longer than the type's fields",
		4000, 60000, genC11Msg, runC11Msg)
	register("C11", "stream",
		"a peer sends any mix of valid, malformed, truncated and oversized frames, frames announcing up to 4 GiB, wild indexes, bitfields of any size and raw bytes, during or after the handshake, in segments with delays, then stays, closes or resets; no panic, live memory in proportion, Run ends within 5 s of cancellation; non-trivial: bytes that are not a valid message reached the client after a good handshake",
		700, 8000, genC11, runC11)
}

type c11Msg struct {
	Body Bytes `json:"body"`
}

func genBody(t *rapid.T, n int) []byte {
	typ := rapid.OneOf(rapid.ByteRange(0, 9), rapid.ByteRange(0, 9), rapid.SampledFrom([]byte{14, 20, 97, 98, 99, 100, 255}), rapid.Byte()).Draw(t, "type")
	b := []byte{typ}
	for k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 3, 4}).Draw(t, "words"); k > 0; k-- {
		v := rapid.OneOf(rapid.IntRange(0, n+2), rapid.SampledFrom([]int{n - 1, n, 1 << 7, 1 << 16, 1<<24 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2}), rapid.IntRange(0, 1<<32-1)).Draw(t, "word")
		b = append(b, u32(v)...)
	}
	b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "rest")...)
	if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "to")]
	}
	return b
}

func genC11Msg(t *rapid.T) c11Msg {
	if rapid.IntRange(0, 4).Draw(t, "raw") == 0 {
		return c11Msg{rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "body")}
	}
	return c11Msg{genBody(t, 10)}
}

func runC11Msg(c *C, s c11Msg) {
	if len(s.Body) > 0 && s.Body[0] <= 8 {
		want := map[byte]int{0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 5: len(s.Body), 6: 13, 7: max(len(s.Body), 9), 8: 13}[s.Body[0]]
		if want != len(s.Body) {
			c.NonTrivial()
		}
	}
	if p := guard(func() {
		m := util.NewPeerMessage(slices.Clip(append([]byte(nil), s.Body...)))
		m.Index()
		m.Offset()
		m.BlockLength()
		m.Data()
		m.Bitfield()
		m.Send(io.Discard)
	}); p != nil {
		c.Failf("message %x: %v", []byte(s.Body), p)
	}
}

// ---------------------------------------------------------------------------

// Chunk is one piece of what the hostile peer sends.
type Chunk struct {
	K    string `json:"k"`
	B    Bytes  `json:"b,omitempty"`
	N    int    `json:"n,omitempty"`
	Fill int    `json:"fill,omitempty"`
	D    int    `json:"d,omitempty"`
}

type c11Case struct {
	T      TSpec   `json:"t"`
	HS     string  `json:"hs"`
	HSN    int     `json:"hsn,omitempty"`
	Chunks []Chunk `json:"chunks"`
	Seg    int     `json:"seg,omitempty"` // segment size, 0 = chunk at once
	Answer bool    `json:"answer"`        // requests are answered
	End    string  `json:"end"`
	After  int     `json:"after"` // ms until cancellation
}

func genC11(t *rapid.T) c11Case {
	s := c11Case{T: genSwarmSpec(t, rapid.SampledFrom([]int{1, 3, 9, 70}).Draw(t, "np"), false)}
	n := s.T.pieces()
	s.HS = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "ok", "short", "garbage", "none", "zero"}).Draw(t, "hs")
	s.HSN = rapid.IntRange(0, 100).Draw(t, "hsn")
	s.Answer = rapid.Bool().Draw(t, "answer")
	s.End = rapid.SampledFrom([]string{"stay", "stay", "close", "reset"}).Draw(t, "end")
	s.Seg = rapid.SampledFrom([]int{0, 0, 1, 3, 1000}).Draw(t, "seg")
	s.After = rapid.SampledFrom([]int{0, 1, 700, 2500, 13000, 40000}).Draw(t, "after")
	for k := rapid.IntRange(0, 14).Draw(t, "chunks"); k > 0; k-- {
		var x Chunk
		x.K = rapid.SampledFrom([]string{"unchoke", "haveall", "have", "bitfield", "body", "body", "body", "claim", "raw", "keepalive", "choke", "piece", "half"}).Draw(t, "kind")
		x.D = rapid.SampledFrom([]int{0, 0, 0, 0, 10, 990, 1000, 1001, 2100}).Draw(t, "d")
		switch x.K {
		case "have":
			x.N = rapid.OneOf(rapid.IntRange(0, n+1), rapid.SampledFrom([]int{n, 1 << 20, 1 << 26, 1 << 28, 1 << 30, 1 << 31, 1<<32 - 1})).Draw(t, "idx")
		case "bitfield":
			x.N = rapid.OneOf(rapid.Just((n+7)/8), rapid.IntRange(0, 40), rapid.SampledFrom([]int{1 << 12, 1 << 16, 1 << 20})).Draw(t, "len")
			x.Fill = rapid.SampledFrom([]int{0, 255, 0xaa, 1, 128}).Draw(t, "fill")
		case "body", "half":
			x.B = genBody(t, n)
			x.N = rapid.IntRange(0, 8).Draw(t, "n")
		case "claim":
			x.N = rapid.SampledFrom([]int{1 << 16, 1 << 20, 4<<20 - 1, 4 << 20, 4<<20 + 1, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 4}).Draw(t, "claimed")
			x.Fill = rapid.SampledFrom([]int{0, 1, 9, 5000, 200000}).Draw(t, "sent")
			x.B = []byte{rapid.ByteRange(0, 21).Draw(t, "ctype")}
		case "raw":
			x.B = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
		case "piece":
			x.N = rapid.OneOf(rapid.IntRange(0, n), rapid.SampledFrom([]int{n, 1 << 31, 1<<32 - 1})).Draw(t, "idx")
			x.Fill = rapid.SampledFrom([]int{0, 1, min(s.T.PieceLen, 1<<20), min(s.T.PieceLen, 1<<20) + 1, 1 << 17, 3 << 20}).Draw(t, "len")
			x.B = u32(rapid.SampledFrom([]int{0, 1, s.T.PieceLen, 1 << 17, 1 << 31, 1<<32 - 1}).Draw(t, "off"))
		}
		s.Chunks = append(s.Chunks, x)
	}
	return s
}

func (x Chunk) bytes(n int) []byte {
	switch x.K {
	case "unchoke":
		return frame(1)
	case "choke":
		return frame(0)
	case "keepalive":
		return frame()
	case "haveall":
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, haveFrame(i)...)
		}
		return b
	case "have":
		return haveFrame(x.N)
	case "bitfield":
		b := make([]byte, x.N+1)
		for i := range b {
			b[i] = byte(x.Fill)
		}
		b[0] = 5
		return frame(b...)
	case "body":
		return frame(x.B...)
	case "half": // a frame that stops in the middle; the next chunk fills it
		f := frame(x.B...)
		return f[:min(len(f), x.N)]
	case "claim":
		b := append(u32(x.N), x.B...)
		return append(b, make([]byte, x.Fill)...)
	case "piece":
		return pieceFrame(x.N, int(binary.BigEndian.Uint32(x.B)), make([]byte, x.Fill))
	}
	return x.B
}

func liveHeap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func totalAlloc() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

func runC11(c *C, s c11Case) {
	n := s.T.pieces()
	type part struct {
		b []byte
		d time.Duration
	}
	var sends []part
	var all time.Duration
	bytes := 0
	for _, x := range s.Chunks {
		b := x.bytes(n)
		all += ms(x.D)
		bytes += len(b)
		seg := len(b)
		if s.Seg > 0 && len(b) < 20000 {
			seg = s.Seg
		}
		for len(b) > 0 {
			k := min(seg, len(b))
			sends = append(sends, part{b[:k], all})
			b = b[k:]
		}
		if s.HS == "ok" && x.K != "unchoke" && x.K != "haveall" && x.K != "keepalive" && x.K != "choke" {
			c.NonTrivial()
		}
	}
	bubble(c, func() {
		x := newSession(c, s.T)
		x.net.setHost(addrN(0).String(), func(sn *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
			return sn.connect(addr, 16<<20, func(sv *simConn) {
				if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
					return
				}
				hs := handshake(x.hash(), fakeID)
				switch s.HS {
				case "short":
					hs = hs[:min(s.HSN, 67)]
				case "garbage":
					hs[s.HSN%20] ^= 0x55
				case "none":
					hs = nil
				case "zero":
					hs = make([]byte, 68)
				}
				if len(hs) > 0 && sv.send(hs, 0, nil) != nil {
					return
				}
				for _, p := range sends {
					if sv.send(p.b, p.d, nil) != nil {
						return
					}
				}
				if s.End != "stay" {
					time.Sleep(all + ms(400))
					if s.End == "close" {
						sv.Close()
					} else {
						sv.abort()
					}
					return
				}
				for {
					b, err := readFrame(sv)
					if err != nil {
						return
					}
					if s.Answer && len(b) == 13 && b[0] == 6 {
						r := parseRequest(b)
						if r.index < n && r.offset+r.length <= s.T.pieceSize(r.index) {
							sv.send(pieceFrame(r.index, r.offset, x.block(r.index, r.offset, r.length)), 0, nil)
						}
					}
				}
			}), nil
		})
		live0, total0 := liveHeap(), totalAlloc()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ended := make(chan time.Time, 1)
		x.wg.Add(1)
		p := x.newPeer(0)
		go func() {
			defer x.wg.Done()
			if err := p.Announce(x.tor); err == nil {
				p.Run(ctx)
			}
			ended <- time.Now()
		}()
		limit := int64(12<<20) + 16*int64(bytes)
		look := func() {
			if g := liveHeap() - live0; g > limit {
				c.Failf("%d bytes received, %d bytes of memory held (torrent of %d bytes)", bytes, g, s.T.total())
			}
		}
		time.Sleep(all + ms(300))
		look()
		time.Sleep(ms(s.After))
		look()
		if g := totalAlloc() - total0; g > int64(256<<20)+512*int64(bytes) {
			c.Failf("%d bytes received, %d bytes of memory allocated (torrent of %d bytes)", bytes, g, s.T.total())
		}
		at := time.Now()
		cancel()
		if end := <-ended; end.After(at.Add(5 * time.Second)) {
			c.Failf("the session ended %v after it was cancelled", end.Sub(at))
		}
		p.Close()
		x.finish()
	})
}
