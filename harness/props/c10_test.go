package props

import (
	"bytes"
	"context"
	"crypto/sha1"
	"fmt"
	"io"
	"net"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"pgregory.net/rapid"
)

func init() {
	register("C10", "check-piece",
		"data (true, altered by a bit, truncated, extended, of another piece, empty) against any index including negative and far out of range; accepted iff the SHA-1 is the listed one of that piece; non-trivial: index in range",
		1500, 20000, genC10Check, runC10Check)
	register("C10", "session",
		"1 to 3 peers sharing a download answer each request honestly or with corrupted, truncated, oversized, misplaced, swapped, split, repeated, late or unsolicited blocks, single- and multi-block pieces; every byte on disk is true content of a piece whose whole data was sent, and downloaded equals the bytes of the pieces on disk; non-trivial: a request was answered with something else than its block",
		1000, 12000, genC10, runC10)
	register("C10", "counting",
		"verified pieces delivered by several peers at once, block messages interleaved and repeated; downloaded equals the size of the distinct pieces stored; non-trivial: two deliveries of one piece overlap in time",
		1500, 20000, genC10Count, runC10Count)
}

// --- hash check -------------------------------------------------------------

type c10Check struct {
	T     TSpec `json:"t"`
	Index int   `json:"index"`
	From  int   `json:"from"` // piece the data comes from
	Mut   int   `json:"mut"`
	At    int   `json:"at"`
}

func genC10Check(t *rapid.T) c10Check {
	s := c10Check{T: genSwarmSpec(t, pick(t, "np", 12, 12, 12, 140), false)}
	if rapid.IntRange(0, 59).Draw(t, "manypieces") == 0 {
		s.T = manyPieces(t)
	}
	n := s.T.pieces()
	if rapid.IntRange(0, 2).Draw(t, "flipped") == 0 {
		s.T.Flip = 1 + rapid.IntRange(0, 160*n-1).Draw(t, "flip")
	}
	s.Index = rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(0, n-1), rapid.IntRange(-3, n+3),
		rapid.SampledFrom([]int{-1, -1 << 31, -1 << 63, n, n + 1, 1 << 31, 1<<32 - 1, 1<<63 - 1})).Draw(t, "index")
	s.From = s.Index
	if s.From < 0 || s.From >= n || rapid.IntRange(0, 3).Draw(t, "other") == 0 {
		s.From = rapid.IntRange(0, n-1).Draw(t, "from")
	}
	s.Mut = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5}).Draw(t, "mut")
	s.At = rapid.IntRange(0, 1<<16).Draw(t, "at")
	if s.T.Flip > 0 && rapid.Bool().Draw(t, "atflip") { // the piece with the wrong hash, true data
		s.Index = (s.T.Flip - 1) / 160
		s.From, s.Mut = s.Index, 0
	}
	return s
}

func runC10Check(c *C, s c10Check) {
	tor := s.T.open(c, c.TempDir(), "http://t/")
	all := s.T.content()
	d := append([]byte(nil), all[s.From*s.T.PieceLen:s.From*s.T.PieceLen+s.T.pieceSize(s.From)]...)
	switch s.Mut {
	case 1:
		d[s.At%len(d)] ^= 1 << (s.At % 8)
	case 2:
		d = d[:s.At%len(d)]
	case 3:
		d = append(d, byte(s.At))
	case 4:
		d = nil
	case 5:
		d[0], d[len(d)-1] = d[len(d)-1], d[0]
	}
	want := false
	if s.Index >= 0 && s.Index < s.T.pieces() {
		c.NonTrivial()
		h := sha1.Sum(d)
		want = bytes.Equal(h[:], s.T.hashes()[20*s.Index:20*s.Index+20])
	}
	var got bool
	if p := guard(func() { got = tor.CheckPiece(d, s.Index) }); p != nil {
		c.Failf("CheckPiece(%d bytes, %d): %v", len(d), s.Index, p)
	}
	if got != want {
		c.Failf("CheckPiece(data of piece %d, mutation %d, index %d) = %v, want %v", s.From, s.Mut, s.Index, got, want)
	}
}

// --- sessions ---------------------------------------------------------------

// PAct is what a fake peer does with a request.
type PAct struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	D int    `json:"d,omitempty"` // ms
}

var pacts = []string{"honest", "honest", "honest", "corrupt", "zero", "truncate", "oversize", "offset", "index", "outrange",
	"offset", "index", "swap", "split", "twice", "other-then", "badother-then", "replay-then", "late", "ignore", "choke", "stray-then", "whole", "empty", "close", "last"}

type c10Peer struct {
	Acts []PAct `json:"acts"`
	Pre  []PAct `json:"pre,omitempty"`
	Tail string `json:"tail"`
	Lag  int    `json:"lag,omitempty"` // ms before unchoking
}

type c10Case struct {
	T     TSpec     `json:"t"`
	Peers []c10Peer `json:"peers"`
}

func genC10(t *rapid.T) c10Case {
	s := c10Case{T: genSwarmSpec(t, 9, true)}
	if rapid.IntRange(0, 4).Draw(t, "blocks") == 0 { // pieces of several blocks
		pl := rapid.SampledFrom([]int{128<<10 + 1, 256 << 10, 256<<10 + 7, 384 << 10}).Draw(t, "piecelen")
		s.T = TSpec{Name: Bytes("b"), Seed: 5, PieceLen: pl, Len: rapid.IntRange(1, 3).Draw(t, "pieces")*pl - rapid.SampledFrom([]int{0, 1, 100000}).Draw(t, "short")}
	}
	act := func(kinds []string) PAct {
		return PAct{rapid.SampledFrom(kinds).Draw(t, "act"), rapid.IntRange(0, 1000).Draw(t, "arg"),
			rapid.SampledFrom([]int{0, 0, 0, 1, 300, 1500, 9000, 10500}).Draw(t, "delay")}
	}
	for k := rapid.IntRange(1, 3).Draw(t, "peers"); k > 0; k-- {
		p := c10Peer{Tail: rapid.SampledFrom([]string{"honest", "honest", "ignore", "corrupt", "close"}).Draw(t, "tail"),
			Lag: rapid.SampledFrom([]int{0, 0, 5, 800, 3000}).Draw(t, "lag")}
		for i := rapid.IntRange(0, 10).Draw(t, "acts"); i > 0; i-- {
			p.Acts = append(p.Acts, act(pacts))
		}
		for i := rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "pre"); i > 0; i-- {
			p.Pre = append(p.Pre, act([]string{"other-then", "badother-then", "outrange", "stray-then", "empty", "index", "swap"}))
		}
		s.Peers = append(s.Peers, p)
	}
	return s
}

// hostile is a fake peer that answers requests as told.
type hostile struct {
	spec TSpec
	data []byte
	cov  *coverage // what it sent truly
	odd  func()
	mark func(index, offset, n int) func() // called when the client has read a block
	conn *simConn
	past []request
}

func (h *hostile) block(index, offset, length int) []byte {
	from := index*h.spec.PieceLen + offset
	return h.data[from : from+length]
}

func (h *hostile) piece(index, offset int, data []byte, d int) error {
	h.cov.add(index, offset, data)
	var m func()
	if h.mark != nil {
		m = h.mark(index, offset, len(data))
	}
	return h.conn.send(pieceFrame(index, offset, data), ms(d), m)
}

func (h *hostile) act(a PAct, r request) error {
	spec := h.spec
	n := spec.pieces()
	if r.index < 0 || r.index >= n || r.offset < 0 || r.length <= 0 || r.offset+r.length > spec.pieceSize(r.index) {
		return io.EOF // judged by C14
	}
	good := h.block(r.index, r.offset, r.length)
	if a.K != "honest" {
		h.odd()
	}
	bad := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		b[a.A%len(b)] ^= byte(1 + a.A%255)
		return b
	}
	other := (r.index + 1 + a.A) % n
	otherData := h.block(other, 0, spec.pieceSize(other))
	switch a.K {
	case "corrupt":
		return h.piece(r.index, r.offset, bad(good), a.D)
	case "zero":
		return h.piece(r.index, r.offset, make([]byte, len(good)), a.D)
	case "truncate":
		return h.piece(r.index, r.offset, good[:a.A%len(good)], a.D)
	case "oversize":
		return h.piece(r.index, r.offset, append(append([]byte(nil), good...), make([]byte, 1+a.A%40)...), a.D)
	case "offset":
		off := r.offset + 1 + a.A
		switch a.A % 5 { // the right data in the wrong place
		case 0:
			off = r.offset ^ 1<<uint(a.A%32)
		case 1:
			off = 0
		case 2:
			off = max(r.offset-128<<10, 0)
		case 3:
			off = r.offset + r.length
		}
		return h.piece(r.index, off, good, a.D)
	case "index":
		if a.A%2 == 0 { // a neighbour
			other = (r.index + n + 1 - a.A%3) % n
		}
		return h.piece(other, r.offset, good, a.D)
	case "outrange":
		idx := []int{n, n + a.A, 1 << 31, 1<<32 - 1, 1<<31 - 1}[a.A%5]
		return h.piece(idx, r.offset, good, a.D)
	case "swap":
		return h.piece(r.index, r.offset, otherData, a.D)
	case "split":
		k := a.A % (len(good) + 1)
		if err := h.piece(r.index, r.offset, good[:k], a.D); err != nil {
			return err
		}
		return h.piece(r.index, r.offset+k, good[k:], a.D)
	case "twice":
		if err := h.piece(r.index, r.offset, good, a.D); err != nil {
			return err
		}
	case "other-then":
		if err := h.piece(other, 0, otherData, 0); err != nil {
			return err
		}
	case "badother-then":
		if err := h.piece(other, 0, bad(otherData), 0); err != nil {
			return err
		}
	case "replay-then":
		if len(h.past) > 0 {
			q := h.past[a.A%len(h.past)]
			if err := h.piece(q.index, q.offset, h.block(q.index, q.offset, q.length), 0); err != nil {
				return err
			}
		}
	case "stray-then":
		k := a.A % len(otherData)
		if err := h.piece(other, k, otherData[k:], 0); err != nil {
			return err
		}
	case "late":
		return h.piece(r.index, r.offset, good, 10200+a.D)
	case "ignore":
		return nil
	case "choke":
		if err := h.conn.send(frame(0), 0, nil); err != nil {
			return err
		}
		return h.conn.send(frame(1), ms(a.D), nil)
	case "whole":
		return h.piece(r.index, 0, h.block(r.index, 0, spec.pieceSize(r.index)), a.D)
	case "empty":
		return h.piece(r.index, r.offset, nil, a.D)
	case "close":
		return io.EOF
	case "last":
		h.piece(r.index, r.offset, good, a.D)
		return io.EOF
	}
	h.past = append(h.past, r)
	return h.piece(r.index, r.offset, good, a.D)
}

func (s *session) hostilePeer(i int, p c10Peer, cov *coverage, odd func()) {
	s.net.setHost(addrN(i).String(), func(n *simNet, network, addr string, _ time.Duration) (net.Conn, error) {
		return n.connect(addr, 4<<20, func(sv *simConn) {
			defer sv.Close()
			if _, err := io.ReadFull(sv, make([]byte, 68)); err != nil {
				return
			}
			h := &hostile{spec: s.spec, data: s.data, cov: cov, odd: odd, conn: sv}
			sv.send(handshake(s.hash(), fakeID), 0, nil)
			for k := 0; k < s.spec.pieces(); k++ {
				sv.send(haveFrame(k), 0, nil)
			}
			sv.send(frame(1), ms(p.Lag), nil)
			for _, a := range p.Pre {
				k := a.A % s.spec.pieces()
				if h.act(a, request{k, 0, s.spec.pieceSize(k)}) != nil {
					return
				}
			}
			acts := p.Acts
			for {
				b, err := readFrame(sv)
				if err != nil {
					return
				}
				if len(b) != 13 || b[0] != 6 {
					continue
				}
				a := PAct{K: p.Tail, A: 7}
				if len(acts) > 0 {
					a, acts = acts[0], acts[1:]
				}
				if h.act(a, parseRequest(b)) != nil {
					return
				}
			}
		}), nil
	})
}

func runC10(c *C, s c10Case) {
	bubble(c, func() {
		x := newSession(c, s.T)
		cov := newCoverage(s.T, x.data)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		for i, p := range s.Peers {
			x.hostilePeer(i, p, cov, c.NonTrivial)
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				p := x.newPeer(i)
				if err := p.Announce(x.tor); err == nil {
					p.Run(ctx)
				}
				p.Close()
			}()
		}
		time.AfterFunc(4*time.Minute, cancel)
		x.finish()
		on := x.piecesOnDisk()
		var stored uint64
		all := true
		for i, o := range on {
			if o {
				stored += uint64(s.T.pieceSize(i))
				if !cov.whole(i) {
					c.Failf("piece %d is on disk although no peer ever sent all of its data", i)
				}
			} else {
				all = false
			}
		}
		if d := x.st.Download(); d != stored {
			c.Failf("%d bytes are counted as downloaded, %d bytes of whole pieces are on disk", d, stored)
		}
		if x.tor.Done() != all {
			c.Failf("complete is %v but the pieces on disk are %v", x.tor.Done(), on)
		}
		if all {
			c.Label("complete")
		}
	})
}

// --- counting ---------------------------------------------------------------

type c10Count struct {
	T     TSpec  `json:"t"`
	Pass  []Pass `json:"pass"`
	Order []int  `json:"order"`
}

func genC10Count(t *rapid.T) c10Count {
	s := c10Count{T: genSwarmSpec(t, 5, false)}
	for k := rapid.IntRange(1, 6).Draw(t, "passes"); k > 0; k-- {
		p := Pass{P: rapid.IntRange(0, s.T.pieces()-1).Draw(t, "piece")}
		if size := s.T.pieceSize(p.P); size > 1 && rapid.Bool().Draw(t, "split") {
			p.Cuts = []int{rapid.IntRange(1, size-1).Draw(t, "cut")}
		}
		s.Pass = append(s.Pass, p)
	}
	s.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 12).Draw(t, "order")
	return s
}

func runC10Count(c *C, s c10Count) {
	dir := c.TempDir()
	tor := s.T.open(c, dir, "http://t/")
	data := s.T.content()
	var window [][]Block
	seen := map[int]bool{}
	var want uint64
	for _, p := range s.Pass {
		if !seen[p.P] {
			seen[p.P] = true
			want += uint64(s.T.pieceSize(p.P))
		}
		window = append(window, p.blocks(s.T.pieceSize(p.P)))
	}
	var msgs []*util.PeerMessage
	open := map[int]int{}
	for oi := 0; len(window) > 0; oi++ {
		k := 0
		if oi < len(s.Order) {
			k = s.Order[oi] % len(window)
		}
		b := window[k][0]
		if b.Off == 0 {
			if open[b.P]++; open[b.P] > 1 {
				c.NonTrivial()
			}
		}
		from := b.P*s.T.PieceLen + b.Off
		msgs = append(msgs, pieceMsg(b.P, b.Off, data[from:from+b.Len]))
		window[k] = window[k][1:]
		if len(window[k]) == 0 {
			open[b.P]--
			window = append(window[:k], window[k+1:]...)
		}
	}
	st := stats.NewStats(uint64(tor.Length))
	var last uint64
	bubble(c, func() {
		ch := make(chan *util.PeerMessage)
		done := make(chan struct{})
		go func() {
			defer close(done)
			tor.WritePiece(ch, st)
		}()
		for i, m := range msgs {
			ch <- m
			synctest.Wait()
			d := st.Download()
			if d < last {
				c.Failf("downloaded went from %d to %d", last, d)
			}
			last = d
			_ = i
		}
		close(ch)
		<-done
	})
	if d := st.Download(); d != want {
		c.Failf("%s: %d bytes counted as downloaded, the stored pieces have %d", fmt.Sprint(s.Pass), d, want)
	}
}
