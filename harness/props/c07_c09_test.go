package props

import (
	"os"
	"os/signal"
	"sort"
	"sync"
	"syscall"
	"testing/synctest"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/bits-and-blooms/bitset"
	"pgregory.net/rapid"
)

func init() {
	register("C07", "placement",
		"layouts (single, multi, empty files, any piece length), blocks of any split in any order, repeated, overlapping, partial; every byte of every file compared with the content; non-trivial: a delivered block touches two or more files, or is not the first of its piece",
		900, 12000, genC07, runC07)
	register("C08", "delivery",
		"pieces delivered in passes of ascending blocks, passes of different pieces interleaved, truncated, repeated, with write faults on chosen files during chosen passes; Done compared with the model after every delivered block; non-trivial: a short last piece, a truncated pass or an injected write fault",
		1200, 12000, genC08, runC08)
	register("C08", "marks",
		"pieces marked one by one in any order, over piece counts around machine-word sizes; non-trivial: 64 or more pieces",
		300, 3000, genC08Marks, runC08Marks)
	register("C09", "sequential",
		"call histories of Next with arbitrary availability sets (shorter, equal, longer than the torrent) and of the failed-request store, against a set model; non-trivial: 3+ successful hand-outs and one refusal",
		1500, 20000, genC09Seq, runC09Seq)
	register("C09", "concurrent",
		"2 to 8 goroutines handing out pieces and returning or retrying failed requests at the same time; non-trivial: two or more requesters share an available piece",
		250, 3000, genC09Conc, runC09Conc, inRace)
}

type Block struct {
	P   int `json:"p"`
	Off int `json:"off"`
	Len int `json:"len"`
}

type c07Case struct {
	T TSpec   `json:"t"`
	B []Block `json:"b"`
}

func genC07(t *rapid.T) c07Case {
	c := c07Case{T: genLayout(t, rapid.SampledFrom([]int{20, 200, 200, 200, 3000, 3000, 3000, 100000}).Draw(t, "max"))}
	c.T.Fill = genFill(t)
	n := c.T.pieces()
	if n == 0 {
		return c
	}
	whole := rapid.IntRange(0, 3).Draw(t, "mode")
	if whole == 0 { // all pieces, whole or split, permuted
		for i := 0; i < n; i++ {
			size := c.T.pieceSize(i)
			for at := 0; at < size; {
				l := size - at
				if rapid.Bool().Draw(t, "split") {
					l = rapid.IntRange(1, l).Draw(t, "len")
				}
				c.B = append(c.B, Block{i, at, l})
				at += l
			}
		}
		perm := rapid.Permutation(seq(len(c.B))).Draw(t, "order")
		b := c.B
		c.B = nil
		for _, i := range perm {
			c.B = append(c.B, b[i])
		}
		c.T.Stale = genStale(t)
		return c
	}
	for k := rapid.IntRange(1, 12).Draw(t, "blocks"); k > 0; k-- {
		i := rapid.IntRange(0, n-1).Draw(t, "piece")
		if rapid.IntRange(0, 4).Draw(t, "last") == 0 {
			i = n - 1
		}
		size := c.T.pieceSize(i)
		off := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, size-1)).Draw(t, "off")
		l := rapid.OneOf(rapid.Just(size-off), rapid.IntRange(1, size-off)).Draw(t, "len")
		c.B = append(c.B, Block{i, off, l})
	}
	return c
}

func runC07(c *C, s c07Case) {
	dir := c.TempDir()
	s.T.litter(dir)
	tor := s.T.open(c, dir, "http://t/")
	data := s.T.content()
	var bounds []int
	at := 0
	for _, f := range s.T.Files {
		at += f.Len
		bounds = append(bounds, at)
	}
	written := make([]bool, len(data))
	ch := make(chan *util.PeerMessage, len(s.B))
	for _, b := range s.B {
		from := b.P*s.T.PieceLen + b.Off
		to := from + b.Len
		for i := from; i < to; i++ {
			written[i] = true
		}
		i := sort.SearchInts(bounds, from+1)
		if b.Off > 0 || (i < len(bounds) && bounds[i] < to) {
			c.NonTrivial()
		}
		ch <- pieceMsg(b.P, b.Off, append([]byte(nil), data[from:to]...))
	}
	close(ch)
	if p := guard(func() { tor.WritePiece(ch, stats.NewStats(uint64(tor.Length))) }); p != nil {
		c.Failf("WritePiece: %v", p)
	}
	s.T.compareDisk(c, dir, func(i int) bool { return written[i] }, false)
}

// ---------------------------------------------------------------------------

// Pass delivers the blocks of one piece in ascending order.
type Pass struct {
	P     int   `json:"p"`
	Cuts  []int `json:"cuts,omitempty"`  // block boundaries inside the piece
	Drop  int   `json:"drop,omitempty"`  // blocks missing at the end
	Fault int   `json:"fault,omitempty"` // 0 none, else block number (1-based) whose write fails
}

type c08Case struct {
	T     TSpec  `json:"t"`
	Pass  []Pass `json:"pass"`
	Order []int  `json:"order"` // which live pass delivers its next block
	Kind  int    `json:"kind"`  // how a write fails
}

func genC08(t *rapid.T) c08Case {
	var c c08Case
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		n := rapid.SampledFrom([]int{63, 64, 65, 66, 127, 128, 129, 130, 200}).Draw(t, "pieces")
		pl := rapid.IntRange(1, 4).Draw(t, "piecelen")
		c.T = TSpec{Name: Bytes("wide"), PieceLen: pl, Seed: 3, Len: n*pl - rapid.IntRange(0, pl-1).Draw(t, "short")}
	} else {
		c.T = genLayout(t, rapid.SampledFrom([]int{12, 60, 400}).Draw(t, "max"))
		if n := c.T.pieces(); n > 30 {
			c.T.PieceLen = (c.T.total() + 29) / 30
		}
	}
	c.T.Fill = genFill(t)
	c.Kind = rapid.IntRange(0, 6).Draw(t, "fault-kind")
	n := c.T.pieces()
	faulty := rapid.IntRange(0, 2).Draw(t, "faulty") != 0
	pass := func(i int, clean bool) Pass {
		p := Pass{P: i}
		size := c.T.pieceSize(i)
		if size > 1 && rapid.IntRange(0, 2).Draw(t, "split") != 0 {
			cuts := rapid.SliceOfNDistinct(rapid.IntRange(1, size-1), 1, min(3, size-1), rapid.ID[int]).Draw(t, "cuts")
			sort.Ints(cuts)
			p.Cuts = cuts
		}
		blocks := len(p.Cuts) + 1
		if !clean {
			switch rapid.IntRange(0, 2).Draw(t, "bad") {
			case 0:
				p.Drop = rapid.IntRange(1, blocks).Draw(t, "drop")
			case 1:
				if faulty {
					p.Fault = rapid.IntRange(1, blocks).Draw(t, "fault")
				}
			}
		}
		return p
	}
	// every piece gets a clean pass, except for a few; extra passes come before and after
	skip := -1
	if n > 0 && rapid.IntRange(0, 2).Draw(t, "skip") == 0 {
		skip = rapid.OneOf(rapid.Just(n-1), rapid.IntRange(0, n-1)).Draw(t, "skipped")
	}
	for _, i := range rapid.Permutation(seq(n)).Draw(t, "pieces") {
		if rapid.IntRange(0, 5).Draw(t, "extra") == 0 || i == skip {
			c.Pass = append(c.Pass, pass(i, false))
		}
		if i != skip {
			c.Pass = append(c.Pass, pass(i, true))
			if rapid.IntRange(0, 9).Draw(t, "again") == 0 {
				c.Pass = append(c.Pass, pass(i, rapid.Bool().Draw(t, "again-clean")))
			}
		}
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 60).Draw(t, "order")
	return c
}

func (p Pass) blocks(size int) []Block {
	var out []Block
	at := 0
	for _, cut := range append(append([]int(nil), p.Cuts...), size) {
		if cut > at && cut <= size {
			out = append(out, Block{p.P, at, cut - at})
			at = cut
		}
	}
	return out
}

// fileOf is the file that holds the given byte of the content.
func (s TSpec) fileOf(pos int) int {
	if !s.Multi {
		return 0
	}
	for i, f := range s.Files {
		if pos < f.Len {
			return i
		}
		pos -= f.Len
	}
	panic(harnessError{"position beyond content"})
}

// fileStart is where the file that holds the given byte begins.
func (s TSpec) fileStart(pos int) int {
	at := 0
	if s.Multi {
		for _, f := range s.Files[:s.fileOf(pos)] {
			at += f.Len
		}
	}
	return at
}

// limitFileSize makes writes beyond the size fail, after writing what still
// fits, until the returned function is called.
func limitFileSize(c *C, size int) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max}))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

// failWrites replaces file handles so that writes to one file (or to all, -1)
// fail with an error of the given kind; the returned function puts them back.
func failWrites(c *C, tor *torrent.Torrent, only, kind int) func() {
	old := append([]*os.File(nil), tor.OsFiles...)
	for i, f := range old {
		if only >= 0 && i != only {
			continue
		}
		var bad *os.File
		var err error
		if kind == 2 {
			bad, err = os.OpenFile(f.Name(), os.O_WRONLY, 0)
			must(err)
			must(bad.Close())
		} else if kind == 0 {
			bad, err = os.Open(f.Name()) // EBADF
		} else {
			bad, err = os.OpenFile("/dev/full", os.O_WRONLY, 0) // ENOSPC
		}
		must(err)
		tor.OsFiles[i] = bad
	}
	return func() {
		for i, f := range tor.OsFiles {
			if f != old[i] {
				f.Close()
				tor.OsFiles[i] = old[i]
			}
		}
	}
}

func runC08(c *C, s c08Case) {
	n := s.T.pieces()
	if n > 0 && s.T.total()%s.T.PieceLen != 0 {
		c.NonTrivial()
	}
	dir := c.TempDir()
	tor := s.T.open(c, dir, "http://t/")
	data := s.T.content()

	type live struct {
		pass    Pass
		blocks  []Block
		next    int
		clean   bool
		started bool
	}
	var queue []*live
	for _, p := range s.Pass {
		if p.Drop > 0 || p.Fault > 0 {
			c.NonTrivial()
		}
		bl := p.blocks(s.T.pieceSize(p.P))
		bl = bl[:max(0, len(bl)-p.Drop)]
		queue = append(queue, &live{pass: p, blocks: bl, clean: true})
	}
	complete := map[int]bool{} // pieces with a clean full pass
	covered := make([]bool, len(data))
	pieceCovered := func(i int) bool {
		for k := i * s.T.PieceLen; k < i*s.T.PieceLen+s.T.pieceSize(i); k++ {
			if !covered[k] {
				return false
			}
		}
		return true
	}
	bubble(c, func() {
		ch := make(chan *util.PeerMessage)
		done := make(chan struct{})
		go func() {
			defer close(done)
			tor.WritePiece(ch, stats.NewStats(uint64(tor.Length)))
		}()
		synctest.Wait()
		verify := func(when string) {
			missing, open := -1, false
			for i := 0; i < n; i++ {
				if complete[i] {
					continue
				}
				if pieceCovered(i) {
					open = true // stored only by several incomplete passes
					continue
				}
				missing = i
			}
			got := tor.Done()
			if missing >= 0 && got {
				c.Failf("%s: torrent is reported complete although piece %d of %d is not stored", when, missing, n)
			}
			if missing < 0 && !open && !got {
				c.Failf("%s: every one of the %d pieces is stored (last one %d bytes) but the torrent is not complete", when, n, s.T.pieceSize(max(0, n-1)))
			}
		}
		verify("before any delivery")
		busy := map[int]*live{} // one pass per piece at a time
		var window []*live
		oi := 0
		for len(queue) > 0 || len(window) > 0 {
			for i := 0; i < len(queue) && len(window) < 4; {
				if l := queue[i]; busy[l.pass.P] == nil {
					busy[l.pass.P] = l
					window = append(window, l)
					queue = append(queue[:i], queue[i+1:]...)
				} else {
					i++
				}
			}
			pick := 0
			if oi < len(s.Order) {
				pick = s.Order[oi] % len(window)
				oi++
			}
			l := window[pick]
			if l.next < len(l.blocks) {
				b := l.blocks[l.next]
				l.next++
				restore := func() {}
				if l.pass.Fault == l.next {
					only := -1
					if s.Kind >= 2 { // only the file with the last byte of the block
						only = s.T.fileOf(b.P*s.T.PieceLen + b.Off + b.Len - 1)
					}
					switch s.Kind {
					case 4, 5: // room for a part of the block only
						end := b.P*s.T.PieceLen + b.Off + b.Len
						in := end - s.T.fileStart(end-1)
						restore = limitFileSize(c, max(in-s.Kind+3, 0))
					case 6:
						restore = failWrites(c, tor, -1, 2)
					default:
						restore = failWrites(c, tor, only, s.Kind%2)
					}
					l.clean = false
				} else {
					for k := b.P*s.T.PieceLen + b.Off; k < b.P*s.T.PieceLen+b.Off+b.Len; k++ {
						covered[k] = true
					}
				}
				from := b.P*s.T.PieceLen + b.Off
				ch <- pieceMsg(b.P, b.Off, append([]byte(nil), data[from:from+b.Len]...))
				synctest.Wait()
				restore()
				if l.next == len(l.blocks) && l.clean && l.pass.Drop == 0 {
					complete[b.P] = true
				}
				verify("after a block of piece")
			}
			if l.next >= len(l.blocks) {
				delete(busy, l.pass.P)
				window = append(window[:pick], window[pick+1:]...)
			}
		}
		close(ch)
		<-done
	})
	if tor.Done() {
		c.Label("complete")
		s.T.compareDisk(c, dir, func(int) bool { return true }, false)
	} else {
		c.Label("incomplete")
	}
}

type c08Marks struct {
	N     int   `json:"n"`
	Order []int `json:"order"`
}

func genC08Marks(t *rapid.T) c08Marks {
	n := rapid.OneOf(rapid.IntRange(1, 10), rapid.SampledFrom([]int{63, 64, 65, 127, 128, 129, 191, 192, 193, 256})).Draw(t, "n")
	return c08Marks{n, rapid.Permutation(seq(n)).Draw(t, "order")}
}

func runC08Marks(c *C, s c08Marks) {
	if s.N >= 64 {
		c.NonTrivial()
	}
	spec := TSpec{Name: Bytes("m"), PieceLen: 3, Len: s.N*3 - 1, Seed: 1}
	tor := spec.open(c, c.TempDir(), "http://t/")
	seen := map[int]bool{}
	for _, i := range s.Order {
		if tor.Done() {
			c.Failf("complete with %d of %d pieces", len(seen), s.N)
		}
		tor.SetDownloaded(uint(i))
		tor.SetDownloaded(uint(i))
		seen[i] = true
	}
	if !tor.Done() {
		c.Failf("not complete with all %d pieces", s.N)
	}
}

// ---------------------------------------------------------------------------

type c09Seq struct {
	N    int        `json:"n"`
	Have []c09Avail `json:"have"`
	Ops  []c09Op    `json:"ops"`
}

type c09Avail struct {
	Len int   `json:"len"`
	Set []int `json:"set,omitempty"`
	All bool  `json:"all,omitempty"`
}

type c09Op struct {
	Op   string `json:"op"` // next, fail, retry
	Peer int    `json:"peer"`
	Off  int    `json:"off,omitempty"`
}

func (a c09Avail) bits() *bitset.BitSet {
	b := bitset.New(uint(a.Len))
	if a.All {
		for i := 0; i < a.Len; i++ {
			b.Set(uint(i))
		}
	}
	for _, i := range a.Set {
		b.Set(uint(i))
	}
	return b
}

func genAvail(t *rapid.T, n int) c09Avail {
	a := c09Avail{Len: rapid.SampledFrom([]int{n, n, n, max(0, n-1), n + 1, n + 64, (n + 63) / 64 * 64}).Draw(t, "len")}
	if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
		a.All = true
		return a
	}
	top := max(a.Len-1, n-1)
	k := rapid.SampledFrom([]int{0, 1, 2, n / 2, n}).Draw(t, "k")
	for ; k > 0; k-- {
		a.Set = append(a.Set, rapid.OneOf(rapid.IntRange(0, top), rapid.SampledFrom([]int{0, top, n - 1, min(63, top), min(64, top)})).Draw(t, "i"))
	}
	return a
}

func genPieceCount(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{62, 63, 64, 65, 66, 127, 128, 129, 130, 200})).Draw(t, "n")
}

func genC09Seq(t *rapid.T) c09Seq {
	c := c09Seq{N: genPieceCount(t)}
	np := rapid.IntRange(1, 4).Draw(t, "peers")
	for i := 0; i < np; i++ {
		c.Have = append(c.Have, genAvail(t, c.N))
	}
	hi := 60
	if c.N > 60 {
		hi = 220
	}
	for k := rapid.IntRange(1, hi).Draw(t, "ops"); k > 0; k-- {
		op := c09Op{Op: rapid.SampledFrom([]string{"next", "next", "next", "next", "fail", "retry", "retry"}).Draw(t, "op"), Peer: rapid.IntRange(0, np-1).Draw(t, "peer")}
		if op.Op == "fail" {
			op.Off = rapid.IntRange(0, 3).Draw(t, "off")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func smallTorrent(c *C, n int) *torrent.Torrent {
	spec := TSpec{Name: Bytes("n"), PieceLen: 2, Len: n*2 - 1, Seed: 1}
	return spec.open(c, c.TempDir(), "http://t/")
}

func runC09Seq(c *C, s c09Seq) {
	tor := smallTorrent(c, s.N)
	pq := torrent.NewPiecesQueue()
	var have []*bitset.BitSet
	for _, a := range s.Have {
		have = append(have, a.bits())
	}
	handed := map[uint]bool{}
	var pending []*util.PeerMessage
	hands, refusals := 0, 0
	for k, op := range s.Ops {
		switch op.Op {
		case "next":
			h := have[op.Peer%len(have)]
			i, ok := tor.Next(h)
			left := -1
			for p := 0; p < s.N; p++ {
				if h.Test(uint(p)) && !handed[uint(p)] {
					left = p
					break
				}
			}
			if ok {
				hands++
				if i >= uint(s.N) {
					c.Failf("op %d: piece %d handed out, torrent has %d", k, i, s.N)
				}
				if handed[i] {
					c.Failf("op %d: piece %d handed out twice", k, i)
				}
				if !h.Test(i) {
					c.Failf("op %d: piece %d handed to a requester that does not have it", k, i)
				}
				handed[i] = true
			} else {
				refusals++
				if left >= 0 {
					c.Failf("op %d: told there is nothing left although piece %d was never handed out", k, left)
				}
			}
		case "fail":
			m := util.CreatePieceMessage(uint32(op.Peer), uint32(op.Off), uint32(7+k%2))
			pq.RequestFailed(m)
			pending = append(pending, m)
		case "retry":
			m := pq.FailedPieceMessage()
			if m == nil {
				if len(pending) > 0 {
					c.Failf("op %d: %d failed requests are waiting but none is given back", k, len(pending))
				}
				continue
			}
			found := -1
			for i, p := range pending {
				if p.Index() == m.Index() && p.Offset() == m.Offset() && p.BlockLength() == m.BlockLength() {
					found = i
				}
			}
			if found < 0 {
				c.Failf("op %d: request (%d,%d,%d) given back, which is not waiting", k, m.Index(), m.Offset(), m.BlockLength())
			}
			pending = append(pending[:found], pending[found+1:]...)
		}
	}
	// drain
	for len(pending) > 0 {
		m := pq.FailedPieceMessage()
		if m == nil {
			c.Failf("%d failed requests were lost", len(pending))
		}
		found := -1
		for i, p := range pending {
			if p.Index() == m.Index() && p.Offset() == m.Offset() && p.BlockLength() == m.BlockLength() {
				found = i
			}
		}
		if found < 0 {
			c.Failf("a failed request is given back twice")
		}
		pending = append(pending[:found], pending[found+1:]...)
	}
	if m := pq.FailedPieceMessage(); m != nil {
		c.Failf("a failed request is given back twice or was invented")
	}
	if hands >= 3 && refusals >= 1 {
		c.NonTrivial()
	}
}

type c09Conc struct {
	N    int        `json:"n"`
	Have []c09Avail `json:"have"`
	Fail []int      `json:"fail"` // after how many hand-outs a goroutine returns one
}

func genC09Conc(t *rapid.T) c09Conc {
	c := c09Conc{N: genPieceCount(t)}
	g := rapid.IntRange(2, 8).Draw(t, "goroutines")
	for i := 0; i < g; i++ {
		c.Have = append(c.Have, genAvail(t, c.N))
		c.Fail = append(c.Fail, rapid.IntRange(1, 4).Draw(t, "fail"))
	}
	return c
}

func runC09Conc(c *C, s c09Conc) {
	tor := smallTorrent(c, s.N)
	pq := torrent.NewPiecesQueue()
	var wg sync.WaitGroup
	start := make(chan struct{})
	got := make([][]uint, len(s.Have))
	failed := make([][]uint32, len(s.Have))
	retried := make([][]uint32, len(s.Have))
	panics := make([]error, len(s.Have))
	owners := map[int]int{}
	for _, a := range s.Have {
		for p := 0; p < s.N; p++ {
			if a.bits().Test(uint(p)) {
				owners[p]++
			}
		}
	}
	for _, n := range owners {
		if n > 1 {
			c.NonTrivial()
		}
	}
	for g := range s.Have {
		have := s.Have[g].bits()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			panics[g] = guard(func() {
				k := 0
				for {
					i, ok := tor.Next(have)
					if !ok {
						break
					}
					got[g] = append(got[g], i)
					if len(got[g]) > 2*s.N {
						break
					}
					if k++; k%s.Fail[g] == 0 {
						id := uint32(g<<16 | k)
						failed[g] = append(failed[g], id)
						pq.RequestFailed(util.CreatePieceMessage(id%3, id, 1))
					}
					if k%2 == 0 {
						if m := pq.FailedPieceMessage(); m != nil {
							retried[g] = append(retried[g], m.Offset())
						}
					}
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	for g, err := range panics {
		if err != nil {
			c.Failf("requester %d: %v", g, err)
		}
	}
	handed := map[uint]int{}
	for g, l := range got {
		for _, i := range l {
			if prev, dup := handed[i]; dup {
				c.Failf("piece %d handed out to requesters %d and %d", i, prev, g)
			}
			handed[i] = g
			if i >= uint(s.N) || !s.Have[g].bits().Test(i) {
				c.Failf("piece %d handed to requester %d, which does not have it", i, g)
			}
		}
	}
	for p, n := range owners {
		if _, ok := handed[uint(p)]; !ok && n > 0 {
			c.Failf("piece %d is available to %d requesters, all were told nothing is left, and it was never handed out", p, n)
		}
	}
	waiting := map[uint32]int{}
	for _, l := range failed {
		for _, id := range l {
			waiting[id]++
		}
	}
	for _, l := range retried {
		for _, id := range l {
			waiting[id]--
		}
	}
	for {
		m := pq.FailedPieceMessage()
		if m == nil {
			break
		}
		waiting[m.Offset()]--
	}
	for id, n := range waiting {
		if n != 0 {
			c.Failf("failed request %#x was given back %d times", id, 1-n)
		}
	}
}
