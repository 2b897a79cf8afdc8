package props

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/gosuri/uilive"
	"pgregory.net/rapid"
)

func init() {
	register("C20", "updates",
		"1 to 6 goroutines applying generated updates while another reads and prints; sums, left, counts and percentage checked during and after; non-trivial: 2+ goroutines and data added",
		500, 6000, genC20, runC20, inRace)
	register("C20", "figures",
		"arbitrary torrent sizes and download figures (zero, tiny, beyond the size, near 2^64): left, percentage, monotonicity and the printed progress; non-trivial: more downloaded than the size, or size 0, or a figure above 2^53",
		2500, 30000, genC20Fig, runC20Fig)
}

func init() {
	register("C20", "speed",
		"data arriving at generated instants of a fake clock: the speed and the displayed speed against bytes per time since the start; non-trivial: data arrived at two or more instants",
		800, 15000, genC20Speed, runC20Speed)
}

type c20Add struct {
	D int    `json:"d"` // ms after the former one
	N uint64 `json:"n"`
}

type c20Speed struct {
	Size uint64   `json:"size"`
	Add  []c20Add `json:"add"`
}

func genC20Speed(t *rapid.T) c20Speed {
	s := c20Speed{Size: genSize(t, "size")}
	for k := rapid.IntRange(0, 6).Draw(t, "adds"); k > 0; k-- {
		s.Add = append(s.Add, c20Add{pick(t, "d", 1, 10, 900, 1000, 1700, 60000, 3600000), rapid.Uint64Range(0, 1<<33).Draw(t, "n")})
	}
	return s
}

var shownSpeed = regexp.MustCompile(`speed \(([0-9.]+) MB/s\)`)

func runC20Speed(c *C, s c20Speed) {
	bubble(c, func() {
		st := stats.NewStats(s.Size)
		start := time.Now()
		sum := uint64(0)
		if len(s.Add) > 1 {
			c.NonTrivial()
		}
		for _, a := range s.Add {
			time.Sleep(ms(a.D))
			st.AddDownload(a.N)
			sum += a.N
			want := float64(sum) / time.Since(start).Seconds() / (1 << 20)
			if got := st.Speed(); math.Abs(got-want) > want/1e6 {
				c.Failf("speed is %v MB/s, %d bytes in %v are %v MB/s", got, sum, time.Since(start), want)
			}
			buf := &lockedBuf{}
			uilive.Out, uilive.RefreshInterval = buf, 24*time.Hour
			pp := stats.NewProgressPrinter(st)
			pp.Print()
			pp.Close()
			m := shownSpeed.FindStringSubmatch(buf.String())
			if m == nil {
				c.Failf("progress display %q does not show the speed", buf.String())
			}
			if got, err := strconv.ParseFloat(m[1], 64); err != nil || math.Abs(got-want) > 0.051+want/1000 {
				c.Failf("displayed speed is %s MB/s, %d bytes in %v are %v MB/s", m[1], sum, time.Since(start), want)
			}
		}
	})
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type c20Op struct {
	K string `json:"k"` // down up peer+ peer- tr+ tr-
	N uint64 `json:"n,omitempty"`
}

type c20Case struct {
	Size uint64    `json:"size"`
	G    [][]c20Op `json:"g"`
}

func genSize(t *rapid.T, l string) uint64 {
	return rapid.OneOf(rapid.Uint64Range(0, 10), rapid.Uint64Range(0, 100000), rapid.Uint64Range(0, 1<<40),
		rapid.SampledFrom([]uint64{0, 1, 2, 3, 99, 100, 101, 199, 200, 201, 1 << 31, 1 << 32, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1})).Draw(t, l)
}

func genC20(t *rapid.T) c20Case {
	c := c20Case{Size: genSize(t, "size")}
	for g := rapid.IntRange(1, 6).Draw(t, "goroutines"); g > 0; g-- {
		var ops []c20Op
		peers, trs := 0, 0
		for k := rapid.IntRange(0, 25).Draw(t, "ops"); k > 0; k-- {
			op := c20Op{K: rapid.SampledFrom([]string{"down", "down", "up", "peer+", "peer-", "tr+", "tr-"}).Draw(t, "k")}
			switch op.K {
			case "down", "up":
				op.N = rapid.OneOf(rapid.Uint64Range(0, 5), rapid.Uint64Range(0, 1<<17), rapid.Uint64Range(0, c.Size/8+1)).Draw(t, "n")
			case "peer+":
				peers++
			case "tr+":
				trs++
			case "peer-":
				if peers == 0 {
					continue
				}
				peers--
			case "tr-":
				if trs == 0 {
					continue
				}
				trs--
			}
			ops = append(ops, op)
		}
		c.G = append(c.G, ops)
	}
	return c
}

func runC20(c *C, s c20Case) {
	st := stats.NewStats(s.Size)
	var down, up, peers, trs uint64
	for _, ops := range s.G {
		for _, op := range ops {
			switch op.K {
			case "down":
				down += op.N
			case "up":
				up += op.N
			case "peer+":
				peers++
			case "peer-":
				peers--
			case "tr+":
				trs++
			case "tr-":
				trs--
			}
		}
	}
	if len(s.G) > 1 && down > 0 {
		c.NonTrivial()
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	readerDone := make(chan struct{})
	var readErr, printErr error
	go func() {
		defer close(readerDone)
		readErr = guard(func() {
			last := 0
			for {
				d := st.Download()
				p := st.PercentCompleted()
				if p < 0 || p > 100 {
					panic(fmt.Sprintf("percentage %d", p))
				}
				if p < last {
					panic(fmt.Sprintf("percentage fell from %d to %d", last, p))
				}
				last = p
				if l := st.Left(); l > s.Size || (d <= s.Size && l > s.Size-d) {
					panic(fmt.Sprintf("left %d with size %d and %d or more downloaded", l, s.Size, d))
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		})
	}()
	errs := make([]error, len(s.G))
	for i, ops := range s.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = guard(func() {
				for _, op := range ops {
					switch op.K {
					case "down":
						st.AddDownload(op.N)
					case "up":
						st.AddUpload(op.N)
					case "peer+":
						st.AddPeer()
					case "peer-":
						st.RemovePeer()
					case "tr+":
						st.AddTracker()
					case "tr-":
						st.RemoveTracker()
					}
				}
			})
		}()
	}
	buf := &lockedBuf{}
	uilive.Out, uilive.RefreshInterval = buf, time.Hour
	printErr = guard(func() {
		pp := stats.NewProgressPrinter(st)
		for i := 0; i < 5; i++ {
			pp.Print()
		}
		pp.Close()
	})
	wg.Wait()
	close(stop)
	<-readerDone
	for _, e := range append(errs, readErr, printErr) {
		if e != nil {
			c.Failf("%v", e)
		}
	}
	checkStats(c, st, s.Size, down, up, peers, trs)
}

func checkStats(c *C, st *stats.Stats, size, down, up, peers, trs uint64) {
	left := uint64(0)
	if down < size {
		left = size - down
	}
	for _, v := range []struct {
		what      string
		got, want uint64
	}{{"downloaded", st.Download(), down}, {"uploaded", st.Upload(), up}, {"left", st.Left(), left}, {"peers", st.PeerNum(), peers}, {"trackers", st.TrackerNum(), trs}} {
		if v.got != v.want {
			c.Failf("%s is %d, want %d (size %d, downloaded %d)", v.what, v.got, v.want, size, down)
		}
	}
	p := st.PercentCompleted()
	if p < 0 || p > 100 {
		c.Failf("percentage is %d (size %d, downloaded %d)", p, size, down)
	}
	if size > 0 {
		exact := math.Min(100, float64(down)/float64(size)*100)
		if math.Abs(float64(p)-exact) > 1.001 {
			c.Failf("percentage is %d, %d of %d bytes are %.2f%%", p, down, size, exact)
		}
	}
}

type c20Fig struct {
	Size uint64   `json:"size"`
	Down []uint64 `json:"down"`
	Peer int      `json:"peer"`
	Tr   int      `json:"tr"`
}

func genC20Fig(t *rapid.T) c20Fig {
	c := c20Fig{Size: genSize(t, "size"), Peer: rapid.IntRange(0, 3).Draw(t, "peers"), Tr: rapid.IntRange(0, 3).Draw(t, "trackers")}
	sum := uint64(0)
	for k := rapid.IntRange(0, 6).Draw(t, "n"); k > 0; k-- {
		n := rapid.OneOf(rapid.Uint64Range(0, c.Size/2+1), rapid.Uint64Range(0, 200), rapid.SampledFrom([]uint64{c.Size, c.Size + 1, 1 << 60, 1 << 62})).Draw(t, "d")
		if sum+n < sum || sum+n > 1<<63 {
			continue // figures wrap only beyond any possible download
		}
		sum += n
		c.Down = append(c.Down, n)
	}
	return c
}

func runC20Fig(c *C, s c20Fig) {
	st := stats.NewStats(s.Size)
	buf := &lockedBuf{}
	uilive.Out, uilive.RefreshInterval = buf, time.Hour
	sum, last := uint64(0), 0
	for i := 0; i < s.Peer; i++ {
		st.AddPeer()
	}
	for i := 0; i < s.Tr; i++ {
		st.AddTracker()
	}
	pp := stats.NewProgressPrinter(st)
	defer pp.Close()
	for k := 0; ; k++ {
		checkStats(c, st, s.Size, sum, 0, uint64(s.Peer), uint64(s.Tr))
		p := st.PercentCompleted()
		if p < last {
			c.Failf("percentage fell from %d to %d while data arrived", last, p)
		}
		last = p
		if err := guard(pp.Print); err != nil {
			c.Failf("displaying progress (size %d, downloaded %d): %v", s.Size, sum, err)
		}
		if k == len(s.Down) {
			break
		}
		st.AddDownload(s.Down[k])
		sum += s.Down[k]
	}
	if sum > s.Size || s.Size == 0 || sum > 1<<53 {
		c.NonTrivial()
	}
	out := buf.String()
	if want := fmt.Sprintf("%d%%", last); !strings.Contains(out, want) {
		c.Failf("progress display %q does not show %s", out, want)
	}
	if want := fmt.Sprintf("peers (%d)", s.Peer); !strings.Contains(out, want) {
		c.Failf("progress display %q does not show %s", out, want)
	}
}
