package props

import (
	"bytes"
	"crypto/sha1"
	"sync"

	"pgregory.net/rapid"
)

// Parts in which the same checks are made by several goroutines at once, as
// the trackers and peers of a download do.

func init() {
	const rule = " in 2-6 goroutines at once, again and again; non-trivial: one of the cases is"
	registerAtOnce("C01", "round trips"+rule, 120, 2000, genRoot, runC01)
	registerAtOnce("C02", "decoding"+rule, 120, 2000, genC02Well, runC02)
	registerAtOnce("C03", "decoding into structs"+rule, 120, 2000, genC03, runC03)
	registerAtOnce("C04", "torrent files opened"+rule, 30, 400, genC04, runC04)
	registerAtOnce("C15", "messages"+rule, 120, 2000, genC15Enc, runC15Enc)
	registerAtOnce("C24", "renderings"+rule, 60, 1000, genC24Meta, runC24Meta)
	register("C10", "check-at-once", "one torrent's pieces checked, true and changed, by 2-6 goroutines at once; non-trivial: two or more pieces",
		120, 2000, genC10AtOnce, runC10AtOnce)
}

type atOnceCase[S any] struct {
	Cases []S `json:"cases"`
	Times int `json:"times"`
}

func registerAtOnce[S any](prop, rule string, quick, thorough int, gen func(*rapid.T) S, run func(*C, S)) {
	register(prop, "at-once", rule, quick, thorough, func(t *rapid.T) atOnceCase[S] {
		s := atOnceCase[S]{Times: pick(t, "times", 2, 8, 20)}
		for k := rapid.IntRange(2, 6).Draw(t, "goroutines"); k > 0; k-- {
			s.Cases = append(s.Cases, gen(t))
		}
		return s
	}, func(c *C, s atOnceCase[S]) {
		atOnce(c, len(s.Cases), func(i int) {
			for k := 0; k < s.Times; k++ {
				p := &part{run: func(c *C, s any) { run(c, s.(S)) }}
				sub, viol := p.runOne(c.T, s.Cases[i])
				if viol != "" {
					c.Failf("at once with others: %s", viol)
				}
				if sub.nontrivial {
					c.NonTrivial()
				}
			}
		})
	})
}

// atOnce runs f(0) to f(n-1) in goroutines started together.
func atOnce(c *C, n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := make([]any, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { bad[i] = recover() }()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
	for _, r := range bad {
		if r != nil {
			panic(r)
		}
	}
}

type c10AtOnce struct {
	T     TSpec `json:"t"`
	Teams int   `json:"teams"`
	Times int   `json:"times"`
}

func genC10AtOnce(t *rapid.T) c10AtOnce {
	return c10AtOnce{T: genSwarmSpec(t, 30, true), Teams: rapid.IntRange(2, 6).Draw(t, "teams"), Times: pick(t, "times", 5, 20, 60)}
}

func runC10AtOnce(c *C, s c10AtOnce) {
	tor := s.T.open(c, c.TempDir(), "http://t/")
	all, hashes, n := s.T.content(), s.T.hashes(), s.T.pieces()
	if n == 0 {
		return
	}
	if n > 1 {
		c.NonTrivial()
	}
	atOnce(c, s.Teams, func(i int) {
		for k := 0; k < s.Times; k++ {
			from := (i*7 + k) % n
			d := bytes.Clone(all[from*s.T.PieceLen : from*s.T.PieceLen+s.T.pieceSize(from)])
			index := from
			switch (i + k) % 3 {
			case 1:
				d[k%len(d)] ^= 4
			case 2:
				index = (from + 1) % n
			}
			h := sha1.Sum(d)
			if got, want := tor.CheckPiece(d, index), bytes.Equal(h[:], hashes[20*index:20*index+20]); got != want {
				c.Failf("at once with others: CheckPiece(data of piece %d, case %d, index %d) = %v, want %v", from, (i+k)%3, index, got, want)
			}
		}
	})
}
