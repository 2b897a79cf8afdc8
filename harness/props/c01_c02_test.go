package props

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/anivanovic/gotit/pkg/bencode"
	"pgregory.net/rapid"
)

func init() {
	register("C01", "roundtrip",
		"random value trees (edge integers, binary and lure strings, prefix keys, deep chains); non-trivial: a dictionary with 2+ keys, a negative integer, or nesting depth 2+",
		6000, 60000, genRoot, runC01)
	register("C01", "decoded",
		"values decoded from documents whose dictionary keys stand in any order; their encoding is canonical all the same; non-trivial: the document is not canonical",
		2500, 25000, genC01Decoded, runC01Decoded)
	register("C02", "wide",
		"lists and dictionaries of up to tens of thousands of entries, each a small element of one kind, perhaps inside another container, perhaps cut; non-trivial: more than 1000 entries",
		30, 600, genC02Wide, runC02Wide)
	register("C02", "wellformed",
		"documents with dictionary keys in generated order and optional trailing bytes; non-trivial: at least one container",
		5000, 50000, genC02Well, runC02)
	register("C02", "mutated",
		"well-formed documents with 1-4 byte-level or number-level mutations; non-trivial: the result differs from a well-formed document by the reference parser or denotes another value",
		8000, 80000, genC02Mut, runC02)
	register("C02", "soup",
		"strings over the bencode alphabet; non-trivial: at least 3 bytes",
		8000, 80000, genC02Soup, runC02)
	register("C02", "prefixes",
		"every proper prefix of a well-formed document (at most 400 of them) must be refused; non-trivial: document of 3+ bytes",
		800, 8000, genRoot, runC02Prefixes)
	register("C02", "nesting-bomb",
		"documents nested up to millions of levels, closed or not; non-trivial: more than 100000 levels",
		6, 30, genC02Bomb, runC02Bomb)
}

func runC01(c *C, v BV) {
	if v.depth() >= 2 || v.any(func(b BV) bool { return len(b.D) > 1 || b.I < 0 }) {
		c.NonTrivial()
	}
	want := string(encSorted(v))
	var got string
	for i := 0; i < 3; i++ {
		if err := guard(func() { got = toGotit(v).Encode() }); err != nil {
			c.Failf("Encode: %v", err)
		}
		if got != want {
			c.Failf("Encode gives %s, canonical encoding is %s", short([]byte(got)), short([]byte(want)))
		}
	}
	var back bencode.Bencode
	var perr error
	if err := guard(func() { back, perr = bencode.Parse([]byte(got)) }); err != nil {
		c.Failf("Parse of %s: %v", short([]byte(got)), err)
	}
	if perr != nil {
		c.Failf("Parse rejects its own encoding %s: %v", short([]byte(got)), perr)
	}
	if m := sameValue(back, v, false, "value"); m != "" {
		c.Failf("%s (document %s)", m, short([]byte(got)))
	}
	for i := 0; i < 2; i++ {
		var again string
		if err := guard(func() { again = back.Encode() }); err != nil {
			c.Failf("re-encode: %v", err)
		}
		if again != want {
			c.Failf("decoded value re-encodes to %s, want %s", short([]byte(again)), short([]byte(want)))
		}
	}
}

func genC01Decoded(t *rapid.T) BV { return shuffleKeys(t, genRoot(t)) }

func runC01Decoded(c *C, v BV) {
	doc, want := enc(v), string(encSorted(v))
	if string(doc) != want {
		c.NonTrivial()
	}
	var got bencode.Bencode
	var err error
	if perr := guard(func() { got, err = bencode.Parse(doc) }); perr != nil {
		c.Failf("Parse of %s: %v", short(doc), perr)
	}
	if err != nil {
		return // C02 judges what is accepted
	}
	for i := 0; i < 2; i++ {
		var s string
		if perr := guard(func() { s = got.Encode() }); perr != nil {
			c.Failf("Encode of the value decoded from %s: %v", short(doc), perr)
		}
		if s != want {
			c.Failf("the value decoded from %s encodes to %s, canonical encoding is %s", short(doc), short([]byte(s)), short([]byte(want)))
		}
	}
}

type wideCase struct {
	Unit string `json:"unit"`
	N    int    `json:"n"`
	Dict bool   `json:"dict"`
	Wrap int    `json:"wrap"` // lists around
	Cut  int    `json:"cut"`
}

func genC02Wide(t *rapid.T) wideCase {
	s := wideCase{
		Unit: rapid.SampledFrom([]string{"i1e", "le", "de", "1:a", "0:", "d1:ai1ee", "lli-5eee", "lelele"}).Draw(t, "unit"),
		N:    rapid.OneOf(rapid.SampledFrom([]int{255, 256, 1000, 1024, 4096, 9999, 10000, 10001, 16384, 25000}), rapid.IntRange(1, 30000)).Draw(t, "n"),
		Dict: rapid.Bool().Draw(t, "dict"),
		Wrap: rapid.IntRange(0, 3).Draw(t, "wrap"),
	}
	if rapid.IntRange(0, 3).Draw(t, "iscut") == 0 {
		s.Cut = rapid.IntRange(1, 8).Draw(t, "cut")
	}
	return s
}

func runC02Wide(c *C, s wideCase) {
	if s.N > 1000 {
		c.NonTrivial()
	}
	var b strings.Builder
	b.WriteString(strings.Repeat("l", s.Wrap))
	if s.Dict {
		unit := s.Unit
		if unit == "lelele" { // one value for one key
			unit = "le"
		}
		b.WriteString("d")
		for i := 0; i < s.N; i++ {
			b.WriteString("5:" + strconv.Itoa(10000+i) + unit)
		}
	} else {
		b.WriteString("l" + strings.Repeat(s.Unit, s.N))
	}
	b.WriteString("e" + strings.Repeat("e", s.Wrap))
	doc := b.String()
	runC02(c, docCase{Bytes(doc[:max(len(doc)-s.Cut, 0)])})
}

type docCase struct {
	Doc Bytes `json:"doc"`
}

func shuffleKeys(t *rapid.T, v BV) BV {
	out := v
	out.L, out.D = nil, nil
	for _, e := range v.L {
		out.L = append(out.L, shuffleKeys(t, e))
	}
	if len(v.D) > 0 {
		for _, i := range rapid.Permutation(seq(len(v.D))).Draw(t, "order") {
			out.D = append(out.D, KV{Key: v.D[i].Key, V: shuffleKeys(t, v.D[i].V)})
		}
	}
	return out
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func genC02Well(t *rapid.T) docCase {
	v := genRoot(t)
	if rapid.Bool().Draw(t, "shuffle") {
		v = shuffleKeys(t, v)
	}
	d := enc(v)
	if rapid.IntRange(0, 7).Draw(t, "trail") == 0 {
		d = append(d, genBytes(t, "trailing")...)
	}
	return docCase{d}
}

var mutTokens = []string{"e", "i", "l", "d", ":", "-", "0", "1", "9", "00", "i0e", "i-1e", "ie", "i-e", "0:", "1:a", "le", "de",
	"99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551616", "18446744073709551615:", "18446744073709551617:x", "i9223372036854775808e", "922337203685477580800:", "2147483648:",
	"4294967297:a", "\x00", "\xff", "+1", " ", "i 1e", "1e3", "0x1"}

func genC02Mut(t *rapid.T) docCase {
	var d []byte
	if rapid.IntRange(0, 3).Draw(t, "src") == 0 {
		d = []byte(rapid.SampledFrom(mutTokens).Draw(t, "tok"))
	} else {
		d = enc(genBV(t, rapid.IntRange(0, 3).Draw(t, "depth")))
	}
	for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
		if len(d) > 3000 {
			break
		}
		pos := rapid.IntRange(0, len(d)).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "op") {
		case 0: // delete
			end := min(len(d), pos+rapid.IntRange(1, 3).Draw(t, "cnt"))
			d = append(append([]byte{}, d[:pos]...), d[end:]...)
		case 1, 2: // insert token
			tok := rapid.SampledFrom(mutTokens).Draw(t, "tok")
			d = append(append(append([]byte{}, d[:pos]...), tok...), d[pos:]...)
		case 3: // replace one byte
			if pos < len(d) {
				d = append([]byte{}, d...)
				d[pos] = rapid.SampledFrom([]byte("ilde:-0123456789\x00\xff")).Draw(t, "b")
			}
		case 4: // truncate
			d = d[:pos]
		case 5: // repeat a stretch
			end := min(len(d), pos+rapid.IntRange(1, 8).Draw(t, "cnt"))
			d = append(append(append([]byte{}, d[:end]...), d[pos:end]...), d[end:]...)
		}
	}
	return docCase{d}
}

func genC02Soup(t *rapid.T) docCase {
	return docCase{Bytes(rapid.SliceOfN(rapid.SampledFrom([]byte("ilde:-0123456789iledd1:eea\xff")), 0, 30).Draw(t, "soup"))}
}

func runC02(c *C, s docCase) {
	doc := []byte(s.Doc)
	want, rest, st, refErr := refParse(doc)
	if len(doc) >= 3 && (refErr != nil || want.K == "l" || want.K == "d") {
		c.NonTrivial()
	}
	keep := append([]byte(nil), doc...)
	var got bencode.Bencode
	var err error
	if perr := guard(func() { got, err = bencode.Parse(doc) }); perr != nil {
		c.Failf("Parse of %s: %v", short(doc), perr)
	}
	if !bytes.Equal(keep, doc) {
		c.Failf("Parse modified its input %s into %s", short(keep), short(doc))
	}
	switch {
	case refErr != nil:
		c.Label("malformed")
		if err == nil {
			c.Failf("malformed document %s is accepted as %s", short(doc), describe(got))
		}
		return
	case st.lax || len(rest) > 0:
		c.Label("lax")
		if err != nil {
			return // leading zeros, -0 and trailing bytes may be refused
		}
	case err != nil && st.deep > 150:
		c.Label("deep")
		return
	case err != nil:
		if st.dup {
			return
		}
		c.Failf("well-formed document %s is rejected: %v", short(doc), err)
	}
	if st.dup {
		c.Label("duplicate-keys")
		return
	}
	c.Label("accepted")
	checkRaw := !st.lax
	if m := sameValue(got, want, checkRaw, "value"); m != "" {
		c.Failf("%s (document %s)", m, short(doc))
	}
	var re string
	if perr := guard(func() { re = got.Encode() }); perr != nil {
		c.Failf("re-encode of %s: %v", short(doc), perr)
	}
	if w := string(encSorted(want)); re != w && !st.lax {
		c.Failf("document %s decodes to a value that encodes to %s, want %s", short(doc), short([]byte(re)), short([]byte(w)))
	}
}

func runC02Prefixes(c *C, v BV) {
	doc := enc(v)
	if len(doc) >= 3 {
		c.NonTrivial()
	}
	step := 1 + len(doc)/400
	for n := 0; n < len(doc); n += step {
		var err error
		var got bencode.Bencode
		if perr := guard(func() { got, err = bencode.Parse(append([]byte(nil), doc[:n]...)) }); perr != nil {
			c.Failf("Parse of truncated document %s: %v", short(doc[:n]), perr)
		}
		if err == nil {
			c.Failf("truncated document %s (of %s) is accepted as %s", short(doc[:n]), short(doc), describe(got))
		}
	}
}

type bombCase struct {
	Unit   string `json:"unit"`
	Levels int    `json:"levels"`
	Core   string `json:"core"`
	Close  bool   `json:"close"`
}

func genC02Bomb(t *rapid.T) bombCase {
	return bombCase{
		Unit:   rapid.SampledFrom([]string{"l", "d1:a", "ld1:a", "d0:", "li1e"}).Draw(t, "unit"),
		Levels: rapid.SampledFrom([]int{2500000, 200000, 3000000, 20000, 1000}).Draw(t, "levels"),
		Core:   rapid.SampledFrom([]string{"", "i1e", "1:x"}).Draw(t, "core"),
		Close:  rapid.Bool().Draw(t, "close"),
	}
}

func runC02Bomb(c *C, s bombCase) {
	if s.Levels > 100000 {
		c.NonTrivial()
	}
	doc := strings.Repeat(s.Unit, s.Levels) + s.Core
	if s.Close {
		n := strings.Count(s.Unit, "l") + strings.Count(s.Unit, "d")
		doc += strings.Repeat("e", n*s.Levels)
	}
	var err error
	if perr := guard(func() { _, err = bencode.Parse([]byte(doc)) }); perr != nil {
		c.Failf("Parse of %d nested %q: %v", s.Levels, s.Unit, perr)
	}
	if err == nil && !s.Close {
		c.Failf("unterminated document of %d nested %q is accepted", s.Levels, s.Unit)
	}
}
