package props

import (
	"bytes"
	"errors"
	"math"
	"math/big"
	"sort"
	"strconv"

	"github.com/anivanovic/gotit/pkg/bencode"
	"pgregory.net/rapid"
)

// BV is a bencode value, independent of the code under test.
type BV struct {
	K string `json:"k"` // i, s, l, d
	I int64  `json:"i,omitempty"`
	S Bytes  `json:"s,omitempty"`
	L []BV   `json:"l,omitempty"`
	D []KV   `json:"d,omitempty"`
}

type KV struct {
	Key Bytes `json:"key"`
	V   BV    `json:"v"`
}

func bInt(i int64) BV      { return BV{K: "i", I: i} }
func bStr(s string) BV     { return BV{K: "s", S: Bytes(s)} }
func bList(l ...BV) BV     { return BV{K: "l", L: l} }
func bDict(kv ...KV) BV    { return BV{K: "d", D: kv} }
func kv(k string, v BV) KV { return KV{Key: Bytes(k), V: v} }
func (v BV) get(k string) *BV {
	for i := range v.D {
		if string(v.D[i].Key) == k {
			return &v.D[i].V
		}
	}
	return nil
}

// refEncode writes v; dictionaries in the order given, or sorted.
func refEncode(buf *bytes.Buffer, v BV, sorted bool) {
	switch v.K {
	case "i":
		buf.WriteString("i" + strconv.FormatInt(v.I, 10) + "e")
	case "s":
		buf.WriteString(strconv.Itoa(len(v.S)) + ":")
		buf.Write(v.S)
	case "l":
		buf.WriteByte('l')
		for _, e := range v.L {
			refEncode(buf, e, sorted)
		}
		buf.WriteByte('e')
	case "d":
		buf.WriteByte('d')
		kvs := v.D
		if sorted {
			kvs = append([]KV(nil), kvs...)
			sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].Key, kvs[j].Key) < 0 })
		}
		for _, e := range kvs {
			buf.WriteString(strconv.Itoa(len(e.Key)) + ":")
			buf.Write(e.Key)
			refEncode(buf, e.V, sorted)
		}
		buf.WriteByte('e')
	}
}

func enc(v BV) []byte       { var b bytes.Buffer; refEncode(&b, v, false); return b.Bytes() }
func encSorted(v BV) []byte { var b bytes.Buffer; refEncode(&b, v, true); return b.Bytes() }

func (v BV) depth() int {
	d := 0
	for _, e := range v.L {
		d = max(d, e.depth())
	}
	for _, e := range v.D {
		d = max(d, e.V.depth())
	}
	if v.K == "l" || v.K == "d" {
		d++
	}
	return d
}

// any reports whether f holds for v or a value inside it.
func (v BV) any(f func(BV) bool) bool {
	if f(v) {
		return true
	}
	for _, e := range v.L {
		if e.any(f) {
			return true
		}
	}
	for _, e := range v.D {
		if e.V.any(f) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// reference parser

type refStatus struct {
	lax  bool // leading zeros, -0
	dup  bool // duplicate keys
	deep int
}

var errRef = errors.New("malformed")

type refParser struct {
	b  []byte
	i  int
	st refStatus
}

func (p *refParser) digits() ([]byte, error) {
	s := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	if p.i == s {
		return nil, errRef
	}
	d := p.b[s:p.i]
	if len(d) > 1 && d[0] == '0' {
		p.st.lax = true
	}
	return d, nil
}

func (p *refParser) expect(c byte) error {
	if p.i >= len(p.b) || p.b[p.i] != c {
		return errRef
	}
	p.i++
	return nil
}

func (p *refParser) str() (Bytes, error) {
	d, err := p.digits()
	if err != nil {
		return nil, err
	}
	if err := p.expect(':'); err != nil {
		return nil, err
	}
	n, ok := new(big.Int).SetString(string(d), 10)
	if !ok || !n.IsInt64() || n.Int64() > int64(len(p.b)-p.i) {
		return nil, errRef
	}
	s := p.b[p.i : p.i+int(n.Int64())]
	p.i += len(s)
	return append(Bytes{}, s...), nil
}

func (p *refParser) value(depth int) (BV, error) {
	p.st.deep = max(p.st.deep, depth)
	if p.i >= len(p.b) || depth > 400 {
		return BV{}, errRef
	}
	switch c := p.b[p.i]; {
	case c == 'i':
		p.i++
		neg := false
		if p.i < len(p.b) && p.b[p.i] == '-' {
			neg = true
			p.i++
		}
		d, err := p.digits()
		if err != nil {
			return BV{}, err
		}
		if err := p.expect('e'); err != nil {
			return BV{}, err
		}
		n, _ := new(big.Int).SetString(string(d), 10)
		if neg {
			if n.Sign() == 0 {
				p.st.lax = true
			}
			n.Neg(n)
		}
		if !n.IsInt64() {
			return BV{}, errRef
		}
		return bInt(n.Int64()), nil
	case c == 'l':
		p.i++
		v := BV{K: "l"}
		for p.i < len(p.b) && p.b[p.i] != 'e' {
			e, err := p.value(depth + 1)
			if err != nil {
				return BV{}, err
			}
			v.L = append(v.L, e)
		}
		return v, p.expect('e')
	case c == 'd':
		p.i++
		v := BV{K: "d"}
		seen := map[string]bool{}
		for p.i < len(p.b) && p.b[p.i] != 'e' {
			k, err := p.str()
			if err != nil {
				return BV{}, err
			}
			e, err := p.value(depth + 1)
			if err != nil {
				return BV{}, err
			}
			if seen[string(k)] {
				p.st.dup = true
			}
			seen[string(k)] = true
			v.D = append(v.D, KV{Key: k, V: e})
		}
		return v, p.expect('e')
	default:
		s, err := p.str()
		return BV{K: "s", S: s}, err
	}
}

// refParse returns the value at the start of b, the rest after it and what is
// unusual about it.
func refParse(b []byte) (v BV, rest []byte, st refStatus, err error) {
	p := &refParser{b: b}
	v, err = p.value(0)
	return v, b[p.i:], p.st, err
}

// ---------------------------------------------------------------------------
// to and from the code under test

func toGotit(v BV) bencode.Bencode {
	switch v.K {
	case "i":
		return bencode.Integer(int(v.I))
	case "s":
		return bencode.String(string(v.S))
	case "l":
		var l []bencode.Bencode
		for _, e := range v.L {
			l = append(l, toGotit(e))
		}
		return bencode.List(l...)
	default:
		b := bencode.NewDictBuilder()
		for _, e := range v.D {
			b = b.Add(string(e.Key), toGotit(e.V))
		}
		return b.Generate()
	}
}

// sameValue compares a decoded value with the expected one. Extra dictionary
// keys are not visible here; callers also compare the re-encoding.
func sameValue(got bencode.Bencode, want BV, checkRaw bool, path string) string {
	mismatch := func(what string) string {
		return path + ": decoded " + describe(got) + ", want " + what
	}
	rawOK := func() string {
		if checkRaw && !bytes.Equal(got.Raw(), enc(want)) {
			return path + ": raw span is " + short(got.Raw()) + ", want " + short(enc(want))
		}
		return ""
	}
	switch want.K {
	case "i":
		g, ok := got.(bencode.IntElement)
		if !ok || int64(g) != want.I {
			return mismatch("integer " + strconv.FormatInt(want.I, 10))
		}
	case "s":
		g, ok := got.(bencode.StringElement)
		if !ok || string(g) != string(want.S) {
			return mismatch("string " + short(want.S))
		}
	case "l":
		var items []bencode.Bencode
		switch l := got.(type) {
		case *bencode.ListElement:
			if l == nil {
				return mismatch("list")
			}
			items = l.Value
		case bencode.ListElement:
			items = l.Value
		default:
			return mismatch("list")
		}
		if len(items) != len(want.L) {
			return mismatch("list of " + strconv.Itoa(len(want.L)) + " items")
		}
		for i := range items {
			if m := sameValue(items[i], want.L[i], checkRaw, path+"["+strconv.Itoa(i)+"]"); m != "" {
				return m
			}
		}
		return rawOK()
	case "d":
		var val func(string) bencode.Bencode
		switch d := got.(type) {
		case *bencode.DictElement:
			if d == nil {
				return mismatch("dictionary")
			}
			val = d.Value
		case bencode.DictElement:
			val = d.Value
		default:
			return mismatch("dictionary")
		}
		for _, e := range want.D {
			g := val(string(e.Key))
			if g == nil {
				return mismatch("dictionary with key " + short(e.Key))
			}
			if m := sameValue(g, e.V, checkRaw, path+"/"+short(e.Key)); m != "" {
				return m
			}
		}
		return rawOK()
	}
	return ""
}

func describe(b bencode.Bencode) string {
	switch v := b.(type) {
	case nil:
		return "nothing"
	case bencode.IntElement:
		return "integer " + strconv.Itoa(int(v))
	case bencode.StringElement:
		return "string " + short([]byte(v))
	case *bencode.ListElement, bencode.ListElement:
		return "a list"
	case *bencode.DictElement, bencode.DictElement:
		return "a dictionary"
	default:
		return "something else"
	}
}

// ---------------------------------------------------------------------------
// generators

var edgeInts = func() []int64 {
	l := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
		math.MaxInt64 / 10, math.MaxInt64/10 + 1, math.MinInt64 / 10, math.MaxInt32, math.MinInt32,
		math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536}
	p := int64(1)
	for i := 0; i < 18; i++ {
		p *= 10
		l = append(l, p, p-1, p+1, -p)
	}
	return l
}()

func genInt(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"-kind") {
	case 0:
		return rapid.Int64Range(-20, 100).Draw(t, label)
	case 1:
		return rapid.SampledFrom(edgeInts).Draw(t, label)
	default:
		return rapid.Int64().Draw(t, label)
	}
}

var lureStrings = []string{"", "e", "i1e", "le", "de", "d1:ae", ":", "0:", "1:", "-1", "0", "00", "10", "4:info", "d4:infod4:name1:xee",
	"l", "d", "i", "\x00", "\xff\xfe", "a\nb", "ž", " "}

func genBytes(t *rapid.T, label string) Bytes {
	switch k := rapid.IntRange(0, 9).Draw(t, label+"-kind"); {
	case k <= 3:
		return Bytes(rapid.StringMatching(`[a-c0-2:e]{0,6}`).Draw(t, label))
	case k <= 5:
		return Bytes(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, label))
	case k <= 7:
		return Bytes(rapid.SampledFrom(lureStrings).Draw(t, label))
	case k == 8:
		n := rapid.SampledFrom([]int{9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 100001}).Draw(t, label+"-len")
		return Bytes(bytes.Repeat([]byte{rapid.Byte().Draw(t, label)}, n))
	default:
		return Bytes(rapid.StringMatching(`[a-z]{1,12}`).Draw(t, label))
	}
}

func genBV(t *rapid.T, depth int) BV {
	max := 5
	if depth <= 0 {
		max = 1
	}
	switch rapid.IntRange(0, max).Draw(t, "kind") {
	case 0:
		return bInt(genInt(t, "int"))
	case 1:
		return BV{K: "s", S: genBytes(t, "str")}
	case 2, 3:
		n := rapid.IntRange(0, 5).Draw(t, "len")
		v := BV{K: "l"}
		if depth <= 1 && rapid.IntRange(0, 30).Draw(t, "wide") == 0 { // long list of leaves
			for n = rapid.IntRange(6, 500).Draw(t, "wlen"); n > 0; n-- {
				v.L = append(v.L, bInt(int64(n*n)))
			}
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, genBV(t, depth-1))
		}
		return v
	default:
		return genDict(t, depth)
	}
}

func genDict(t *rapid.T, depth int) BV {
	n := rapid.IntRange(0, 6).Draw(t, "keys")
	v := BV{K: "d"}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genBytes(t, "key")
		if seen[string(k)] {
			continue
		}
		seen[string(k)] = true
		v.D = append(v.D, KV{Key: k, V: genBV(t, depth-1)})
	}
	if rapid.IntRange(0, 15).Draw(t, "kin") == 0 { // long keys that differ only at the end
		n := rapid.SampledFrom([]int{7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 200, 255, 256, 1000}).Draw(t, "kin-len")
		base := string(bytes.Repeat([]byte{rapid.SampledFrom([]byte("ak\x00\xff")).Draw(t, "kin-byte")}, n))
		for _, end := range rapid.Permutation([]string{"", "\x00", "a", "b", "ab", "\xff", "k"}).Draw(t, "kin-ends")[:4] {
			if k := base + end; !seen[k] {
				seen[k] = true
				v.D = append(v.D, KV{Key: Bytes(k), V: bStr(end)})
			}
		}
	}
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 { // many keys, in an order of their own
		step := rapid.SampledFrom([]int{1, 7, 101, 9973}).Draw(t, "step")
		for m, i := rapid.IntRange(7, 300).Draw(t, "mkeys"), 0; i < m; i++ {
			k := strconv.Itoa(i*step%10007) + string(rune('a'+i%3))
			if !seen[k] {
				seen[k] = true
				v.D = append(v.D, KV{Key: Bytes(k), V: bInt(int64(i))})
			}
		}
	}
	return v
}

// genRoot draws a value of varied depth; one in ten is a deep chain.
func genRoot(t *rapid.T) BV {
	if rapid.IntRange(0, 9).Draw(t, "chain") == 0 {
		v := genBV(t, 1)
		n := rapid.IntRange(5, 120).Draw(t, "chain-depth")
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "chain-dict") {
				v = bDict(kv("k", v))
			} else {
				v = bList(v)
			}
		}
		return v
	}
	return genBV(t, rapid.IntRange(0, 4).Draw(t, "depth"))
}
