package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"

	"github.com/anivanovic/gotit/pkg/bencode"
	"pgregory.net/rapid"
)

func init() {
	register("C03", "shapes",
		"random target struct types (reflect.StructOf over strings, byte slices, all integer widths, slices, nested structs, pointers, string-keyed maps, optional and untagged fields) and documents made for them: conforming, absent keys, wrong kinds, out-of-range integers, top level not a dictionary; non-trivial: a container-valued field, an out-of-range integer, a wrong kind or a missing required key",
		5000, 60000, genC03, runC03)
	register("C03", "mutated",
		"documents made for a target type, then mutated as bytes: decoding must end with a value or an error; non-trivial: the mutated document is still well-formed",
		2500, 30000, genC03Mut, runC03Mut)
	register("C03", "targets",
		"targets that are not a pointer to a struct: an error and nothing else; non-trivial: always",
		200, 1000, genC03Target, runC03Target)
}

// TD describes a target type.
type TD struct {
	K    string `json:"k"` // string bytes int.. uint.. slice ptr struct map
	Elem *TD    `json:"elem,omitempty"`
	F    []FD   `json:"f,omitempty"`
	N    bool   `json:"n,omitempty"` // a defined type of that kind; for a map, its keys
}

type (
	nString string
	nBytes  []byte
	nByte   byte
	nInt16  int16
	nUint32 uint32
)

// otherTypes are none that the tags are said to work for.
var otherTypes = map[string]reflect.Type{
	"bool": reflect.TypeFor[bool](), "float": reflect.TypeFor[float64](), "any": reflect.TypeFor[any](),
	"array": reflect.TypeFor[[3]byte](), "intmap": reflect.TypeFor[map[int]string](), "ptrptr": reflect.TypeFor[**int](),
	"chan": reflect.TypeFor[chan int](), "element": reflect.TypeFor[bencode.Bencode](), "bools": reflect.TypeFor[[]bool](),
	"bytemap": reflect.TypeFor[map[[2]byte]int](), "slicemap": reflect.TypeFor[map[bool][]int](),
}

var otherNames = []string{"bool", "float", "any", "array", "intmap", "ptrptr", "chan", "element", "bools", "bytemap", "slicemap"}

type FD struct {
	Key string `json:"key"` // "" = untagged
	Opt bool   `json:"opt,omitempty"`
	T   TD     `json:"t"`
}

type c03Case struct {
	T   TD    `json:"t"`
	Doc BV    `json:"doc"`
	Raw Bytes `json:"raw,omitempty"`
	Pre bool  `json:"pre"` // fields hold sentinels before decoding
}

var intKinds = map[string]reflect.Type{
	"int": reflect.TypeFor[int](), "int8": reflect.TypeFor[int8](), "int16": reflect.TypeFor[int16](),
	"int32": reflect.TypeFor[int32](), "int64": reflect.TypeFor[int64](),
	"uint": reflect.TypeFor[uint](), "uint8": reflect.TypeFor[uint8](), "uint16": reflect.TypeFor[uint16](),
	"uint32": reflect.TypeFor[uint32](), "uint64": reflect.TypeFor[uint64](),
}

func (t TD) goType() reflect.Type {
	switch t.K {
	case "string":
		if t.N {
			return reflect.TypeFor[nString]()
		}
		return reflect.TypeFor[string]()
	case "bytes":
		if t.N {
			return reflect.TypeFor[nBytes]()
		}
		return reflect.TypeFor[[]byte]()
	case "bytesn":
		return reflect.TypeFor[[]nByte]()
	case "slice":
		return reflect.SliceOf(t.Elem.goType())
	case "ptr":
		return reflect.PointerTo(t.Elem.goType())
	case "map":
		if t.N {
			return reflect.MapOf(reflect.TypeFor[nString](), t.Elem.goType())
		}
		return reflect.MapOf(reflect.TypeFor[string](), t.Elem.goType())
	case "struct":
		var fs []reflect.StructField
		for i, f := range t.F {
			sf := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: f.T.goType()}
			if f.Key != "" {
				tag := f.Key
				if f.Opt {
					tag += ",optional"
				}
				sf.Tag = reflect.StructTag(`ben:` + strconv.Quote(tag))
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	default:
		if g, ok := intKinds[t.K]; ok {
			switch {
			case t.N && t.K == "int16":
				return reflect.TypeFor[nInt16]()
			case t.N && t.K == "uint32":
				return reflect.TypeFor[nUint32]()
			}
			return g
		}
		if g, ok := otherTypes[t.K]; ok {
			return g
		}
		panic(harnessError{"type " + t.K})
	}
}

var intKindNames = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
var benKeys = []string{"a", "b", "c", "info", "piece length", "created by", "announce-list", "x.y", "ž", "optional", "F1", "ben"}

func genTD(t *rapid.T, depth int, inSlice bool) TD {
	max := 9
	if depth <= 0 {
		max = 4
	}
	switch k := rapid.IntRange(0, max).Draw(t, "type"); {
	case k == 0:
		return TD{K: "string", N: rapid.IntRange(0, 9).Draw(t, "named") == 0}
	case k == 1:
		switch rapid.IntRange(0, 19).Draw(t, "named") {
		case 0, 1:
			return TD{K: "bytes", N: true}
		case 2, 3:
			return TD{K: "bytesn"}
		case 4:
			return TD{K: rapid.SampledFrom(otherNames).Draw(t, "other")}
		}
		return TD{K: "bytes"}
	case k <= 4:
		n := rapid.SampledFrom(intKindNames).Draw(t, "int-kind")
		if inSlice && n == "uint8" {
			n = "uint16" // []uint8 is the byte-slice kind
		}
		return TD{K: n, N: (n == "int16" || n == "uint32") && rapid.Bool().Draw(t, "named")}
	case k == 5 || k == 6:
		e := genTD(t, depth-1, true)
		return TD{K: "slice", Elem: &e}
	case k == 7:
		e := genTD(t, depth-1, false)
		if e.K == "ptr" {
			e = TD{K: "int"}
		}
		return TD{K: "ptr", Elem: &e}
	case k == 8:
		e := genTD(t, depth-1, false)
		return TD{K: "map", Elem: &e, N: rapid.IntRange(0, 4).Draw(t, "named") == 0}
	default:
		return genStructTD(t, depth-1)
	}
}

func genStructTD(t *rapid.T, depth int) TD {
	td := TD{K: "struct"}
	n := rapid.IntRange(1, 5).Draw(t, "fields")
	for i := 0; i < n; i++ {
		f := FD{T: genTD(t, depth, false)}
		if rapid.IntRange(0, 7).Draw(t, "untagged") != 0 {
			f.Key = rapid.SampledFrom(benKeys).Draw(t, "key")
			f.Opt = rapid.Bool().Draw(t, "optional")
		}
		td.F = append(td.F, f)
	}
	return td
}

func (t TD) bits() (bits int, signed bool) {
	g := intKinds[t.K]
	return g.Bits(), g.Kind() >= reflect.Int && g.Kind() <= reflect.Int64
}

func (t TD) fits(v int64) bool {
	bits, signed := t.bits()
	if signed {
		return bits == 64 || (v >= -(1<<(bits-1)) && v < 1<<(bits-1))
	}
	return v >= 0 && (bits == 64 || v < 1<<bits)
}

func genIntFor(t *rapid.T, td TD, clean bool) int64 {
	bits, signed := td.bits()
	if bits > 63 {
		v := genInt(t, "val")
		if clean && !signed && v < 0 {
			v = -(v + 1)
		}
		return v
	}
	lo, hi := int64(0), int64(1)<<bits-1
	if signed {
		lo, hi = -(1 << (bits - 1)), 1<<(bits-1)-1
	}
	if clean {
		return rapid.OneOf(rapid.SampledFrom([]int64{lo, hi, 0, 1}), rapid.Int64Range(lo, hi)).Draw(t, "val")
	}
	return rapid.OneOf(
		rapid.SampledFrom([]int64{lo, hi, 0, 1}),
		rapid.Int64Range(lo, hi),
		rapid.Int64Range(lo, hi),
		rapid.SampledFrom([]int64{lo - 1, hi + 1, hi + 2, hi*2 + 1, -1, hi + 1 + 256, 1 << 40}),
	).Draw(t, "val")
}

// wideCount is a number of elements that is no small one.
func wideCount(t *rapid.T) int {
	return rapid.SampledFrom([]int{9, 12, 17, 33, 65, 101, 129, 257, 300}).Draw(t, "width")
}

func genDocFor(t *rapid.T, td TD, clean bool) BV {
	if !clean && rapid.IntRange(0, 24).Draw(t, "wrong") == 0 {
		return genBV(t, 1)
	}
	if otherTypes[td.K] != nil && td.K != "intmap" && td.K != "bytemap" && td.K != "slicemap" {
		return genBV(t, 1)
	}
	switch td.K {
	case "string":
		if rapid.IntRange(0, 4).Draw(t, "num") == 0 {
			return bInt(genInt(t, "val"))
		}
		return BV{K: "s", S: genBytes(t, "val")}
	case "bytes", "bytesn":
		return genBV(t, 2)
	case "intmap", "bytemap", "slicemap":
		return genDict(t, 2)
	case "slice":
		v := BV{K: "l"}
		for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
			v.L = append(v.L, genDocFor(t, *td.Elem, clean))
		}
		if len(v.L) > 0 && rapid.IntRange(0, 19).Draw(t, "wide") == 0 { // the same elements again and again
			for n := wideCount(t) - len(v.L); n > 0; n-- {
				v.L = append(v.L, v.L[n%len(v.L)])
			}
		}
		return v
	case "ptr":
		return genDocFor(t, *td.Elem, clean)
	case "map":
		v := BV{K: "d"}
		for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
			k := genBytes(t, "mapkey")
			if v.get(string(k)) == nil {
				v.D = append(v.D, KV{Key: k, V: genDocFor(t, *td.Elem, clean)})
			}
		}
		if len(v.D) > 0 && rapid.IntRange(0, 19).Draw(t, "wide") == 0 {
			for n := wideCount(t) - len(v.D); n > 0; n-- {
				if k := "w" + strconv.Itoa(n); v.get(k) == nil {
					v.D = append(v.D, KV{Key: Bytes(k), V: v.D[n%len(v.D)].V})
				}
			}
		}
		return v
	case "struct":
		v := BV{K: "d"}
		for _, f := range td.F {
			if f.Key == "" || v.get(f.Key) != nil {
				continue
			}
			if absent := rapid.IntRange(0, 19).Draw(t, "absent"); (!clean && absent == 0) || (f.Opt && absent < 6) {
				continue
			}
			v.D = append(v.D, KV{Key: Bytes(f.Key), V: genDocFor(t, f.T, clean)})
		}
		for n := rapid.IntRange(0, 2).Draw(t, "extra"); n > 0; n-- {
			k := rapid.SampledFrom([]string{"", "zz", "F0", "a,optional", "A", "inf", "infoo"}).Draw(t, "extra-key")
			if v.get(k) == nil {
				v.D = append(v.D, KV{Key: Bytes(k), V: genBV(t, 1)})
			}
		}
		if rapid.IntRange(0, 25).Draw(t, "pad") == 0 { // a document of some size
			n := rapid.SampledFrom([]int{300, 5000, 70000}).Draw(t, "pad-len")
			v.D = append(v.D, KV{Key: Bytes("pad"), V: BV{K: "s", S: bytes.Repeat([]byte("d1:ai1ee"), n/8)}})
		}
		if len(v.D) > 1 {
			perm := rapid.Permutation(seq(len(v.D))).Draw(t, "order")
			d := v.D
			v.D = nil
			for _, i := range perm {
				v.D = append(v.D, d[i])
			}
		}
		return v
	default:
		return bInt(genIntFor(t, td, clean))
	}
}

func genC03(t *rapid.T) c03Case {
	c := c03Case{T: genStructTD(t, 3), Pre: rapid.Bool().Draw(t, "prefilled")}
	if rapid.IntRange(0, 29).Draw(t, "root") == 0 {
		c.Doc = genBV(t, 2)
	} else {
		c.Doc = genDocFor(t, c.T, rapid.IntRange(0, 9).Draw(t, "clean") < 6)
	}
	return c
}

// verdict of the model: an error is required, or the value is left open.
type c03Model struct {
	mustErr string
	open    bool
}

func (m *c03Model) check(td TD, v BV, path string) {
	fail := func(s string) {
		if m.mustErr == "" {
			m.mustErr = path + ": " + s
		}
	}
	if otherTypes[td.K] != nil {
		m.open = true
		return
	}
	switch td.K {
	case "string", "bytes", "bytesn":
		if td.K == "string" && (v.K == "l" || v.K == "d") {
			m.open = true // some rendering of the container; not specified
		}
	case "ptr":
		m.check(*td.Elem, v, path)
	case "slice":
		if v.K != "l" {
			fail("not a list")
			return
		}
		for i, e := range v.L {
			m.check(*td.Elem, e, fmt.Sprintf("%s[%d]", path, i))
		}
	case "map":
		if v.K != "d" {
			fail("not a dictionary")
			return
		}
		for _, e := range v.D {
			m.check(*td.Elem, e.V, path+"/"+short(e.Key))
		}
	case "struct":
		if v.K != "d" {
			fail("not a dictionary")
			return
		}
		for _, f := range td.F {
			if f.Key == "" {
				continue
			}
			e := v.get(f.Key)
			if e == nil {
				if !f.Opt {
					fail("missing required key " + f.Key)
				}
				continue
			}
			m.check(f.T, *e, path+"/"+f.Key)
		}
	default:
		switch v.K {
		case "i":
			if !td.fits(v.I) {
				fail(fmt.Sprintf("%d does not fit %s", v.I, td.K))
			}
		case "s":
			m.open = true // a numeric-looking string may be accepted
		default:
			fail("container for a number")
		}
	}
}

// prefill stores recognisable values in every field.
func prefill(v reflect.Value, td TD) {
	if otherTypes[td.K] != nil {
		return
	}
	switch td.K {
	case "string":
		v.SetString("sentinel")
	case "bytes", "bytesn":
		v.SetBytes([]byte("sentinel"))
	case "slice":
		s := reflect.MakeSlice(v.Type(), 2, 2)
		prefill(s.Index(0), *td.Elem)
		v.Set(s)
	case "map":
		m := reflect.MakeMap(v.Type())
		e := reflect.New(v.Type().Elem()).Elem()
		prefill(e, *td.Elem)
		m.SetMapIndex(reflect.ValueOf("sentinel").Convert(v.Type().Key()), e)
		v.Set(m)
	case "ptr":
		p := reflect.New(v.Type().Elem())
		prefill(p.Elem(), *td.Elem)
		v.Set(p)
	case "struct":
		for i, f := range td.F {
			prefill(v.Field(i), f.T)
		}
	default:
		if _, signed := td.bits(); signed {
			v.SetInt(77)
		} else {
			v.SetUint(77)
		}
	}
}

// expect compares got with what v denotes; old is the value before decoding.
func c03Expect(got, old reflect.Value, td TD, v BV, path string) string {
	if otherTypes[td.K] != nil {
		return ""
	}
	bad := func(want string) string {
		return fmt.Sprintf("%s = %#v, want %s", path, got.Interface(), want)
	}
	switch td.K {
	case "string":
		switch v.K {
		case "s":
			if got.String() != string(v.S) {
				return bad(short(v.S))
			}
		case "i":
			if got.String() != strconv.FormatInt(v.I, 10) {
				return bad(strconv.FormatInt(v.I, 10))
			}
		}
	case "bytes", "bytesn":
		want := []byte(v.S)
		switch v.K {
		case "i":
			want = []byte(strconv.FormatInt(v.I, 10))
		case "l", "d":
			want = enc(v)
		}
		if !bytes.Equal(got.Bytes(), want) {
			return bad(short(want))
		}
	case "ptr":
		if got.IsNil() {
			return bad("a pointer to the value")
		}
		o := reflect.Zero(got.Type().Elem())
		if !old.IsNil() {
			o = old.Elem()
		}
		return c03Expect(got.Elem(), o, *td.Elem, v, "*"+path)
	case "slice":
		if got.Len() != len(v.L) {
			return bad(fmt.Sprintf("%d elements", len(v.L)))
		}
		for i, e := range v.L {
			if m := c03Expect(got.Index(i), reflect.Zero(got.Type().Elem()), *td.Elem, e, fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
	case "map":
		if got.Len() != len(v.D) {
			return bad(fmt.Sprintf("%d entries", len(v.D)))
		}
		for _, e := range v.D {
			g := got.MapIndex(reflect.ValueOf(string(e.Key)).Convert(got.Type().Key()))
			if !g.IsValid() {
				return bad("an entry " + short(e.Key))
			}
			if m := c03Expect(g, reflect.Zero(got.Type().Elem()), *td.Elem, e.V, path+"["+short(e.Key)+"]"); m != "" {
				return m
			}
		}
	case "struct":
		for i, f := range td.F {
			p := fmt.Sprintf("%s.F%d(%q)", path, i, f.Key)
			var e *BV
			if f.Key != "" {
				e = v.get(f.Key)
			}
			if e == nil {
				if !reflect.DeepEqual(got.Field(i).Interface(), old.Field(i).Interface()) {
					return fmt.Sprintf("%s = %#v was changed from %#v although the document has no value for it", p, got.Field(i).Interface(), old.Field(i).Interface())
				}
				continue
			}
			if m := c03Expect(got.Field(i), old.Field(i), f.T, *e, p); m != "" {
				return m
			}
		}
	default:
		if v.K != "i" {
			return ""
		}
		if _, signed := td.bits(); signed {
			if got.Int() != v.I {
				return bad(strconv.FormatInt(v.I, 10))
			}
		} else if got.Uint() != uint64(v.I) {
			return bad(strconv.FormatInt(v.I, 10))
		}
	}
	return ""
}

func (s c03Case) target() (ptr, old reflect.Value) {
	gt := s.T.goType()
	ptr, old = reflect.New(gt), reflect.New(gt)
	if s.Pre {
		prefill(ptr.Elem(), s.T)
		prefill(old.Elem(), s.T)
	}
	return ptr, old.Elem()
}

func runC03(c *C, s c03Case) {
	ptr, old := s.target()
	doc := enc(s.Doc)
	orig := append([]byte(nil), doc...)
	var err error
	if p := guard(func() { err = bencode.Unmarshal(doc, ptr.Interface()) }); p != nil {
		c.Failf("Unmarshal of %s into %s: %v", short(orig), ptr.Type(), p)
	}
	if !bytes.Equal(doc, orig) {
		c.Failf("Unmarshal changed its input")
	}
	m := &c03Model{}
	m.check(s.T, s.Doc, "document")
	if m.mustErr != "" {
		c.NonTrivial()
		c.Label("error required")
		if err == nil {
			c.Failf("Unmarshal of %s into %s gave no error although %s; result %+v", short(doc), ptr.Type(), m.mustErr, ptr.Elem().Interface())
		}
		return
	}
	if m.open {
		c.Label("partly unspecified")
		if err != nil {
			return
		}
	}
	if err != nil {
		c.Failf("Unmarshal of %s into %s: unexpected error %v", short(doc), ptr.Type(), err)
	}
	for _, f := range s.T.F {
		if f.Key != "" && f.T.K != "string" && s.Doc.get(f.Key) != nil {
			c.NonTrivial()
		}
	}
	if msg := c03Expect(ptr.Elem(), old, s.T, s.Doc, "target"); msg != "" {
		c.Failf("document %s into %s: %s", short(doc), ptr.Type(), msg)
	}
	c.Label("value compared")
}

func genC03Mut(t *rapid.T) c03Case {
	c := genC03(t)
	d := enc(c.Doc)
	for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
		d = mutateBytes(t, d)
	}
	c.Raw = d
	c.Doc = BV{}
	return c
}

func mutateBytes(t *rapid.T, d []byte) []byte {
	at := rapid.IntRange(0, len(d)).Draw(t, "at")
	switch rapid.IntRange(0, 3).Draw(t, "mut") {
	case 0:
		tok := rapid.SampledFrom(mutTokens).Draw(t, "tok")
		return append(append(append([]byte{}, d[:at]...), tok...), d[at:]...)
	case 1:
		n := min(rapid.IntRange(1, 4).Draw(t, "len"), len(d)-at)
		return append(append([]byte{}, d[:at]...), d[at+n:]...)
	case 2:
		return append([]byte{}, d[:at]...)
	default:
		out := append([]byte{}, d...)
		if at < len(out) {
			out[at] = rapid.SampledFrom([]byte("eild:-0123456789\x00\xff")).Draw(t, "byte")
		}
		return out
	}
}

func runC03Mut(c *C, s c03Case) {
	ptr, _ := s.target()
	var err error
	if p := guard(func() { err = bencode.Unmarshal(s.Raw, ptr.Interface()) }); p != nil {
		c.Failf("Unmarshal of %s into %s: %v", short(s.Raw), ptr.Type(), p)
	}
	v, rest, st, perr := refParse(s.Raw)
	if st.deep > 150 {
		return
	}
	if perr != nil {
		if err == nil {
			c.Failf("Unmarshal of malformed %s gave no error", short(s.Raw))
		}
		return
	}
	if len(rest) == 0 && !st.lax && !st.dup {
		runC03(c, c03Case{T: s.T, Doc: v, Pre: s.Pre})
	}
}

type c03Target struct {
	Kind int   `json:"kind"`
	Doc  Bytes `json:"doc"`
}

func genC03Target(t *rapid.T) c03Target {
	return c03Target{rapid.IntRange(0, 10).Draw(t, "kind"), enc(genDict(t, 2))}
}

func runC03Target(c *C, s c03Target) {
	c.NonTrivial()
	var n int
	var m map[string]string
	var sl []string
	type hidden struct {
		a int    `ben:"a"`
		x string `ben:"info"`
		_ int
		B []byte `ben:"b,optional"`
		c int
	}
	if s.Kind == 8 { // fields that cannot be set are none of its business
		h := hidden{a: 7, x: "x", c: 9}
		if p := guard(func() { _ = bencode.Unmarshal(s.Doc, &h) }); p != nil {
			c.Failf("Unmarshal of %s into %T: %v", short(s.Doc), h, p)
		}
		if h.a != 7 || h.x != "x" || h.c != 9 {
			c.Failf("Unmarshal of %s changed unexported fields: %+v", short(s.Doc), h)
		}
		return
	}
	ph := &hidden{}
	targets := []any{nil, 5, "x", &n, &m, &sl, struct {
		A int `ben:"a"`
	}{}, []string{"a"}, nil, (*hidden)(nil), &ph}
	target := targets[s.Kind%len(targets)]
	var err error
	if p := guard(func() { err = bencode.Unmarshal(s.Doc, target) }); p != nil {
		c.Failf("Unmarshal of %s into %T: %v", short(s.Doc), target, p)
	}
	if err == nil {
		c.Failf("Unmarshal into %T gave no error", target)
	}
}
