package props

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

func init() {
	register("C04", "infohash",
		"torrent files with shuffled keys at both levels, unknown extra keys, decoy info dictionaries and strings, binary values; non-trivial: keys out of order, an unknown key inside info, or a decoy",
		1500, 20000, genC04, runC04)
	register("C05", "containment",
		"single and multi file torrents whose name and path components come from an adversarial alphabet (parent references, absolute paths, separators, empty and control bytes, sibling-prefix names); every file around the download directory is compared before and after opening and writing; non-trivial: some component is not a plain name",
		700, 8000, genC05, runC05)
	register("C06", "layout",
		"consistent torrents with nested, empty and single files and any piece length; non-trivial: a nested path, an empty file or a short last piece",
		700, 8000, genC06, runC06)
	register("C06", "large",
		"metadata of torrents up to 2^45 bytes in one or several files with piece lengths that make 1-600 pieces, with as many hashes as that takes or one more or less; non-trivial: more than 2^31 bytes",
		400, 4000, genC06Large, runC06Large)
	register("C06", "obstacles",
		"consistent torrents opened where something else is in the way of one file (a directory, a file that cannot be written, a file in place of a directory, a dangling link); opening fails or every file takes its data; non-trivial: always",
		300, 4000, genC06Obs, runC06Obs)
	register("C06", "inconsistent",
		"consistent torrents with one or more inconsistencies introduced into lengths, hashes, piece length or paths; non-trivial: always (an error is required)",
		900, 10000, genC06Bad, runC06Bad)
}

// ---------------------------------------------------------------------------
// C04

type c04Case struct {
	Doc      BV   `json:"doc"`
	Shuffled bool `json:"shuffled"`
	Decoy    bool `json:"decoy"`
}

var urlPool = []string{"http://tracker.example/announce", "http://tracker.example/announce?key=1", "udp://t.example:80", "udp://t.example:81",
	"http://a.example:6969/announce", "https://b.example/ann", "HTTP://tracker.example/announce", "http://c.example/x y", "wss://d.example", "http://e.example/\x01",
	"http://f.example/" + strings.Repeat("passkey/", 40), "http://f.example/" + strings.Repeat("passkey/", 40) + "announce",
	" http://g.example/announce", "http://g.example/announce ", "http://g.example/announce\t", "http://g.example/announce/"}

func genC04(t *rapid.T) c04Case {
	var c c04Case
	spec := genLayout(t, 300)
	info := spec.infoBV()
	extra := func(d *BV, keys []string) {
		for n := rapid.IntRange(0, 3).Draw(t, "extra"); n > 0; n-- {
			k := rapid.SampledFrom(keys).Draw(t, "extra-key")
			if d.get(k) == nil {
				d.D = append(d.D, KV{Key: Bytes(k), V: genBV(t, 2)})
			}
		}
	}
	extra(&info, []string{"private", "source", "info", "md5sum", "4:info", "name.utf-8", "\x00", "zz", "a"})
	if spec.Multi {
		for i := range info.get("files").L {
			extra(&info.get("files").L[i], []string{"md5sum", "attr", "path.utf-8", "sha1"})
		}
	}
	root := bDict(kv("announce", bStr(rapid.SampledFrom(urlPool).Draw(t, "announce"))))
	if rapid.Bool().Draw(t, "has-list") {
		l := BV{K: "l"}
		for n := rapid.IntRange(0, 4).Draw(t, "tiers"); n > 0; n-- {
			tier := BV{K: "l"}
			for k := rapid.IntRange(0, 3).Draw(t, "urls"); k > 0; k-- {
				tier.L = append(tier.L, bStr(rapid.SampledFrom(urlPool).Draw(t, "url")))
			}
			l.L = append(l.L, tier)
		}
		if rapid.IntRange(0, 11).Draw(t, "wide") == 0 { // many tiers or many trackers in one
			into, each := &l, rapid.Bool().Draw(t, "tier-each")
			if !each {
				l.L = append(l.L, BV{K: "l"})
				into = &l.L[len(l.L)-1]
			}
			for n := wideCount(t); n > 0; n-- {
				u := bStr(fmt.Sprintf("http://t%d.example/announce", n))
				if each {
					u = bList(u)
				}
				into.L = append(into.L, u)
			}
		}
		root.D = append(root.D, kv("announce-list", l))
	}
	opt := func(key string, v func() BV) {
		if rapid.Bool().Draw(t, "has-"+key) {
			root.D = append(root.D, kv(key, v()))
		}
	}
	opt("comment", func() BV { return BV{K: "s", S: genBytes(t, "comment")} })
	opt("created by", func() BV { return BV{K: "s", S: genBytes(t, "created by")} })
	opt("encoding", func() BV { return bStr("UTF-8") })
	opt("creation date", func() BV { return bInt(genInt(t, "date")) })
	opt("url-list", func() BV { return bList(bStr("http://web.example/")) })
	if rapid.Bool().Draw(t, "decoy") {
		c.Decoy = true
		fake := genLayout(t, 50).infoBV()
		root.D = append(root.D, rapid.SampledFrom([]KV{
			kv("aaa", bDict(kv("info", fake))),
			kv("Info", fake),
			kv("INFO", fake),
			kv("info ", fake),
			kv("infohash", BV{K: "s", S: append(Bytes("4:info"), enc(fake)...)}),
			kv("nodes", bList(bStr("4:info"), fake)),
			kv("comment2", BV{K: "s", S: append(Bytes("d4:info"), enc(fake)...)}),
		}).Draw(t, "decoy-kv"))
	}
	extra(&root, []string{"zzz", "created", "x", "publisher", "httpseeds"})
	root.D = append(root.D, kv("info", info))
	if c.Shuffled = rapid.IntRange(0, 3).Draw(t, "shuffle") != 0; c.Shuffled {
		root = shuffleKeys(t, root)
	}
	c.Doc = root
	return c
}

func runC04(c *C, s c04Case) {
	info := s.Doc.get("info")
	if info == nil {
		return
	}
	if s.Shuffled || s.Decoy || len(info.D) > 4 {
		c.NonTrivial()
	}
	doc := enc(s.Doc)
	m := &bencode.Metainfo{}
	var err error
	if p := guard(func() { err = bencode.Unmarshal(doc, m) }); p != nil {
		c.Failf("decoding torrent file: %v", p)
	}
	if err != nil {
		c.Failf("well-formed torrent file is refused: %v (%s)", err, short(doc))
	}
	want := sha1.Sum(enc(*info))
	if !bytes.Equal(m.Hash(), want[:]) {
		c.Failf("info-hash %x, SHA-1 of the info dictionary bytes is %x", m.Hash(), want)
	}
	str := func(d BV, key string) string {
		if v := d.get(key); v != nil {
			return string(v.S)
		}
		return ""
	}
	num := func(d BV, key string) int64 {
		if v := d.get(key); v != nil {
			return v.I
		}
		return 0
	}
	eq := func(what string, got, want any) {
		if got != want {
			c.Failf("%s is %#v, the file says %#v", what, got, want)
		}
	}
	eq("announce", m.Announce, str(s.Doc, "announce"))
	eq("comment", m.Comment, str(s.Doc, "comment"))
	eq("created by", m.CreatedBy, str(s.Doc, "created by"))
	eq("encoding", m.Encoding, str(s.Doc, "encoding"))
	eq("creation date", m.CreationDate, num(s.Doc, "creation date"))
	eq("name", m.Info.Name, str(*info, "name"))
	eq("piece length", m.Info.PieceLength, num(*info, "piece length"))
	eq("pieces", m.Info.Pieces, str(*info, "pieces"))
	eq("length", m.Info.Length, num(*info, "length"))
	var files []BV
	if f := info.get("files"); f != nil {
		files = f.L
	}
	eq("number of files", len(m.Info.Files), len(files))
	for i, f := range files {
		eq("file length", int64(m.Info.Files[i].Length), num(f, "length"))
		var p []string
		for _, e := range f.get("path").L {
			p = append(p, string(e.S))
		}
		eq("file path", fmt.Sprintf("%q", m.Info.Files[i].Path), fmt.Sprintf("%q", p))
	}
	urls := map[string]bool{str(s.Doc, "announce"): true}
	var tiers []BV
	if l := s.Doc.get("announce-list"); l != nil {
		tiers = l.L
	}
	eq("number of tiers", len(m.AnnounceList), len(tiers))
	for i, tier := range tiers {
		var l []string
		for _, u := range tier.L {
			l = append(l, string(u.S))
			urls[string(u.S)] = true
		}
		eq("tier", fmt.Sprintf("%q", m.AnnounceList[i]), fmt.Sprintf("%q", l))
	}

	dir := c.TempDir()
	var tor *torrent.Torrent
	if p := guard(func() { tor, err = torrent.New(m, dir, zap.NewNop()) }); p != nil {
		c.Failf("opening torrent: %v", p)
	}
	if err != nil {
		c.Failf("consistent torrent is refused: %v", err)
	}
	defer tor.Close()
	if !bytes.Equal(tor.Hash, want[:]) {
		c.Failf("opened torrent has hash %x, want %x", tor.Hash, want)
	}
	for u := range urls {
		if !tor.Trackers.Contains(u) {
			c.Failf("opened torrent lost announce URL %q", u)
		}
	}
	seen := map[string]int{}
	for u := range tor.Trackers {
		seen[u]++
		if !urls[u] && u != "http://web.example/" {
			c.Failf("opened torrent has URL %q, which the file does not list", u)
		}
	}
	for u, n := range seen {
		if n > 1 {
			c.Failf("URL %q is kept %d times", u, n)
		}
	}
}

// ---------------------------------------------------------------------------
// C05

// In names, {BASE} stands for the scratch directory of the case, so that even
// absolute paths lead only into it. The driver also runs this part as an
// unprivileged user.
type c05Case struct {
	T TSpec `json:"t"`
}

var evilComponents = []string{"..", "..", "..", "../..", "../../../x", "../dl2/f", "../dl2", "../secret", "a/../../secret", "a/../../../secret", "a/..", "../dl", "../dl/ok",
	"{BASE}/abs/x", "{BASE}/abs/victim", "{BASE}/secret", "/{BASE}/secret", "//", "/", ".", "", "./..", ".//../secret", "x/./../../secret",
	"..\\secret", "..\x00", "\x00", "a\x00b", "..\n", " ..", ".. ", "...", "..a", "~", "~/x", "\xff\xfe", "victim", "dl", "own", "own", "a", "b", "secret", "\u2024\u2024", "%2e%2e", "C:\\x", "-rf", "~", "~/secret", "$HOME", "${HOME}", "$HOME/secret", "x/$HOME/secret", "~root", "`pwd`",
	strings.Repeat("n", 300), "a/b/c", "/a", "a/"}

func genC05(t *rapid.T) c05Case {
	// where the hostile components are: anywhere, only in the name, or only in
	// one component of one path, so that nothing else gets the torrent refused
	where := rapid.SampledFrom([]string{"any", "any", "name", "one"}).Draw(t, "where")
	comp := func(l string) Bytes {
		if where != "any" || rapid.IntRange(0, 2).Draw(t, l+"-plain") == 0 {
			return genName(t, l)
		}
		return Bytes(rapid.SampledFrom(evilComponents).Draw(t, l))
	}
	s := TSpec{Name: comp("name"), Seed: 7, PieceLen: rapid.IntRange(1, 40).Draw(t, "piecelen")}
	if where == "name" {
		s.Name = Bytes(rapid.SampledFrom(evilComponents).Draw(t, "evil-name"))
	} else if rapid.IntRange(0, 2).Draw(t, "plain-name") == 0 {
		s.Name = genName(t, "name2")
	}
	min := 0
	if where != "any" {
		min = 1
	}
	if s.Multi = where == "one" || rapid.IntRange(0, 3).Draw(t, "multi") != 0; s.Multi {
		for n := rapid.IntRange(1, 4).Draw(t, "files"); n > 0; n-- {
			f := TFile{Len: rapid.IntRange(0, 40).Draw(t, "len")}
			for k := rapid.IntRange(min, 4).Draw(t, "comps"); k > 0; k-- {
				f.Path = append(f.Path, comp("comp"))
			}
			s.Files = append(s.Files, f)
		}
		if where == "one" {
			p := s.Files[rapid.IntRange(0, len(s.Files)-1).Draw(t, "evil-file")].Path
			p[rapid.IntRange(0, len(p)-1).Draw(t, "evil-comp")] = Bytes(rapid.SampledFrom(evilComponents).Draw(t, "evil"))
		}
	} else {
		s.Len = rapid.IntRange(1, 80).Draw(t, "len")
	}
	return c05Case{s}
}

// snapshot of everything under root except below skip.
func snapshot(root, skip string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			panic(harnessError{err.Error()})
		}
		if p == skip {
			return filepath.SkipDir
		}
		switch {
		case info.IsDir():
			out[p] = "dir " + info.Mode().String()
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				panic(harnessError{err.Error()})
			}
			out[p] = info.Mode().String() + " " + info.ModTime().String() + " " + string(b)
		default:
			out[p] = info.Mode().String()
		}
		return nil
	})
	return out
}

func runC05(c *C, s c05Case) {
	base := c.TempDir()
	// deep enough that the generated parent references stay inside base
	mid := filepath.Join(base, "1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16")
	dl := filepath.Join(mid, "dl")
	cwd := filepath.Join(base, "1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/cwd/a/b/c/d/e/f/g/h/i/j/k")
	for _, d := range []string{dl, filepath.Join(mid, "dl2"), filepath.Join(dl, "own"), filepath.Join(base, "abs"), cwd} {
		must(os.MkdirAll(d, 0o755))
	}
	for _, f := range []string{filepath.Join(mid, "secret"), filepath.Join(mid, "dl2/f"), filepath.Join(base, "abs/victim"), filepath.Join(base, "secret"),
		filepath.Join(cwd, "secret"), filepath.Join(cwd, "victim"), filepath.Join(filepath.Dir(mid), "secret"), filepath.Join(dl, "other"), filepath.Join(dl, "own/other")} {
		must(os.WriteFile(f, []byte("precious"), 0o644))
	}
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(cwd))
	defer os.Chdir(old)
	home := os.Getenv("HOME")
	must(os.Setenv("HOME", base))
	defer os.Setenv("HOME", home)

	spec := s.T
	sub := func(b Bytes) Bytes { return Bytes(strings.ReplaceAll(string(b), "{BASE}", base)) }
	spec.Name = sub(spec.Name)
	evil := !plainName(spec.Name)
	spec.Files = nil
	for _, f := range s.T.Files {
		g := TFile{Len: f.Len}
		for _, p := range f.Path {
			g.Path = append(g.Path, sub(p))
			evil = evil || !plainName(sub(p))
		}
		spec.Files = append(spec.Files, g)
	}
	if evil {
		c.NonTrivial()
	}
	before := snapshot(base, dl)
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(spec.doc("http://t/"), m); err != nil {
		c.Failf("torrent file is refused by the decoder: %v", err)
	}
	var tor *torrent.Torrent
	if p := guard(func() { tor, err = torrent.New(m, dl, zap.NewNop()) }); p != nil {
		c.Failf("opening torrent: %v", p)
	}
	if err == nil {
		c.Label("accepted")
		data := spec.content()
		ch := make(chan *util.PeerMessage, spec.pieces())
		for i := 0; i < spec.pieces(); i++ {
			ch <- pieceMsg(i, 0, data[i*spec.PieceLen:i*spec.PieceLen+spec.pieceSize(i)])
		}
		close(ch)
		p := guard(func() { tor.WritePiece(ch, stats.NewStats(uint64(tor.Length))) })
		tor.Close()
		if p != nil {
			c.Failf("writing pieces: %v", p)
		}
	} else {
		c.Label("refused")
	}
	after := snapshot(base, dl)
	for _, p := range sortedKeys(after) {
		if b, ok := before[p]; !ok {
			c.Failf("torrent name %q, paths %q: created %s outside the download directory", spec.Name, spec.Files, p)
		} else if b != after[p] {
			c.Failf("torrent name %q, paths %q: changed %s outside the download directory", spec.Name, spec.Files, p)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			c.Failf("torrent name %q, paths %q: removed %s outside the download directory", spec.Name, spec.Files, p)
		}
	}
	for _, p := range spec.paths() {
		if p = filepath.Clean("/" + p); p == "/other" || p == "/own/other" {
			return // its own
		}
	}
	for _, p := range []string{"other", "own/other"} {
		if b, err := os.ReadFile(filepath.Join(dl, p)); err != nil || string(b) != "precious" {
			c.Failf("torrent name %q, paths %q: changed %s in the download directory, which is not one of its files: %q %v", spec.Name, spec.Files, p, b, err)
		}
	}
}

func plainName(b Bytes) bool {
	s := string(b)
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\x00")
}

// ---------------------------------------------------------------------------
// C06

type c06Case struct {
	T TSpec `json:"t"`
}

func genC06(t *rapid.T) c06Case {
	s := c06Case{genLayout(t, 2000)}
	if rapid.IntRange(0, 59).Draw(t, "manypieces") == 0 {
		s.T = manyPieces(t)
	}
	s.T.Stale = genStale(t)
	return s
}

func runC06(c *C, s c06Case) {
	spec := s.T
	for _, f := range spec.Files {
		if len(f.Path) > 1 || f.Len == 0 {
			c.NonTrivial()
		}
	}
	if spec.total()%spec.PieceLen != 0 {
		c.NonTrivial()
	}
	if spec.Multi && len(spec.Files) == 0 {
		return
	}
	dir := c.TempDir()
	spec.litter(dir)
	others := []string{"unrelated"}
	if spec.Multi {
		others = append(others, string(spec.Name)+"/unrelated")
		must(os.MkdirAll(filepath.Join(dir, string(spec.Name)), 0o755))
	}
	for _, p := range others {
		must(os.WriteFile(filepath.Join(dir, p), []byte("kept"), 0o644))
	}
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(spec.doc("http://t/"), m); err != nil {
		c.Failf("well-formed torrent file is refused: %v", err)
	}
	var tor *torrent.Torrent
	var err error
	if p := guard(func() { tor, err = torrent.New(m, dir, zap.NewNop()) }); p != nil {
		c.Failf("opening torrent: %v", p)
	}
	if err != nil {
		c.Failf("consistent torrent is refused: %v", err)
	}
	defer tor.Close()
	if tor.Length != spec.total() {
		c.Failf("length is %d, want %d", tor.Length, spec.total())
	}
	if tor.PiecesNum != spec.pieces() || len(tor.Pieces) != spec.pieces() {
		c.Failf("piece count is %d with %d hashes, want %d (length %d, piece length %d)", tor.PiecesNum, len(tor.Pieces), spec.pieces(), spec.total(), spec.PieceLen)
	}
	want := map[string]bool{}
	for _, p := range others {
		want[p] = true
		if b, err := os.ReadFile(filepath.Join(dir, p)); err != nil || string(b) != "kept" {
			c.Failf("opening changed %q, which the torrent does not list: %q, %v", p, b, err)
		}
	}
	for _, p := range spec.paths() {
		want[p] = true
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			want[d+"/"] = true
		}
	}
	got := listTree(dir)
	for _, p := range got {
		if !want[p] {
			c.Failf("opening created %q, which the torrent does not list (files %q)", p, spec.paths())
		}
		delete(want, p)
	}
	if len(want) > 0 {
		c.Failf("opening did not create %q", sortedKeys(want))
	}
}

// c06Bad carries metadata as it would come out of the decoder.
type c06Bad struct {
	T    TSpec    `json:"t"`
	What []string `json:"what"`
	N    int64    `json:"n"`
	A    int      `json:"a,omitempty"`
	B    int      `json:"b,omitempty"`
	More int      `json:"more,omitempty"` // entries added before one is duplicated
}

type c06Obs struct {
	T    TSpec  `json:"t"`
	At   int    `json:"at"` // file that something is in the way of
	Kind string `json:"kind"`
}

func genC06Obs(t *rapid.T) c06Obs {
	s := c06Obs{T: genLayout(t, 300), Kind: pick(t, "kind", "dir", "readonly", "readonly", "parent", "link")}
	s.At = rapid.IntRange(0, max(0, len(s.T.Files)-1)).Draw(t, "at")
	return s
}

func runC06Obs(c *C, s c06Obs) {
	paths := s.T.paths()
	if len(paths) == 0 || s.At >= len(paths) {
		return
	}
	c.NonTrivial()
	dir := c.TempDir()
	p := filepath.Join(dir, paths[s.At])
	if s.Kind == "parent" {
		if !s.T.Multi {
			return
		}
		p = filepath.Dir(p)
	}
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	switch s.Kind {
	case "dir":
		must(os.MkdirAll(filepath.Join(p, "inside"), 0o755))
	case "link":
		must(os.Symlink(filepath.Join(dir, "nowhere"), p))
	case "parent":
		must(os.WriteFile(p, []byte("old"), 0o644))
	default:
		must(os.WriteFile(p, []byte("old"), 0o444))
	}
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(s.T.doc("http://t/"), m); err != nil {
		c.Failf("well-formed torrent file is refused: %v", err)
	}
	var tor *torrent.Torrent
	var err error
	if p := guard(func() { tor, err = torrent.New(m, dir, zap.NewNop()) }); p != nil {
		c.Failf("opening torrent: %v", p)
	}
	if err != nil {
		c.Label("refused")
		return
	}
	defer tor.Close()
	c.Label("opened")
	data := s.T.content()
	ch := make(chan *util.PeerMessage, s.T.pieces())
	for i := 0; i < s.T.pieces(); i++ {
		at := i * s.T.PieceLen
		ch <- pieceMsg(i, 0, data[at:at+s.T.pieceSize(i)])
	}
	close(ch)
	if p := guard(func() { tor.WritePiece(ch, stats.NewStats(uint64(len(data)))) }); p != nil {
		c.Failf("WritePiece: %v", p)
	}
	s.T.compareDisk(c, dir, func(int) bool { return true }, false)
	if !tor.Done() {
		c.Failf("every piece was stored and the torrent is not complete")
	}
}

func genC06Bad(t *rapid.T) c06Bad {
	c := c06Bad{T: genLayout(t, 500), N: rapid.SampledFrom([]int64{1, 2, 3, 19, 20, 100, 1 << 31, 1 << 40, 1 << 62}).Draw(t, "n")}
	kinds := []string{"hash-bytes", "hash-extra", "hash-missing", "piece-zero", "piece-negative", "len-negative", "no-path", "length-more", "length-less", "overflow", "empty-path", "neg-balanced", "neg-balanced", "neg-nohash", "overflow-balanced", "dup-path", "dup-path"}
	c.A, c.B = rapid.IntRange(0, 300).Draw(t, "a"), rapid.IntRange(0, 300).Draw(t, "b")
	c.More = rapid.SampledFrom([]int{0, 0, 0, 0, 5, 100, 290}).Draw(t, "more")
	for n := rapid.IntRange(1, 2).Draw(t, "kinds"); n > 0; n-- {
		c.What = append(c.What, rapid.SampledFrom(kinds).Draw(t, "kind"))
	}
	return c
}

func runC06Bad(c *C, s c06Bad) {
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(s.T.doc("http://t/"), m); err != nil {
		c.Failf("well-formed torrent file is refused: %v", err)
	}
	broken := false
	hashes := s.T.hashes()
	for _, w := range s.What {
		switch w {
		case "hash-bytes":
			if r := int(s.N) % 20; r != 0 && s.N < 1000 {
				hashes = append(hashes, bytes.Repeat([]byte{1}, r)...)
			}
		case "hash-extra":
			hashes = append(hashes, bytes.Repeat([]byte{2}, 20*int(1+s.N%5))...)
		case "hash-missing":
			if len(hashes) >= 20 {
				hashes = hashes[:len(hashes)-20]
			}
		case "piece-zero":
			m.Info.PieceLength = 0
		case "piece-negative":
			m.Info.PieceLength = -s.N
		case "len-negative":
			if len(m.Info.Files) > 0 {
				m.Info.Files[int(s.N)%len(m.Info.Files)].Length = -int(s.N)
			} else {
				m.Info.Length = -s.N
			}
		case "no-path", "empty-path":
			if len(m.Info.Files) > 0 {
				p := []string{}
				if w == "empty-path" {
					p = []string{""}
				}
				m.Info.Files[int(s.N)%len(m.Info.Files)].Path = p
				broken = true
			}
		case "length-more":
			n := int64(s.T.PieceLen) * (1 + s.N%3)
			if len(m.Info.Files) > 0 {
				m.Info.Files[0].Length += int(n)
			} else {
				m.Info.Length += n
			}
		case "length-less":
			if len(m.Info.Files) == 0 && m.Info.Length > int64(s.T.PieceLen) {
				m.Info.Length -= int64(s.T.PieceLen)
			}
		case "neg-balanced": // a negative length made up for by another file
			if n := len(m.Info.Files); n > 1 {
				i := int(s.N) % n
				j := (i + 1 + int(s.N/7)%(n-1)) % n
				d := m.Info.Files[i].Length + int(s.N%1000)
				m.Info.Files[i].Length -= d
				m.Info.Files[j].Length += d
			} else {
				m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{"neg"}, Length: -int(s.N % 1000)}, bencode.TorrentFile{Path: []string{"pos"}, Length: int(s.N % 1000)})
				if n == 0 {
					m.Info.Length, hashes = 0, nil
				}
			}
		case "neg-nohash":
			hashes = nil
			if len(m.Info.Files) > 0 {
				for i := range m.Info.Files {
					m.Info.Files[i].Length = 0
				}
				m.Info.Files[int(s.N)%len(m.Info.Files)].Length = -int(s.N)
			} else {
				m.Info.Length = -s.N
			}
		case "dup-path": // two entries with the same path, perhaps written differently
			if n := len(m.Info.Files); n > 0 {
				for i := 0; i < s.More; i++ {
					m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprintf("more-%d", i), "x"}})
				}
				n += s.More
				f := m.Info.Files[s.A%n]
				if f.Length < 0 || len(f.Path) == 0 {
					continue
				}
				p := slices.Clone(f.Path)
				switch s.N % 4 {
				case 1:
					p = append([]string{"."}, p...)
				case 2:
					p = append([]string{"a", ".."}, p...)
				}
				m.Info.Files = slices.Insert(m.Info.Files, s.B%(n+1), bencode.TorrentFile{Path: p})
				broken = true
			}
		case "overflow-balanced": // the sum wraps around to what it was
			if len(m.Info.Files) > 0 {
				for i := 0; i < 4; i++ {
					m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprint("huge", i)}, Length: 1 << 62})
				}
			}
		case "overflow":
			if len(m.Info.Files) > 0 {
				for i := 0; i < 3; i++ {
					m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprint("huge", i)}, Length: 1 << 62})
				}
			}
		}
	}
	m.Info.Pieces = string(hashes)
	// consistent after all?
	sum, neg := int64(0), false
	if len(m.Info.Files) > 0 && m.Info.Length == 0 {
		for _, f := range m.Info.Files {
			neg = neg || f.Length < 0
			sum += int64(f.Length)
			if sum < 0 {
				neg = true
			}
		}
	} else {
		sum, neg = m.Info.Length, m.Info.Length < 0
	}
	if neg || m.Info.PieceLength <= 0 || len(hashes)%20 != 0 ||
		int64(len(hashes)/20) != sum/m.Info.PieceLength+min(1, sum%m.Info.PieceLength) {
		broken = true
	}
	if broken {
		c.NonTrivial()
	}
	for _, w := range s.What {
		c.Label(w)
	}
	dir := c.TempDir()
	var err error
	var tor *torrent.Torrent
	if p := guard(func() { tor, err = torrent.New(m, dir, zap.NewNop()) }); p != nil {
		c.Failf("opening torrent with %v: %v", s.What, p)
	}
	if err == nil {
		tor.Close()
	}
	if broken && err == nil {
		c.Failf("inconsistent torrent (%v: length %d, piece length %d, %d hash bytes, %d files) is accepted", s.What, m.Info.Length, m.Info.PieceLength, len(hashes), len(m.Info.Files))
	}
	if !broken && err != nil {
		c.Failf("consistent torrent is refused: %v", err)
	}
}

type c06Large struct {
	Lens  []int64 `json:"lens"`
	Multi bool    `json:"multi"`
	Piece int64   `json:"piece"`
	Off   int     `json:"off"` // hashes too many
}

func genC06Large(t *rapid.T) c06Large {
	s := c06Large{Multi: rapid.Bool().Draw(t, "multi")}
	n := 1
	if s.Multi {
		n = rapid.IntRange(1, 5).Draw(t, "files")
	}
	sum := int64(0)
	for i := 0; i < n; i++ {
		l := rapid.OneOf(
			rapid.SampledFrom([]int64{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 33, 1 << 40}),
			rapid.Int64Range(0, 1<<42)).Draw(t, "len")
		s.Lens = append(s.Lens, l)
		sum += l
	}
	k := rapid.Int64Range(1, 600).Draw(t, "pieces")
	s.Piece = max(1, (sum+k-1)/k)
	if rapid.IntRange(0, 3).Draw(t, "wrong") == 0 {
		s.Off = rapid.SampledFrom([]int{-1, 1}).Draw(t, "off")
	}
	return s
}

func runC06Large(c *C, s c06Large) {
	m := &bencode.Metainfo{Announce: "http://t/"}
	m.Info.Name = "large"
	m.Info.PieceLength = s.Piece
	sum := int64(0)
	for i, l := range s.Lens {
		sum += l
		if s.Multi {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprint("f", i)}, Length: int(l)})
		} else {
			m.Info.Length = l
		}
	}
	if sum > 1<<31 {
		c.NonTrivial()
	}
	n := int(sum / s.Piece)
	if sum%s.Piece != 0 {
		n++
	}
	h := n + s.Off
	if h < 0 {
		return
	}
	m.Info.Pieces = string(content(7, 20*h))
	dir := c.TempDir()
	var tor *torrent.Torrent
	var err error
	if p := guard(func() { tor, err = torrent.New(m, dir, zap.NewNop()) }); p != nil {
		c.Failf("opening: %v", p)
	}
	if s.Off != 0 {
		if err == nil {
			tor.Close()
			c.Failf("a torrent of %d bytes in pieces of %d with %d hashes is accepted", sum, s.Piece, h)
		}
		return
	}
	if err != nil {
		c.Failf("a torrent of %d bytes in %d pieces of %d is refused: %v", sum, n, s.Piece, err)
	}
	defer tor.Close()
	if int64(tor.Length) != sum || tor.PiecesNum != n || len(tor.Pieces) != n {
		c.Failf("a torrent of %d bytes in %d pieces is opened with length %d and %d pieces", sum, n, tor.Length, tor.PiecesNum)
	}
}
