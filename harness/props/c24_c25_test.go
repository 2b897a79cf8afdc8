package props

import (
	"encoding/base64"
	"encoding/json"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/bytefmt"
	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/logger"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

func init() {
	register("C24", "value",
		"random value trees rendered twice, built and decoded; compared with the expected structure, line breaks and indentation aside; non-trivial: a dictionary with 2+ keys or nesting",
		1500, 20000, genRoot, runC24)
	register("C24", "metainfo",
		"well-formed torrent files; every value of the metadata must be on its line of the rendering; non-trivial: several files or several announce URLs",
		800, 10000, genC24Meta, runC24Meta)
	register("C25", "levels",
		"every documented level and format in generated letter case with generated blanks around, every record severity, structured fields; non-trivial: at least one record is suppressed and one emitted",
		600, 6000, genC25, runC25)
	register("C25", "unknown",
		"names that are no level or format: near misses, other tools' names, random strings; non-trivial: always (an error is required)",
		1500, 15000, genC25Bad, runC25Bad)
}

func flat(s string) string {
	return strings.NewReplacer("\n", "", "\t", "").Replace(s)
}

func render(v BV) string {
	switch v.K {
	case "i":
		return strconv.FormatInt(v.I, 10)
	case "s":
		return string(v.S)
	case "l":
		if len(v.L) == 0 {
			return "[]"
		}
		out := "["
		for _, e := range v.L {
			out += render(e) + ","
		}
		return out + "]"
	default:
		if len(v.D) == 0 {
			return "{}"
		}
		kvs := append([]KV(nil), v.D...)
		sort.SliceStable(kvs, func(i, j int) bool { return string(kvs[i].Key) < string(kvs[j].Key) })
		out := "{"
		for _, e := range kvs {
			out += string(e.Key) + ": " + render(e.V) + ","
		}
		return out + "}"
	}
}

func runC24(c *C, v BV) {
	if v.depth() > 1 || v.any(func(b BV) bool { return len(b.D) > 1 }) {
		c.NonTrivial()
	}
	parsed, err := bencode.Parse(enc(v))
	if err != nil {
		c.Failf("well-formed document refused: %v", err)
	}
	want := flat(render(v))
	for what, b := range map[string]bencode.Bencode{"built": toGotit(v), "decoded": parsed} {
		var first string
		for i := 0; i < 4; i++ {
			var s string
			if p := guard(func() { s = b.String() }); p != nil {
				c.Failf("String of %s value: %v", what, p)
			}
			if i == 0 {
				first = s
			} else if s != first {
				c.Failf("two renderings of one %s value differ: %q and %q", what, first, s)
			}
		}
		if flat(first) != want {
			c.Failf("%s value is rendered as %q, expected structure %q", what, flat(first), want)
		}
	}
}

func genC24Meta(t *rapid.T) c04Case {
	c := genC04(t)
	if rapid.IntRange(0, 4).Draw(t, "large") == 0 { // lengths nobody would put on this disk
		info := c.Doc.get("info")
		big := func(v *BV) {
			v.I = rapid.SampledFrom([]int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 5 << 30, 1<<32 + 1536, 1 << 40, 3 << 41, 1 << 50, 1 << 60}).Draw(t, "length")
		}
		if l := info.get("length"); l != nil {
			big(l)
		} else if l := info.get("files"); l != nil && len(l.L) > 0 {
			big(l.L[rapid.IntRange(0, len(l.L)-1).Draw(t, "which")].get("length"))
		}
	}
	return c
}

func runC24Meta(c *C, s c04Case) {
	m := &bencode.Metainfo{}
	if err := bencode.Unmarshal(enc(s.Doc), m); err != nil {
		c.Failf("well-formed torrent file refused: %v", err)
	}
	info := s.Doc.get("info")
	if info == nil || info.get("name") == nil {
		return
	}
	var out string
	if p := guard(func() { out = m.String() }); p != nil {
		c.Failf("Metainfo.String: %v", p)
	}
	if again := m.String(); again != out {
		c.Failf("two renderings of one metadata differ: %q and %q", out, again)
	}
	has := func(what, s string) {
		if !strings.Contains(out, s) {
			c.Failf("rendering does not show %s %q:\n%s", what, s, out)
		}
	}
	has("the name", "name: "+string(info.get("name").S)+"\n")
	has("the piece length", "piece-length: "+strconv.FormatInt(info.get("piece length").I, 10)+"\n")
	if l := info.get("length"); l != nil {
		has("the length", "length: "+bytefmt.ByteSize(uint64(l.I))+"\n")
	}
	if fs := info.get("files"); fs != nil {
		for _, f := range fs.L {
			var p []string
			for _, e := range f.get("path").L {
				p = append(p, string(e.S))
			}
			has("a file", "[path: "+strings.Join(p, "/")+", size: "+bytefmt.ByteSize(uint64(f.get("length").I))+"]")
		}
		if len(fs.L) > 1 {
			c.NonTrivial()
		}
		if n := strings.Count(out, ", size: "); n < len(fs.L) {
			c.Failf("rendering shows %d files of %d:\n%s", n, len(fs.L), out)
		}
	}
	has("the announce URL", "announce: "+string(s.Doc.get("announce").S)+"\n")
	if l := s.Doc.get("announce-list"); l != nil {
		n := 0
		for _, tier := range l.L {
			for _, u := range tier.L {
				has("an announce-list URL", string(u.S))
				n++
			}
		}
		if n > 1 {
			c.NonTrivial()
		}
	}
	if l := s.Doc.get("url-list"); l != nil {
		for _, u := range l.L {
			has("a web seed URL", string(u.S))
		}
	}
	for key, label := range map[string]string{"comment": "comment: ", "created by": "created-by: "} {
		if v := s.Doc.get(key); v != nil && len(v.S) > 0 {
			has(key, label+string(v.S)+"\n")
		}
	}
	if d := s.Doc.get("creation date"); d != nil && d.I != 0 {
		has("the creation date", "creation-date: "+time.Unix(d.I, 0).Format(time.DateTime)+"\n")
	}
	has("the info-hash", base64.URLEncoding.EncodeToString(m.Hash()))
}

// ---------------------------------------------------------------------------

type c25Case struct {
	Rep    int      `json:"rep,omitempty"` // the records are logged that many times
	Level  string   `json:"level"`         // base name
	Format string   `json:"format"`
	LevelS string   `json:"levelAs"` // as given
	FormS  string   `json:"formatAs"`
	Recs   []c25Rec `json:"recs"`
}

type c25Rec struct {
	Sev int    `json:"sev"` // 0 debug .. 3 error
	Msg string `json:"msg"`
	F   string `json:"f"`
}

var c25Levels = []string{"debug", "info", "warn", "error", "silent"}
var c25Formats = []string{"text", "color", "json"}

func decorate(t *rapid.T, s, l string) string {
	var out strings.Builder
	blanks := []string{"", "", " ", "\t", "  ", " \t ", "\n"}
	out.WriteString(rapid.SampledFrom(blanks).Draw(t, l+"-pre"))
	mode := rapid.IntRange(0, 3).Draw(t, l+"-case")
	for i, r := range s {
		switch {
		case mode == 1, mode == 2 && i == 0, mode == 3 && rapid.Bool().Draw(t, l+"-up"):
			out.WriteString(strings.ToUpper(string(r)))
		default:
			out.WriteRune(r)
		}
	}
	out.WriteString(rapid.SampledFrom(blanks).Draw(t, l+"-post"))
	return out.String()
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{Level: rapid.SampledFrom(c25Levels).Draw(t, "level"), Format: rapid.SampledFrom(c25Formats).Draw(t, "format")}
	c.LevelS, c.FormS = decorate(t, c.Level, "level"), decorate(t, c.Format, "format")
	for n := rapid.IntRange(1, 8).Draw(t, "records"); n > 0; n-- {
		c.Recs = append(c.Recs, c25Rec{rapid.IntRange(0, 3).Draw(t, "sev"), rapid.StringMatching(`[a-zA-Z0-9 .:"\\]{1,20}`).Draw(t, "msg"), rapid.SampledFrom([]string{"", "v", "a\nb", "\x1b[0m", "\"q\""}).Draw(t, "field")})
	}
	c.Rep = pick(t, "rep", 1, 1, 1, 1, 2, 30, 150)
	return c
}

// capture runs f with standard output and error redirected to files.
func capture(c *C, f func()) (stdout, stderr string) {
	dir := c.TempDir()
	oo, oe := os.Stdout, os.Stderr
	no, err := os.Create(dir + "/out")
	must(err)
	ne, err := os.Create(dir + "/err")
	must(err)
	os.Stdout, os.Stderr = no, ne
	func() {
		defer func() { os.Stdout, os.Stderr = oo, oe }()
		f()
	}()
	no.Close()
	ne.Close()
	a, err := os.ReadFile(dir + "/out")
	must(err)
	b, err := os.ReadFile(dir + "/err")
	must(err)
	return string(a), string(b)
}

func runC25(c *C, s c25Case) {
	once := s.Recs
	for i := 1; i < s.Rep; i++ {
		s.Recs = append(s.Recs, once...)
	}
	min := map[string]int{"debug": 0, "info": 1, "warn": 2, "error": 3, "silent": 4}[s.Level]
	var err error
	var perr error
	stdout, stderr := capture(c, func() {
		perr = guard(func() {
			var log *zap.Logger
			log, err = logger.NewCommandLine(s.LevelS, s.FormS)
			if err != nil {
				return
			}
			for _, r := range s.Recs {
				f := []zap.Field{zap.String("field", r.F), zap.Int("n", 3)}
				switch r.Sev {
				case 0:
					log.Debug(r.Msg, f...)
				case 1:
					log.Info(r.Msg, f...)
				case 2:
					log.Warn(r.Msg, f...)
				default:
					log.Error(r.Msg, f...)
				}
			}
			_ = log.Sync()
		})
	})
	if perr != nil {
		c.Failf("logging at %q in %q: %v", s.LevelS, s.FormS, perr)
	}
	if err != nil {
		c.Failf("level %q with format %q is refused: %v", s.LevelS, s.FormS, err)
	}
	if stdout != "" {
		c.Failf("log output on standard output: %q", stdout)
	}
	var want []c25Rec
	for _, r := range s.Recs {
		if r.Sev >= min {
			want = append(want, r)
		}
	}
	if len(want) > 0 && len(want) < len(s.Recs) {
		c.NonTrivial()
	}
	var lines []string
	if stderr != "" {
		lines = strings.Split(strings.TrimSuffix(stderr, "\n"), "\n")
	}
	if len(lines) != len(want) {
		c.Failf("level %q format %q: %d records at or above the level, %d lines: %q", s.LevelS, s.FormS, len(want), len(lines), stderr)
	}
	names := []string{"debug", "info", "warn", "error"}
	for i, r := range want {
		l := lines[i]
		if s.Format == "json" {
			var m map[string]any
			if err := json.Unmarshal([]byte(l), &m); err != nil {
				c.Failf("format %q: line %q is not JSON", s.FormS, l)
			}
			if m["message"] != r.Msg || m["level"] != names[r.Sev] || m["field"] != r.F {
				c.Failf("format %q: line %q does not hold message %q at level %s", s.FormS, l, r.Msg, names[r.Sev])
			}
			continue
		}
		if json.Valid([]byte(l)) {
			c.Failf("format %q: line %q is JSON", s.FormS, l)
		}
		if !strings.Contains(l, r.Msg) || !strings.Contains(strings.ToLower(l), names[r.Sev]) {
			c.Failf("format %q: line %q does not hold message %q at level %s", s.FormS, l, r.Msg, names[r.Sev])
		}
		if esc := strings.Contains(l, "\x1b["); esc != (s.Format == "color") {
			c.Failf("format %q: line %q has colour codes: %v", s.FormS, l, esc)
		}
	}
}

type c25Bad struct {
	Level  string `json:"level"`
	Format string `json:"format"`
}

func genC25Bad(t *rapid.T) c25Bad {
	bad := func(l string, ok []string) string {
		return rapid.OneOf(
			rapid.SampledFrom([]string{"warning", "trace", "fatal", "panic", "dpanic", "off", "none", "quiet", "err", "information", "verbose", "0", "-1", "all", "console", "xml", "jsonl", "logfmt", "plain", "colour", "colored", "nocolor", "inf o", "te xt", "\x00", "debug,info", "text;json", "İnfo"}),
			rapid.Custom(func(t *rapid.T) string {
				s := rapid.SampledFrom(ok).Draw(t, "base")
				i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "op") {
				case 0:
					return s[:i] + s[i+1:]
				case 1:
					return s[:i] + "x" + s[i:]
				default:
					return s + s
				}
			}),
			rapid.StringMatching(`[a-z0-9_.-]{1,10}`),
			rapid.String(),
		).Draw(t, l)
	}
	c := c25Bad{rapid.SampledFrom(c25Levels).Draw(t, "good-level"), rapid.SampledFrom(c25Formats).Draw(t, "good-format")}
	w := rapid.IntRange(0, 2).Draw(t, "which")
	if w != 1 {
		c.Level = bad("level", c25Levels)
	}
	if w != 0 {
		c.Format = bad("format", c25Formats)
	}
	return c
}

func runC25Bad(c *C, s c25Bad) {
	norm := func(v string) string { return strings.TrimSpace(strings.ToLower(v)) }
	known := func(v string, l []string) bool {
		for _, k := range l {
			if norm(v) == k {
				return true
			}
		}
		return norm(v) == "" // the default; not specified
	}
	if known(s.Level, c25Levels) && known(s.Format, c25Formats) {
		return
	}
	c.NonTrivial()
	var log *zap.Logger
	var err error
	if p := guard(func() { log, err = logger.NewCommandLine(s.Level, s.Format) }); p != nil {
		c.Failf("level %q format %q: %v", s.Level, s.Format, p)
	}
	if err == nil {
		c.Failf("level %q with format %q is accepted (%v)", s.Level, s.Format, log != nil)
	}
}
