package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"pgregory.net/rapid"
)

// C23: the command line reports success and failure truthfully. The gotit
// binary itself is run.

type cliResult struct {
	code     int
	out, err string
}

func (r cliResult) String() string {
	return fmt.Sprintf("exit status %d, stdout %q, stderr %q", r.code, clip(r.out), clip(r.err))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

type cliProc struct {
	cmd      *exec.Cmd
	out, err bytes.Buffer
	done     chan struct{}
}

func startCLI(c *C, dir string, args ...string) *cliProc {
	bin := os.Getenv("VERIF_GOTIT")
	if bin == "" {
		panic(harnessError{"VERIF_GOTIT is not set"})
	}
	home, cwd := filepath.Join(dir, "home"), filepath.Join(dir, "cwd")
	must(os.MkdirAll(home, 0o755))
	must(os.MkdirAll(cwd, 0o755))
	p := &cliProc{cmd: exec.Command(bin, args...), done: make(chan struct{})}
	p.cmd.Dir = cwd
	p.cmd.Env = []string{"HOME=" + home, "PATH=/usr/bin:/bin"}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	if err := p.cmd.Start(); err != nil {
		panic(harnessError{err.Error()})
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	c.Cleanup(func() {
		p.cmd.Process.Kill()
		<-p.done
	})
	return p
}

// wait returns false when the process does not end in time.
func (p *cliProc) wait(d time.Duration) (cliResult, bool) {
	select {
	case <-p.done:
		return cliResult{p.cmd.ProcessState.ExitCode(), p.out.String(), p.err.String()}, true
	case <-time.After(d):
		return cliResult{}, false
	}
}

func runCLI(c *C, dir string, args ...string) cliResult {
	p := startCLI(c, dir, args...)
	r, ok := p.wait(60 * time.Second)
	if !ok {
		c.Failf("gotit %q does not end", args)
	}
	return r
}

// --- options ----------------------------------------------------------------

// Opts are the common options; empty means not given.
type Opts struct {
	Level   string `json:"level,omitempty"`
	Format  string `json:"format,omitempty"`
	CLevel  string `json:"clevel,omitempty"` // in the config file
	CFormat string `json:"cformat,omitempty"`
	Config  string `json:"config,omitempty"` // "", file, home, cwd, missing, broken, homebroken, dir, noperm
	CName   string `json:"cname,omitempty"`
	Style   int    `json:"style,omitempty"`
}

var levels = []string{"debug", "info", "warn", "error", "silent"}
var formats = []string{"text", "color", "json"}

func genOpts(t *rapid.T) Opts {
	o := Opts{Config: pick(t, "config", "", "", "file", "file", "file", "home", "cwd", "missing", "broken", "homebroken", "dir", "noperm"), Style: rapid.IntRange(0, 3).Draw(t, "style")}
	if o.badConfig() && !pick(t, "keep", false, true) {
		o.Config = ""
	}
	switch o.Config {
	case "home", "cwd", "homebroken":
		o.CName = pick(t, "cname", ".gotit", ".gotit.yaml", ".gotit.yml")
	default:
		o.CName = pick(t, "cname", "cfg.yaml", "cfg.yaml", "cfg.yml", "cfg", ".gotit", "cfg.conf", "a b.txt", "cfg.json", "cfg.yaml.bak")
	}
	bad := func(l string, v []string) string {
		switch pick(t, l, 0, 1, 1, 1, 1, 2) {
		case 1:
			return rapid.SampledFrom(v).Draw(t, l+"v")
		case 2:
			return pick(t, l+"x", "verbose", "inf", "jsonx", "trace", "0", "-", "debug,info", "tex")
		}
		return ""
	}
	where := func(l string) (flag, cfg bool) {
		if !o.goodConfig() {
			return true, false
		}
		k := rapid.IntRange(0, 2).Draw(t, l)
		return k != 1, k != 0
	}
	f, g := where("level-where")
	if f {
		o.Level = bad("level", levels)
	}
	if g {
		o.CLevel = bad("clevel", levels)
	}
	f, g = where("format-where")
	if f {
		o.Format = bad("format", formats)
	}
	if g {
		o.CFormat = bad("cformat", formats)
	}
	return o
}

func (o Opts) goodConfig() bool { return o.Config == "file" || o.Config == "home" || o.Config == "cwd" }
func (o Opts) badConfig() bool  { return o.Config != "" && !o.goodConfig() }

func oneOf(v string, l []string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (o Opts) level() string {
	for _, v := range []string{o.Level, o.CLevel} {
		if v != "" {
			return v
		}
	}
	return "info"
}

func (o Opts) format() string {
	for _, v := range []string{o.Format, o.CFormat} {
		if v != "" {
			return v
		}
	}
	return "color"
}

func (o Opts) valid() bool {
	return oneOf(o.level(), levels) && oneOf(o.format(), formats) && !o.badConfig()
}

func (o Opts) args(dir string) []string {
	var a []string
	add := func(long, short, v string) {
		if v == "" {
			return
		}
		switch {
		case short != "" && o.Style == 1:
			a = append(a, short, v)
		case o.Style == 2:
			a = append(a, long+"="+v)
		default:
			a = append(a, long, v)
		}
	}
	add("--log-level", "-l", o.Level)
	add("--log-format", "", o.Format)
	name := o.CName
	if name == "" {
		name = "cfg.yaml"
	}
	p := filepath.Join(dir, "cfg", name)
	switch o.Config {
	case "home", "homebroken":
		p = filepath.Join(dir, "home", name)
	case "cwd":
		p = filepath.Join(dir, "cwd", name)
	case "missing":
		p += ".absent"
	}
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	switch {
	case o.goodConfig() || o.Config == "noperm":
		// YAML, in its JSON form for some names
		var in []string
		if o.CLevel != "" {
			in = append(in, "level: \""+o.CLevel+"\"")
		}
		if o.CFormat != "" {
			in = append(in, "format: \""+o.CFormat+"\"")
		}
		s := "log:\n  " + strings.Join(in, "\n  ") + "\nother: 1\n"
		if len(in) == 0 {
			s = "other: 1\n"
		} else if o.Style == 2 {
			s = "{\"other\": 1, \"log\": {" + strings.Join(in, ", ") + "}}\n"
		}
		os.Remove(p)
		must(os.WriteFile(p, []byte(s), 0o644))
		if o.Config == "noperm" && os.Geteuid() == 0 {
			must(os.Remove(p)) // root reads everything
		} else if o.Config == "noperm" {
			must(os.Chmod(p, 0))
		}
	case o.Config == "broken" || o.Config == "homebroken":
		must(os.WriteFile(p, []byte("log: [unclosed\n\t- {"), 0o644))
	case o.Config == "dir":
		must(os.MkdirAll(p, 0o755))
	}
	switch o.Config {
	case "", "home", "cwd", "homebroken":
	default:
		add("--config", "", p)
	}
	return a
}

// place puts the options before or after the command's own arguments.
func (o Opts) place(dir string, cmd []string) []string {
	a := o.args(dir)
	if o.Style == 3 {
		return append(a, cmd...)
	}
	return append(append([]string(nil), cmd...), a...)
}

// --- inspect ----------------------------------------------------------------

type c23Inspect struct {
	Doc  BV     `json:"doc"`
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
	Pad  int    `json:"pad,omitempty"` // length of a further string in the document
	Opts Opts   `json:"opts"`
}

var requiredKeys = []string{"announce", "info", "name", "piece length", "pieces"}

func genC23Inspect(t *rapid.T) c23Inspect {
	return c23Inspect{Doc: genC04(t).Doc, N: rapid.IntRange(0, 1<<20).Draw(t, "n"), Opts: genOpts(t),
		Pad:  pick(t, "pad", 0, 0, 0, 0, 0, 0, 0, 0, 0, 5000, 70000, 1<<20, 3<<20),
		Kind: pick(t, "kind", "good", "good", "good", "good", "good", "cut", "drop", "drop", "scalar", "junk", "empty", "absent", "dir", "noperm", "noarg", "twoargs", "flag", "command")}
}

func without(d BV, key string) BV {
	out := BV{K: "d"}
	for _, e := range d.D {
		if string(e.Key) != key {
			out.D = append(out.D, e)
		}
	}
	return out
}

func runC23Inspect(c *C, s c23Inspect) {
	dir := c.TempDir()
	file := filepath.Join(dir, "f.torrent")
	if s.Pad > 0 {
		s.Doc.D = append(s.Doc.D[:len(s.Doc.D):len(s.Doc.D)], KV{Key: Bytes("~pad"), V: BV{K: "s", S: bytes.Repeat([]byte("4:info5:"), s.Pad/8)}})
	}
	doc := s.Doc
	b := enc(doc)
	good := false
	switch s.Kind {
	case "good":
		good = true
	case "cut":
		b = b[:s.N%len(b)]
	case "drop":
		k := requiredKeys[s.N%len(requiredKeys)]
		if k == "announce" || k == "info" {
			doc = without(doc, k)
		} else {
			for i := range doc.D {
				if string(doc.D[i].Key) == "info" {
					doc.D[i].V = without(doc.D[i].V, k)
				}
			}
		}
		b = enc(doc)
	case "scalar":
		b = []byte([]string{"i5e", "4:spam", "le", "de", "l" + string(b) + "e", "0:"}[s.N%6])
	case "junk":
		b = content(uint64(s.N), 1+s.N%300)
	case "empty":
		b = nil
	}
	must(os.WriteFile(file, b, 0o644))
	args := []string{"bencode", file}
	switch s.Kind {
	case "absent":
		args[1] = filepath.Join(dir, "absent")
	case "dir":
		args[1] = dir
	case "noperm":
		if os.Geteuid() == 0 {
			return
		}
		must(os.Chmod(file, 0))
	case "noarg":
		args = args[:1]
	case "twoargs":
		args = append(args, file)
	case "flag":
		args = append(args, []string{"--no-such-flag", "-z", "--log-levels=info"}[s.N%3])
	case "command":
		args[0] = []string{"bencodes", "inspect", "benc ode"}[s.N%3]
	}
	if s.Kind == "noarg" && s.Opts.Style == 3 {
		s.Opts.Style = 0
	}
	r := runCLI(c, dir, s.Opts.place(dir, args)...)
	c.Label(s.Kind)
	if s.Kind == "good" && s.Opts.valid() {
		c.Label("valid")
	} else {
		c.NonTrivial()
	}
	m := &bencode.Metainfo{}
	shown := ""
	if err := bencode.Unmarshal(enc(s.Doc), m); err == nil {
		shown = strings.TrimSpace(m.String())
	}
	what := fmt.Sprintf("gotit %q (%s)", s.Opts.place(dir, args), s.Kind)
	if good && s.Opts.valid() {
		if r.code != 0 {
			c.Failf("%s: %v, want exit status 0", what, r)
		}
		if shown == "" || !strings.Contains(r.out, shown) {
			c.Failf("%s: the metadata is not printed: %v, want %q", what, r, clip(shown))
		}
		return
	}
	if r.code == 0 {
		c.Failf("%s: %v, want a non-zero exit status", what, r)
	}
	if strings.Contains(r.out, "piece-length:") || (shown != "" && strings.Contains(r.out, shown)) {
		c.Failf("%s: metadata is printed: %v", what, r)
	}
	if r.code < 0 || strings.Contains(r.err, "goroutine 1 [running]") {
		c.Failf("%s: it crashed: %v", what, r)
	}
}

// --- download: errors -------------------------------------------------------

type c23Bad struct {
	T    TSpec  `json:"t"`
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
	Opts Opts   `json:"opts"`
}

func genC23Bad(t *rapid.T) c23Bad {
	return c23Bad{T: genLayout(t, 300), N: rapid.IntRange(0, 1<<20).Draw(t, "n"), Opts: genOpts(t),
		Kind: pick(t, "kind", "nodir", "dirfile", "noout", "nofile", "filedir", "cut", "drop", "junk", "hashes", "escape", "noperm", "rodir", "noarg", "badnum", "options")}
}

func runC23Bad(c *C, s c23Bad) {
	dir := c.TempDir()
	file := filepath.Join(dir, "f.torrent")
	out := filepath.Join(dir, "out")
	must(os.Mkdir(out, 0o755))
	doc := bDict(kv("announce", bStr("http://127.0.0.1:1/announce")), kv("info", s.T.infoBV()))
	b := enc(doc)
	info := func(key string, v BV) {
		d := without(s.T.infoBV(), key)
		d.D = append(d.D, kv(key, v))
		b = encSorted(bDict(kv("announce", bStr("http://127.0.0.1:1/announce")), kv("info", d)))
	}
	flags := []string{"-o", out}
	args := []string{file}
	switch s.Kind {
	case "nodir":
		flags[1] = filepath.Join(dir, "absent")
	case "dirfile":
		flags[1] = file
	case "noout":
		flags = nil
	case "nofile":
		args[0] = filepath.Join(dir, "absent.torrent")
	case "filedir":
		args[0] = dir
	case "noarg":
		args = nil
	case "cut":
		b = b[:s.N%len(b)]
	case "drop":
		k := requiredKeys[s.N%len(requiredKeys)]
		if k == "announce" || k == "info" {
			b = enc(without(doc, k))
		} else {
			b = enc(bDict(kv("announce", bStr("x")), kv("info", without(s.T.infoBV(), k))))
		}
	case "junk":
		b = content(uint64(s.N), 1+s.N%300)
	case "hashes":
		info("pieces", BV{K: "s", S: append(Bytes(s.T.hashes()), content(3, 1+s.N%60)...)})
	case "escape":
		info("name", bStr([]string{"..", "../x", "/tmp/x", "a/../../x", ""}[s.N%5]))
		if s.N%5 == 4 {
			return // an empty name is left to C05 and C06
		}
	case "noperm", "rodir":
		if os.Geteuid() == 0 {
			return
		}
	case "badnum":
		flags = append(flags, [][]string{{"-n", "many"}, {"-p", "x1"}, {"--num-peer="}, {"--port=1.5"}}[s.N%4]...)
	case "options":
		s.Opts = Opts{Level: "info", Style: s.Opts.Style}
		switch s.N % 4 {
		case 0:
			s.Opts.Level = "loud"
		case 1:
			s.Opts.Format = "xml"
		case 2:
			s.Opts.Config = "missing"
		case 3:
			s.Opts.Config, s.Opts.Level, s.Opts.CLevel = "file", "", "loud"
		}
	}
	must(os.WriteFile(file, b, 0o644))
	switch s.Kind {
	case "noperm":
		must(os.Chmod(file, 0))
	case "rodir":
		must(os.Chmod(out, 0o555))
	}
	c.Label(s.Kind)
	c.NonTrivial()
	cmd := append([]string{"download"}, append(flags, args...)...)
	all := s.Opts.place(dir, cmd)
	r := runCLI(c, dir, all...)
	if r.code == 0 {
		c.Failf("gotit %q (%s): %v, want a non-zero exit status", all, s.Kind, r)
	}
	if r.code < 0 || strings.Contains(r.err, "goroutine 1 [running]") {
		c.Failf("gotit %q (%s): it crashed: %v", all, s.Kind, r)
	}
}

// --- download: success and interruption -------------------------------------

type c23Run struct {
	T     TSpec  `json:"t"`
	Opts  Opts   `json:"opts"`
	Port  int    `json:"port,omitempty"` // -p, 0 = not given
	Max   int    `json:"max,omitempty"`  // -n
	Bad   bool   `json:"bad,omitempty"`  // an unsupported tracker is listed too
	Sig   int    `json:"sig,omitempty"`  // interrupted with that signal
	After int    `json:"after,omitempty"`
	Serve int    `json:"serve"` // blocks the seeder sends before it stalls (when interrupted)
	Long  bool   `json:"long,omitempty"`
	Way   string `json:"way,omitempty"` // how the paths are given
}

func genC23Run(t *rapid.T) c23Run {
	s := c23Run{T: genSwarmSpec(t, 9, true), Opts: genOpts(t), Bad: rapid.Bool().Draw(t, "bad"), Long: rapid.Bool().Draw(t, "long")}
	if !oneOf(s.Opts.level(), levels) {
		s.Opts.Level, s.Opts.CLevel = "debug", ""
	}
	if !oneOf(s.Opts.format(), formats) {
		s.Opts.Format, s.Opts.CFormat = "json", ""
	}
	if !s.Opts.goodConfig() {
		s.Opts.Config, s.Opts.CLevel, s.Opts.CFormat = "", "", ""
	}
	if rapid.Bool().Draw(t, "hasport") {
		s.Port = rapid.IntRange(1, 65535).Draw(t, "port")
	}
	if rapid.Bool().Draw(t, "hasmax") {
		s.Max = rapid.IntRange(1, 50).Draw(t, "max")
	}
	if rapid.IntRange(0, 11).Draw(t, "pieces") == 0 { // a torrent file of 80 KB
		s.T = TSpec{Name: genName(t, "name"), PieceLen: 2, Len: 8001, Seed: 5}
	}
	s.Way = pick(t, "way", "", "", "link", "slash", "dots", "file-link", "relative")
	if pick(t, "interrupted", false, true) {
		s.Sig = pick(t, "sig", int(syscall.SIGINT), int(syscall.SIGTERM))
		s.After = pick(t, "after", 0, 1, 20, 150, 400, 1100)
		s.Serve = rapid.IntRange(0, s.T.pieces()).Draw(t, "serve")
		if s.Serve >= s.T.pieces() {
			s.Serve = 0
		}
	}
	return s
}

// loopback is a tracker and a seeder on real sockets.
type loopback struct {
	mu    sync.Mutex
	ports []string
	first chan struct{}
	once  sync.Once
}

func (l *loopback) serve(spec TSpec, data []byte, conn net.Conn, limit int) {
	defer conn.Close()
	if _, err := io.ReadFull(conn, make([]byte, 68)); err != nil {
		return
	}
	conn.Write(handshake(infoHash(spec), fakeID))
	for i := 0; i < spec.pieces(); i++ {
		conn.Write(haveFrame(i))
	}
	conn.Write(frame(1))
	for n := 0; ; {
		f, err := readFrame(conn)
		if err != nil {
			return
		}
		if len(f) != 13 || f[0] != 6 {
			continue
		}
		r := parseRequest(f)
		if r.index >= spec.pieces() || r.length < 0 || r.offset+r.length > spec.pieceSize(r.index) {
			return
		}
		if limit >= 0 && n >= limit {
			continue
		}
		n++
		from := r.index*spec.PieceLen + r.offset
		conn.Write(pieceFrame(r.index, r.offset, data[from:from+r.length]))
	}
}

func newLoopback(c *C, spec TSpec, limit int) (*loopback, string) {
	l := &loopback{first: make(chan struct{})}
	data := spec.content()
	pl, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	tl, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	var conns []net.Conn
	go func() {
		for {
			conn, err := pl.Accept()
			if err != nil {
				return
			}
			l.mu.Lock()
			conns = append(conns, conn)
			l.mu.Unlock()
			go l.serve(spec, data, conn, limit)
		}
	}()
	peer := pl.Addr().(*net.TCPAddr)
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		l.mu.Lock()
		l.ports = append(l.ports, r.URL.Query().Get("port"))
		l.mu.Unlock()
		p := append([]byte{127, 0, 0, 1}, binary.BigEndian.AppendUint16(nil, uint16(peer.Port))...)
		rw.Write(encSorted(bDict(kv("interval", bInt(1)), kv("peers", BV{K: "s", S: p}))))
		l.once.Do(func() { close(l.first) })
	})}
	go srv.Serve(tl)
	c.Cleanup(func() {
		srv.Close()
		pl.Close()
		l.mu.Lock()
		defer l.mu.Unlock()
		for _, x := range conns {
			x.Close()
		}
	})
	return l, "http://" + tl.Addr().String() + "/announce"
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var textLine = regexp.MustCompile(`^\d{4}-\d\d-\d\dT[^\t]*\t([A-Z]+)\t`)

// judgeLog checks that standard error holds records of the wanted format and levels.
func judgeLog(c *C, what, format, level, out string, warns bool) {
	rank := map[string]int{"debug": 0, "info": 1, "warn": 2, "error": 3, "silent": 9}
	seen := map[string]int{}
	for _, line := range strings.Split(out, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		if level == "silent" {
			c.Failf("%s: log level silent and %q is logged", what, clip(line))
		}
		lv := ""
		switch format {
		case "json":
			var rec map[string]any
			if json.Unmarshal([]byte(line), &rec) != nil {
				c.Failf("%s: log format json and %q is logged", what, clip(line))
			}
			lv, _ = rec["level"].(string)
		default:
			plain := ansi.ReplaceAllString(line, "")
			m := textLine.FindStringSubmatch(plain)
			if m == nil {
				c.Failf("%s: log format %s and %q is logged", what, format, clip(line))
			}
			if colored := plain != line; colored != (format == "color") {
				c.Failf("%s: log format %s and %q is logged", what, format, clip(line))
			}
			lv = strings.ToLower(m[1])
		}
		k, ok := rank[lv]
		if !ok || k < rank[level] {
			c.Failf("%s: log level %s and a record of level %q is logged: %q", what, level, lv, clip(line))
		}
		seen[lv]++
	}
	if (level == "debug" || level == "info") && seen["info"] == 0 || level == "debug" && seen["debug"] == 0 || level == "warn" && warns && seen["warn"] == 0 {
		c.Failf("%s: log level %s and records of levels %v only", what, level, seen)
	}
}

func runC23Run(c *C, s c23Run) {
	dir := c.TempDir()
	out := filepath.Join(dir, "out dir")
	must(os.Mkdir(out, 0o755))
	limit := -1
	if s.Sig != 0 {
		limit = s.Serve
	}
	l, url := newLoopback(c, s.T, limit)
	file := filepath.Join(dir, "f.torrent")
	urls := []string{url}
	if s.Bad {
		urls = append(urls, "wss://nowhere.test/x")
	}
	must(os.WriteFile(file, s.T.doc(url, urls), 0o644))
	outArg := out
	switch s.Way {
	case "link":
		outArg = filepath.Join(dir, "home", "link to out")
		must(os.MkdirAll(filepath.Dir(outArg), 0o755))
		must(os.Symlink(out, outArg))
	case "slash":
		outArg += "//"
	case "dots":
		outArg = filepath.Join(dir, "home") + "/../out dir/."
		must(os.MkdirAll(filepath.Join(dir, "home"), 0o755))
	case "file-link":
		link := filepath.Join(dir, "home", "t")
		must(os.MkdirAll(filepath.Dir(link), 0o755))
		must(os.Symlink(file, link))
		file = link
	case "relative":
		outArg = "../out dir"
		file = "../f.torrent"
	}
	cmd := []string{"download"}
	if s.Long {
		cmd = append(cmd, "--out="+outArg)
	} else {
		cmd = append(cmd, "-o", outArg)
	}
	port := "6666"
	if s.Port != 0 {
		port = strconv.Itoa(s.Port)
		if s.Long {
			cmd = append(cmd, "--port="+port)
		} else {
			cmd = append(cmd, "-p", port)
		}
	}
	if s.Max != 0 {
		if s.Long {
			cmd = append(cmd, "--num-peer", strconv.Itoa(s.Max))
		} else {
			cmd = append(cmd, "-n", strconv.Itoa(s.Max))
		}
	}
	cmd = append(cmd, file)
	args := s.Opts.place(dir, cmd)
	what := fmt.Sprintf("gotit %q", args)
	p := startCLI(c, dir, args...)
	var r cliResult
	ok := false
	if s.Sig == 0 {
		if r, ok = p.wait(120 * time.Second); !ok {
			c.Failf("%s: the download from an honest seeder does not end", what)
		}
		c.Label("complete")
	} else {
		select {
		case <-l.first:
		case <-p.done:
		case <-time.After(60 * time.Second):
			c.Failf("%s: the tracker is not announced to", what)
		}
		time.Sleep(ms(s.After))
		if err := p.cmd.Process.Signal(syscall.Signal(s.Sig)); err != nil && !errors.Is(err, os.ErrProcessDone) {
			panic(harnessError{err.Error()})
		}
		if r, ok = p.wait(60 * time.Second); !ok {
			c.Failf("%s: still running a minute after signal %d", what, s.Sig)
		}
		c.Label("interrupted")
	}
	c.NonTrivial()
	if r.code != 0 {
		c.Failf("%s: %v, want exit status 0 (signal %d)", what, r, s.Sig)
	}
	if s.Sig == 0 {
		s.T.compareDisk(c, out, func(int) bool { return true }, false)
	} else {
		s.T.piecesOnDisk(c, out, s.T.content())
	}
	for _, f := range listTree(dir) {
		if !strings.HasPrefix(f, "out dir") && !strings.HasPrefix(f, "home/") && !strings.HasPrefix(f, "cfg/") && f != "cwd/" && (f != "cwd/"+s.Opts.CName || s.Opts.Config != "cwd") && f != "f.torrent" && f != "." && f != "" {
			c.Failf("%s: left %q outside the output directory", what, f)
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, x := range l.ports {
		if x != port {
			c.Failf("%s: announced port %s", what, x)
		}
	}
	judgeLog(c, what, s.Opts.format(), s.Opts.level(), r.err, s.Bad)
}

func init() {
	register("C23", "inspect", "the file is not a torrent, or the arguments or options are not valid", 250, 6000, genC23Inspect, runC23Inspect)
	register("C23", "refused", "every case has one reason to refuse the download", 150, 4000, genC23Bad, runC23Bad)
	register("C23", "download", "every case runs a download over loopback", 12, 400, genC23Run, runC23Run)
}
