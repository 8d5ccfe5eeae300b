package harness

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/markbates/pkger/here"
	"pgregory.net/rapid"
)

// choices ------------------------------------------------------------------

// intn draws an integer in [lo, hi], all about as likely, shrinking to lo.
func intn(t *rapid.T, label string, lo, hi int) int {
	n := uint64(hi-lo) + 1
	if n <= 1 {
		return lo
	}
	k := 3
	for x := n; x > 0; x >>= 1 {
		k++
	}
	// The generators of rapid prefer small values, which is the wrong thing
	// for a choice among cases; single bits are fair.
	return rapid.Custom(func(t *rapid.T) int {
		var v uint64
		for i := 0; i < k; i++ {
			v <<= 1
			if rapid.Bool().Draw(t, "b") {
				v |= 1
			}
		}
		return lo + int(v*n>>uint(k))
	}).Draw(t, label)
}

// pick draws an element, all about as likely, shrinking to the first.
func pick[T any](t *rapid.T, label string, s []T) T {
	return s[intn(t, label, 0, len(s)-1)]
}

// names --------------------------------------------------------------------

// Names that are easily taken for one another, that start with one another,
// that sort differently with and without a separator after them, or that
// mean something elsewhere.
var poolNames = []string{
	"a", "b", "c", "ab", "a.b", "a-b", "a b", "aa", "A", "a!", "a,", "a0", "a_",
	"foo", "foobar", "foo.txt", "foo-bar", "Foo", "fo",
	"index.html", "index", "index.html.bak", "robots.txt",
	".keep", ".x", "..x", "...", "x..", "_a", "_",
	"é", "e\u0301", "日本", "ß", "\U0001F600",
	"#x", "%41", "%2e%2e", "x?y", "x&y", "<b>", "\"q\"", "it's", "`", "$HOME", "*", "[a]", "~", "+", "=", "@", "{}", "|", "!", "-", "--", "-x",
	"vendor", "node_modules", "testdata", "tmp", "x.tmp", "con", "nul",
	"app", "pkged.go.txt", "null", "0", "1", "10", "2",
	"style.css", "app.js", "img.png", "data.json", "page.htm", "a.gz", "noext",
	" lead", "a:b", ":x",
	".DS_Store", ".gitignore", ".gitkeep", ".htaccess", "x~", "#x#", ".x.swp", "Thumbs.db", "LICENSE", "README.md", "Makefile", "x.go.tmpl", "x.so", "core", "Index.html",
	".git", ".svn", ".env", ".well-known", "package.json", "app.js.map", "app.min.js", "Dockerfile", "favicon.ico", "bower_components", "build", "dist", "bin", "cache",
}

func genName(t *rapid.T, label string) string {
	n := genPlainName(t, label)
	if intn(t, label+"-odd", 0, 29) == 29 {
		// blanks in front are part of a name
		n = fixName(pick(t, label+"-blank", []string{" ", "  ", "\u00a0"}) + n)
	}
	return n
}

func genPlainName(t *rapid.T, label string) string {
	switch intn(t, label+"-kind", 0, 19) {
	case 0, 1:
		// anything a file can be called, within the domain
		rs := rapid.SliceOfN(rapid.Rune(), 1, 12).Draw(t, label+"-runes")
		return fixName(string(rs))
	case 2:
		n := pick(t, label+"-len", []int{100, 254, 255})
		return strings.Repeat(pick(t, label+"-c", []string{"x", "y"}), n)
	case 3, 4, 5, 6, 7, 8:
		// few names, so that they meet again
		return pick(t, label+"-few", poolNames[:8])
	default:
		return pick(t, label, poolNames)
	}
}

// fixName moves a name into the domain: see DESIGN.md for what is outside.
func fixName(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '/' || r == '\\' || r == utf8.RuneError || unicode.IsControl(r) {
			r = '_'
		}
		if b.Len()+utf8.RuneLen(r) > 255 {
			break
		}
		b.WriteRune(r)
	}
	s = b.String()
	if strings.TrimRightFunc(s, unicode.IsSpace) != s || s == "" || s == "." || s == ".." {
		if len(s) >= 255 {
			s = s[:200]
			for !utf8.ValidString(s) {
				s = s[:len(s)-1]
			}
		}
		s += "_"
	}
	switch strings.ToLower(path.Ext(s)) {
	case ".go", ".c", ".cc", ".cpp", ".cxx", ".m", ".h", ".hh", ".hpp", ".hxx", ".f", ".for", ".f90", ".s", ".sx", ".swig", ".swigcxx", ".syso":
		// go list refuses a package with an oddly named source
		if s = s + "_"; len(s) > 255 {
			s = strings.Repeat("x", 255)
		}
	}
	return s
}

// nearName makes a name that is easily taken for another.
func nearName(t *rapid.T, label, n string) string {
	switch intn(t, label+"-how", 0, 7) {
	case 0, 1:
		if up := strings.ToUpper(n); up != n {
			return fixName(up)
		}
		return fixName(strings.ToLower(n))
	case 2:
		if rs := []rune(n); len(rs) > 1 {
			return fixName(string(rs[:len(rs)-1]))
		}
		return fixName(n + n)
	case 3:
		return fixName(pick(t, label+"-front", []string{"x", ".", "_", "a"}) + n)
	}
	return fixName(n + pick(t, label+"-end", []string{".d", ".b", ".", "0", "-x", " x", "!", ",", "~", "s", ".tmp", "_"}))
}

// contents -----------------------------------------------------------------

// nearData makes contents that are easily taken for others.
func nearData(t *rapid.T, label string, b []byte, max int) []byte {
	out := append([]byte{}, b...)
	switch how := intn(t, label+"-how", 0, 3); {
	case how == 0: // the same
	case how == 1 && len(out) > 0:
		out = out[:len(out)-1]
	case how == 2 && len(out) < max:
		out = append(out, 0)
	case len(out) > 0:
		out[pick(t, label+"-at", []int{0, len(out) / 2, len(out) / 2, len(out) - 1})] ^= 1
	}
	return out
}

var boundarySizes = []int{0, 0, 1, 2, 3, 15, 16, 17, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537}

type content struct {
	Kind string
	Size int
	Seed uint64
}

func genContent(t *rapid.T, label string, max int) []byte {
	var c content
	c.Kind = pick(t, label+"-kind", []string{"text", "random", "zeros", "html", "backticks", "gzip", "utf8bad", "crlf", "hex", "json", "goquote"})
	switch intn(t, label+"-sizekind", 0, 9) {
	case 0, 1, 2, 3:
		c.Size = pick(t, label+"-bsize", boundarySizes)
	case 4:
		if max > 1<<20 {
			c.Size = pick(t, label+"-big", []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 17})
		} else {
			c.Size = intn(t, label+"-size", 0, 200)
		}
	default:
		c.Size = intn(t, label+"-size", 0, 200)
	}
	if c.Size > max {
		c.Size = max
	}
	c.Seed = uint64(intn(t, label+"-seed", 0, 255))
	return c.bytes()
}

// bytes expands the description, the same every time.
func (c content) bytes() []byte {
	out := make([]byte, 0, c.Size+64)
	x := c.Seed*0x9E3779B97F4A7C15 + 0x1234567
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	for i := 0; len(out) < c.Size; i++ {
		switch c.Kind {
		case "random":
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], next())
			out = append(out, b[:]...)
		case "zeros":
			out = append(out, byte(c.Seed))
		case "html":
			out = append(out, fmt.Sprintf("<html><body>%d</body></html>\n", next()%1000)...)
		case "backticks":
			out = append(out, "`)))\n\\` + \"`\" + `${}"...)
		case "gzip":
			out = append(out, 0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff, byte(next()))
		case "utf8bad":
			out = append(out, 0xff, 0xfe, 0xc0, 0x80, 0xed, 0xa0, 0x80, byte(next()))
		case "crlf":
			out = append(out, fmt.Sprintf("line %d\r\n\r\x00\x1a\n", next()%100)...)
		case "hex":
			out = append(out, fmt.Sprintf("%x", next())...)
		case "json":
			out = append(out, fmt.Sprintf(`{"a":%d,"b":"\u0000"}`, next()%100)...)
		case "goquote":
			out = append(out, fmt.Sprintf("package main\nvar x = \"%d\"\n// +build ignore\n", next()%100)...)
		default:
			out = append(out, fmt.Sprintf("text %d; ", next()%1000)...)
		}
	}
	return out[:c.Size]
}

func sum(b []byte) string {
	s := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(s[:6]))
}

// trees --------------------------------------------------------------------

type node struct {
	Dir   bool
	Data  []byte
	Mode  os.FileMode // permission and special bits
	MTime time.Time   // zero: whatever it comes out as
}

// tree maps clean absolute names below a root ("/a/b") to nodes. The root
// itself is not in it.
type tree map[string]*node

func (tr tree) names() []string {
	var ns []string
	for n := range tr {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (tr tree) dirs() []string {
	ds := []string{"/"}
	for _, n := range tr.names() {
		if tr[n].Dir {
			ds = append(ds, n)
		}
	}
	return ds
}

func (tr tree) files() []string {
	var fs []string
	for _, n := range tr.names() {
		if !tr[n].Dir {
			fs = append(fs, n)
		}
	}
	return fs
}

// below lists name and all below it.
func (tr tree) below(name string) []string {
	var out []string
	for _, n := range tr.names() {
		if within(n, name) {
			out = append(out, n)
		}
	}
	return out
}

func (tr tree) children(dir string) []string {
	var out []string
	for _, n := range tr.names() {
		if path.Dir(n) == dir {
			out = append(out, n)
		}
	}
	return out
}

func within(name, dir string) bool {
	return dir == "/" || name == dir || strings.HasPrefix(name, dir+"/")
}

func (tr tree) describe() []string {
	var out []string
	for _, n := range tr.names() {
		nd := tr[n]
		if nd.Dir {
			out = append(out, fmt.Sprintf("%s/ %v", n, nd.Mode))
		} else {
			out = append(out, fmt.Sprintf("%s %v %s", n, nd.Mode, sum(nd.Data)))
		}
	}
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("... %d in all", len(out)))
	}
	return out
}

type treeOpts struct {
	max     int  // entries
	maxData int  // bytes per file
	modes   bool // unusual permissions
	mtimes  bool
	noColon bool
	noIndex bool
}

var (
	fileModes = []os.FileMode{0644, 0644, 0600, 0755, 0444, 0640, 0400, 0666, 0777, 0700, 0644 | os.ModeSetuid, 0755 | os.ModeSetgid, 0644 | os.ModeSticky}
	dirModes  = []os.FileMode{0755, 0755, 0700, 0750, 0711, 0777, 0775, 0755 | os.ModeSticky, 0775 | os.ModeSetgid, 0555, 0500}
	mtimePool = []time.Time{
		time.Unix(0, 0), time.Unix(1, 1), time.Unix(946684799, 999999999), time.Unix(1234567890, 123456789),
		time.Unix(1600000000, 500000000), time.Unix(4102444800, 100), time.Unix(2147483648, 0), time.Unix(-86400*365, 5),
		time.Unix(1600000000, 999999000), time.Unix(1600000000, 1000),
	}
)

func genTree(t *rapid.T, label string, o treeOpts) tree {
	tr := tree{}
	n := intn(t, label+"-n", 0, o.max)
	dirs := []string{"/"}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%s%d", label, i)
		parent := "/"
		if len(dirs) > 1 {
			// the most recent folders are as likely as all the others
			if rapid.Bool().Draw(t, l+"-deep") {
				parent = dirs[len(dirs)-1]
			} else {
				parent = pick(t, l+"-parent", dirs)
			}
		}
		nm := genName(t, l+"-name")
		like := ""
		if sib := tr.children(parent); len(sib) > 0 && intn(t, l+"-near", 0, 3) == 3 {
			like = pick(t, l+"-sibling", sib)
			nm = nearName(t, l+"-near", path.Base(like))
		}
		if o.noColon {
			nm = strings.Replace(nm, ":", ";", -1)
		}
		name := path.Join(parent, nm)
		if o.noIndex && nm == "index.html" {
			continue
		}
		if tr[name] != nil || len(name) > 1500 {
			continue
		}
		nd := &node{Mode: 0644}
		if p := intn(t, l+"-dir", 0, 9); p < 4 || p < 7 && like != "" && tr[like].Dir {
			nd.Dir = true
			nd.Mode = 0755
			if o.modes {
				nd.Mode = pick(t, l+"-mode", dirModes)
			}
			dirs = append(dirs, name)
		} else {
			nd.Data = genContent(t, l+"-data", o.maxData)
			if fs := tr.files(); len(fs) > 0 && intn(t, l+"-alike", 0, 4) == 4 {
				nd.Data = nearData(t, l+"-alike", tr[pick(t, l+"-like", fs)].Data, o.maxData)
			}
			if o.modes {
				nd.Mode = pick(t, l+"-mode", fileModes)
			}
		}
		if o.mtimes && rapid.Bool().Draw(t, l+"-hasmtime") {
			nd.MTime = pick(t, l+"-mtime", mtimePool)
		}
		tr[name] = nd
	}
	return tr
}

// write makes the tree on disk below root, which exists.
func (tr tree) write(root string) {
	tr.writeOrder(root, tr.names())
}

func (tr tree) writeOrder(root string, names []string) {
	for _, n := range names {
		p := root + n
		nd := tr[n]
		if nd.Dir {
			infra(os.MkdirAll(p, 0755))
			continue
		}
		infra(os.MkdirAll(filepath.Dir(p), 0755))
		infra(os.WriteFile(p, nd.Data, 0644))
	}
	all := tr.names()
	// contents first
	for i := len(all) - 1; i >= 0; i-- {
		p := root + all[i]
		nd := tr[all[i]]
		infra(os.Chmod(p, nd.Mode))
		if !nd.MTime.IsZero() {
			infra(os.Chtimes(p, nd.MTime, nd.MTime))
		}
	}
}

// modules ------------------------------------------------------------------

// modInfo is what the go command says about the root of a module.
func modInfo(dir, mod string) here.Info {
	return here.Info{
		Dir:        dir,
		ImportPath: mod,
		Name:       "main",
		Module: here.Module{
			Path:      mod,
			Main:      true,
			Dir:       dir,
			GoMod:     filepath.Join(dir, "go.mod"),
			GoVersion: "1.16",
		},
	}
}

var modPaths = []string{"app", "example.com/app", "example.com/foo/bar", "a", "github.com/x/y-z/v2", "a.b", "App", "x_y"}

func genModPath(t *rapid.T) string {
	return pick(t, "modpath", modPaths)
}

// spellings ----------------------------------------------------------------

// spell writes the clean absolute name in another way that means the same.
// With dir, an absolute location on disk is one of the ways.
func spell(t *rapid.T, label, mod, dir, name string) string {
	form := intn(t, label+"-form", 0, 5)
	abs := form == 3 && dir != ""
	if name == "/" && intn(t, label+"-root", 0, 3) == 0 {
		forms := []string{"", ".", ":", mod, mod + ":", mod + ":/", "./", "x/.."}
		if dir != "" {
			forms = append(forms, dir, dir+"/")
		}
		return pick(t, label+"-rootform", forms)
	}
	s := name
	n := intn(t, label+"-noise", 0, 3)
	for i := 0; i < n; i++ {
		s = noise(t, fmt.Sprintf("%s-n%d", label, i), s, !abs)
	}
	switch {
	case abs:
		s = dir + s
	case form == 0:
		s = ":" + s
	case form == 1 || form == 2:
		s = mod + ":" + s
	}
	if intn(t, label+"-blanks", 0, 9) == 0 {
		ws := []string{"", " ", "\t", "\n", "  ", "\r\n"}
		s = pick(t, label+"-b1", ws) + s + pick(t, label+"-b2", ws)
	}
	return s
}

// noise adds elements to the slash separated absolute name that change
// nothing once it is cleaned.
func noise(t *rapid.T, label, s string, up bool) string {
	var seps []int
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			seps = append(seps, i)
		}
	}
	at := pick(t, label+"-at", seps)
	ins := pick(t, label+"-ins", []string{"/", "//", "/.", "/./.", "/zz/..", "/a/../", "/.x/..", "/a/b/../..", "/zz/yy/.././.."})
	if intn(t, label+"-end", 0, 5) == 0 {
		return s + pick(t, label+"-suffix", []string{"/", "//", "/.", "/./", "/zz/..", "/zz/../"})
	}
	// dot-dot right below the root stays there
	if up && at == 0 && intn(t, label+"-up", 0, 3) == 0 {
		ins = pick(t, label+"-dots", []string{"/..", "/../..", "/./../."})
	}
	return s[:at] + ins + s[at:]
}

// missing makes a clean name that is not in the tree, often close to one
// that is.
func genMissing(t *rapid.T, label string, tr tree) string {
	name := "/" + genName(t, label+"-fresh")
	if len(tr) > 0 && intn(t, label+"-near", 0, 4) > 0 {
		base := pick(t, label+"-base", tr.names())
		switch intn(t, label+"-how", 0, 4) {
		case 0:
			name = base + "x"
		case 1:
			name = base[:len(base)-1]
			for !utf8.ValidString(name) {
				name = name[:len(name)-1]
			}
		case 2:
			name = path.Join(base, genName(t, label+"-sub"))
		case 3:
			name = path.Join(path.Dir(base), genName(t, label+"-sib"))
		case 4:
			name = strings.ToUpper(base)
		}
	}
	name = strings.TrimSpace(path.Clean("/" + name))
	if i := strings.LastIndex(name, "/"); len(name)-i > 245 {
		name = name[:i+100] // a component the system takes, with what follows
		for !utf8.ValidString(name) {
			name = name[:len(name)-1]
		}
		name += "_"
	}
	for name == "/" || tr[name] != nil {
		name += "_"
	}
	return path.Clean(name)
}

// belowFile reports whether a parent of name is a file in the tree.
func (tr tree) belowFile(name string) bool {
	for d := path.Dir(name); d != "/"; d = path.Dir(d) {
		if nd := tr[d]; nd != nil && !nd.Dir {
			return true
		}
	}
	return false
}

// fits reports whether name can be added to the tree as it is.
func (tr tree) fits(name string) bool {
	d := path.Dir(name)
	return tr[name] == nil && len(path.Base(name)) <= 255 && len(name) < 1500 && (d == "/" || tr[d] != nil && tr[d].Dir)
}
