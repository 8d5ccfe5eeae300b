package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"pgregory.net/rapid"
)

// module is a Go module on disk.
type module struct {
	mod string
	dir string
	tr  tree // its assets
}

// scene is a module with assets and sources, and the modules it requires.
type scene struct {
	t    *rapid.T
	k    *kase
	base string
	module
	ext   []*module
	decls []*decl
	log   []string
	cwd   string
	lit   string // see srcFile.call

	nested  []string        // folders of assets that are modules of their own
	srcDirs map[string]bool // with declarations
}

// decl is one declaration in a source, or one -include.
type decl struct {
	kind string // MkdirAll, Create, Include, Stat, Open, Dir, Walk; include
	m    *module
	name string
	arg  string // as it is written
}

type sceneOpts struct {
	tree    treeOpts
	exts    int // at most
	minExts int
	src     bool     // with the real package, to be built
	noRoot  bool     // the root may be without Go files
	dirs    []string // names of the folder of the module
}

var extSeq int64

// stubDir holds a stand-in for the package, for modules that are only
// parsed: the go command must find it, no one looks inside.
func stubDir() string {
	d := filepath.Join(scratch, "stub")
	if _, err := os.Stat(d); err != nil {
		infra(os.MkdirAll(d, 0755))
		infra(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module github.com/markbates/pkger\n\ngo 1.13\n"), 0644))
		infra(os.WriteFile(filepath.Join(d, "pkger.go"), []byte("package pkger\n"), 0644))
		infra(os.MkdirAll(filepath.Join(d, "pkging/mem"), 0755))
		infra(os.WriteFile(filepath.Join(d, "pkging/mem/mem.go"), []byte("package mem\n"), 0644))
	}
	return d
}

func newScene(t *rapid.T, k *kase, o sceneOpts) *scene {
	s := &scene{t: t, k: k, base: newDir()}
	o.tree.max = max(o.tree.max, 1)
	s.mod = pick(t, "modpath", []string{"app", "example.com/app", "example.com/foo/bar", "github.com/x/y-z/v2", "a.b/c"})
	if o.dirs == nil {
		o.dirs = []string{"app", "sp ace", "src/github.com/x/y", "v2", "a.b-c"}
	}
	s.dir = filepath.Join(s.base, pick(t, "moddir", o.dirs))
	s.tr = genTree(t, "tree", o.tree)
	// the go command makes something of a vendor folder
	for _, n := range s.tr.names() {
		if within(n, "/vendor") {
			nd := s.tr[n]
			delete(s.tr, n)
			s.tr["/Vendor"+n[len("/vendor"):]] = nd
		}
	}
	infra(os.MkdirAll(s.dir, 0755))
	if intn(t, "gofiles", 0, 2) == 0 {
		s.goAssets()
	}
	if intn(t, "nested", 0, 4) == 0 {
		s.nestedModule()
	}
	s.tr.write(s.dir)
	gomod := fmt.Sprintf("module %s\n\ngo 1.16\n\nrequire github.com/markbates/pkger v0.0.0\n", s.mod)
	if o.src {
		src := os.Getenv("VP_SRC")
		gomod += fmt.Sprintf("require github.com/gobuffalo/here v0.6.0\n\nreplace github.com/markbates/pkger => %s/pkger\nreplace github.com/gobuffalo/here => %s/here\n", src, src)
	} else {
		gomod += fmt.Sprintf("\nreplace github.com/markbates/pkger => %s\n", stubDir())
	}
	exts := intn(t, "exts", o.minExts, max(o.minExts, o.exts))
	for i := 0; i < exts; i++ {
		e := &module{}
		// what is learned about a package is remembered by its name
		n := atomic.AddInt64(&extSeq, 1)
		switch intn(t, fmt.Sprintf("ext%d-name", i), 0, 3) {
		case 0:
			e.mod = fmt.Sprintf("%s/sub%d", s.mod, n)
		case 1:
			e.mod = fmt.Sprintf("%s%d", s.mod, n)
		case 2:
			e.mod = fmt.Sprintf("ext%d.com/lib/v3", n)
		default:
			e.mod = fmt.Sprintf("lib%d", n)
		}
		if strings.HasSuffix(s.mod, "/v2") && strings.HasPrefix(e.mod, s.mod) {
			e.mod = fmt.Sprintf("lib%d", n)
		}
		e.dir = filepath.Join(s.base, fmt.Sprintf("%s%d", pick(t, fmt.Sprintf("ext%d-dir", i), []string{"ext", "app", "app/../lib"}), i))
		if intn(t, fmt.Sprintf("ext%d-same", i), 0, 2) > 0 {
			// the same names, other contents
			e.tr = tree{}
			for n, nd := range s.tr {
				c := *nd
				if !c.Dir {
					c.Data = []byte("of module " + strconv.Itoa(i) + n)
				}
				e.tr[n] = &c
			}
			k.label("same names in two modules")
		} else {
			e.tr = genTree(t, fmt.Sprintf("ext%d", i), o.tree)
			for _, n := range e.tr.names() {
				if within(n, "/vendor") {
					delete(e.tr, n)
				}
			}
		}
		infra(os.MkdirAll(e.dir, 0755))
		e.tr.write(e.dir)
		infra(os.WriteFile(filepath.Join(e.dir, "go.mod"), []byte("module "+e.mod+"\n\ngo 1.16\n"), 0644))
		infra(os.WriteFile(filepath.Join(e.dir, "lib.go"), []byte("package lib\n"), 0644))
		v := "v0.0.0"
		if strings.HasSuffix(e.mod, "/v3") {
			v = "v3.0.0"
		}
		gomod += fmt.Sprintf("\nrequire %s %s\nreplace %s => %s\n", e.mod, v, e.mod, e.dir)
		s.ext = append(s.ext, e)
	}
	infra(os.WriteFile(filepath.Join(s.dir, "go.mod"), []byte(strings.Replace(gomod, s.base, relTo(s.dir, s.base), -1)), 0644))
	s.say("module %s in %s: %v", s.mod, strings.TrimPrefix(s.dir, s.base), s.tr.describe())
	for _, e := range s.ext {
		s.say("requires a module with %v", e.tr.describe())
	}
	var err error
	s.cwd, err = os.Getwd()
	infra(err)
	infra(os.Chdir(s.dir))
	return s
}

// goAssets adds Go files that are only assets: they make no package.
func (s *scene) goAssets() {
	t := s.t
	dir := pick(t, "go-dir", []string{"/testdata", "/_tmpl", "/.hid", "/a/testdata/src", "/node_modules/gen", "/testdata/sp ace"})
	for d := dir; d != "/"; d = path.Dir(d) {
		if nd := s.tr[d]; nd != nil && !nd.Dir {
			return
		}
	}
	for d := dir; d != "/"; d = path.Dir(d) {
		if s.tr[d] == nil {
			s.tr[d] = &node{Dir: true, Mode: 0755}
		}
	}
	srcs := []string{"package a\n", "package b\n", "package {{.Name}}\n", "// +build never\n\npackage c\n", "package a\n\nimport \"no/such/package\"\n", "", "package a_test\n"}
	for i, n := 0, intn(t, "go-n", 1, 3); i < n; i++ {
		l := fmt.Sprintf("go%d", i)
		name := path.Join(dir, pick(t, l+"-name", []string{"a.go", "b.go", "a_test.go", "c_windows.go", "é.go", "pkged.go", "pkged.go"}))
		if s.tr[name] == nil {
			s.tr[name] = &node{Data: []byte(pick(t, l+"-src", srcs)), Mode: 0644}
		}
	}
	s.k.label("with Go files that make no package")
}

// nestedModule puts what makes a folder a module into one of the assets: a
// template of a project, or the input of a test.
func (s *scene) nestedModule() {
	t := s.t
	var dirs []string
	for _, d := range s.tr.dirs() {
		if d != "/" && s.tr[d+"/go.mod"] == nil {
			dirs = append(dirs, d)
		}
	}
	if len(dirs) == 0 {
		return
	}
	d := pick(t, "nested-dir", dirs)
	src := pick(t, "nested-src", []string{"module nested\n", "module example.com/x/nested\n\ngo 1.16\n", "module {{.Name}}\n", "", "module " + s.mod + "\n", "module " + s.mod + d + "\n"})
	s.tr[d+"/go.mod"] = &node{Data: []byte(src), Mode: 0644}
	s.nested = append(s.nested, d)
	s.k.label("with a module among the assets")
}

// ownModule tells whether pt may be a file of a module among the assets
// (of s.mod, or of a module with the same names in it). Which
// module it is said to be of is not specified.
func (s *scene) ownModule(pt here.Path) bool {
	for _, d := range s.nested {
		if within(pt.Name, d) {
			return true
		}
	}
	return false
}

// relTo is target as seen from dir.
func relTo(dir, target string) string {
	r, err := filepath.Rel(dir, target)
	infra(err)
	return r
}

func (s *scene) say(format string, args ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(format, args...))
}

func (s *scene) done() {
	infra(os.Chdir(s.cwd))
	dropDir(s.base)
}

func (s *scene) all() []*module { return append([]*module{&s.module}, s.ext...) }

// pickModule prefers the current one.
func (s *scene) pickModule(l string) *module {
	if len(s.ext) > 0 && rapid.Bool().Draw(s.t, l+"-foreign") {
		return pick(s.t, l+"-ext", s.ext)
	}
	return &s.module
}

// spellPath writes a path of one of the modules in some way.
func (s *scene) spellPath(l string, m *module, name string) string {
	if m == &s.module {
		return spell(s.t, l, s.mod, s.dir, name)
	}
	return spellForeign(s.t, l, m.mod, name)
}

// quote writes a string as Go source.
func quote(t *rapid.T, l, s string) string {
	if utf8.ValidString(s) && !strings.ContainsAny(s, "`\r\uFEFF") && rapid.Bool().Draw(t, l+"-raw") {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

// call writes the call of a declaration with the given first argument.
func call(kind, arg string) string {
	switch kind {
	case "MkdirAll":
		return "pkger.MkdirAll(" + arg + ", 0755)"
	case "Walk":
		return "pkger.Walk(" + arg + ", nil)"
	case "Dir":
		return "_ = pkger.Dir(" + arg + ")"
	case "Include":
		return "pkger.Include(" + arg + ")"
	}
	return "_, _ = pkger." + kind + "(" + arg + ")"
}

var declKinds = []string{"Open", "Walk", "Include", "Stat", "Dir", "Create", "MkdirAll"}

// declare draws declarations of what is there.
func (s *scene) declare(n int, virtual bool) {
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("decl%d", i)
		d := &decl{m: s.pickModule(l)}
		names := d.m.tr.names()
		switch intn(s.t, l+"-what", 0, 9) {
		case 0:
			d.name = "/"
		case 1, 2, 3:
			if ds := d.m.tr.dirs(); len(ds) > 1 {
				names = ds[1:]
			}
		}
		if d.name == "" {
			if len(names) == 0 {
				d.name = "/"
			} else {
				d.name = pick(s.t, l+"-name", names)
			}
			// near another: the same, what is in it, what it is in, or what has a
			// name that begins or ends alike
			if i > 0 && len(names) > 0 && intn(s.t, l+"-near", 0, 2) == 0 {
				o := s.decls[intn(s.t, l+"-near-to", 0, i-1)].name
				var near []string
				for _, n := range d.m.tr.names() {
					if strings.HasPrefix(n, o) || strings.HasPrefix(o, n) || path.Base(n) == path.Base(o) {
						near = append(near, n)
					}
				}
				if len(near) > 0 {
					d.name = pick(s.t, l+"-nearby", near)
				}
			}
		}
		if intn(s.t, l+"-flag", 0, 5) == 0 || i > 0 && s.decls[i-1].kind == "include" && intn(s.t, l+"-flags", 0, 1) == 0 {
			d.kind = "include"
		} else if virtual && intn(s.t, l+"-virtual", 0, 3) == 0 {
			d.kind = pick(s.t, l+"-vkind", []string{"MkdirAll", "Create"})
			if rapid.Bool().Draw(s.t, l+"-fresh") {
				d.name = genMissing(s.t, l+"-new", d.m.tr)
			}
		} else {
			d.kind = pick(s.t, l+"-kind", declKinds[:5])
		}
		d.arg = s.spellPath(l+"-s", d.m, d.name)
		s.decls = append(s.decls, d)
		s.say("%s(%q)", d.kind, d.arg)
	}
}

func (s *scene) includes() []string {
	var out []string
	for _, d := range s.decls {
		if d.kind == "include" {
			out = append(out, d.arg)
		}
	}
	return out
}

// sources writes the declarations into some source files.
func (s *scene) sources(rootMain bool) {
	type file struct{ dir, name, pkg string }
	files := []file{
		{"", "main.go", "main"}, {"", "a_other.go", "main"}, {"cmd/tool", "main.go", "main"}, {"cmd/tool", "x_test.go", "main"},
		{"internal/deep/er", "deep.go", "er"}, {"pkgs", "p.go", "pkgs"},
		{"pkgs", "q.go", "pkgs"}, {"pkgs", "r.go", "pkgs"}, {"pkgs", "q_test.go", "pkgs_test"}, {"cmd/tool", "nain.go", "main"},
	}
	if rootMain {
		files = append(files, file{"", "b_other.go", "main"}, file{"", "nain.go", "main"})
	} else {
		files = files[2:]
	}
	body := map[file][]string{}
	if rootMain {
		body[files[0]] = nil
	}
	for i, d := range s.decls {
		if d.kind == "include" {
			continue
		}
		l := fmt.Sprintf("src%d", i)
		f := pick(s.t, l+"-file", files)
		if f.dir != "" {
			top := "/" + strings.Split(f.dir, "/")[0]
			if s.tr[top] != nil {
				f = files[0]
			}
		}
		arg := quote(s.t, l, d.arg)
		if rapid.Bool().Draw(s.t, l+"-const") {
			body[f] = append(body[f], fmt.Sprintf("const c%d = %s\n\nfunc f%d() {\n\t%s\n}\n", i, arg, i, call(d.kind, fmt.Sprintf("c%d", i))))
		} else {
			body[f] = append(body[f], fmt.Sprintf("func f%d() {\n\t%s\n}\n", i, call(d.kind, arg)))
		}
	}
	s.srcDirs = map[string]bool{}
	for f, b := range body {
		s.srcDirs[filepath.Join(s.dir, f.dir)] = true
		src := "package " + f.pkg + "\n\nimport \"github.com/markbates/pkger\"\n\nvar _ = pkger.Open\n\n" + strings.Join(b, "\n")
		if f == files[0] && f.dir == "" {
			src += "\nfunc main() {}\n"
		}
		infra(os.MkdirAll(filepath.Join(s.dir, f.dir), 0755))
		infra(os.WriteFile(filepath.Join(s.dir, f.dir, f.name), []byte(src), 0644))
	}
}

// entry is one file that is to be reported.
type entry struct {
	pt  here.Path
	abs string
}

// expected works out from the disk what the declarations stand for.
func (s *scene) expected() []entry {
	virtual := map[here.Path]bool{}
	for _, d := range s.decls {
		if d.kind == "MkdirAll" || d.kind == "Create" {
			virtual[here.Path{Pkg: d.m.mod, Name: d.name}] = true
		}
	}
	got := map[here.Path]string{}
	for _, d := range s.decls {
		if d.kind == "MkdirAll" || d.kind == "Create" {
			continue
		}
		infra(filepath.Walk(filepath.Join(d.m.dir, d.name), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			pt := here.Path{Pkg: d.m.mod, Name: path.Clean("/" + strings.TrimPrefix(p, d.m.dir))}
			if virtual[pt] {
				if fi.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
			got[pt] = p
			return nil
		}))
	}
	var out []entry
	for pt, abs := range got {
		out = append(out, entry{pt, abs})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pt.String() < out[j].pt.String() })
	return out
}

func entryLines(es []entry) string {
	var out []string
	for _, e := range es {
		out = append(out, e.pt.String()+" at "+e.abs)
	}
	return strings.Join(out, "\n")
}

// info is what the go command says about the module.
func (s *scene) info() here.Info {
	info, err := here.Dir(s.dir)
	if err != nil {
		s.t.Fatalf("here.Dir: %v", err)
	}
	return info
}

// parse parses the sources.
func (s *scene) parse() parser.Decls {
	decls, err := parser.Parse(s.info(), s.includes()...)
	if err != nil {
		s.t.Fatalf("Parse: %v", err)
	}
	return decls
}

// reported is what the tool says it packs.
func (s *scene) reported(decls parser.Decls) []entry {
	files, err := decls.Files()
	if err != nil {
		s.t.Fatalf("Files: %v", err)
	}
	var out []entry
	for _, f := range files {
		out = append(out, entry{f.Path, f.Abs})
		// its information is that of the folder it is in, or of the package
		// that declares it, not of some other folder
		dir := f.Abs
		if fi, err := os.Stat(dir); err != nil || !fi.IsDir() {
			dir = filepath.Dir(dir)
		}
		if f.Here.Dir != "" && f.Here.Dir != dir && f.Here.Dir != f.Here.Module.Dir && !s.srcDirs[f.Here.Dir] {
			s.t.Fatalf("%v at %s has the information of %s", f.Path, f.Abs, f.Here.Dir)
		}
		if f.Here.Module.Path != f.Path.Pkg && !s.ownModule(f.Path) {
			s.t.Fatalf("%v at %s has the information of module %s", f.Path, f.Abs, f.Here.Module.Path)
		}
	}
	return out
}

// pack packs them.
func (s *scene) pack(decls parser.Decls) []byte {
	bb := &bytes.Buffer{}
	if err := pkgutil.Stuff(bb, s.info(), decls); err != nil {
		s.t.Fatalf("Stuff: %v", err)
	}
	return bb.Bytes()
}

func unpack(t tb, payload []byte) (*mem.Pkger, embed.Data) {
	t.Helper()
	p, err := mem.UnmarshalEmbed(payload)
	if err != nil {
		t.Fatalf("unpacking: %v", err)
	}
	raw, err := embed.Decode(payload)
	if err != nil {
		t.Fatalf("decoding: %v", err)
	}
	var d embed.Data
	if err := json.Unmarshal(raw, &d); err != nil {
		t.Fatalf("decoding: %v", err)
	}
	return p, d
}

// plain reports whether a name can stand in any file of any kind.
func plain(s string) bool {
	for _, r := range s {
		if unicode.IsControl(r) || r > unicode.MaxASCII {
			return false
		}
	}
	return true
}
