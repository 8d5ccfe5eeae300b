package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// openFiles lists the descriptors of this process, apart from those that the
// runtime itself has: by number and what they stand for.
func openFiles() []string {
	ents, err := os.ReadDir("/proc/self/fd")
	infra(err)
	var out []string
	for _, e := range ents {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(to, "anon_inode:") || strings.HasPrefix(to, "/proc/") {
			continue
		}
		out = append(out, e.Name()+" "+to)
	}
	sort.Strings(out)
	return out
}

// failingWriter fails after some bytes.
type failingWriter struct{ left int }

var errFull = errors.New("no space left")

func (w *failingWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	n := w.left
	w.left = 0
	return n, errFull
}

// user does things to a package, and closes all it is given.
type user struct {
	t    *rapid.T
	k    *kase
	p    pkging.Pkger
	disk bool
	dir  string
	mod  string
	tr   tree
	log  []string
	fail int
	n    int
}

func (u *user) say(format string, args ...interface{}) {
	u.log = append(u.log, fmt.Sprintf(format, args...))
}

func (u *user) note(err error, format string, args ...interface{}) {
	if err != nil && err != io.EOF {
		u.fail++
	}
	u.say(format+": %v", append(args, err)...)
}

func (u *user) name(l string) string {
	names := u.tr.names()
	switch intn(u.t, l+"-kind", 0, 9) {
	case 0:
		return "/"
	case 1:
		return path.Join("/", genName(u.t, l+"-new"))
	case 2:
		if len(names) > 0 {
			return path.Join(pick(u.t, l+"-under", names), genName(u.t, l+"-new"))
		}
	case 3:
		return pick(u.t, l+"-odd", []string{"../..", "", "no/such/module:/x", "/go.mod", "\x00", "/a/../../b"})
	}
	if len(names) == 0 {
		return "/"
	}
	return pick(u.t, l+"-there", names)
}

// close closes, now and then more than once.
func (u *user) close(l string, f io.Closer) {
	if f == nil {
		return
	}
	f.Close()
	if intn(u.t, l+"-again", 0, 9) == 0 {
		f.Close()
	}
}

func (u *user) use(l string, f http.File) {
	t := u.t
	for i, n := 0, intn(t, l+"-uses", 0, 3); i < n; i++ {
		ll := fmt.Sprintf("%s-%d", l, i)
		switch intn(t, ll, 0, 6) {
		case 0:
			_, err := io.Copy(io.Discard, f)
			u.note(err, "  read")
		case 1:
			fis, err := f.Readdir(intn(t, ll+"-n", -1, 3))
			u.note(err, "  Readdir %d", len(fis))
		case 2:
			_, err := f.Seek(int64(intn(t, ll+"-off", -2, 20)), intn(t, ll+"-whence", 0, 3))
			u.note(err, "  Seek")
		case 3:
			_, err := f.Stat()
			u.note(err, "  Stat")
		case 4, 5:
			if d, ok := f.(http.FileSystem); ok {
				n := u.name(ll + "-name")
				g, err := d.Open(n)
				u.note(err, "  Open(%q) in it", n)
				if err == nil {
					u.use(ll+"-in", g)
					u.close(ll, g)
				}
			}
		case 6:
			if w, ok := f.(io.Writer); ok {
				_, err := w.Write([]byte("x"))
				u.note(err, "  Write")
			}
		}
	}
}

func (u *user) step() {
	t := u.t
	u.n++
	l := fmt.Sprintf("s%d", u.n)
	name := u.name(l)
	sp := name
	if strings.HasPrefix(name, "/") {
		sp = spell(t, l+"-s", u.mod, u.dir, path.Clean(name))
	}
	switch op := pick(t, l+"-op", []string{"Open", "Open", "Open", "Stat", "Walk", "Create", "Create", "MkdirAll", "Remove", "RemoveAll", "http", "http", "Dir", "marshal", "lock"}); op {
	case "Open":
		f, err := u.p.Open(sp)
		u.note(err, "Open(%q)", sp)
		if err == nil {
			u.use(l, f)
			u.close(l, f)
		}
	case "Stat":
		_, err := u.p.Stat(sp)
		u.note(err, "Stat(%q)", sp)
	case "Walk":
		n, how := intn(t, l+"-after", 0, 8), intn(t, l+"-how", 0, 3)
		err := u.p.Walk(sp, func(p string, fi os.FileInfo, err error) error {
			n--
			switch {
			case n < 0 && how == 0:
				return errStop
			case n < 0 && how == 1:
				return filepath.SkipDir
			case n%3 == 0 && how == 2:
				f, err := u.p.Open(p)
				if err == nil {
					io.Copy(io.Discard, f)
					f.Close()
				}
			}
			return err
		})
		u.note(err, "Walk(%q)", sp)
	case "Create":
		f, err := u.p.Create(sp)
		u.note(err, "Create(%q)", sp)
		if err == nil {
			if rapid.Bool().Draw(t, l+"-write") {
				f.Write([]byte("contents"))
			}
			u.use(l, f)
			u.close(l, f)
		}
	case "MkdirAll":
		u.note(u.p.MkdirAll(sp, 0755), "MkdirAll(%q)", sp)
	case "Remove":
		u.note(u.p.Remove(sp), "Remove(%q)", sp)
	case "RemoveAll":
		if path.Clean(name) == "/" || !strings.HasPrefix(name, "/") || strings.HasPrefix(path.Clean(name), "/..") {
			return
		}
		u.note(u.p.RemoveAll(sp), "RemoveAll(%q)", sp)
	case "http", "Dir":
		var h http.Handler
		if op == "Dir" {
			useAsCurrent(u.p)
			h = http.FileServer(pkger.Dir(sp))
		} else {
			f, err := u.p.Open(sp)
			u.note(err, "Open(%q) to serve", sp)
			if err != nil {
				return
			}
			defer u.close(l, f)
			h = http.FileServer(f)
		}
		for i, n := 0, intn(t, l+"-requests", 1, 4); i < n; i++ {
			root := "/"
			if nd := u.tr[path.Clean(name)]; nd != nil && nd.Dir {
				root = path.Clean(name)
			}
			r := genRequest(t, fmt.Sprintf("%s-r%d", l, i), root, u.tr)
			resp := ask(h, r)
			u.say("%s of %q: %d", r, sp, resp.Status)
			if resp.Status >= 400 {
				u.fail++
			}
		}
	case "marshal":
		if p, ok := u.p.(*mem.Pkger); ok {
			b, err := p.MarshalJSON()
			u.note(err, "marshal")
			q := &mem.Pkger{}
			u.note(q.UnmarshalJSON(b), "unmarshal")
		}
	case "lock":
		// what the operating system refuses
		if n := path.Clean(name); u.disk && u.tr[n] != nil {
			err := os.Chmod(u.dir+n, pick(t, l+"-mode", []os.FileMode{0, 0100, 0200, 0400, 0500}))
			u.note(err, "chmod %s", n)
		}
	}
}

// add adds from disk to memory, with and without success.
func (u *user) add(p *mem.Pkger, l string) {
	var fs []*os.File
	for i, n := 0, intn(u.t, l+"-n", 1, 3); i < n; i++ {
		name := u.name(fmt.Sprintf("%s%d", l, i))
		if !strings.HasPrefix(name, "/") {
			continue
		}
		f, err := os.Open(filepath.Join(u.dir, name))
		if err != nil {
			continue
		}
		if intn(u.t, fmt.Sprintf("%s%d-closed", l, i), 0, 5) == 0 {
			f.Close()
		}
		fs = append(fs, f)
	}
	u.note(p.Add(fs...), "Add of %d", len(fs))
	for _, f := range fs {
		f.Close()
	}
}

// packing is all of what the tool does.
func (u *user) packing(s *scene) {
	t := u.t
	info := s.info()
	decls, err := parser.Parse(info, s.includes()...)
	u.note(err, "Parse")
	if err != nil {
		return
	}
	if files := s.tr.files(); len(files) > 0 && rapid.Bool().Draw(t, "lockfile") {
		n := pick(t, "locked", files)
		os.Chmod(s.dir+n, 0)
		u.say("%s cannot be read", n)
	}
	if ds := s.tr.dirs(); len(ds) > 1 && intn(t, "lockdir", 0, 3) == 0 {
		n := pick(t, "lockeddir", ds[1:])
		os.Chmod(s.dir+n, pick(t, "lockeddirmode", []os.FileMode{0, 0400, 0100}))
		u.say("folder %s cannot be read", n)
	}
	_, err = decls.Files()
	u.note(err, "Files")
	var w io.Writer = &bytes.Buffer{}
	if rapid.Bool().Draw(t, "failing") {
		w = &failingWriter{pick(t, "left", []int{0, 1, 100, 1000})}
	}
	u.note(pkgutil.Stuff(w, info, decls), "Stuff")
	out := filepath.Join(s.dir, pick(t, "out", []string{"pkged.go", "no/such/folder/pkged.go", "main.go/pkged.go"}))
	u.note(cmds.Package(info, out, decls), "Package")
}

func TestC23(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		// no finalizer closes what is left open
		old := debug.SetGCPercent(-1)
		defer func() {
			debug.SetGCPercent(old)
			runtime.GC()
		}()
		u := &user{t: t, k: k}
		kind := pick(t, "what", []string{"disk", "disk", "disk", "mem", "wrapped", "mem", "packing"})
		k.label("%s", kind)
		if kind == "packing" {
			s := newScene(t, k, sceneOpts{tree: treeOpts{max: 8, maxData: 3000}, exts: 1})
			defer s.done()
			u.dir, u.mod, u.tr = s.dir, s.mod, s.tr
			s.declare(intn(t, "decls", 1, 4), true)
			s.sources(true)
			if intn(t, "broken", 0, 2) == 0 {
				src := pick(t, "src", []string{"package main\n\nfunc {", "", "package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc f() { pkger.Open(\"/no/such/file\"); pkger.Open(\"no/such/module:/x\") }\n"})
				infra(os.WriteFile(filepath.Join(s.dir, "broken.go"), []byte(src), 0644))
				u.say("a source is %q", src)
			}
			before := openFiles()
			u.packing(s)
			u.check(before)
			k.labelIf(u.fail > 0, "with failures")
			k.done(len(u.log) > 2, strings.Join(append(s.log, u.log...), "\n"), append(s.log, u.log...))
			return
		}
		base := newDir()
		defer dropDir(base)
		u.mod = genModPath(t)
		u.dir = filepath.Join(base, "app")
		infra(os.MkdirAll(u.dir, 0755))
		u.tr = genTree(t, "tree", treeOpts{max: 12, maxData: 3000})
		u.tr.write(u.dir)
		infra(os.WriteFile(filepath.Join(u.dir, "go.mod"), []byte("module "+u.mod+"\n\ngo 1.16\n"), 0644))
		before := openFiles()
		dp, err := stdos.New(modInfo(u.dir, u.mod))
		if err != nil {
			t.Fatalf("stdos.New: %v", err)
		}
		mp, err := memOf(u.dir, u.mod, osTree(u.dir))
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		u.disk = kind != "mem"
		switch kind {
		case "disk":
			u.p = dp
		case "mem":
			u.p = mp
		default:
			u.p = pkging.Wrap(dp, mp)
			if rapid.Bool().Draw(t, "upside-down") {
				u.p = pkging.Wrap(mp, dp)
			}
		}
		steps := intn(t, "steps", 2, 14)
		for i := 0; i < steps; i++ {
			u.step()
			if i == steps/2 && intn(t, "adding", 0, 3) == 0 {
				infra(os.MkdirAll(u.dir, 0755))
				infra(os.WriteFile(filepath.Join(u.dir, "go.mod"), []byte("module "+u.mod+"\n\ngo 1.16\n"), 0644))
				infra(os.WriteFile(filepath.Join(u.dir, "main.go"), []byte("package main\n"), 0644))
				u.add(mp, "add")
				k.label("Add")
			}
			u.check(before)
		}
		k.labelIf(u.fail > 0, "with failures")
		k.done(true, strings.Join(u.log, "\n"), u.log)
	})
}

func (u *user) check(before []string) {
	now := openFiles()
	if len(now) > len(before) {
		was := map[string]bool{}
		for _, f := range before {
			was[f] = true
		}
		var more []string
		for _, f := range now {
			if !was[f] {
				more = append(more, f)
			}
		}
		u.t.Fatalf("files are left open:\n%s\n%s", strings.Join(more, "\n"), strings.Join(u.log, "\n"))
	}
}
