package harness

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/pkgutil"
	"pgregory.net/rapid"
)

var errDisk = errors.New("no space left on this device")

// stuckWriter fails once it has taken n bytes.
type stuckWriter struct {
	n    int
	data []byte
}

func (w *stuckWriter) Write(b []byte) (int, error) {
	if len(w.data)+len(b) <= w.n {
		w.data = append(w.data, b...)
		return len(b), nil
	}
	k := w.n - len(w.data)
	w.data = append(w.data, b[:k]...)
	return k, errDisk
}

// saboteur is a declaration that, once those before it are listed, makes one
// of the listed files go away.
type saboteur struct{ act func() }

func (s saboteur) File() (*parser.File, error)       { return nil, os.ErrNotExist }
func (s saboteur) Position() (token.Position, error) { return token.Position{}, nil }
func (s saboteur) Value() (string, error)            { return "", os.ErrNotExist }
func (s saboteur) Files(map[string]string) ([]*parser.File, error) {
	s.act()
	return nil, nil
}

// sabotage packs while a file that is already listed goes away.
func (s *scene) sabotage(decls parser.Decls) {
	t := s.t
	var files, named []string
	for _, e := range s.expected() {
		if fi, err := os.Lstat(e.abs); err == nil && fi.Mode().IsRegular() && strings.HasPrefix(e.abs, s.dir+"/") {
			if _, ok := s.tr[strings.TrimPrefix(e.abs, s.dir)]; ok {
				files = append(files, e.abs)
			}
		}
	}
	for _, d := range s.decls {
		if nd := d.m.tr[d.name]; nd != nil && !nd.Dir {
			named = append(named, d.m.dir+d.name)
		}
	}
	gone := len(named) > 0 && rapid.Bool().Draw(t, "sabotage-gone")
	if gone {
		files = named
	}
	if len(files) == 0 {
		return
	}
	p := pick(t, "sabotage-file", files)
	fi, err := os.Lstat(p)
	infra(err)
	data, err := os.ReadFile(p)
	infra(err)
	bad := !gone && rapid.Bool().Draw(t, "sabotage-bad")
	act := func() {
		switch {
		case gone:
			os.Remove(p)
		case bad:
			failingReads(p)
		default:
			infra(os.Chmod(p, 0))
		}
	}
	defer func() {
		if bad {
			infra(os.Remove(p))
		}
		if gone || bad {
			infra(os.WriteFile(p, data, 0600))
		}
		infra(os.Chmod(p, fi.Mode()))
	}()
	with := append(append(parser.Decls{}, decls...), saboteur{act})
	if rapid.Bool().Draw(t, "sabotage-package") {
		out := filepath.Join(s.dir, "pkged.go")
		if err := cmds.Package(s.info(), out, with); err == nil {
			t.Fatalf("%s, listed, can not be read any more (gone: %v), but Package reports success", p, gone)
		}
		if _, err := os.Lstat(out); err == nil {
			t.Fatalf("%s, listed, can not be read any more (gone: %v), and Package leaves its output", p, gone)
		}
	} else if err := pkgutil.Stuff(&bytes.Buffer{}, s.info(), with); err == nil {
		t.Fatalf("%s, listed, can not be read any more (gone: %v), but Stuff reports success", p, gone)
	}
	s.k.label("file that goes after it is listed")
	s.k.labelIf(bad, "file that can be opened only")
}

// failingReads makes p a file that can be opened, but not read, as on a bad
// disk.
func failingReads(p string) {
	infra(os.Remove(p))
	infra(os.Symlink("/proc/self/mem", p))
}

// fault is something that goes wrong with packing a module.
type fault struct {
	name  string
	set   func() // makes it go wrong
	out   string // -o
	short int    // by how much what can be written is less than the output
	limit int    // of the size of files
	late  bool   // parsing has not met it: only a run from the start, or what follows it, can
	early bool   // nothing can be parsed
}

// genFault draws a fault. None of them depends on how packing is done: each
// makes something unreadable that has to be read, or the output unwritable.
func (s *scene) genFault(size int) fault {
	t := s.t
	// what is declared, on disk
	var files, dirs []string
	for _, e := range s.expected() {
		fi, err := os.Lstat(e.abs)
		infra(err)
		root := false
		for _, m := range s.all() {
			root = root || e.abs == m.dir || e.abs == m.dir+"/"
		}
		base := filepath.Base(e.abs)
		switch {
		case fi.IsDir() && !root:
			dirs = append(dirs, e.abs)
		case !fi.IsDir() && base != "go.mod" && !strings.HasSuffix(base, ".go"):
			files = append(files, e.abs)
		}
	}
	kinds := []string{"missing path declared", "missing path included", "package that does not exist", "source with a syntax error", "source that cannot be read",
		"-o folder that does not exist", "-o that is a file", "output folder that cannot be written", "parsed folder that cannot be read"}
	if len(files) > 0 {
		kinds = append(kinds, "declared file that cannot be read", "declared file that cannot be read", "declared file whose reading fails")
	}
	var named []string // files that are declared by their own names
	for _, d := range s.decls {
		if nd := d.m.tr[d.name]; nd != nil && !nd.Dir {
			named = append(named, d.m.dir+d.name)
		}
	}
	if len(named) > 0 {
		kinds = append(kinds, "declared file that vanishes")
	}
	if len(dirs) > 0 {
		kinds = append(kinds, "declared folder that cannot be read")
	}
	if size > 300 {
		kinds = append(kinds, "output larger than can be written", "output larger than can be written")
	}
	f := fault{name: pick(t, "fault", kinds)}
	src := func(dir, name, body string) {
		infra(os.MkdirAll(s.dir+dir, 0755))
		infra(os.WriteFile(s.dir+path.Join(dir, name), []byte(body), 0644))
	}
	folder := func() string {
		d := pick(t, "fault-dir", append(s.codeFolders(), "/faulty", "/faulty/deep/er"))
		if nd := s.tr["/faulty"]; nd != nil {
			d = "/"
		}
		return d
	}
	srcName := func() string {
		return pick(t, "fault-src", []string{"zz_broken.go", "aa_broken.go", "broken_test.go", "broken_windows.go"})
	}
	// among calls that are fine
	among := func(bad string) string {
		fine := "_, _ = pkger.Open(\"/go.mod\")"
		if intn(t, "fault-before", 0, 1) == 1 {
			bad = fine + "\n\t" + bad
		}
		if intn(t, "fault-after", 0, 1) == 1 {
			bad += "\n\t" + fine
		}
		return bad
	}
	head := "package " // of the folder it is in
	pkgOf := func(d string) string {
		es, err := os.ReadDir(s.dir + d)
		if err == nil {
			for _, e := range es {
				if strings.HasSuffix(e.Name(), ".go") && !e.IsDir() {
					b, err := os.ReadFile(filepath.Join(s.dir+d, e.Name()))
					infra(err)
					if w := strings.Fields(string(b)); len(w) > 1 && w[0] == "package" {
						return head + w[1] + "\n\n"
					}
				}
			}
		}
		return head + "faulty\n\n"
	}
	switch f.name {
	case "missing path declared":
		d, n := folder(), srcName()
		kind := pick(t, "fault-kind", declKinds[:5])
		arg := s.missing("fault")
		body := pkgOf(d) + "import \"github.com/markbates/pkger\"\n\nfunc missing() {\n\t" + among(call(kind, quote(t, "fault-q", arg))) + "\n}\n"
		f.name += " by " + kind
		f.set = func() { src(d, n, body) }
	case "missing path included":
		arg := s.missing("fault")
		f.set = func() { s.decls = append(s.decls, &decl{kind: "include", arg: arg}) }
	case "package that does not exist":
		arg := pick(t, "fault-pkg", []string{"no.such/pkg:/x", "nosuch:/", "example.com/no/such:/a/b", "-json:/", "-x", s.mod + "/nosuch:/a"})
		if rapid.Bool().Draw(t, "fault-inc") {
			f.set = func() { s.decls = append(s.decls, &decl{kind: "include", arg: arg}) }
			break
		}
		d, n := folder(), srcName()
		body := pkgOf(d) + "import \"github.com/markbates/pkger\"\n\nfunc missing() {\n\t" + among(call(pick(t, "fault-kind", declKinds[:5]), quote(t, "fault-q", arg))) + "\n}\n"
		f.set = func() { src(d, n, body) }
	case "source with a syntax error":
		d, n := folder(), srcName()
		body := pkgOf(d) + pick(t, "fault-body", []string{"func {\n", "import \"x\n", "func f() {\n", "var x = = 1\n", "\x00", "}\n", "func f() { \"a\n\" }\n", "import \"github.com/markbates/pkger\"\n\nvar _ = pkger.Open(\"/a\"\n"})
		if intn(t, "fault-empty", 0, 4) == 0 {
			body = pick(t, "fault-all", []string{"", "pakage x\n", "package\n", "// nothing\n"})
		}
		f.set = func() { src(d, n, body) }
		f.early = true
	case "source that cannot be read":
		d, n := folder(), srcName()
		body := pkgOf(d)
		f.set = func() {
			src(d, n, body)
			infra(os.Chmod(s.dir+path.Join(d, n), 0))
		}
		f.early = true
	case "parsed folder that cannot be read":
		d := pick(t, "fault-at", []string{"/locked", "/pkgs/locked", "/deep/er/locked"})
		mode := pick(t, "fault-mode", []os.FileMode{0, 0311, 0444, 0200})
		top := "/" + strings.Split(d, "/")[1]
		if s.tr[top] != nil {
			d = path.Join("/locked0", d)
		}
		f.set = func() {
			src(d, "l.go", "package locked\n")
			infra(os.Chmod(s.dir+d, mode))
		}
		f.early = true
	case "declared file that cannot be read":
		p := pick(t, "fault-file", files)
		f.set = func() { infra(os.Chmod(p, pick(t, "fault-mode", []os.FileMode{0, 0200, 0111}))) }
		f.late = true
	case "declared file whose reading fails":
		p := pick(t, "fault-file", files)
		f.set = func() { failingReads(p) }
		f.late = true
	case "declared file that vanishes":
		p := pick(t, "fault-file", named)
		f.set = func() { infra(os.Remove(p)) }
		f.late = true
	case "declared folder that cannot be read":
		p := pick(t, "fault-folder", dirs)
		f.set = func() { infra(os.Chmod(p, pick(t, "fault-mode", []os.FileMode{0, 0311, 0200}))) }
		f.late = true
	case "-o folder that does not exist":
		f.out = pick(t, "fault-out", []string{"nowhere", "nowhere/at/all", "pkgs2/x"})
		f.late = true
	case "-o that is a file":
		f.out = "go.mod"
		if fs := s.tr.files(); len(fs) > 0 && rapid.Bool().Draw(t, "fault-asset") {
			f.out = strings.TrimPrefix(pick(t, "fault-out", fs), "/")
		}
		f.late = true
	case "output folder that cannot be written":
		// either of the two
		p := s.dir
		if rapid.Bool().Draw(t, "fault-o") {
			f.out = "outdir"
			infra(os.MkdirAll(filepath.Join(s.dir, f.out), 0755))
			p = filepath.Join(s.dir, f.out)
		}
		f.set = func() {
			// an earlier one that can be written can be replaced
			if _, err := os.Stat(p + "/pkged.go"); err == nil {
				infra(os.Chmod(p+"/pkged.go", 0444))
			}
			infra(os.Chmod(p, 0555))
		}
		f.late = true
	case "output larger than can be written":
		// by much or by little
		f.short = 100 + intn(t, "fault-short", 0, 200)
		if rapid.Bool().Draw(t, "fault-much") {
			f.short = intn(t, "fault-short-much", 100, size)
		}
		f.late = true
	}
	return f
}

func TestC06(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 10, maxData: 2000}, exts: 1})
		defer s.done()
		// even of nothing
		s.declare(intn(t, "decls", 0, 4), false)
		k.labelIf(len(s.decls) == 0, "nothing declared")
		big := intn(t, "big", 0, 2) == 0 && s.tr["/big.bin"] == nil
		if big {
			s.tr["/big.bin"] = &node{Data: content{"random", 60000, 5}.bytes(), Mode: 0644}
			infra(os.WriteFile(s.dir+"/big.bin", s.tr["/big.bin"].Data, 0644))
			d := &decl{kind: "Open", m: &s.module, name: "/big.bin", arg: "/big.bin"}
			s.decls = append(s.decls, d)
			s.say("Open(%q)", d.arg)
		}
		s.sources(intn(t, "main", 0, 4) > 0)
		s.importExts()

		// nothing is wrong yet
		decls := s.parse()
		payload := s.pack(decls)

		// a writer that fails, at any point
		for i, n := 0, intn(t, "writers", 1, 3); i < n; i++ {
			at := intn(t, fmt.Sprintf("writer%d", i), 0, len(payload)-1)
			w := &stuckWriter{n: at}
			if err := pkgutil.Stuff(w, s.info(), decls); err == nil {
				t.Fatalf("Stuff to a writer that fails after %d of %d bytes reports success", at, len(payload))
			}
			k.label("writer that fails")
		}

		s.sabotage(decls)

		cmdline := intn(t, "command", 0, 1) == 0
		out := filepath.Join(s.dir, "pkged.go")
		old := intn(t, "old", 0, 2)
		if cmdline && old == 1 {
			if r := s.cli(s.includeFlags()...); r.code != 0 {
				t.Fatalf("%v", r)
			}
			k.label("with an earlier pkged.go")
		} else if old == 1 {
			info, decls := s.info(), decls
			if err := cmds.Package(info, out, decls); err != nil {
				t.Fatalf("Package: %v", err)
			}
			k.label("with an earlier pkged.go")
		}
		f := s.genFault(len(payload))
		if f.out != "" {
			out = filepath.Join(s.dir, f.out, "pkged.go")
		}
		if fi, err := os.Stat(filepath.Dir(out)); f.out != "" && old == 1 && err == nil && fi.IsDir() {
			// an earlier one is where this one goes
			infra(os.WriteFile(out, []byte("package outdir\n"), 0644))
		}
		prev, _ := os.ReadFile(out)
		s.say("fault: %s %s %d", f.name, f.out, f.short)
		if f.short > 0 && cmdline {
			// what it would write is no shorter than what it wrote, but for the
			// digits of a time or two
			if r := s.cli(s.includeFlags()...); r.code != 0 {
				t.Fatalf("%v", r)
			}
			fi, err := os.Stat(out)
			infra(err)
			f.limit = max(int(fi.Size())-f.short, min(1024, int(fi.Size())/2))
			if prev != nil {
				infra(os.WriteFile(out, prev, 0644))
			} else {
				infra(os.Remove(out))
			}
		}
		if f.set != nil {
			f.set()
		}
		before := s.snap()
		defer unlock(s.base)
		check := func(what string) {
			t.Helper()
			b, err := os.ReadFile(out)
			if err == nil && (prev == nil || !bytes.Equal(b, prev)) {
				t.Fatalf("%s: %s failed but left %s", f.name, what, clip(string(b), 300))
			} else if err != nil && f.out == "" && !os.IsNotExist(err) {
				infra(err)
			}
			after := s.snap()
			delete(before, out)
			delete(after, out)
			d := filepath.Dir(out)
			if before[d] != "" && after[d] != "" {
				before[d] = after[d] // the earlier one may have been removed
			}
			if d := diffSnaps(before, after); d != "" {
				t.Fatalf("%s: %s failed, and\n%s", f.name, what, d)
			}
		}
		switch {
		case cmdline:
			args := s.includeFlags()
			if f.out != "" {
				args = append(args, "-o", f.out)
			}
			r := command(s.dir, f.limit, args...)
			if r.code == 0 {
				t.Fatalf("%s, but %v", f.name, r)
			}
			check(r.String())
			if f.out == "" && f.short == 0 && !strings.Contains(f.name, "written") {
				if f.name != "declared file that cannot be read" && f.name != "declared file whose reading fails" {
					// a listing would not be of what is packed
					if r := s.cli(append([]string{"list"}, s.includeFlags()...)...); r.code == 0 {
						t.Fatalf("%s, but %v", f.name, r)
					}
					k.label("command list, " + f.name)
				}
			}
			k.label("command, " + f.name)
		case f.short > 0:
		default:
			again := decls
			var err error
			if !f.late || rapid.Bool().Draw(t, "again") {
				again, err = parser.Parse(s.info(), s.includes()...)
			}
			if err != nil {
				check("Parse")
				k.label("Parse, " + f.name)
				break
			}
			if f.early {
				t.Fatalf("%s, but Parse reports success", f.name)
			}
			if err := cmds.Package(s.info(), out, again); err == nil {
				t.Fatalf("%s, but Package reports success", f.name)
			}
			check("Package")
			k.label("Package, " + f.name)
			if f.out == "" && f.set != nil && !strings.HasPrefix(f.name, "output") {
				if err := pkgutil.Stuff(&bytes.Buffer{}, s.info(), again); err == nil {
					t.Fatalf("%s, but Stuff reports success", f.name)
				}
			}
		}
		k.done(true, strings.Join(s.log, "\n"), s.log)
	})
}
