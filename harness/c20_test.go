package harness

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// change does one operation to a path of one module, through a package, and
// through the os to a folder that stands for the module.
func (s *scene) change(l string, p pkging.Pkger, m *module, twin string, strict bool) string {
	t := s.t
	var names []string
	for _, n := range osTree(twin) {
		if n != "/" && n != "/go.mod" && n != "/lib.go" && !strings.HasSuffix(n, ".go") {
			names = append(names, n)
		}
	}
	name := "/" + genName(t, l+"-name")
	if len(names) > 0 && intn(t, l+"-near", 0, 3) > 0 {
		name = pick(t, l+"-exist", names)
		if rapid.Bool().Draw(t, l+"-below") {
			name = path.Join(name, genName(t, l+"-sub"))
		}
	}
	if name == "/vendor" || strings.HasPrefix(name, "/vendor/") {
		return "" // the go command refuses the module
	}
	sp := s.spellPath(l+"-s", m, name)
	real := twin + name
	var err, oerr error
	op := pick(t, l+"-op", []string{"Create", "MkdirAll", "Remove", "RemoveAll"})
	if op == "RemoveAll" {
		for d := path.Dir(name); d != "/"; d = path.Dir(d) {
			if fi, err := os.Lstat(twin + d); err == nil && !fi.IsDir() {
				return "" // either way
			}
		}
	}
	switch op {
	case "Create":
		data := genContent(t, l+"-data", 300)
		var f pkging.File
		if f, err = p.Create(sp); err == nil {
			if f.Path() != (here.Path{Pkg: m.mod, Name: name}) {
				t.Fatalf("Create(%q) has path %v", sp, f.Path())
			}
			if got := f.Info().Module.Path; got != m.mod {
				t.Fatalf("Create(%q) belongs to module %q, want %q", sp, got, m.mod)
			}
			if _, err := f.Write(append([]byte(nil), data...)); err != nil {
				t.Fatalf("writing %q: %v", sp, err)
			}
			if err := f.Close(); err != nil {
				t.Fatalf("closing %q: %v", sp, err)
			}
		}
		oerr = os.WriteFile(real, data, 0644)
	case "MkdirAll":
		err, oerr = p.MkdirAll(sp, 0755), os.MkdirAll(real, 0755)
	case "Remove":
		err, oerr = p.Remove(sp), os.Remove(real)
	case "RemoveAll":
		err, oerr = p.RemoveAll(sp), os.RemoveAll(real)
	}
	if (err == nil) != (oerr == nil) || strict && !sameErr(err, oerr) {
		t.Fatalf("%s(%q): %v; os: %v", op, sp, err, oerr)
	}
	s.say("%s(%q) = %v", op, sp, err)
	s.k.labelIf(err == nil && m != &s.module, op+" in another module")
	if err != nil {
		return ""
	}
	return op
}

// contents lists what a package holds of a module, without its root and the
// files every module has.
func contents(t tb, p pkging.Pkger, mod string) []string {
	var out []string
	err := p.Walk(mod+":/", func(name string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !strings.HasPrefix(name, mod+":/") {
			t.Fatalf("Walk(%s:/) visits %q", mod, name)
		}
		n := strings.TrimPrefix(name, mod+":")
		if n == "/" {
			return nil
		}
		line := fmt.Sprintf("%s %v", n, fi.IsDir())
		f, err := p.Open(name)
		if err != nil {
			t.Fatalf("Open(%q), which Walk visits: %v", name, err)
		}
		defer f.Close()
		if f.Path() != (here.Path{Pkg: mod, Name: n}) {
			t.Fatalf("Open(%q) has path %v", name, f.Path())
		}
		if !fi.IsDir() {
			b, err := io.ReadAll(f)
			if err != nil {
				t.Fatalf("reading %q: %v", name, err)
			}
			line += " " + sum(b)
		}
		out = append(out, line)
		return nil
	})
	if err != nil && !os.IsNotExist(err) {
		t.Fatalf("Walk(%s:/): %v", mod, err)
	}
	return out
}

func osContents(root string) []string {
	var out []string
	infra(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := path.Clean("/" + strings.TrimPrefix(p, root))
		if n == "/" {
			return nil
		}
		line := fmt.Sprintf("%s %v", n, fi.IsDir())
		if !fi.IsDir() {
			b, err := os.ReadFile(p)
			infra(err)
			line += " " + sum(b)
		}
		out = append(out, line)
		return nil
	}))
	return out
}

func (s *scene) compareModules(what string, p pkging.Pkger, twins map[*module]string) {
	for _, m := range s.all() {
		got, want := strings.Join(contents(s.t, p, m.mod), "\n"), strings.Join(osContents(twins[m]), "\n")
		if got != want {
			s.t.Fatalf("%s holds of module %s\n%s\nwant\n%s", what, m.mod, got, want)
		}
	}
}

func TestC20(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 9, maxData: 5000}, minExts: 1, exts: 2})
		defer s.done()
		s.declare(intn(t, "decls", 1, 5), false)
		if rapid.Bool().Draw(t, "everything") {
			for i, m := range s.all() {
				d := &decl{m: m, kind: pick(t, fmt.Sprintf("all%d", i), []string{"Walk", "Dir", "include", "Open"}), name: "/"}
				d.arg = s.spellPath(fmt.Sprintf("all%d-s", i), m, "/")
				s.decls = append(s.decls, d)
			}
			k.label("all of all modules")
		}
		s.sources(intn(t, "main", 0, 4) > 0)
		es := s.expected()

		// listed under the path of the module
		decls := s.parse()
		if got := s.reported(decls); entryLines(got) != entryLines(es) {
			t.Fatalf("reported\n%s\nwant\n%s", entryLines(got), entryLines(es))
		}
		disk, err := stdos.New(s.info())
		if err != nil {
			t.Fatalf("stdos.New: %v", err)
		}
		payload := s.pack(decls)
		packed, _ := unpack(t, payload)
		foreign := 0
		for _, e := range es {
			s.checkPacked(packed, e)
			s.checkPacked(disk, e)
			if e.pt.Pkg != s.mod {
				foreign++
			}
		}
		byMod := map[string]*module{}
		for _, m := range s.all() {
			byMod[m.mod] = m
		}
		for _, op := range s.genOps("op", es, intn(t, "ops", 2, 8), false) {
			if x, y := runOp(disk, op), runOp(packed, op); x != y {
				t.Fatalf("%+v: on disk\n%s\npacked\n%s", op, x, y)
			}
		}
		for _, e := range es {
			m := byMod[e.pt.Pkg]
			for _, p := range []pkging.Pkger{disk, packed} {
				f, err := p.Open(e.pt.String())
				if err != nil {
					t.Fatalf("Open(%v): %v", e.pt, err)
				}
				if got := f.Info().Module; (got.Path != m.mod || got.Dir != m.dir) && !s.ownModule(e.pt) {
					t.Fatalf("%v opened by %T belongs to %+v, want %s in %s", e.pt, p, got, m.mod, m.dir)
				}
				if fi, err := f.Stat(); err == nil && fi.IsDir() {
					// what is opened through it is of the same module
					for _, x := range es {
						if x.pt.Pkg != e.pt.Pkg || path.Dir(x.pt.Name) != e.pt.Name || x.pt.Name == "/" {
							continue
						}
						g, err := f.Open("/" + path.Base(x.pt.Name))
						if err != nil {
							t.Fatalf("opening %q through %v by %T: %v", path.Base(x.pt.Name), e.pt, p, err)
						}
						xfi, err := os.Stat(x.abs)
						infra(err)
						gfi, err := g.Stat()
						if err != nil || metaOf(gfi) != metaOf(xfi) {
							t.Fatalf("%v opened through its folder: %v, %v", x.pt, gfi, err)
						}
						if !xfi.IsDir() {
							b, err := io.ReadAll(g)
							want, werr := os.ReadFile(x.abs)
							infra(werr)
							if err != nil || string(b) != string(want) {
								t.Fatalf("%v opened through its folder holds %s, %v, want %s", x.pt, sum(b), err, sum(want))
							}
						}
						g.Close()
					}
				}
				f.Close()
			}
		}

		if intn(t, "process", 0, 2) == 0 {
			// by the functions of pkger, in a process of their own
			ops := s.genOps("gop", es, intn(t, "gops", 3, 10), true)
			var out opsOut
			if err := startAgent("ops", s.dir, opsIn{ops, payload}, &out); err != nil {
				t.Fatalf("running: %v", err)
			}
			for i, op := range ops {
				if out.Dev[i] != out.Packed[i] {
					t.Fatalf("pkger: %+v: on disk\n%s\npacked\n%s", op, out.Dev[i], out.Packed[i])
				}
			}
			k.label("in another process")
		}

		// changes of one module's paths do not reach the other's
		if rapid.Bool().Draw(t, "change-disk") {
			twins := map[*module]string{}
			for i, m := range s.all() {
				d := filepath.Join(s.base, fmt.Sprintf("twin%d", i))
				copyTree(m.dir, d)
				twins[m] = d
			}
			for i, n := 0, intn(t, "changes", 1, 8); i < n; i++ {
				l := fmt.Sprintf("ch%d", i)
				m := s.pickModule(l)
				s.change(l, disk, m, twins[m], true)
				for _, m := range s.all() {
					got, want := strings.Join(osContents(m.dir), "\n"), strings.Join(osContents(twins[m]), "\n")
					if got != want {
						t.Fatalf("after the same changes module %s holds\n%s\nand its twin\n%s", m.mod, got, want)
					}
				}
			}
			s.compareModules("disk", disk, twins)
			k.label("changed on disk")
		} else {
			// in memory, where folders stand for what is packed
			twins := map[*module]string{}
			q := packed
			if rapid.Bool().Draw(t, "new") {
				if q, err = mem.New(s.info()); err != nil {
					t.Fatalf("mem.New: %v", err)
				}
				es = nil
			}
			for i, m := range s.all() {
				d := filepath.Join(s.base, fmt.Sprintf("twin%d", i))
				infra(os.Mkdir(d, 0755))
				twins[m] = d
			}
			skip := false
			for _, e := range es {
				to := twins[byMod[e.pt.Pkg]] + e.pt.Name
				if _, err := os.Stat(filepath.Dir(to)); err != nil {
					skip = true // files without their folders
					break
				}
				if fi, err := os.Stat(e.abs); err == nil && fi.IsDir() {
					os.Mkdir(to, 0755)
				} else {
					b, err := os.ReadFile(e.abs)
					infra(err)
					infra(os.WriteFile(to, b, 0644))
				}
			}
			if !skip {
				s.compareModules("the package", q, twins)
				for i, n := 0, intn(t, "changes", 1, 10); i < n; i++ {
					l := fmt.Sprintf("ch%d", i)
					m := s.pickModule(l)
					if _, err := q.Info(m.mod); err != nil {
						continue // of a module it does not know
					}
					s.change(l, q, m, twins[m], false)
					s.compareModules("the package", q, twins)
				}
				k.label("changed in memory")
			}
		}
		k.labelIf(foreign > 0, "packed from another module")
		k.done(foreign > 0, strings.Join(s.log, "\n"), s.log)
	})
}

func copyTree(from, to string) {
	infra(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		q := to + strings.TrimPrefix(p, from)
		if fi.IsDir() {
			return os.MkdirAll(q, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0644)
	}))
}
