package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// A reference file system, and a machine that does the same to it and to an
// in-memory package.

type mfile struct {
	dir   bool
	mode  os.FileMode
	data  []byte
	open  *writer   // a handle from Create that is not closed yet
	mtime int64     // 0: unknown
	born  time.Time // of a file from Create: before it was there
	done  time.Time // and after it was closed
}

// heldFile is a handle that stays open while the tree changes.
type heldFile struct {
	pt   here.Path
	f    pkging.File
	want []byte
}

type writer struct {
	pt   here.Path
	f    pkging.File
	buf  []byte
	node *mfile
}

type memMachine struct {
	t     *rapid.T
	k     *kase
	p     *mem.Pkger
	mods  []string // the first is the current module
	infos map[string]here.Info
	fs    map[here.Path]*mfile
	// rootKnown: something was made in the module, so its root is there.
	rootKnown map[string]bool
	writers   []*writer
	closed    []*writer // that may be closed once more
	readers   []*heldFile
	log       []string
	depth     int
	mutations int
	rejected  int
	n         int
}

func (m *memMachine) say(format string, args ...interface{}) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
}

func newMemMachine(t *rapid.T, k *kase) *memMachine {
	m := &memMachine{t: t, k: k, fs: map[here.Path]*mfile{}, rootKnown: map[string]bool{}}
	mod := genModPath(t)
	other := pick(t, "other", []string{"other", "example.com/other", mod + "x", mod + "/sub", "example.com"})
	m.mods = []string{mod, other}
	m.infos = map[string]here.Info{mod: modInfo("/src/"+path.Base(mod), mod), other: modInfo("/elsewhere/"+path.Base(other), other)}
	for i, md := range m.mods {
		info := m.infos[md]
		switch intn(t, fmt.Sprintf("info%d", i), 0, 5) {
		case 0:
			// no Go files in the root
			info.ImportPath, info.Name = "", ""
			k.label("without an import path")
		case 1:
			info.Imports = []string{"fmt", "github.com/markbates/pkger", "é"}
			info.Module.Main = i > 0
			info.Module.GoVersion = ""
		}
		m.infos[md] = info
	}
	switch intn(t, "start", 0, 2) {
	case 0:
		p, err := mem.New(m.infos[mod])
		if err != nil {
			t.Fatalf("mem.New: %v", err)
		}
		m.p = p
		delete(m.infos, other)
		k.label("start new")
	default:
		// an unpacked payload, with files of both modules
		d := embed.Data{Infos: map[string]here.Info{}, Here: m.infos[mod], Files: map[string]embed.File{}}
		for md, info := range m.infos {
			d.Infos[md], d.Infos[info.ImportPath] = info, info
		}
		// what is packed has the information of the package of its folder
		pkgs := map[string]here.Info{}
		for i, md := range m.mods {
			if rapid.Bool().Draw(t, fmt.Sprintf("package%d", i)) {
				info := m.infos[md]
				info.Dir, info.ImportPath, info.Name = path.Join(info.Module.Dir, "sub/pkg"), path.Join(md, "sub/pkg"), "pkg"
				info.GoFiles, info.Doc, info.Target = []string{"pkg.go"}, "Package pkg.", "/pkg.a"
				pkgs[md] = info
				if rapid.Bool().Draw(t, fmt.Sprintf("package%d-known", i)) {
					d.Infos[info.ImportPath] = info
				}
				k.label("with the information of a package")
			}
		}
		for i, md := range m.mods {
			tr := genTree(t, fmt.Sprintf("init%d", i), treeOpts{max: 6, maxData: 600, modes: true, mtimes: true})
			if len(tr) == 0 {
				continue
			}
			tr2 := tree{"/": &node{Dir: true, Mode: 0755}}
			for n, nd := range tr {
				tr2[n] = nd
			}
			m.rootKnown[md] = true
			for _, n := range append([]string{"/"}, tr.names()...) {
				nd := tr2[n]
				pt := here.Path{Pkg: md, Name: n}
				name := path.Base(n)
				if n == "/" {
					name = filepath.Base(m.infos[md].Dir)
				}
				mode := nd.Mode
				if nd.Dir {
					mode |= os.ModeDir
				}
				mt := nd.MTime
				if mt.IsZero() {
					mt = mtimePool[4]
				}
				fi := &pkging.FileInfo{Details: pkging.Details{Name: name, Size: int64(len(nd.Data)), Mode: mode, ModTime: pkging.ModTime(mt), IsDir: nd.Dir}}
				her := m.infos[md]
				if info, ok := pkgs[md]; ok && rapid.Bool().Draw(t, fmt.Sprintf("init%d-%q-of-package", i, n)) {
					her = info
				}
				d.Files[pt.String()] = embed.File{Info: fi, Here: her, Path: pt, Data: nd.Data}
				m.fs[pt] = &mfile{dir: nd.Dir, mode: mode, data: nd.Data, mtime: timeKey(mt)}
			}
		}
		p, err := memFromData(d)
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		m.p = p
		k.label("start unpacked")
	}
	return m
}

func (m *memMachine) paths(mod string, dirOnly bool) []string {
	var out []string
	for pt, f := range m.fs {
		if pt.Pkg == mod && pt.Name != "/" && (f.dir || !dirOnly) {
			out = append(out, pt.Name)
		}
	}
	sort.Strings(out)
	return out
}

// genPath draws a path: of something there, next to it, or below it.
func (m *memMachine) genPath(label string) here.Path {
	mod := m.mods[0]
	if intn(m.t, label+"-mod", 0, 4) == 0 {
		mod = m.mods[1]
	}
	parent := "/"
	switch intn(m.t, label+"-kind", 0, 9) {
	case 0, 1, 2:
		if ps := m.paths(mod, false); len(ps) > 0 {
			return here.Path{Pkg: mod, Name: pick(m.t, label+"-exist", ps)}
		}
	case 3, 4, 5, 6:
		if ps := m.paths(mod, true); len(ps) > 0 {
			parent = pick(m.t, label+"-dir", ps)
		}
	case 7:
		if ps := m.paths(mod, false); len(ps) > 0 {
			parent = pick(m.t, label+"-any", ps)
		}
	}
	name := path.Join(parent, genName(m.t, label+"-name"))
	if intn(m.t, label+"-more", 0, 5) == 0 {
		name = path.Join(name, genName(m.t, label+"-name2"))
	}
	return here.Path{Pkg: mod, Name: name}
}

func (m *memMachine) spell(label string, pt here.Path) string {
	if pt.Pkg == m.mods[0] {
		return spell(m.t, label, pt.Pkg, m.infos[pt.Pkg].Dir, pt.Name)
	}
	s := pt.Name
	if rapid.Bool().Draw(m.t, label+"-noisy") {
		s = noise(m.t, label+"-noise", s, true)
	}
	return pt.Pkg + ":" + s
}

func (m *memMachine) parentState(pt here.Path) (exists, file bool) {
	exists = true
	for d := path.Dir(pt.Name); d != "/"; d = path.Dir(d) {
		f := m.fs[here.Path{Pkg: pt.Pkg, Name: d}]
		if f == nil {
			exists = false
		} else if !f.dir {
			file = true
		}
	}
	return exists, file
}

func (m *memMachine) hasBelow(pt here.Path) bool {
	for k := range m.fs {
		if k.Pkg == pt.Pkg && k != pt && within(k.Name, pt.Name) {
			return true
		}
	}
	return false
}

func (m *memMachine) setRoot(mod string, perm os.FileMode) {
	m.rootKnown[mod] = true
	pt := here.Path{Pkg: mod, Name: "/"}
	if m.fs[pt] == nil {
		m.fs[pt] = &mfile{dir: true, mode: os.ModeDir | perm}
	}
}

var permPool = []os.FileMode{0755, 0700, 0777, 0750, 0711, 0500, 0}

func (m *memMachine) mkdirAll() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	pt := m.genPath(l)
	perm := pick(m.t, l+"-perm", permPool)
	s := m.spell(l+"-s", pt)
	err := m.p.MkdirAll(s, perm)
	m.say("MkdirAll(%q, %v) = %v", s, perm, err)
	_, file := m.parentState(pt)
	if f := m.fs[pt]; f != nil && !f.dir {
		file = true
	}
	if file {
		m.rejected++
		if err == nil {
			m.t.Fatalf("MkdirAll(%q) over or below a file succeeds", s)
		}
		return
	}
	if err != nil {
		m.t.Fatalf("MkdirAll(%q): %v", s, err)
	}
	m.setRoot(pt.Pkg, perm)
	for d := pt.Name; d != "/"; d = path.Dir(d) {
		k := here.Path{Pkg: pt.Pkg, Name: d}
		if m.fs[k] == nil {
			m.fs[k] = &mfile{dir: true, mode: os.ModeDir | perm}
			m.mutations++
		}
	}
}

func (m *memMachine) create() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	pt := m.genPath(l)
	if f := m.fs[pt]; f != nil && f.open != nil {
		// two writers of one file: outside the domain
		return
	}
	s := m.spell(l+"-s", pt)
	born := time.Now()
	f, err := m.p.Create(s)
	m.say("Create(%q) = %v", s, err)
	exists, file := m.parentState(pt)
	old := m.fs[pt]
	if _, known := m.infos[pt.Pkg]; !known || !exists || file || (old != nil && old.dir) || pt.Name == "/" {
		m.rejected++
		if err == nil {
			m.t.Fatalf("Create(%q) over a folder, below a missing folder or a file, or in an unknown module succeeds", s)
		}
		return
	}
	if err != nil {
		m.t.Fatalf("Create(%q): %v", s, err)
	}
	m.mutations++
	m.setRoot(pt.Pkg, 0755)
	if got := f.Path(); got != pt {
		m.t.Fatalf("Create(%q) has path %v, want %v", s, got, pt)
	}
	n := &mfile{mode: 0644, born: born}
	if old != nil {
		n.mode = 0 // os keeps it, the package says 0644: either
	}
	m.fs[pt] = n
	w := &writer{pt: pt, f: f, node: n}
	n.open = w
	m.writers = append(m.writers, w)
	m.write(w, l)
	if intn(m.t, l+"-later", 0, 4) > 0 {
		m.close(w)
	} else {
		m.k.label("closed later")
	}
}

func (m *memMachine) write(w *writer, l string) {
	n := intn(m.t, l+"-chunks", 0, 3)
	for i := 0; i < n; i++ {
		b := genContent(m.t, fmt.Sprintf("%s-w%d", l, i), 5000)
		c := append([]byte(nil), b...)
		k, err := w.f.Write(c)
		if err != nil || k != len(c) {
			m.t.Fatalf("writing %d bytes to %v: %d, %v", len(c), w.pt, k, err)
		}
		// the caller may use its buffer again
		for i := range c {
			c[i] = 'X'
		}
		w.buf = append(w.buf, b...)
	}
	m.say("write %d chunks to %v", n, w.pt)
}

func (m *memMachine) close(w *writer) {
	if err := w.f.Close(); err != nil {
		m.t.Fatalf("closing %v: %v", w.pt, err)
	}
	m.say("close %v", w.pt)
	w.node.open = nil
	w.node.done = time.Now()
	m.closed = append(m.closed, w)
	w.node.data = append([]byte(nil), w.buf...)
	for i, x := range m.writers {
		if x == w {
			m.writers = append(m.writers[:i:i], m.writers[i+1:]...)
			break
		}
	}
}

// closeAgain closes a closed handle once more, as a deferred Close does
// after an explicit one: for os that is an error without effect.
func (m *memMachine) closeAgain() {
	if len(m.closed) == 0 {
		return
	}
	w := m.closed[intn(m.t, fmt.Sprintf("op%d-again", m.n), 0, len(m.closed)-1)]
	w.f.Close()
	m.say("close %v again", w.pt)
	m.k.label("closed twice")
}

// hold opens a file that is there and reads a part of it, the rest is read
// when the tree has changed.
func (m *memMachine) hold() {
	l := fmt.Sprintf("op%d", m.n)
	var have []here.Path
	for pt, f := range m.fs {
		if !f.dir && f.open == nil {
			have = append(have, pt)
		}
	}
	if len(have) == 0 {
		return
	}
	sort.Slice(have, func(i, j int) bool { return have[i].String() < have[j].String() })
	pt := pick(m.t, l+"-held", have)
	f, err := m.p.Open(pt.String())
	if err != nil {
		m.t.Fatalf("Open(%v): %v", pt, err)
	}
	r := &heldFile{pt: pt, f: f, want: m.fs[pt].data}
	if rapid.Bool().Draw(m.t, l+"-part") && len(r.want) > 0 {
		b := make([]byte, 1+len(r.want)/2)
		if n, err := io.ReadFull(f, b); err != nil || !bytes.Equal(b, r.want[:n]) {
			m.t.Fatalf("reading the beginning of %v: %s, %v, want %s", pt, sum(b[:n]), err, sum(r.want[:n]))
		}
		r.want = r.want[len(b):]
	}
	m.readers = append(m.readers, r)
	m.say("hold %v open", pt)
}

// release reads what the handles kept open have yet to read.
func (m *memMachine) release() {
	for _, r := range m.readers {
		b, err := io.ReadAll(r.f)
		if err != nil || !bytes.Equal(b, r.want) {
			m.t.Fatalf("reading %v through a handle from before the last changes: %s, %v, want %s", r.pt, sum(b), err, sum(r.want))
		}
		if err := r.f.Close(); err != nil {
			m.t.Fatalf("closing %v: %v", r.pt, err)
		}
		m.k.labelIf(m.fs[r.pt] == nil, "read after removal")
	}
	m.readers = nil
}

func (m *memMachine) closeOne() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	switch intn(m.t, l+"-kind", 0, 3) {
	case 0:
		m.closeAgain()
		return
	case 1:
		m.hold()
		return
	}
	if len(m.writers) == 0 {
		return
	}
	w := m.writers[intn(m.t, l+"-which", 0, len(m.writers)-1)]
	m.k.labelIf(m.fs[w.pt] != w.node, "closed after removal")
	m.write(w, l)
	m.close(w)
}

func (m *memMachine) remove() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	pt := m.genPath(l)
	s := m.spell(l+"-s", pt)
	err := m.p.Remove(s)
	m.say("Remove(%q) = %v", s, err)
	f := m.fs[pt]
	switch {
	case f == nil:
		m.rejected++
		if err == nil {
			m.t.Fatalf("Remove(%q), which is not there, succeeds", s)
		}
		if _, file := m.parentState(pt); !file && !isNotExist(err) {
			m.t.Fatalf("Remove(%q), which is not there: %v does not satisfy os.IsNotExist", s, err)
		}
	case f.dir && m.hasBelow(pt):
		m.rejected++
		m.k.label("remove non-empty")
		if err == nil {
			m.t.Fatalf("Remove(%q), a folder that is not empty, succeeds", s)
		}
	default:
		if err != nil {
			m.t.Fatalf("Remove(%q): %v", s, err)
		}
		m.mutations++
		m.k.label("removed")
		delete(m.fs, pt)
	}
}

func (m *memMachine) removeAll() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	pt := m.genPath(l)
	if intn(m.t, l+"-root", 0, 14) == 0 {
		pt.Name = "/"
	}
	if _, file := m.parentState(pt); file {
		return // ENOTDIR for os, nothing for the package: either
	}
	s := m.spell(l+"-s", pt)
	err := m.p.RemoveAll(s)
	m.say("RemoveAll(%q) = %v", s, err)
	if err != nil {
		m.t.Fatalf("RemoveAll(%q): %v", s, err)
	}
	if m.fs[pt] != nil {
		m.mutations++
		m.k.label("removed all")
	}
	for k := range m.fs {
		if k.Pkg == pt.Pkg && within(k.Name, pt.Name) {
			delete(m.fs, k)
		}
	}
	if pt.Name == "/" {
		m.rootKnown[pt.Pkg] = false
	}
}

// probe looks at one path, there or not, in some spelling.
func (m *memMachine) probe() {
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	pt := m.genPath(l)
	s := m.spell(l+"-s", pt)
	m.checkPath(pt, s)
}

func (m *memMachine) checkPath(pt here.Path, s string) {
	t := m.t
	want := m.fs[pt]
	fi, err := m.p.Stat(s)
	f, oerr := m.p.Open(s)
	if want == nil {
		if err == nil || oerr == nil {
			t.Fatalf("%v is not there, but Stat(%q) = %v, %v and Open = %v", pt, s, fi, err, oerr)
		}
		if _, file := m.parentState(pt); !file && (!isNotExist(err) || !isNotExist(oerr)) {
			t.Fatalf("%v is not there, but Stat(%q): %v and Open: %v do not both satisfy os.IsNotExist", pt, s, err, oerr)
		}
		return
	}
	if err != nil || oerr != nil {
		t.Fatalf("%v is there, but Stat(%q): %v, Open: %v", pt, s, err, oerr)
	}
	defer f.Close()
	m.checkInfo(pt, want, fi)
	hfi, err := f.Stat()
	if err != nil {
		t.Fatalf("Stat of open %v: %v", pt, err)
	}
	m.checkInfo(pt, want, hfi)
	if f.Path() != pt {
		t.Fatalf("Open(%q) has path %v, want %v", s, f.Path(), pt)
	}
	if info, known := m.infos[pt.Pkg]; known && (f.Info().Module.Path != pt.Pkg || f.Info().Module.Dir != info.Module.Dir) {
		t.Fatalf("%v is said to belong to the module %v, not %v", pt, f.Info().Module, info.Module)
	}
	if want.dir {
		if _, err := f.Read(make([]byte, 1)); err == nil {
			t.Fatalf("reading folder %v succeeds", pt)
		}
		fis, err := f.Readdir(-1)
		if err != nil {
			t.Fatalf("Readdir of %v: %v", pt, err)
		}
		kids := map[string]*mfile{}
		for k, n := range m.fs {
			if k.Pkg == pt.Pkg && k.Name != "/" && path.Dir(k.Name) == pt.Name {
				kids[path.Base(k.Name)] = n
			}
		}
		if len(fis) != len(kids) {
			t.Fatalf("Readdir of %v lists %d entries, want %d: %v", pt, len(fis), len(kids), infoNames(fis))
		}
		for _, fi := range fis {
			n := kids[fi.Name()]
			if n == nil {
				t.Fatalf("Readdir of %v lists %q, which is not there or listed twice", pt, fi.Name())
			}
			m.checkInfo(here.Path{Pkg: pt.Pkg, Name: path.Join(pt.Name, fi.Name())}, n, fi)
			delete(kids, fi.Name())
		}
		return
	}
	if want.open != nil {
		return // contents in flux
	}
	b, err := io.ReadAll(f)
	if err != nil {
		t.Fatalf("reading %v: %v", pt, err)
	}
	if !bytes.Equal(b, want.data) {
		t.Fatalf("%v holds %s, want %s", pt, sum(b), sum(want.data))
	}
}

func infoNames(fis []os.FileInfo) []string {
	var out []string
	for _, fi := range fis {
		out = append(out, fi.Name())
	}
	return out
}

func (m *memMachine) checkInfo(pt here.Path, want *mfile, fi os.FileInfo) {
	t := m.t
	name := path.Base(pt.Name)
	if info, known := m.infos[pt.Pkg]; pt.Name == "/" && known {
		name = path.Base(info.Dir)
	} else if pt.Name == "/" {
		name = fi.Name()
	}
	if fi.Name() != name {
		t.Fatalf("information of %v has name %q, want %q", pt, fi.Name(), name)
	}
	if fi.IsDir() != want.dir || fi.Mode().IsDir() != want.dir {
		t.Fatalf("information of %v: IsDir %v, mode %v, but folder is %v", pt, fi.IsDir(), fi.Mode(), want.dir)
	}
	if want.mode != 0 && fi.Mode() != want.mode {
		t.Fatalf("information of %v: mode %v, want %v", pt, fi.Mode(), want.mode)
	}
	if !want.dir && want.open == nil && fi.Size() != int64(len(want.data)) {
		t.Fatalf("information of %v: size %d, want %d", pt, fi.Size(), len(want.data))
	}
	if !want.done.IsZero() && (fi.ModTime().Before(want.born.Add(-2*time.Second)) || fi.ModTime().After(want.done.Add(2*time.Second))) {
		t.Fatalf("information of %v: modified %v, but it was written between %v and %v", pt, fi.ModTime(), want.born, want.done)
	}
	if want.mtime != 0 && timeKey(fi.ModTime()) != want.mtime {
		t.Fatalf("information of %v: modified %v, want %d", pt, fi.ModTime(), want.mtime)
	}
}

// checkAll compares everything: what Walk visits, and each entry.
func (m *memMachine) checkAll() {
	t := m.t
	for _, mod := range m.mods {
		var want []string
		for k := range m.fs {
			if k.Pkg == mod && (k.Name != "/" || m.rootKnown[mod]) {
				want = append(want, k.Name)
			}
		}
		sortWalk(want)
		var got []string
		err := m.p.Walk(mod+":/", func(name string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !strings.HasPrefix(name, mod+":/") {
				t.Fatalf("Walk(%s:/) visits %q", mod, name)
			}
			n := strings.TrimPrefix(name, mod+":")
			if n == "/" && !m.rootKnown[mod] {
				return nil
			}
			got = append(got, n)
			if f := m.fs[here.Path{Pkg: mod, Name: n}]; f != nil {
				m.checkInfo(here.Path{Pkg: mod, Name: n}, f, fi)
			}
			return nil
		})
		if err != nil {
			t.Fatalf("Walk(%s:/): %v", mod, err)
		}
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			t.Fatalf("Walk(%s:/) visits\n%q, want\n%q", mod, got, want)
		}
		for _, n := range want {
			m.checkPath(here.Path{Pkg: mod, Name: n}, mod+":"+n)
		}
	}
}

// sortWalk sorts names as filepath.Walk visits them.
func sortWalk(names []string) {
	sort.Slice(names, func(i, j int) bool {
		return walkKey(names[i]) < walkKey(names[j])
	})
}

func walkKey(n string) string { return strings.Replace(n, "/", "\x00", -1) }

func (m *memMachine) step() {
	switch intn(m.t, fmt.Sprintf("step%d", m.n), 0, 16) {
	case 0, 1, 2, 3:
		m.mkdirAll()
	case 4, 5, 6, 7, 8:
		m.create()
	case 9, 16:
		m.closeOne()
	case 10, 11:
		m.remove()
	case 12, 13:
		m.removeAll()
	default:
		m.probe()
	}
}
