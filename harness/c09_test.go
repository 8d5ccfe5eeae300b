package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// diskMachine does the same through the disk-backed package, to one folder,
// and through the os package, to its twin.
type diskMachine struct {
	t    *rapid.T
	k    *kase
	mod  string
	base string
	a, b string // the module root, and its twin
	p    *stdos.Pkger
	log  []string
	n    int
	open []*twinFile

	changed, failed int
}

type twinFile struct {
	name string
	f    pkging.File
	o    *os.File
}

func newDiskMachine(t *rapid.T, k *kase) *diskMachine {
	m := &diskMachine{t: t, k: k, base: newDir(), mod: genModPath(t)}
	m.a = filepath.Join(m.base, "mod")
	m.b = filepath.Join(m.base, "twin")
	tr := genTree(t, "init", treeOpts{max: 8, maxData: 70000, modes: true, mtimes: true})
	for _, d := range []string{m.a, m.b} {
		infra(os.Mkdir(d, 0755))
		tr.write(d)
	}
	// something next to the module that it has no business with
	infra(os.WriteFile(m.a+"x", []byte("keep"), 0644))
	p, err := stdos.New(modInfo(m.a, m.mod))
	if err != nil {
		t.Fatalf("stdos.New: %v", err)
	}
	m.p = p
	m.log = append(m.log, tr.describe()...)
	return m
}

func (m *diskMachine) say(format string, args ...interface{}) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
}

func (m *diskMachine) done() {
	for _, tf := range m.open {
		tf.f.Close()
		tf.o.Close()
	}
	dropDir(m.base)
}

// names lists what the twin holds that can be seen.
func (m *diskMachine) names(dirsOnly bool) []string {
	var out []string
	filepath.Walk(m.b, func(p string, fi os.FileInfo, err error) error {
		if p != m.b && fi != nil && (fi.IsDir() || !dirsOnly) {
			out = append(out, strings.TrimPrefix(p, m.b))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func (m *diskMachine) genName(l string) string {
	parent := "/"
	switch intn(m.t, l+"-kind", 0, 9) {
	case 0, 1, 2, 3:
		if ns := m.names(false); len(ns) > 0 {
			return pick(m.t, l+"-exist", ns)
		}
	case 4, 5, 6:
		if ns := m.names(true); len(ns) > 0 {
			parent = pick(m.t, l+"-dir", ns)
		}
	case 7:
		if ns := m.names(false); len(ns) > 0 {
			parent = pick(m.t, l+"-any", ns)
		}
	}
	n := path.Join(parent, genName(m.t, l+"-name"))
	if intn(m.t, l+"-more", 0, 5) == 0 {
		n = path.Join(n, genName(m.t, l+"-name2"))
	}
	return n
}

// sameErr compares what a caller can tell about two errors.
func sameErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if errClass(a) != errClass(b) {
		return false
	}
	var x, y syscall.Errno
	return errors.As(a, &x) == errors.As(b, &y) && x == y
}

func (m *diskMachine) both(what, s string, a, b error) bool {
	m.say("%s(%q) = %v", what, s, a)
	if !sameErr(a, b) {
		m.t.Fatalf("%s(%q): %v; os: %v", what, s, a, b)
	}
	if a != nil {
		m.failed++
		m.k.label("errors: " + errClass(a))
	}
	return a == nil
}

func (m *diskMachine) step() {
	t := m.t
	m.n++
	l := fmt.Sprintf("op%d", m.n)
	name := m.genName(l)
	s := spell(t, l+"-s", m.mod, m.a, name)
	twin := m.b + name
	switch intn(t, l+"-op", 0, 17) {
	case 0, 1:
		perm := pick(t, l+"-perm", append([]os.FileMode{0777 | os.ModeSticky, 0755 | os.ModeSetgid}, permPool...))
		if m.both("MkdirAll", s, m.p.MkdirAll(s, perm), os.MkdirAll(twin, perm)) {
			m.changed++
		}
	case 2, 3, 4, 5:
		f, err := m.p.Create(s)
		o, oerr := os.Create(twin)
		if !m.both("Create", s, err, oerr) {
			return
		}
		m.changed++
		tf := &twinFile{name, f, o}
		if f.Path() != (here.Path{Pkg: m.mod, Name: name}) {
			t.Fatalf("Create(%q) has path %v", s, f.Path())
		}
		m.open = append(m.open, tf)
		m.write(tf, l)
		if intn(t, l+"-keep", 0, 3) > 0 {
			m.close(len(m.open) - 1)
		}
	case 6:
		if len(m.open) == 0 {
			return
		}
		i := intn(t, l+"-which", 0, len(m.open)-1)
		m.write(m.open[i], l)
		if rapid.Bool().Draw(t, l+"-close") {
			m.close(i)
		}
	case 7, 8:
		if m.both("Remove", s, m.p.Remove(s), os.Remove(twin)) {
			m.changed++
		}
	case 9, 10:
		if m.both("RemoveAll", s, m.p.RemoveAll(s), os.RemoveAll(twin)) {
			m.changed++
		}
	case 11, 12:
		// behind its back
		m.outside(l, name)
	case 13:
		m.walk(l, name, s)
	default:
		m.look(name, s)
	}
}

func (m *diskMachine) write(tf *twinFile, l string) {
	n := intn(m.t, l+"-chunks", 0, 3)
	for i := 0; i < n; i++ {
		b := genContent(m.t, fmt.Sprintf("%s-w%d", l, i), 70000)
		k, err := tf.f.Write(b)
		k2, err2 := tf.o.Write(b)
		if k != k2 || !sameErr(err, err2) {
			m.t.Fatalf("writing %d bytes to %s: %d, %v; os: %d, %v", len(b), tf.name, k, err, k2, err2)
		}
	}
	m.say("write %d chunks to %s", n, tf.name)
	// it is on disk at once, for every reader
	x, err := tf.f.Stat()
	y, err2 := tf.o.Stat()
	if err != nil || err2 != nil || x.Size() != y.Size() || x.Mode() != y.Mode() || x.Name() != y.Name() {
		m.t.Fatalf("Stat of open %s: %v, %v; os: %v, %v", tf.name, x, err, y, err2)
	}
}

func (m *diskMachine) close(i int) {
	tf := m.open[i]
	err, err2 := tf.f.Close(), tf.o.Close()
	if !sameErr(err, err2) {
		m.t.Fatalf("closing %s: %v; os: %v", tf.name, err, err2)
	}
	m.open = append(m.open[:i:i], m.open[i+1:]...)
}

// outside changes both folders without the package.
func (m *diskMachine) outside(l, name string) {
	t := m.t
	switch intn(t, l+"-outside", 0, 5) {
	case 4, 5:
		// a link to something of the module, to nothing, or to itself
		dir := path.Dir(name)
		if real, err := filepath.EvalSymlinks(m.b + dir); err != nil || real != path.Clean(m.b+dir) {
			return
		}
		to := name
		if ns := m.names(false); len(ns) > 0 && intn(t, l+"-self", 0, 9) > 0 {
			to = pick(t, l+"-to", append(ns, "/", name+"nothing"))
		}
		to, err := filepath.Rel(dir, to)
		infra(err)
		e1, e2 := os.Symlink(to, m.a+name), os.Symlink(to, m.b+name)
		m.say("outside: link %s to %s: %v %v", name, to, e1, e2)
		m.k.labelIf(e1 == nil, "with symbolic links")
	case 0:
		b := genContent(t, l+"-odata", 3000)
		e1, e2 := os.WriteFile(m.a+name, b, 0640), os.WriteFile(m.b+name, b, 0640)
		m.say("outside: write %s: %v %v", name, e1, e2)
	case 1:
		e1, e2 := os.Mkdir(m.a+name, 0750), os.Mkdir(m.b+name, 0750)
		m.say("outside: mkdir %s: %v %v", name, e1, e2)
	case 2:
		mode := pick(t, l+"-mode", []os.FileMode{0, 0400, 0100, 0300, 0500, 0644, 0755, 0700})
		e1, e2 := os.Chmod(m.a+name, mode), os.Chmod(m.b+name, mode)
		m.say("outside: chmod %s %v: %v %v", name, mode, e1, e2)
		m.k.label("chmod outside")
	case 3:
		e1, e2 := os.RemoveAll(m.a+name), os.RemoveAll(m.b+name)
		m.say("outside: remove %s: %v %v", name, e1, e2)
	}
}

// look compares all ways to look at one path with the os on the same file.
func (m *diskMachine) look(name, s string) {
	t := m.t
	real := m.a + name
	if name == "/" {
		real = m.a
	}
	fi, err := m.p.Stat(s)
	ofi, oerr := os.Stat(real)
	if m.both("Stat", s, err, oerr) && metaOf(fi) != metaOf(ofi) {
		t.Fatalf("Stat(%q) = %v, os: %v", s, metaOf(fi), metaOf(ofi))
	}
	f, err := m.p.Open(s)
	o, oerr := os.Open(real)
	if !m.both("Open", s, err, oerr) {
		if err == nil {
			f.Close()
			o.Close()
		}
		return
	}
	defer f.Close()
	defer o.Close()
	if f.Path() != (here.Path{Pkg: m.mod, Name: name}) || f.Name() != m.mod+":"+name {
		t.Fatalf("Open(%q) has path %v and name %q", s, f.Path(), f.Name())
	}
	if js(f.Info()) != js(modInfo(m.a, m.mod)) {
		t.Fatalf("Open(%q) has information %v", s, f.Info())
	}
	hfi, err := f.Stat()
	ohfi, oerr := o.Stat()
	if err != nil || oerr != nil || metaOf(hfi) != metaOf(ohfi) {
		t.Fatalf("Stat of open %q: %v, %v; os: %v, %v", s, hfi, err, ohfi, oerr)
	}
	if ohfi.IsDir() {
		_, err := f.Read(make([]byte, 8))
		_, oerr := o.Read(make([]byte, 8))
		m.both("Read", s, err, oerr)
		x, err := f.Readdir(-1)
		y, oerr := o.Readdir(-1)
		if !sameErr(err, oerr) || metasOf(x) != metasOf(y) {
			t.Fatalf("Readdir of %q: %v, %v; os: %v, %v", s, metasOf(x), err, metasOf(y), oerr)
		}
		return
	}
	b, err := io.ReadAll(f)
	ob, oerr := io.ReadAll(o)
	if !sameErr(err, oerr) || !bytes.Equal(b, ob) {
		t.Fatalf("reading %q: %s, %v; os: %s, %v", s, sum(b), err, sum(ob), oerr)
	}
	// a handle for reading is not one for writing
	_, err = f.Write([]byte("x"))
	_, oerr = o.Write([]byte("x"))
	m.both("Write to read-only", s, err, oerr)
}

func metasOf(fis []os.FileInfo) string {
	var out []string
	for _, fi := range fis {
		out = append(out, metaOf(fi).String())
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func (m *diskMachine) walk(l, name, s string) {
	if rapid.Bool().Draw(m.t, l+"-rootwalk") {
		name, s = "/", pick(m.t, l+"-rootspell", []string{"/", "", ":/", m.mod + ":/", m.mod, m.a})
	}
	real := m.a + name
	if name == "/" {
		real = m.a
	}
	var got, want []string
	err := m.p.Walk(s, func(p string, fi os.FileInfo, err error) error {
		got = append(got, fmt.Sprintf("%s %v %s", p, infoMeta(fi), errClass(err)))
		return nil
	})
	oerr := filepath.Walk(real, func(p string, fi os.FileInfo, err error) error {
		p = strings.TrimPrefix(p, m.a)
		if p == "" {
			p = "/"
		}
		want = append(want, fmt.Sprintf("%s:%s %v %s", m.mod, p, infoMeta(fi), errClass(err)))
		return nil
	})
	if !m.both("Walk", s, err, oerr) || strings.Join(got, "\n") != strings.Join(want, "\n") {
		m.t.Fatalf("Walk(%q) visits\n%s\nwant\n%s", s, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	m.k.labelIf(len(got) > 3, "walked more than 3")
}

func infoMeta(fi os.FileInfo) interface{} {
	if fi == nil {
		return nil
	}
	return metaOf(fi)
}

// compare checks that both folders hold the same.
func (m *diskMachine) compare() {
	a, b := osDump(m.a), osDump(m.b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		m.t.Fatalf("after the same operations the module holds\n%s\nand the twin\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	if es, err := os.ReadDir(m.base); err != nil || len(es) != 3 {
		m.t.Fatalf("next to the module: %v, %v", es, err)
	}
	if c, err := os.ReadFile(m.a + "x"); err != nil || string(c) != "keep" {
		m.t.Fatalf("next to the module: %q, %v", c, err)
	}
}

// osDump lists all that is below root, as far as it can be read.
func osDump(root string) []string {
	var out []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		line := strings.TrimPrefix(p, root) + " " + errClass(err)
		if fi != nil {
			line += " " + fi.Mode().String()
			if fi.Mode().IsRegular() {
				b, rerr := os.ReadFile(p)
				line += " " + sum(b) + " " + errClass(rerr)
			} else if to, err := os.Readlink(p); err == nil {
				line += " -> " + to
			}
		}
		out = append(out, line)
		return nil
	})
	return out
}

func TestC09(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		m := newDiskMachine(t, k)
		defer m.done()
		setUmask(pick(t, "umask", []int{022, 022, 0, 02, 077}))
		defer setUmask(022)
		n := intn(t, "steps", 1, 20)
		for i := 0; i < n; i++ {
			m.step()
			m.compare()
		}
		for len(m.open) > 0 {
			m.close(0)
		}
		m.compare()
		m.walk("end", "/", "/")
		for _, name := range m.names(false) {
			m.look(name, spell(t, "end"+name, m.mod, m.a, name))
		}
		k.done(m.changed >= 2, strings.Join(m.log, "\n"), m.log)
	})
}
