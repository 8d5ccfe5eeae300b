package harness

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// arena is a module in the middle of things that it has no business with.
// Every file says where it is, and every folder has a file that names it.
type arena struct {
	base, dir, mod string
	tr             tree
	where          map[string]string // mark -> name below the module root, or "OUTSIDE"
	marks          int
}

var markRe = regexp.MustCompile(`mark-[0-9]+-`)

func (a *arena) mark(where string) string {
	a.marks++
	m := fmt.Sprintf("mark-%d-", a.marks)
	a.where[m] = where
	return m
}

// put makes a folder on disk with its mark in it, and a file.
func (a *arena) put(dir, where string, files ...string) {
	infra(os.MkdirAll(dir, 0755))
	name := func(n string) string {
		if where == "OUTSIDE" {
			return where
		}
		return path.Join(where, n)
	}
	m := a.mark(name("id"))
	a.where[m] = name(m)
	write := func(n, content string) {
		infra(os.WriteFile(filepath.Join(dir, n), []byte(content), 0644))
		if where != "OUTSIDE" {
			a.tr[path.Join(where, n)] = &node{Mode: 0644, Data: []byte(content)}
		}
	}
	write(m, m)
	for _, f := range files {
		write(f, a.mark(name(f)))
	}
}

func newArena(mod string) *arena {
	a := &arena{base: newDir(), mod: mod, tr: tree{}, where: map[string]string{}}
	deep := filepath.Join(a.base, "a", "b", "c")
	a.dir = filepath.Join(deep, "mod")
	for _, d := range []string{"/pub", "/pub/sub", "/pub/sub/deep", "/pubx", "/priv", "/..x", "/a"} {
		a.tr[d] = &node{Dir: true, Mode: 0755}
	}
	a.put(a.dir, "/", "secret.txt", "index.htm")
	for _, d := range a.tr.dirs() {
		if d != "/" {
			a.put(a.dir+d, d, "f.txt", "secret.txt")
		}
	}
	for _, d := range []string{a.base, a.base + "/a", a.base + "/a/b", deep, deep + "/modx", deep + "/pub", deep + "/mod.d", a.base + "/pub"} {
		a.put(d, "OUTSIDE", "secret.txt", "f.txt")
	}
	return a
}

// outside is all that lies around the module.
func (a *arena) outside() string {
	var out []string
	filepath.Walk(a.base, func(p string, fi os.FileInfo, err error) error {
		if p == a.dir {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		line := strings.TrimPrefix(p, a.base) + " " + errClass(err)
		if fi != nil {
			line += " " + fi.Mode().String()
			if fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				line += " " + string(b)
			} else if p != filepath.Dir(a.dir) {
				line += " " + fi.ModTime().String()
			}
		}
		out = append(out, line)
		return nil
	})
	return strings.Join(out, "\n")
}

func (a *arena) genNasty(t *rapid.T, l string) string {
	tokens := []string{
		"..", "..", "../", "../", "/..", "/../", "\\..", "..\\", "\\..\\", ".", "./", "/./", "/", "//", "\\", "\\\\",
		":", ":/", ":..", ":/..", ":\\", "::", "/:/", " ", "\t", "\n", " ..", ".. ", " / ", "... ", "...", "....", "..../", "....//", ".../",
		"%2e%2e", "%2e%2e%2f", "%5c", "%2f", "\x00", "\u2025", "\uff0e\uff0e\uff0f", "\u2215", "\u29f5",
		"secret.txt", "f.txt", "pub", "pubx", "priv", "sub", "deep", "modx", "mod", "mod.d", "a", "b", "c", "..x", "x",
		"C:", "C:\\", "~", "$HOME", "file://", "\\\\?\\",
		"/pub/", "/pub/sub/", "../secret.txt", "../../secret.txt", "../modx/secret.txt", "../pubx/", "..\\secret.txt", "../../../..", "../pub",
		a.mod, a.mod + ":", a.mod + ":/", a.mod + ":\\", a.mod + ":..", ":/" + a.mod,
		a.dir, a.dir + "/", a.dir + "x", a.dir + "x/secret.txt", a.dir + ".d/secret.txt", a.dir + "/..", filepath.Dir(a.dir), filepath.Dir(a.dir) + "/", a.base, a.base + "/secret.txt", a.base + "/a/b/c/modx/secret.txt",
		"/etc/passwd", "/proc/self/environ",
	}
	var s string
	n := intn(t, l+"-n", 1, 8)
	if rapid.Bool().Draw(t, l+"-climb") {
		// from somewhere up and down again
		s = pick(t, l+"-from", []string{"", "/", ":/", a.mod + ":", a.mod + ":/", "/pub", "/pub/sub", "pub", "sub", a.dir, a.dir + "/pub", "/nowhere", "\\pub", " "})
		sep := pick(t, l+"-sep", []string{"/", "\\", "//", "/./", "\\/", " /", "/ "})
		for i, m := 0, intn(t, l+"-ups", 1, 5); i < m; i++ {
			s += sep + ".."
		}
		n = intn(t, l+"-more", 0, 3)
		s += sep
	}
	for i := 0; i < n; i++ {
		s += pick(t, fmt.Sprintf("%s-t%d", l, i), tokens)
		if intn(t, fmt.Sprintf("%s-s%d", l, i), 0, 2) == 0 {
			s += "/"
		}
	}
	if intn(t, l+"-wild", 0, 9) == 0 {
		s += rapid.String().Draw(t, l+"-random")
	}
	return s
}

// foreign reports whether the path is prefixed with another package, which
// costs a run of the go command.
func (a *arena) foreign(s string) bool {
	s = strings.Replace(strings.TrimSpace(s), "\\", "/", -1)
	if strings.HasPrefix(s, "/") {
		return false
	}
	i := strings.Index(s, ":/")
	if i < 0 {
		i = strings.Index(s, ":")
		if i < 0 {
			i = len(s)
		}
	}
	return i > 0 && s[:i] != a.mod
}

// shows checks that what was seen is from within the folder.
func (a *arena) shows(t *rapid.T, what, seen, folder string) {
	for _, m := range markRe.FindAllString(seen, -1) {
		w, ok := a.where[m]
		if !ok {
			continue
		}
		if w == "OUTSIDE" || !within(w, folder) {
			t.Fatalf("%s shows %s, which is in %s, not below %s", what, m, w, folder)
		}
	}
}

// look reads or lists what was opened.
func lookAt(f http.File) string {
	var out []string
	if fi, err := f.Stat(); err == nil && fi.IsDir() {
		fis, _ := f.Readdir(-1)
		for _, fi := range fis {
			out = append(out, fi.Name())
		}
	}
	b, _ := io.ReadAll(f)
	return strings.Join(append(out, string(b)), " ")
}

// canonical reports whether a name is absolute and clean.
func canonical(n string) bool {
	return strings.HasPrefix(n, "/") && path.Clean(n) == n && !strings.Contains(n, "\\")
}

func TestC14(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		a := newArena(genModPath(t))
		defer dropDir(a.base)

		var p pkging.Pkger
		var err error
		kind := pick(t, "backend", []string{"disk", "disk", "unpacked", "filled"})
		switch kind {
		case "disk":
			p, err = stdos.New(modInfo(a.dir, a.mod))
			infra(err)
		case "unpacked":
			d := memData(a.dir, a.mod, append(a.tr.names(), "/"))
			p, err = memFromData(d)
			if err != nil {
				t.Fatalf("unpacking: %v", err)
			}
		case "filled":
			p = buildMem(t, a.dir, a.mod, "", a.tr)
		}
		before := a.outside()
		inside := ""
		if kind != "disk" {
			inside = strings.Join(osDump(a.dir), "\n")
		}
		var log []string
		hits, foreign := 0, 0
		for i, n := 0, intn(t, "ops", 1, 12); i < n; i++ {
			l := fmt.Sprintf("op%d", i)
			s := a.genNasty(t, l)
			if kind == "disk" && a.foreign(s) {
				// each costs a run of the go command, which fails
				if foreign++; foreign > 1 || intn(t, l+"-foreign", 0, 3) > 0 {
					s = "/" + s
				}
			}
			op := intn(t, l+"-op", 0, 11)
			what := fmt.Sprintf("%s: ", kind)
			ok := false
			switch op {
			case 0, 1:
				what += fmt.Sprintf("Open(%q)", s)
				f, err := p.Open(s)
				ok = err == nil
				if err == nil {
					pt := f.Path()
					if !canonical(pt.Name) {
						t.Fatalf("%s has path %v", what, pt)
					}
					a.shows(t, what, lookAt(f), pt.Name)
					f.Close()
				}
			case 2:
				what += fmt.Sprintf("Stat(%q)", s)
				fi, err := p.Stat(s)
				ok = err == nil
				if err == nil {
					pt, perr := p.Parse(s)
					if perr != nil || !canonical(pt.Name) {
						t.Fatalf("%s succeeds, Parse: %v, %v", what, pt, perr)
					}
					a.shows(t, what, fi.Name(), pt.Name)
				}
			case 3:
				what += fmt.Sprintf("Walk(%q)", s)
				pt, _ := p.Parse(s)
				err := p.Walk(s, func(name string, fi os.FileInfo, err error) error {
					if err != nil {
						return err
					}
					i := strings.Index(name, ":/")
					if i < 0 || !canonical(name[i+1:]) || !within(name[i+1:], pt.Name) {
						t.Fatalf("%s (%v) visits %q", what, pt, name)
					}
					a.shows(t, what, name, pt.Name)
					return nil
				})
				ok = err == nil
			case 4, 5:
				what += fmt.Sprintf("Create(%q)", s)
				f, err := p.Create(s)
				ok = err == nil
				if err == nil {
					if !canonical(f.Path().Name) {
						t.Fatalf("%s has path %v", what, f.Path())
					}
					f.Write([]byte("created"))
					f.Close()
				}
			case 6:
				what += fmt.Sprintf("MkdirAll(%q)", s)
				ok = p.MkdirAll(s, 0755) == nil
			case 7:
				what += fmt.Sprintf("Remove(%q)", s)
				ok = p.Remove(s) == nil
			case 8:
				if pt, err := p.Parse(s); err == nil && pt.Name == "/" && intn(t, l+"-clear", 0, 9) > 0 {
					s = "/pub/" + s // seldom all at once
				}
				what += fmt.Sprintf("RemoveAll(%q)", s)
				ok = p.RemoveAll(s) == nil
			default:
				// through a folder
				folder := pick(t, l+"-folder", []string{"/", "/pub", "/pub/sub", "/pub/sub/deep", "/..x", "/a"})
				d, err := p.Open(a.mod + ":" + folder)
				if err != nil {
					break // removed by now
				}
				way := intn(t, l+"-way", 0, 2)
				switch way {
				case 0:
					what += fmt.Sprintf("Open(%q) in %s", s, folder)
					f, err := d.Open(s)
					ok = err == nil
					if err == nil {
						a.shows(t, what, lookAt(f), folder)
						if pf, is := f.(pkging.File); is && (!within(pf.Path().Name, folder) || !canonical(pf.Path().Name) || pf.Path().Pkg != a.mod) {
							t.Fatalf("%s has path %v", what, pf.Path())
						}
						f.Close()
					}
				case 1:
					what += fmt.Sprintf("pkger.Dir(%q).Open(%q)", folder, s)
					useAsCurrent(p)
					f, err := pkger.Dir(folder).Open(s)
					ok = err == nil
					if err == nil {
						a.shows(t, what, lookAt(f), folder)
						f.Close()
					}
				default:
					what += fmt.Sprintf("GET %q in %s", s, folder)
					r := ask(http.FileServer(d), request{Method: "GET", Path: s})
					ok = r.Status < 400
					a.shows(t, what, r.Body, folder)
				}
				d.Close()
			}
			log = append(log, fmt.Sprintf("%s = %v", clip(what, 200), ok))
			if ok {
				hits++
			}
			if got := a.outside(); got != before {
				t.Fatalf("%s changes what lies outside the module:\n%s\nwas\n%s", what, got, before)
			}
			if kind != "disk" {
				if got := strings.Join(osDump(a.dir), "\n"); got != inside {
					t.Fatalf("%s changes the disk:\n%s\nwas\n%s", what, got, inside)
				}
				err := p.Walk("/", func(name string, fi os.FileInfo, err error) error {
					if !strings.HasPrefix(name, a.mod+":/") || !canonical(strings.TrimPrefix(name, a.mod+":")) {
						t.Fatalf("after %s the package holds %q", what, name)
					}
					return err
				})
				if err != nil {
					t.Fatalf("after %s: Walk: %v", what, err)
				}
			}
			k.labelIf(ok, "succeeded: "+[]string{"Open", "Open", "Stat", "Walk", "Create", "Create", "MkdirAll", "Remove", "RemoveAll", "through folder", "through folder", "through folder"}[op])
		}
		k.label(kind)
		k.labelIf(foreign > 0, "unknown package")
		k.done(hits > 0, fmt.Sprint(kind, log), log)
	})
}
