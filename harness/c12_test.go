package harness

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// dirHandle is an open folder, and what it has returned so far.
type dirHandle struct {
	what  string
	pkg   pkging.Pkger
	pname string
	name  string
	f     http.File
	seen  map[string]bool
	ended bool
}

func TestC12(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		mod := genModPath(t)
		dir := filepath.Join(base, "mod")
		infra(os.Mkdir(dir, 0755))
		tr := genTree(t, "tree", treeOpts{max: 10, maxData: 100, modes: true, mtimes: true})
		// a few folders with many children, and twins by prefix
		for i, n := 0, intn(t, "wide", 0, 2); i < n; i++ {
			l := fmt.Sprintf("wide%d", i)
			d := pick(t, l+"-dir", tr.dirs())
			stem := pick(t, l+"-stem", []string{"f", "d", "a", "é", ".h", "x y"})
			most := 40
			if i == 0 && intn(t, l+"-very", 0, 39) == 0 {
				most = 1200
				k.label("hundreds in a folder")
			}
			for j, m := 0, intn(t, l+"-n", most/40, most); j < m; j++ {
				nm := path.Join(d, fmt.Sprintf("%s%d", stem, j))
				if !tr.fits(nm) {
					continue
				}
				tr[nm] = &node{Mode: 0644, Data: []byte(nm)}
				if j%3 == i {
					tr[nm] = &node{Dir: true, Mode: 0755}
				}
			}
		}
		for i, n := 0, intn(t, "twins", 0, 3); i < n && len(tr) > 0; i++ {
			l := fmt.Sprintf("twin%d", i)
			of := pick(t, l+"-of", tr.names())
			nm := of + pick(t, l+"-suffix", []string{" x", "!", "-b", ".txt", "0", "x"})
			if tr.fits(nm) {
				tr[nm] = &node{Dir: rapid.Bool().Draw(t, l+"-isdir"), Mode: 0755}
				if rapid.Bool().Draw(t, l+"-in") && tr[nm].Dir && tr.fits(nm+"/in") {
					tr[nm+"/in"] = &node{Mode: 0600, Data: []byte("in")}
				}
			}
		}
		tr.write(dir)

		other := pick(t, "other", []string{"other", mod + "x", mod + "/sub", "example.com"})
		data := memData(dir, mod, append(tr.names(), "/"))
		addModule(t, data, other, tr)
		unpacked, err := memFromData(data)
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		disk, err := stdos.New(modInfo(dir, mod))
		infra(err)
		pkgs := []struct {
			name string
			p    pkging.Pkger
		}{{"unpacked", unpacked}, {"disk", disk}}
		if len(tr) > 0 {
			pkgs = append(pkgs, struct {
				name string
				p    pkging.Pkger
			}{"filled", buildMem(t, dir, mod, other, tr)})
		}

		var log []string
		var hs []*dirHandle
		defer func() {
			for _, h := range hs {
				h.f.Close()
			}
		}()
		say := func(format string, args ...interface{}) { log = append(log, fmt.Sprintf(format, args...)) }

		// take notes what a call returned, and checks each entry.
		take := func(h *dirHandle, fis []os.FileInfo) {
			for _, fi := range fis {
				nm := path.Join(h.name, fi.Name())
				nd := tr[nm]
				if nd == nil || path.Dir(nm) != h.name || strings.Contains(fi.Name(), "/") {
					t.Fatalf("%s: Readdir lists %q, which is not in the folder", h.what, fi.Name())
				}
				if h.seen[fi.Name()] {
					t.Fatalf("%s: Readdir lists %q twice", h.what, fi.Name())
				}
				h.seen[fi.Name()] = true
				sfi, err := h.pkg.Stat(mod + ":" + nm)
				if err != nil {
					t.Fatalf("%s: Stat of %q, which Readdir lists: %v", h.what, nm, err)
				}
				if metaOf(sfi) != metaOf(fi) {
					t.Fatalf("%s: Readdir says %v of %q, Stat %v", h.what, metaOf(fi), nm, metaOf(sfi))
				}
				if fi.IsDir() != nd.Dir || fi.IsDir() != fi.Mode().IsDir() {
					t.Fatalf("%s: Readdir says %v of %q", h.what, metaOf(fi), nm)
				}
			}
		}
		complete := func(h *dirHandle) {
			want := tr.children(h.name)
			if len(h.seen) != len(want) {
				var miss []string
				for _, n := range want {
					if !h.seen[path.Base(n)] {
						miss = append(miss, path.Base(n))
					}
				}
				t.Fatalf("%s: Readdir is done but has not listed %q", h.what, miss)
			}
			h.ended = true
		}
		open := func(l string) {
			p := pick(t, l+"-pkg", pkgs)
			ds := tr.dirs()
			// folders with several children matter most
			sort.SliceStable(ds, func(i, j int) bool { return len(tr.children(ds[i])) > len(tr.children(ds[j])) })
			d := pick(t, l+"-dir", ds)
			if rapid.Bool().Draw(t, l+"-wide") {
				d = ds[0]
			}
			h := &dirHandle{pkg: p.p, pname: p.name, name: d, seen: map[string]bool{}}
			h.what = fmt.Sprintf("%s #%d %q", p.name, len(hs), d)
			if rapid.Bool().Draw(t, l+"-viafolder") {
				r, err := p.p.Open(mod + ":" + path.Dir(d))
				if err != nil {
					t.Fatalf("%s: opening the folder above: %v", h.what, err)
				}
				sub := "/" + path.Base(d)
				if d == "/" {
					sub = "/"
				}
				h.f, err = r.Open(sub)
				if err != nil {
					t.Fatalf("%s: opening through the folder above: %v", h.what, err)
				}
				r.Close()
			} else {
				s := spell(t, l+"-spell", mod, dir, d)
				f, err := p.p.Open(s)
				if err != nil {
					t.Fatalf("%s: opening %q: %v", h.what, s, err)
				}
				h.f = f
			}
			hs = append(hs, h)
			say("open %s", h.what)
		}
		open("first")
		pages, many := 0, 0
		for i, n := 0, intn(t, "steps", 1, 20); i < n; i++ {
			l := fmt.Sprintf("op%d", i)
			h := hs[intn(t, l+"-handle", 0, len(hs)-1)]
			if rapid.Bool().Draw(t, l+"-last") {
				h = hs[len(hs)-1]
			}
			switch intn(t, l+"-op", 0, 9) {
			case 0, 1:
				open(l)
			case 2, 3:
				c := pick(t, l+"-all", []int{0, -1, -2, -1 << 31})
				fis, err := h.f.Readdir(c)
				say("%s: Readdir(%d) = %d, %v", h.what, c, len(fis), err)
				if err != nil {
					t.Fatalf("%s: Readdir(%d): %v", h.what, c, err)
				}
				k.labelIf(len(h.seen) > 0 && len(fis) > 0, "all after pages")
				take(h, fis)
				spoil(fis)
				complete(h)
				k.labelIf(len(fis) > 1, "all at once")
			case 4:
				// a file lists nothing
				if fs := tr.files(); len(fs) > 0 {
					nm := pick(t, l+"-file", fs)
					f, err := h.pkg.Open(nm)
					if err != nil {
						t.Fatalf("%s: opening %q: %v", h.what, nm, err)
					}
					fis, err := f.Readdir(pick(t, l+"-count", []int{-1, 0, 1, 5}))
					f.Close()
					if err == nil || err == io.EOF || len(fis) > 0 {
						t.Fatalf("%s: Readdir on file %q = %v, %v", h.what, nm, fis, err)
					}
				}
			default:
				c := pick(t, l+"-page", []int{1, 1, 2, 3, 4, 5, 7, 10, 50, 100, 1 << 30})
				fis, err := h.f.Readdir(c)
				say("%s: Readdir(%d) = %d, %v", h.what, c, len(fis), err)
				if len(fis) > c {
					t.Fatalf("%s: Readdir(%d) returns %d entries", h.what, c, len(fis))
				}
				take(h, fis)
				spoil(fis)
				switch {
				case len(fis) == 0:
					if err != io.EOF {
						t.Fatalf("%s: Readdir(%d) returns nothing and %v", h.what, c, err)
					}
					complete(h)
					k.label("paged to the end")
				case err != nil:
					t.Fatalf("%s: Readdir(%d) returns %d entries and %v", h.what, c, len(fis), err)
				default:
					if h.ended {
						t.Fatalf("%s: Readdir(%d) returns %d entries after the end", h.what, c, len(fis))
					}
					pages++
				}
				if len(fis) > 0 && len(h.seen) < len(tr.children(h.name)) {
					many++
				}
			}
		}
		// to the end, page by page
		for _, h := range hs {
			c := intn(t, "drain-"+h.what, 1, 4)
			for i := 0; ; i++ {
				fis, err := h.f.Readdir(c)
				if len(fis) > c {
					t.Fatalf("%s: Readdir(%d) returns %d entries", h.what, c, len(fis))
				}
				take(h, fis)
				if err == io.EOF && len(fis) == 0 {
					break
				}
				if err != nil || len(fis) == 0 || i > len(tr)+2 {
					t.Fatalf("%s: Readdir(%d) returns %d entries and %v", h.what, c, len(fis), err)
				}
			}
			complete(h)
			if fis, err := h.f.Readdir(-1); err != nil || len(fis) > 0 {
				t.Fatalf("%s: Readdir(-1) at the end: %v, %v", h.what, fis, err)
			}
		}
		k.labelIf(many > 0, "stopped in the middle")
		k.labelIf(len(hs) > 1, "several handles")
		k.done(pages > 0 && many > 0, fmt.Sprint(tr.describe(), log), map[string]interface{}{"tree": tr.describe(), "calls": log})
	})
}

// spoil does to a result what its owner may: appends to it, and changes it.
func spoil(fis []os.FileInfo) {
	_ = append(fis, nil, nil)
	for i := range fis {
		fis[i] = nil
	}
}
