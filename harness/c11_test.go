package harness

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// handle is an open file and the os.File that it should act like.
type handle struct {
	what string
	name string
	f    http.File
	o    *os.File
	pos  string
}

type handleCase struct {
	t       *rapid.T
	k       *kase
	base    string
	log     []string
	handles []*handle
	reads   int
	seeks   int
}

func (c *handleCase) say(format string, args ...interface{}) {
	c.log = append(c.log, fmt.Sprintf(format, args...))
}

func (c *handleCase) read(h *handle, n int) {
	a, b := make([]byte, n), make([]byte, n)
	i, err := h.f.Read(a)
	j, oerr := h.o.Read(b)
	c.say("%s: Read(%d) = %d, %v", h.what, n, i, err)
	if i != j || errClass(err) != errClass(oerr) || !bytes.Equal(a, b) {
		c.t.Fatalf("%s: Read(%d) = %d, %v, %s; os.File: %d, %v, %s", h.what, n, i, err, sum(a), j, oerr, sum(b))
	}
	c.k.labelIf(err == io.EOF, "EOF")
	c.k.labelIf(i > 0 && i < n, "short read")
	if i > 0 {
		c.reads++
	}
	// the caller's buffer is its own
	for x := range a {
		a[x] ^= 0x55
	}
}

func (c *handleCase) seek(h *handle, off int64, whence int) {
	i, err := h.f.Seek(off, whence)
	j, oerr := h.o.Seek(off, whence)
	c.say("%s: Seek(%d, %d) = %d, %v", h.what, off, whence, i, err)
	if (err == nil) != (oerr == nil) || err == nil && i != j {
		c.t.Fatalf("%s: Seek(%d, %d) = %d, %v; os.File: %d, %v", h.what, off, whence, i, err, j, oerr)
	}
	c.k.labelIf(err != nil, "seek rejected")
	c.seeks++
}

func (c *handleCase) rest(h *handle) {
	a, err := io.ReadAll(h.f)
	b, oerr := io.ReadAll(h.o)
	c.say("%s: ReadAll = %d bytes, %v", h.what, len(a), err)
	if errClass(err) != errClass(oerr) || !bytes.Equal(a, b) {
		c.t.Fatalf("%s: the rest is %s, %v; of os.File: %s, %v", h.what, sum(a), err, sum(b), oerr)
	}
}

func TestC11(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		c := &handleCase{t: t, k: k, base: newDir()}
		defer dropDir(c.base)
		mod := genModPath(t)
		dir := filepath.Join(c.base, "mod")
		infra(os.Mkdir(dir, 0755))
		tr := tree{"/d": &node{Dir: true, Mode: 0755}}
		nfiles := intn(t, "files", 1, 3)
		for i := 0; i < nfiles; i++ {
			l := fmt.Sprintf("file%d", i)
			n := path.Join(pick(t, l+"-dir", []string{"/", "/d"}), genName(t, l+"-name"))
			if tr[n] == nil {
				tr[n] = &node{Mode: 0644, Data: genContent(t, l, 1<<17)}
			}
		}
		tr.write(dir)
		files := tr.files()
		if len(files) == 0 {
			infra(os.WriteFile(dir+"/f", nil, 0644))
			tr["/f"] = &node{Mode: 0644}
			files = tr.files()
		}
		c.log = append(c.log, tr.describe()...)

		unpacked, err := memOf(dir, mod, append(tr.names(), "/"))
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		filled := buildMem(t, dir, mod, "", tr)
		disk, err := stdos.New(modInfo(dir, mod))
		infra(err)
		pkgs := []struct {
			name string
			p    pkging.Pkger
		}{{"unpacked", unpacked}, {"filled", filled}, {"disk", disk}}
		defer func() {
			for _, h := range c.handles {
				h.f.Close()
				h.o.Close()
			}
		}()

		stored := map[string][]byte{} // by package and name
		for _, p := range pkgs {
			for _, n := range files {
				stored[p.name+n] = tr[n].Data
			}
		}
		written := 0
		type writing struct {
			f   pkging.File
			key string
			all []byte
		}
		var writers []*writing
		pending := func(key string) bool {
			for _, w := range writers {
				if w.key == key {
					return true
				}
			}
			return false
		}
		more := func(l string, w *writing) {
			for j, m := 0, intn(t, l+"-chunks", 0, 4); j < m; j++ {
				b := genContent(t, fmt.Sprintf("%s-chunk%d", l, j), 1<<17)
				cp := append([]byte(nil), b...)
				if i, err := w.f.Write(cp); i != len(b) || err != nil {
					t.Fatalf("writing %d bytes to %s: %d, %v", len(b), w.key, i, err)
				}
				// the caller's buffer is its own
				for x := range cp {
					cp[x] = '!'
				}
				w.all = append(w.all, b...)
			}
			c.say("write to %s: %s", w.key, sum(w.all))
		}
		finish := func(i int) {
			w := writers[i]
			writers = append(writers[:i:i], writers[i+1:]...)
			if err := w.f.Close(); err != nil {
				t.Fatalf("closing %s: %v", w.key, err)
			}
			written++
			stored[w.key] = w.all
			c.say("close %s", w.key)
		}
		defer func() {
			for _, w := range writers {
				w.f.Close()
			}
		}()
		open := func(l string) {
			p := pick(t, l+"-pkg", pkgs)
			n := pick(t, l+"-file", files)
			h := &handle{what: fmt.Sprintf("%s #%d %q", p.name, len(c.handles), n), name: n}
			if pending(p.name + n) {
				return
			}
			if rapid.Bool().Draw(t, l+"-viafolder") {
				d, err := p.p.Open(mod + ":" + path.Dir(n))
				if err != nil {
					t.Fatalf("%s: opening its folder: %v", h.what, err)
				}
				h.f, err = d.Open("/" + path.Base(n))
				if err != nil {
					t.Fatalf("%s: opening through its folder: %v", h.what, err)
				}
				if rapid.Bool().Draw(t, l+"-closefolder") {
					d.Close()
				} else {
					defer d.Close()
				}
			} else {
				f, err := p.p.Open(n)
				if err != nil {
					t.Fatalf("%s: opening: %v", h.what, err)
				}
				h.f = f
			}
			// the contents it had when it was opened
			tmp := filepath.Join(c.base, fmt.Sprintf("o%d", len(c.log)))
			infra(os.WriteFile(tmp, stored[p.name+n], 0644))
			h.o, err = os.Open(tmp)
			infra(err)
			infra(os.Remove(tmp))
			c.handles = append(c.handles, h)
			c.say("open %s", h.what)
		}
		open("first")
		same := func() bool {
			seen := map[string]bool{}
			for _, h := range c.handles {
				key := strings.Fields(h.what)[0] + h.name
				if seen[key] {
					return true
				}
				seen[key] = true
			}
			return false
		}

		n := intn(t, "steps", 1, 25)
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("op%d", i)
			if len(c.handles) == 0 {
				open(l)
				continue
			}
			hi := intn(t, l+"-handle", 0, len(c.handles)-1)
			h := c.handles[hi]
			switch intn(t, l+"-op", 0, 17) {
			case 0, 1:
				open(l)
				k.labelIf(same(), "two handles on one file")
			case 2, 3, 4, 5, 6:
				size := pick(t, l+"-size", []int{0, 1, 2, 3, 7, 16, 64, 100, 511, 512, 513, 4096, 32768, 1 << 17})
				c.read(h, size)
			case 7, 8, 9, 10:
				whence := pick(t, l+"-whence", []int{0, 0, 1, 1, 2, 2, 7, -1})
				size := int64(len(tr[h.name].Data))
				off := pick(t, l+"-off", []int64{0, 1, -1, size, -size, size - 1, size + 1, -size - 1, size / 2, -size / 2, 5, -5, 1 << 33, -(1 << 33), 1 << 40})
				c.seek(h, off, whence)
			case 11:
				c.rest(h)
			case 12:
				fi, err := h.f.Stat()
				ofi, oerr := h.o.Stat()
				if err != nil || oerr != nil || fi.Size() != ofi.Size() || fi.IsDir() || fi.Name() != path.Base(h.name) {
					t.Fatalf("%s: Stat = %v, %v; size of os.File: %v, %v", h.what, fi, err, ofi, oerr)
				}
			case 13:
				if err := h.f.Close(); err != nil {
					t.Fatalf("%s: Close: %v", h.what, err)
				}
				infra(h.o.Close())
				c.handles = append(c.handles[:hi:hi], c.handles[hi+1:]...)
				c.say("close %s", h.what)
			case 14:
				// writing to a handle for reading stays with the handle, or fails
				if w, ok := h.f.(pkging.File); ok && strings.HasPrefix(h.what, "disk") {
					if _, err := w.Write([]byte("x")); err == nil {
						t.Fatalf("%s: writing to a handle that is open for reading succeeds", h.what)
					}
				} else if ok {
					w.Write([]byte("scribble"))
					w.Close()
					infra(h.o.Close())
					c.handles = append(c.handles[:hi:hi], c.handles[hi+1:]...)
					c.say("scribble on %s", h.what)
					k.label("write to a handle that was opened")
				}
			case 15, 17:
				// replace the file: handles keep what they have opened
				p := pick(t, l+"-wpkg", pkgs)
				name := pick(t, l+"-wfile", files)
				if p.name == "disk" {
					// the system's files do change below their readers
					name = "/new"
				}
				if pending(p.name + name) {
					continue
				}
				f, err := p.p.Create(name)
				if err != nil {
					t.Fatalf("%s: creating %q: %v", p.name, name, err)
				}
				w := &writing{f: f, key: p.name + name}
				writers = append(writers, w)
				more(l, w)
				if intn(t, l+"-keep", 0, 2) == 0 {
					finish(len(writers) - 1)
				}
			case 16:
				if len(writers) == 0 {
					continue
				}
				k.labelIf(len(writers) > 1, "two writers at once")
				i := intn(t, l+"-writer", 0, len(writers)-1)
				more(l, writers[i])
				if rapid.Bool().Draw(t, l+"-finish") {
					finish(i)
				}
			}
		}
		for len(writers) > 0 {
			finish(0)
		}
		for _, h := range c.handles {
			c.rest(h)
			c.seek(h, 0, 0)
			c.rest(h)
		}
		for _, p := range pkgs {
			for key, want := range stored {
				if !strings.HasPrefix(key, p.name+"/") {
					continue
				}
				n := strings.TrimPrefix(key, p.name)
				b, err := readAll(p.p, n)
				if err != nil || !bytes.Equal(b, want) {
					t.Fatalf("%s: at the end %q holds %s, %v, want %s", p.name, n, sum(b), err, sum(want))
				}
				fi, err := p.p.Stat(n)
				if err != nil || fi.Size() != int64(len(want)) {
					t.Fatalf("%s: at the end Stat(%q) = %v, %v, want size %d", p.name, n, fi, err, len(want))
				}
			}
		}
		k.labelIf(written > 0, "files replaced")
		k.labelIf(len(c.handles) > 1, "several handles at the end")
		k.done(c.reads > 0 && c.seeks > 0, strings.Join(c.log, "\n"), c.log)
	})
}
