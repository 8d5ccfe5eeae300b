package harness

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// tb is what the comparisons below need of *rapid.T.
type tb interface {
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
	Helper()
}

// meta is what os.FileInfo says, in a comparable form.
type meta struct {
	Name  string
	Size  int64
	Mode  os.FileMode
	MTime int64 // unix nano
	Dir   bool
}

func metaOf(fi os.FileInfo) meta {
	return meta{fi.Name(), fi.Size(), fi.Mode(), timeKey(fi.ModTime()), fi.IsDir()}
}

// timeKey identifies the instant; UnixNano alone overflows.
func timeKey(t time.Time) int64 {
	return t.Unix()*1_000_000_000 + int64(t.Nanosecond())
}

func (m meta) String() string {
	return fmt.Sprintf("{%q size=%d mode=%v mtime=%d dir=%v}", m.Name, m.Size, m.Mode, m.MTime, m.Dir)
}

// sameMeta compares two descriptions of a file; the size of a folder is up
// to the file system.
func sameMeta(a, b os.FileInfo) bool {
	x, y := metaOf(a), metaOf(b)
	if x.Dir && y.Dir {
		x.Size, y.Size = 0, 0
	}
	return x == y
}

// readAll reads the file through Open, by its path.
func readAll(p pkging.Pkger, name string) ([]byte, error) {
	f, err := p.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// event is one call of a walk function.
type event struct {
	Path string
	Meta meta
	Err  bool
}

func walkEvents(p pkging.Pkger, root string) ([]event, error) {
	var evs []event
	err := p.Walk(root, func(name string, fi os.FileInfo, err error) error {
		e := event{Path: name, Err: err != nil}
		if fi != nil {
			e.Meta = metaOf(fi)
		}
		evs = append(evs, e)
		return err
	})
	return evs, err
}

// dump is all that can be seen of a package: every entry any of the listed
// modules holds, by qualified path.
type dumped struct {
	Meta meta
	Sum  string
	Kids string
}

func dump(t tb, p pkging.Pkger, mods ...string) map[string]dumped {
	t.Helper()
	out := map[string]dumped{}
	for _, mod := range mods {
		evs, err := walkEvents(p, mod+":/")
		if err != nil {
			t.Fatalf("Walk(%s:/): %v", mod, err)
		}
		for _, e := range evs {
			if _, ok := out[e.Path]; ok {
				t.Fatalf("Walk(%s:/) visits %q twice", mod, e.Path)
			}
			fi, err := p.Stat(e.Path)
			if err != nil {
				t.Fatalf("Stat(%q), which Walk visits: %v", e.Path, err)
			}
			if metaOf(fi) != e.Meta {
				t.Fatalf("Stat(%q) = %v, Walk says %v", e.Path, metaOf(fi), e.Meta)
			}
			f, err := p.Open(e.Path)
			if err != nil {
				t.Fatalf("Open(%q), which Walk visits: %v", e.Path, err)
			}
			d := dumped{Meta: e.Meta}
			if hfi, err := f.Stat(); err != nil || metaOf(hfi) != e.Meta {
				t.Fatalf("Stat of open %q = %v, %v; Walk says %v", e.Path, hfi, err, e.Meta)
			}
			if got := f.Path().String(); got != e.Path {
				t.Fatalf("Path of %q opened is %q", e.Path, got)
			}
			if got := f.Name(); got != e.Path {
				t.Fatalf("Name of %q opened is %q", e.Path, got)
			}
			if e.Meta.Dir {
				fis, err := f.Readdir(-1)
				if err != nil {
					t.Fatalf("Readdir of %q: %v", e.Path, err)
				}
				var kids []string
				for _, fi := range fis {
					kids = append(kids, metaOf(fi).String())
				}
				sort.Strings(kids)
				d.Kids = strings.Join(kids, ";")
			} else {
				b, err := io.ReadAll(f)
				if err != nil {
					t.Fatalf("reading %q: %v", e.Path, err)
				}
				d.Sum = sum(b)
			}
			f.Close()
			out[e.Path] = d
		}
	}
	return out
}

func diffDumps(a, b map[string]dumped) string {
	var out []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			out = append(out, fmt.Sprintf("%q is in the first only", k))
		} else if v != w {
			out = append(out, fmt.Sprintf("%q: %+v, and %+v", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%q is in the second only", k))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// memOf makes an in-memory package of what lies on disk below dir, as the
// root of the module mod, by the route that packing takes: an encoded
// payload, unpacked. It is built from the exported payload types.
func memOf(dir, mod string, names []string) (*mem.Pkger, error) {
	return memFromData(memData(dir, mod, names))
}

func memData(dir, mod string, names []string) embed.Data {
	info := modInfo(dir, mod)
	d := embed.Data{Infos: map[string]hereInfo{mod: info}, Files: map[string]embed.File{}, Here: info}
	for _, n := range names {
		p := filepath.Join(dir, n)
		fi, err := os.Stat(p)
		infra(err)
		f := embed.File{Info: pkging.NewFileInfo(fi), Here: info, Path: herePath{Pkg: mod, Name: n}}
		f.Info.Details.Sys = nil
		if !fi.IsDir() {
			f.Data, err = os.ReadFile(p)
			infra(err)
		}
		d.Files[f.Path.String()] = f
	}
	return d
}

// addModule adds another module to the payload, with some of the same names
// and contents that tell them apart.
func addModule(t *rapid.T, d embed.Data, mod string, tr tree) tree {
	info := modInfo("/elsewhere/"+path.Base(mod), mod)
	d.Infos[mod] = info
	tr2 := tree{"/": &node{Dir: true, Mode: 0755}}
	for _, n := range tr.names() {
		dir := path.Dir(n)
		if tr2[dir] == nil || !tr2[dir].Dir || rapid.Bool().Draw(t, "skip"+n) {
			continue
		}
		nd := &node{Mode: 0600, Data: []byte("of " + mod + n)}
		if tr[n].Dir {
			nd = &node{Dir: true, Mode: 0700}
		}
		tr2[n] = nd
	}
	for n, nd := range tr2 {
		mode := nd.Mode
		if nd.Dir {
			mode |= os.ModeDir
		}
		name := path.Base(n)
		if n == "/" {
			name = filepath.Base(info.Dir)
		}
		pt := herePath{Pkg: mod, Name: n}
		d.Files[pt.String()] = embed.File{Here: info, Path: pt, Data: nd.Data, Info: &pkging.FileInfo{Details: pkging.Details{
			Name: name, Size: int64(len(nd.Data)), Mode: mode, IsDir: nd.Dir, ModTime: pkging.ModTime(mtimePool[3])}}}
	}
	return tr2
}

// buildMem makes an in-memory package by its own operations, in some order
// that puts folders before what they hold.
func buildMem(t *rapid.T, dir, mod, other string, tr tree) *mem.Pkger {
	p, err := mem.New(modInfo(dir, mod))
	if err != nil {
		t.Fatalf("mem.New: %v", err)
	}
	todo := rapid.Permutation(tr.names()).Draw(t, "build-order")
	made := map[string]bool{"/": true}
	var add func(n string)
	add = func(n string) {
		if made[n] {
			return
		}
		made[n] = true
		if tr[n].Dir {
			if err := p.MkdirAll(n, tr[n].Mode.Perm()); err != nil {
				t.Fatalf("MkdirAll(%q): %v", n, err)
			}
			for d := path.Dir(n); d != "/"; d = path.Dir(d) {
				made[d] = true
			}
			if other != "" && len(n)%2 == 0 {
				if err := p.MkdirAll(other+":"+n+"/in", 0755); err != nil {
					t.Fatalf("MkdirAll(%q): %v", other+":"+n, err)
				}
			}
			return
		}
		if d := path.Dir(n); d != "/" {
			add(d)
		}
		f, err := p.Create(n)
		if err != nil {
			t.Fatalf("Create(%q): %v", n, err)
		}
		if _, err := f.Write(append([]byte(nil), tr[n].Data...)); err != nil {
			t.Fatalf("writing %q: %v", n, err)
		}
		if err := f.Close(); err != nil {
			t.Fatalf("closing %q: %v", n, err)
		}
	}
	for _, n := range todo {
		add(n)
	}
	return p
}

func memFromData(d embed.Data) (*mem.Pkger, error) {
	b, err := jsonMarshal(d)
	infra(err)
	enc, err := embed.Encode(b)
	if err != nil {
		return nil, err
	}
	return mem.UnmarshalEmbed(enc)
}

// osTree lists the names below root, with the root as "/".
func osTree(root string) []string {
	var out []string
	infra(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		out = append(out, path.Clean("/"+strings.TrimPrefix(p, root)))
		return nil
	}))
	return out
}
