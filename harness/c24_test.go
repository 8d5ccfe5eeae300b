package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// held is an entry of a package.
type held struct {
	Meta meta
	Data string
}

// entries lists all that a package holds, by the qualified path, whether or
// not a walk would come to it.
func entries(t tb, p *mem.Pkger) map[string]held {
	t.Helper()
	b, err := json.Marshal(p)
	if err != nil {
		t.Fatalf("marshalling: %v", err)
	}
	var d embed.Data
	if err := json.Unmarshal(b, &d); err != nil {
		t.Fatalf("unmarshalling: %v", err)
	}
	out := map[string]held{}
	for name := range d.Files {
		fi, err := p.Stat(name)
		if err != nil {
			t.Fatalf("Stat(%q), which the package holds: %v", name, err)
		}
		h := held{Meta: metaOf(fi)}
		if h.Meta.Dir {
			h.Meta.Size = 0
		} else {
			b, err := readAll(p, name)
			if err != nil {
				t.Fatalf("reading %q, which the package holds: %v", name, err)
			}
			h.Data = string(b)
		}
		out[name] = h
	}
	return out
}

func diffEntries(got, want map[string]held) string {
	var out []string
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			out = append(out, fmt.Sprintf("%q is not there", n))
		} else if g.Meta != w.Meta {
			out = append(out, fmt.Sprintf("%q is %v, want %v", n, g.Meta, w.Meta))
		} else if g != w {
			out = append(out, fmt.Sprintf("%q holds %s, want %s", n, sum([]byte(g.Data)), sum([]byte(w.Data))))
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			out = append(out, fmt.Sprintf("%q should not be there", n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// onDisk is what there is on disk now.
func onDisk(p string) held {
	fi, err := os.Lstat(p)
	infra(err)
	h := held{Meta: metaOf(fi)}
	if fi.IsDir() {
		h.Meta.Size = 0
		return h
	}
	b, err := os.ReadFile(p)
	infra(err)
	h.Data = string(b)
	return h
}

func allOnDisk(dir string) map[string]held {
	out := map[string]held{}
	for _, n := range osTree(dir) {
		out[n] = onDisk(dir + n)
	}
	return out
}

// openSomehow opens what is there under one of the names it has.
func openSomehow(t *rapid.T, k *kase, l, dir, name string) *os.File {
	p := filepath.Join(dir, name)
	switch intn(t, l+"-name", 0, 5) {
	case 0:
		cwd, err := os.Getwd()
		infra(err)
		p = relTo(cwd, p)
		k.label("opened by a relative name")
		if rapid.Bool().Draw(t, l+"-dot") {
			p = "./" + p
		}
	case 1:
		if fi, err := os.Stat(p); err == nil && fi.IsDir() {
			p += "/"
		}
		p = strings.Replace(p, name, "/."+strings.Replace(name, "/", "//", -1), 1)
	}
	fi, err := os.Stat(p)
	infra(err)
	if fi.IsDir() {
		f, err := os.Open(p)
		infra(err)
		if intn(t, l+"-listed", 0, 3) == 0 {
			f.Readdir(1)
		}
		return f
	}
	flag := os.O_RDONLY
	if fi.Mode()&0200 != 0 && intn(t, l+"-rw", 0, 3) == 0 {
		flag = os.O_RDWR
	}
	f, err := os.OpenFile(p, flag, 0)
	infra(err)
	if intn(t, l+"-read", 0, 3) == 0 {
		n := pick(t, l+"-at", []int64{1, fi.Size() / 2, fi.Size(), fi.Size() + 5})
		_, err := f.Seek(n, io.SeekStart)
		infra(err)
		k.labelIf(n > 0 && fi.Size() > 0, "handle that was read from")
	}
	return f
}

func TestC24(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		mod := genModPath(t)
		dir := filepath.Join(base, pick(t, "dir", []string{"app", "sp ace", "a/b-c"}))
		other := "example.com/other"
		infra(os.MkdirAll(dir, 0755))
		tr := genTree(t, "tree", treeOpts{max: 14, maxData: 70000, modes: true, mtimes: true})
		for _, n := range tr.names() {
			if within(n, "/vendor") {
				delete(tr, n) // the go command makes something of it
			}
		}
		infra(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.16\n"), 0644))
		infra(os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0644))
		tr.write(dir)
		var log []string
		say := func(format string, args ...interface{}) { log = append(log, fmt.Sprintf(format, args...)) }
		say("on disk: %v", tr.describe())

		// names are relative to the working directory
		cwd, err := os.Getwd()
		infra(err)
		in := dir
		if ds := tr.dirs(); len(ds) > 1 && rapid.Bool().Draw(t, "cd") {
			in = dir + pick(t, "cwd", ds)
		}
		infra(os.Chdir(in))
		defer os.Chdir(cwd)

		// a package with entries of its own, some of which are earlier
		// versions of what is on disk
		info := modInfo(dir, mod)
		d := embed.Data{Here: info, Infos: map[string]here.Info{mod: info}, Files: map[string]embed.File{}}
		if rapid.Bool().Draw(t, "filled") {
			put := func(m, n string, isDir bool) {
				pt := here.Path{Pkg: m, Name: n}
				dt := pkging.Details{Name: path.Base(n), Mode: 0600, ModTime: pkging.ModTime(mtimePool[2])}
				data := []byte("earlier version of " + m + n)
				if isDir {
					dt.IsDir, dt.Mode, data = true, os.ModeDir|0700, nil
				}
				dt.Size = int64(len(data))
				her := info
				if m != mod {
					her = modInfo("/elsewhere/other", other)
					d.Infos[other] = her
				}
				d.Files[pt.String()] = embed.File{Here: her, Path: pt, Data: data, Info: &pkging.FileInfo{Details: dt}}
			}
			for _, n := range tr.names() {
				for i, m := range []string{mod, other} {
					if rapid.Bool().Draw(t, fmt.Sprintf("earlier%d%s", i, n)) {
						put(m, n, tr[n].Dir)
					}
				}
				if tr[n].Dir && rapid.Bool().Draw(t, "gone"+n) {
					gone := path.Join(n, genName(t, "gonename"+n))
					if tr[gone] == nil {
						put(mod, gone, false)
					}
				}
			}
			put(other, "/only/there", false)
		}
		p, err := memFromData(d)
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		want := entries(t, p)
		added, folders, replaced, disk := 0, 0, 0, allOnDisk(dir)
		edited := ""
		for i, n := 0, intn(t, "adds", 1, 4); i < n; i++ {
			var fs []*os.File
			for j, m := 0, intn(t, fmt.Sprintf("handles%d", i), 1, 3); j < m; j++ {
				l := fmt.Sprintf("add%d.%d", i, j)
				names := append([]string{"/main.go"}, tr.names()...)
				name := pick(t, l, names)
				if edited != "" && rapid.Bool().Draw(t, l+"-edited") {
					name = edited
					if rapid.Bool().Draw(t, l+"-in") {
						name = path.Dir(edited)
					}
				}
				if intn(t, l+"-root", 0, 7) == 0 {
					name = "/"
				}
				f := openSomehow(t, k, l, dir, name)
				fs = append(fs, f)
				for _, below := range osTree(dir) {
					if !within(below, name) {
						continue
					}
					q := mod + ":" + below
					if _, ok := want[q]; ok {
						replaced++
					}
					want[q] = onDisk(filepath.Join(dir, below))
					added++
					if below != name {
						folders++
					}
				}
				say("Add(%s as %q)", name, strings.Replace(f.Name(), base, "", 1))
			}
			err := p.Add(fs...)
			for _, f := range fs {
				f.Close()
			}
			if err != nil {
				t.Fatalf("Add: %v\n%s", err, strings.Join(log, "\n"))
			}
			if d := diffEntries(entries(t, p), want); d != "" {
				t.Fatalf("after Add:\n%s\n%s", d, strings.Join(log, "\n"))
			}
			if intn(t, fmt.Sprintf("edit%d", i), 0, 1) == 0 && len(tr.files()) > 0 {
				// a newer version on disk
				name := pick(t, fmt.Sprintf("edited%d", i), tr.files())
				os.Chmod(dir+name, 0644)
				edited = name
				fi, err := os.Stat(dir + name)
				infra(err)
				mt, data := mtimePool[i%len(mtimePool)], []byte(fmt.Sprintf("version %d", i))
				if rapid.Bool().Draw(t, fmt.Sprintf("same-time%d", i)) {
					mt = fi.ModTime()
				}
				if fi.Size() > 0 && rapid.Bool().Draw(t, fmt.Sprintf("same-size%d", i)) {
					data, err = os.ReadFile(dir + name)
					infra(err)
					data[intn(t, fmt.Sprintf("flipped%d", i), 0, len(data)-1)] ^= 1
				}
				infra(os.WriteFile(dir+name, data, 0644))
				if rapid.Bool().Draw(t, fmt.Sprintf("same-mode%d", i)) {
					infra(os.Chmod(dir+name, fi.Mode()))
				}
				infra(os.Chtimes(dir+name, mt, mt))
				say("%s changes on disk", name)
				if d := diffEntries(entries(t, p), want); d != "" {
					t.Fatalf("a change on disk shows:\n%s\n%s", d, strings.Join(log, "\n"))
				}
				disk = allOnDisk(dir)
			}
		}
		if d := diffEntries(allOnDisk(dir), disk); d != "" {
			t.Fatalf("Add changes the disk:\n%s", d)
		}
		// what cannot be read is not left out in silence
		if in == dir && os.Getuid() != 0 && len(tr) > 0 && intn(t, "locked", 0, 3) == 3 {
			name := pick(t, "locked-name", tr.names())
			mode := pick(t, "locked-mode", []os.FileMode{0, 0111, 0222})
			if tr[name].Dir && rapid.Bool().Draw(t, "locked-folder") {
				mode = 0444
			}
			above := pick(t, "locked-above", append([]string{"/"}, tr.names()...))
			kids := 0
			for n := range tr {
				if n != name && within(n, name) {
					kids++
				}
			}
			if above != name && within(name, above) && (mode != 0444 || kids > 0) {
				fi, err := os.Stat(dir + name)
				infra(err)
				f, err := os.Open(dir + above)
				infra(err)
				q, err := mem.New(info)
				if err != nil {
					t.Fatalf("New: %v", err)
				}
				infra(os.Chmod(dir+name, mode))
				err = q.Add(f)
				infra(os.Chmod(dir+name, fi.Mode()))
				f.Close()
				if err == nil {
					t.Fatalf("Add(%s) reports no error, with %s of mode %v\n%s", above, name, mode, strings.Join(log, "\n"))
				}
				k.label("something below that cannot be read")
			}
		}
		// folders list what was added to them
		for n, h := range want {
			if !h.Meta.Dir {
				continue
			}
			f, err := p.Open(n)
			if err != nil {
				t.Fatalf("Open(%q): %v", n, err)
			}
			fis, err := f.Readdir(-1)
			if err != nil {
				t.Fatalf("Readdir of %q: %v", n, err)
			}
			f.Close()
			var got, kids []string
			for _, fi := range fis {
				got = append(got, fi.Name())
			}
			prefix := strings.TrimSuffix(n, "/") + "/"
			for q := range want {
				if rest := strings.TrimPrefix(q, prefix); rest != q && rest != "" && !strings.Contains(rest, "/") {
					kids = append(kids, rest)
				}
			}
			sort.Strings(got)
			sort.Strings(kids)
			if strings.Join(got, "\n") != strings.Join(kids, "\n") {
				t.Fatalf("Readdir of %q lists %q, want %q\n%s", n, got, kids, strings.Join(log, "\n"))
			}
		}

		// using the package does nothing to the disk
		var names []string
		for n := range want {
			names = append(names, n)
		}
		sort.Strings(names)
		for i, n := 0, intn(t, "uses", 0, 5); i < n; i++ {
			l := fmt.Sprintf("use%d", i)
			name := pick(t, l, names)
			switch intn(t, l+"-op", 0, 4) {
			case 0:
				say("Remove(%q) %v", name, p.Remove(name))
			case 1:
				say("RemoveAll(%q) %v", name, p.RemoveAll(name))
			case 2:
				say("MkdirAll(%q) %v", name, p.MkdirAll(name+"/new/deep", 0755))
			default:
				if want[name].Meta.Dir {
					name += "/new.txt"
				}
				f, err := p.Create(name)
				say("Create(%q) %v", name, err)
				if err == nil {
					fmt.Fprintf(f, "changed in memory")
					f.Close()
				}
			}
		}
		if d := diffEntries(allOnDisk(dir), disk); d != "" {
			t.Fatalf("using the package changes the disk:\n%s\n%s", d, strings.Join(log, "\n"))
		}
		// and the other way round
		before := entries(t, p)
		for _, n := range tr.files() {
			os.Chmod(dir+n, 0644)
			infra(os.WriteFile(dir+n, []byte("changed on disk"), 0644))
			infra(os.Chtimes(dir+n, time.Unix(5, 5), time.Unix(5, 5)))
		}
		if len(tr) > 0 {
			os.RemoveAll(dir + pick(t, "removed", tr.names()))
		}
		if d := diffEntries(entries(t, p), before); d != "" {
			t.Fatalf("changes on disk show:\n%s\n%s", d, strings.Join(log, "\n"))
		}
		k.labelIf(folders > 0, "folder with something in it")
		k.labelIf(replaced > 0, "replaces earlier versions")
		k.labelIf(in != dir, "working directory below the root")
		k.done(added > 1, strings.Join(log, "\n"), log)
	})
}
