package harness

import (
	"archive/tar"
	"archive/zip"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/fstest"
	"time"
	"unicode/utf8"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// fakeInfo is a source of file information like any other.
type fakeInfo struct {
	name string
	size int64
	mode os.FileMode
	mod  time.Time
	dir  bool
	sys  interface{}
}

func (f fakeInfo) Name() string       { return f.name }
func (f fakeInfo) Size() int64        { return f.size }
func (f fakeInfo) Mode() os.FileMode  { return f.mode }
func (f fakeInfo) ModTime() time.Time { return f.mod }
func (f fakeInfo) IsDir() bool        { return f.dir }
func (f fakeInfo) Sys() interface{}   { return f.sys }

var anyModes = []os.FileMode{
	os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSymlink, os.ModeDevice, os.ModeNamedPipe,
	os.ModeSocket, os.ModeSetuid, os.ModeSetgid, os.ModeCharDevice, os.ModeSticky, os.ModeIrregular,
}

func genMode(t *rapid.T, l string) os.FileMode {
	m := os.FileMode(intn(t, l+"-perm", 0, 0777))
	for i, n := 0, pick(t, l+"-n", []int{0, 0, 1, 1, 2, 5}); i < n; i++ {
		m |= pick(t, fmt.Sprintf("%s-bit%d", l, i), anyModes)
	}
	return m
}

func genZone(t *rapid.T, l string) *time.Location {
	switch intn(t, l+"-zone", 0, 3) {
	case 0:
		return time.UTC
	case 1:
		return time.FixedZone("", 0)
	case 2:
		return time.FixedZone("Z", 60*pick(t, l+"-offset", []int{-1, 1, -30, 30, 330, -210, 840, -720, 23*60 + 59, -23*60 - 59, 60, -60, -59}))
	}
	return time.FixedZone("X", 60*intn(t, l+"-minutes", -23*60-59, 23*60+59))
}

func genTime(t *rapid.T, l string) time.Time {
	zone := genZone(t, l)
	year := pick(t, l+"-year", []int{0, 1, 999, 1000, 1582, 1677, 1678, 1900, 1969, 1970, 1999, 2000, 2020, 2038, 2261, 2262, 2263, 9998, 9999})
	if rapid.Bool().Draw(t, l+"-any") {
		year = intn(t, l+"-anyyear", 0, 9999)
	}
	nano := pick(t, l+"-nano", []int{0, 1, 9, 10, 100, 999, 1000, 1001, 100000, 999999, 1000000, 123456789, 100000000, 999999999, 500000000, 999999000})
	if rapid.Bool().Draw(t, l+"-anynano") {
		nano = intn(t, l+"-nanos", 0, 999999999)
	}
	if intn(t, l+"-edge", 0, 5) == 0 {
		if rapid.Bool().Draw(t, l+"-end") {
			return time.Date(year, 12, 31, 23, 59, 59, nano, zone)
		}
		return time.Date(year, 1, 1, 0, 0, 0, nano, zone)
	}
	return time.Date(year, time.Month(intn(t, l+"-month", 1, 12)), intn(t, l+"-day", 1, 28), intn(t, l+"-hour", 0, 23), intn(t, l+"-min", 0, 59), intn(t, l+"-sec", 0, 59), nano, zone)
}

// genInfoName is any text; JSON has nothing but text.
func genInfoName(t *rapid.T, l string) string {
	switch intn(t, l+"-kind", 0, 3) {
	case 0:
		s := rapid.String().Draw(t, l+"-any")
		return strings.ToValidUTF8(s, "_")
	case 1:
		return pick(t, l+"-odd", []string{"", ".", "..", "/", "a/b", "\x00", "\u2028\u2029", "<script>&amp;</script>", "\"", "\\", "\\u0041", "a\nb", "\ufeff", "null", "\x7f", "\u00a0"})
	}
	return genName(t, l)
}

// genInfo draws file information, of all sorts of origins.
func genInfo(t *rapid.T, k *kase, l, dir string) os.FileInfo {
	name, mode, mod := genInfoName(t, l+"-name"), genMode(t, l+"-mode"), genTime(t, l+"-time")
	size := pick(t, l+"-size", []int64{0, 1, 1 << 31, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 3, 1<<63 - 1, 4096, 17, -1})
	isDir := rapid.Bool().Draw(t, l+"-dir")
	if isDir {
		mode |= os.ModeDir
	}
	kind := pick(t, l+"-source", []string{"fake", "fake", "fake", "fake", "disk", "tar", "zip", "fstest", "details", "mem", "copy"})
	k.label("source %s", kind)
	switch kind {
	case "disk":
		p := filepath.Join(dir, fixName(strings.Replace(genName(t, l+"-file"), "/", "_", -1)))
		if isDir {
			infra(os.MkdirAll(p, 0755))
		} else if _, err := os.Lstat(p); err != nil {
			infra(os.WriteFile(p, genContent(t, l+"-data", 5000), 0644))
		}
		mt := pick(t, l+"-mtime", mtimePool)
		infra(os.Chmod(p, mode&0700|0700|mode&(os.ModeSticky|os.ModeSetuid)))
		infra(os.Chtimes(p, mt, mt))
		fi, err := os.Stat(p)
		infra(err)
		return fi
	case "tar":
		h := &tar.Header{Name: name, Size: size, Mode: int64(mode.Perm()), ModTime: mod, Typeflag: tar.TypeReg}
		if isDir {
			h.Typeflag = tar.TypeDir
		}
		return h.FileInfo()
	case "zip":
		h := &zip.FileHeader{Name: name, UncompressedSize64: uint64(size) >> 1, Modified: mod}
		h.SetMode(mode)
		if isDir {
			h.Name += "/"
		}
		if fi := h.FileInfo(); fi.Mode() == fi.Mode()&^(os.ModeDir)|(h.Mode()&os.ModeDir) {
			return fi
		}
	case "fstest":
		f := &fstest.MapFile{Data: make([]byte, size&0xff), Mode: mode, ModTime: mod}
		if fi, err := fs.Stat(fstest.MapFS{"x": f}, "x"); err == nil {
			return fi
		}
	case "details":
		return &pkging.FileInfo{Details: pkging.Details{Name: name, Size: size, Mode: mode, ModTime: pkging.ModTime(mod), IsDir: isDir}}
	case "mem":
		p, err := memFromData(embed.Data{Here: modInfo("/x", "app"), Files: map[string]embed.File{"app:/f": {
			Here: modInfo("/x", "app"), Path: here.Path{Pkg: "app", Name: "/f"},
			Info: pkging.NewFileInfo(fakeInfo{name: name, size: size, mode: mode, mod: mod, dir: isDir}),
		}}})
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		fi, err := p.Stat("/f")
		if err != nil {
			t.Fatalf("Stat: %v", err)
		}
		return fi
	case "copy":
		return pkging.NewFileInfo(pkging.NewFileInfo(fakeInfo{name: name, size: size, mode: mode, mod: mod, dir: isDir}))
	}
	if intn(t, l+"-local", 0, 9) == 0 {
		mod = time.Now() // with a monotonic reading
	}
	sys := pick(t, l+"-sys", []interface{}{nil, nil, map[string]interface{}{"a": 1}, "sys", 7})
	// what says that it is a folder need not have a mode that says so
	if intn(t, l+"-odd", 0, 5) == 0 {
		isDir = !isDir
	}
	return fakeInfo{name, size, mode, mod, isDir, sys}
}

// fullMeta is all that the property speaks of.
func fullMeta(fi os.FileInfo) string {
	mt := fi.ModTime()
	return fmt.Sprintf("name %q size %d mode %#o mtime %d.%09d dir %v", fi.Name(), fi.Size(), uint32(fi.Mode()), mt.Unix(), mt.Nanosecond(), fi.IsDir())
}

func TestC22(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		dir := newDir()
		defer dropDir(dir)
		src := genInfo(t, k, "info", dir)
		// as it comes from the source, and never again
		want := fullMeta(src)
		// (the information of zip has its times in UTC)
		if y := src.ModTime().Year(); !utf8.ValidString(src.Name()) || y < 0 || y > 9999 {
			k.done(false, "", nil)
			return
		}
		cp := pkging.NewFileInfo(src)
		check := func(what string, fi os.FileInfo) {
			if got := fullMeta(fi); got != want {
				t.Fatalf("%s: %s, want %s", what, got, want)
			}
		}
		check("the copy", cp)
		again := pkging.NewFileInfo(cp)
		check("a copy of the copy", again)
		// copies are independent of one another
		for _, c := range []*pkging.FileInfo{again, pkging.NewFileInfo(again)} {
			c.Details.Name += "changed"
			c.Details.Size++
			c.Details.Mode ^= 0777
			c.Details.ModTime = pkging.ModTime(src.ModTime().Add(time.Hour))
			c.Details.IsDir = !c.Details.IsDir
		}
		check("the copy, after a copy of it has changed", cp)
		var b []byte
		var err error
		form := pick(t, "form", []string{"pointer", "value", "indent", "slice", "map", "string"})
		switch form {
		case "value":
			b, err = json.Marshal(*cp)
		case "indent":
			b, err = json.MarshalIndent(cp, " ", "\t")
		case "slice":
			b, err = json.Marshal([]*pkging.FileInfo{cp, cp})
		case "map":
			b, err = json.Marshal(map[string]pkging.FileInfo{"x": *cp})
		case "string":
			b = []byte(cp.String())
		default:
			b, err = json.Marshal(cp)
		}
		if err != nil {
			t.Fatalf("marshalling %s (%s): %v", want, form, err)
		}
		var back []*pkging.FileInfo
		switch form {
		case "slice":
			err = json.Unmarshal(b, &back)
		case "map":
			m := map[string]*pkging.FileInfo{}
			err = json.Unmarshal(b, &m)
			back = append(back, m["x"])
		default:
			// over something else, as well
			fi := &pkging.FileInfo{}
			if rapid.Bool().Draw(t, "over") {
				fi = pkging.NewFileInfo(fakeInfo{name: "other", size: 9, mode: 0123 | os.ModeDir, mod: time.Now(), dir: true, sys: 3})
			}
			err = json.Unmarshal(b, fi)
			back = append(back, fi)
		}
		if err != nil {
			t.Fatalf("unmarshalling %s: %v", clip(string(b), 2000), err)
		}
		for _, fi := range back {
			check("after JSON ("+form+")", fi)
			again, err := json.Marshal(pkging.NewFileInfo(fi))
			if err != nil {
				t.Fatalf("marshalling again: %v", err)
			}
			var fi2 pkging.FileInfo
			if err := json.Unmarshal(again, &fi2); err != nil {
				t.Fatalf("unmarshalling again: %v", err)
			}
			check("after JSON twice", &fi2)
		}
		// the time alone
		mt := pkging.ModTime(src.ModTime())
		tb, err := json.Marshal(map[string]interface{}{"v": mt, "p": &mt})
		if err != nil {
			t.Fatalf("marshalling the time: %v", err)
		}
		var times map[string]pkging.ModTime
		if err := json.Unmarshal(tb, &times); err != nil {
			t.Fatalf("unmarshalling the time %s: %v", tb, err)
		}
		for n, got := range times {
			g := time.Time(got)
			if !g.Equal(src.ModTime()) {
				t.Fatalf("time %v comes back from JSON as %v (%s)", src.ModTime(), g, n)
			}
		}
		// as part of a payload
		pt := here.Path{Pkg: "app", Name: "/f"}
		p, err := memFromData(embed.Data{Here: modInfo("/x", "app"), Files: map[string]embed.File{pt.String(): {Info: cp, Path: pt, Here: modInfo("/x", "app")}}})
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		var q mem.Pkger
		pb, err := json.Marshal(p)
		if err != nil {
			t.Fatalf("marshalling the package: %v", err)
		}
		if err := json.Unmarshal(pb, &q); err != nil {
			t.Fatalf("unmarshalling the package: %v", err)
		}
		for _, p := range []*mem.Pkger{p, &q} {
			fi, err := p.Stat("/f")
			if err != nil {
				t.Fatalf("Stat: %v", err)
			}
			check("from a payload", fi)
		}
		year := src.ModTime().Year()
		k.labelIf(year < 1678 || year > 2261, "time beyond int64 nanoseconds")
		k.labelIf(src.ModTime().Nanosecond()%1000 != 0, "single nanoseconds")
		_, off := src.ModTime().Zone()
		k.labelIf(off%3600 != 0, "zone with minutes")
		k.labelIf(src.Mode()&os.ModeType&^os.ModeDir != 0, "unusual type")
		k.done(true, want+form, want)
	})
}
