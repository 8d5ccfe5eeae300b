package harness

import (
	"bytes"
	"io"
	"os"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging"
	"pgregory.net/rapid"
)

func TestC01(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 14, maxData: 1 << 22, modes: true, mtimes: true}, exts: 1})
		defer s.done()
		if fs := s.tr.files(); len(fs) > 0 && intn(t, "huge", 0, 59) == 0 {
			// the odd video
			n := pick(t, "huge-file", fs)
			nd := *s.tr[n]
			nd.Data = bytes.Repeat([]byte("0123456789abcde\n"), pick(t, "huge-size", []int{1 << 19, 1<<20 + 1, 1 << 21}))
			nd.Data = append(nd.Data, "the end"...)
			s.tr[n] = &nd
			infra(os.Chmod(s.dir+n, 0644))
			infra(os.WriteFile(s.dir+n, nd.Data, 0644))
			infra(os.Chmod(s.dir+n, nd.Mode))
			k.label("contents of 8 to 32 megabytes")
		}
		s.declare(intn(t, "decls", 1, 4), intn(t, "virtual", 0, 2) == 0)
		s.sources(intn(t, "main", 0, 4) > 0)
		decls := s.parse()
		reported := s.reported(decls)
		payload := s.pack(decls)
		p, data := unpack(t, payload)
		for _, e := range reported {
			s.checkPacked(p, e)
		}
		// and nothing else
		in := map[string]bool{}
		for _, e := range reported {
			in[e.pt.String()] = true
		}
		for pt := range data.Files {
			if !in[pt] {
				t.Fatalf("the payload holds %q, which is not reported:\n%s", pt, entryLines(reported))
			}
		}
		if len(data.Files) != len(in) {
			t.Fatalf("the payload holds %d files, %d are reported", len(data.Files), len(in))
		}
		for _, m := range s.all() {
			err := p.Walk(m.mod+":/", func(name string, fi os.FileInfo, err error) error {
				if !in[name] && !(name == m.mod+":/") {
					t.Fatalf("the payload holds %q, which is not reported", name)
				}
				delete(in, name)
				return err
			})
			if err != nil {
				t.Fatalf("Walk: %v", err)
			}
		}
		for name := range in {
			t.Fatalf("Walk of the payload does not find %q", name)
		}
		big := 0
		for _, nd := range s.tr {
			big = max(big, len(nd.Data))
		}
		k.labelIf(big >= 1<<20, "contents of a megabyte and more")
		k.labelIf(len(s.ext) > 0, "with another module")
		k.label("payload below 2^%d bytes", bits(len(payload)))
		k.done(len(reported) > 1, strings.Join(s.log, "\n"), s.log)
	})
}

func bits(n int) int {
	b := 0
	for ; n > 0; n >>= 2 {
		b += 2
	}
	return b
}

// checkPacked compares what the package holds with what is on disk.
func (s *scene) checkPacked(p pkging.Pkger, e entry) {
	t := s.t
	fi, err := os.Lstat(e.abs)
	if err != nil {
		t.Fatalf("%v is reported at %s: %v", e.pt, e.abs, err)
	}
	pfi, err := p.Stat(e.pt.String())
	if err != nil {
		t.Fatalf("%v is reported, but Stat of the packed: %v", e.pt, err)
	}
	if metaOf(pfi) != metaOf(fi) {
		t.Fatalf("%v: Stat of the packed is %v, on disk %v", e.pt, metaOf(pfi), metaOf(fi))
	}
	f, err := p.Open(e.pt.String())
	if err != nil {
		t.Fatalf("%v is reported, but opening the packed: %v", e.pt, err)
	}
	defer f.Close()
	hfi, err := f.Stat()
	if err != nil || metaOf(hfi) != metaOf(fi) {
		t.Fatalf("%v: Stat of the opened is %v, %v, on disk %v", e.pt, hfi, err, metaOf(fi))
	}
	if f.Path() != e.pt {
		t.Fatalf("%v opened has path %v", e.pt, f.Path())
	}
	if fi.IsDir() {
		return
	}
	want, err := os.ReadFile(e.abs)
	infra(err)
	got, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("%v packed holds %s, %v; on disk %s", e.pt, sum(got), err, sum(want))
	}
}
