package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"pgregory.net/rapid"
)

var groupOrder = []string{"pkger.MkdirAll", "pkger.Create", "pkger.Include", "pkger.Stat", "pkger.Open", "pkger.Dir", "pkger.Walk"}

// packing is all that packing and listing a module gave.
type packing struct {
	list, json, parse, payload, raw string
}

// saved is a copy of the module's folder.
type saved struct {
	name string
	mode os.FileMode
	data []byte
}

func (s *scene) save() []saved {
	var out []saved
	for _, n := range osTree(s.dir) {
		if n == "/" || n == "/pkged.go" {
			continue
		}
		fi, err := os.Stat(s.dir + n)
		infra(err)
		f := saved{name: n, mode: fi.Mode()}
		if !fi.IsDir() {
			f.data, err = os.ReadFile(s.dir + n)
			infra(err)
		}
		out = append(out, f)
	}
	return out
}

// recreate makes the files of the module anew, in another order.
func (s *scene) recreate(l string, all []saved) {
	es, err := os.ReadDir(s.dir)
	infra(err)
	for _, e := range es {
		unlock(filepath.Join(s.dir, e.Name()))
		infra(os.RemoveAll(filepath.Join(s.dir, e.Name())))
	}
	for _, f := range rapid.Permutation(all).Draw(s.t, l+"-order") {
		if f.mode.IsDir() {
			infra(os.MkdirAll(s.dir+f.name, 0755))
			continue
		}
		infra(os.MkdirAll(path.Dir(s.dir+f.name), 0755))
		infra(os.WriteFile(s.dir+f.name, f.data, 0644))
	}
	for i := len(all) - 1; i >= 0; i-- {
		infra(os.Chmod(s.dir+all[i].name, all[i].mode))
	}
}

// packAll packs and lists the module with the command.
func (s *scene) packAll(l string) packing {
	t := s.t
	var p packing
	flags := s.includeFlags()
	run := func(args ...string) string {
		r := s.cli(args...)
		if r.code != 0 {
			t.Fatalf("%v", r)
		}
		return r.out
	}
	s.setTimes()
	what := rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, l+"-order")
	for _, w := range what {
		switch w {
		case 0:
			p.list = run(append([]string{"list"}, flags...)...)
		case 1:
			p.json = run(append([]string{"list", "-json"}, flags...)...)
		case 2:
			p.parse = declarations(t, run("parse"))
		case 3:
			s.setTimes()
			run(flags...)
			src, err := os.ReadFile(filepath.Join(s.dir, "pkged.go"))
			if err != nil {
				t.Fatalf("no generated file: %v", err)
			}
			payload, _ := payloadOf(t, src)
			p.raw = string(src)
			p.payload = s.masked(payload)
		}
	}
	return p
}

// declarations is what parse prints, without what it says of the package: a
// pkged.go is one of its Go files.
func declarations(t tb, out string) string {
	type decl struct {
		Type, Value string
		Pos         struct {
			Filename             string
			Offset, Line, Column int
		}
		File struct {
			Abs  string
			Path here.Path
			Here struct {
				Dir    string
				Module here.Module
			}
		}
	}
	var ds map[string][]decl
	if err := json.Unmarshal([]byte(out), &ds); err != nil {
		t.Fatalf("parse: %v\n%s", err, out)
	}
	return indented(ds)
}

// masked is the payload without what writing and removing pkged.go changes:
// the time and the size of the folder it is in.
func (s *scene) masked(payload []byte) string {
	raw, err := embed.Decode(payload)
	if err != nil {
		s.t.Fatalf("decoding: %v", err)
	}
	var d embed.Data
	if err := json.Unmarshal(raw, &d); err != nil {
		s.t.Fatalf("decoding: %v", err)
	}
	if f, ok := d.Files[s.mod+":/"]; ok && f.Info != nil {
		f.Info.Details.ModTime = pkging.ModTime(time.Unix(0, 0))
		f.Info.Details.Size = 0
		d.Files[s.mod+":/"] = f
		b, err := json.Marshal(d)
		infra(err)
		return string(b)
	}
	return string(payload)
}

func (p packing) diff(q packing) string {
	switch {
	case p.list != q.list:
		return "list prints\n" + p.list + "\nand\n" + q.list
	case p.json != q.json:
		return "list -json prints\n" + p.json + "\nand\n" + q.json
	case p.parse != q.parse:
		return "parse prints\n" + firstDiff(p.parse, q.parse)
	case p.payload != q.payload:
		return fmt.Sprintf("the payloads differ: %s, %s", sum([]byte(p.payload)), sum([]byte(q.payload)))
	}
	return ""
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return strings.Join(x[max(0, i-8):min(len(x), i+3)], "\n") + "\nand\n" + strings.Join(y[min(len(y), max(0, i-8)):min(len(y), i+3)], "\n")
		}
	}
	return "more"
}

func groups(t tb, kinds []string) {
	t.Helper()
	last := -1
	for _, kd := range kinds {
		at := -1
		for i, g := range groupOrder {
			if g == kd {
				at = i
			}
		}
		if at < last {
			t.Fatalf("declarations come in the order %v", kinds)
		}
		last = at
	}
}

func kindsOf(t tb, v interface{}) []string {
	b, err := json.Marshal(v)
	if err != nil {
		t.Fatalf("%v", err)
	}
	var ds []struct{ Type string }
	if err := json.Unmarshal(b, &ds); err != nil {
		t.Fatalf("%v: %s", err, b)
	}
	var out []string
	for _, d := range ds {
		out = append(out, d.Type)
	}
	return out
}

func TestC07(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 14, maxData: 300, modes: true, mtimes: true}, exts: 2})
		defer s.done()
		s.declare(intn(t, "decls", 2, 9), intn(t, "virtual", 0, 2) == 0)
		s.sources(intn(t, "main", 0, 4) > 0)
		s.importExts()
		s.setTimes()

		// in this process, again and again
		decls := s.parse()
		groups(t, kindsOf(t, decls))
		first, payload := s.reported(decls), s.pack(decls)
		if !sort.SliceIsSorted(first, func(i, j int) bool { return first[i].pt.String() < first[j].pt.String() }) {
			t.Fatalf("reported out of order:\n%s", entryLines(first))
		}
		for i, n := 0, intn(t, "again", 2, 5); i < n; i++ {
			var again parser.Decls
			if i%2 == 0 {
				again = s.parse()
			} else {
				again = decls
			}
			if x, y := js(decls), js(again); x != y {
				t.Fatalf("parsed\n%s\nthen\n%s", x, y)
			}
			if x := s.reported(again); entryLines(x) != entryLines(first) {
				t.Fatalf("reported\n%s\nthen\n%s", entryLines(first), entryLines(x))
			}
			if x := s.pack(again); string(x) != string(payload) {
				t.Fatalf("packed %s, then %s", sum(payload), sum(x))
			}
		}
		if intn(t, "command", 0, 2) == 0 {
			// tidied, so that it stays as it is
			if r := s.cli("path", "/"); r.code != 0 {
				t.Fatalf("%v", r)
			}
			files := s.save()
			all := []packing{s.packAll("first")}
			var how []string
			for i, n := 0, intn(t, "runs", 1, 2); i < n; i++ {
				l := fmt.Sprintf("run%d", i)
				pk := filepath.Join(s.dir, "pkged.go")
				switch h := intn(t, l+"-how", 0, 3); h {
				case 0:
					how = append(how, "with the earlier pkged.go")
				case 1:
					how = append(how, "without a pkged.go")
					os.Remove(pk)
				case 2:
					how = append(how, "made anew in another order")
					s.recreate(l, files)
				case 3:
					how = append(how, "made anew, with the earlier pkged.go")
					old, err := os.ReadFile(pk)
					s.recreate(l, files)
					if err == nil {
						infra(os.WriteFile(pk, old, 0644))
					}
				}
				all = append(all, s.packAll(l))
			}
			k.label("with the command")
			for _, h := range how {
				k.label(h)
			}
			for i := range all[1:] {
				if d := all[0].diff(all[i+1]); d != "" {
					t.Fatalf("%s, the first and then %v:\n%s", strings.Join(s.log, "\n"), how, d)
				}
			}
			var got map[string]json.RawMessage
			if err := json.Unmarshal([]byte(all[0].parse), &got); err != nil {
				t.Fatalf("parse: %v", err)
			}
			groups(t, kindsOf(t, got["."]))
		}
		k.labelIf(len(s.ext) > 0, "with other modules")
		k.done(len(first) > 2 && len(s.decls) > 2, strings.Join(s.log, "\n"), s.log)
	})
}
