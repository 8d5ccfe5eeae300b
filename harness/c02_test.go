package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// genOps draws operations on what is embedded, in all spellings, and on what
// is nowhere.
func (s *scene) genOps(l string, es []entry, n int, global bool) []Op {
	t := s.t
	var ops []Op
	byMod := map[string]*module{}
	for _, m := range s.all() {
		byMod[m.mod] = m
	}
	var dirs []entry
	for _, e := range es {
		if fi, err := os.Stat(e.abs); err == nil && fi.IsDir() {
			dirs = append(dirs, e)
		}
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%s%d", l, i)
		if len(es) == 0 || intn(t, l+"-missing", 0, 6) == 0 {
			m := s.pickModule(l)
			name := genMissing(t, l+"-name", m.tr)
			if _, err := os.Lstat(filepath.Join(m.dir, name)); err == nil || m.tr.belowFile(name) {
				continue
			}
			ops = append(ops, Op{Kind: pick(t, l+"-mkind", []string{"stat", "open"}), Path: s.spellPath(l+"-s", m, name)})
			s.k.label("of a missing path")
			continue
		}
		e := pick(t, l+"-entry", es)
		if len(dirs) > 0 && rapid.Bool().Draw(t, l+"-dir") {
			e = pick(t, l+"-direntry", dirs)
		}
		m := byMod[e.pt.Pkg]
		fi, err := os.Stat(e.abs)
		infra(err)
		op := Op{Path: s.spellPath(l+"-s", m, e.pt.Name), N: pick(t, l+"-n", []int{0, 1, 2, 7, 511, 4096})}
		kinds := []string{"stat", "open", "chunks"}
		if fi.IsDir() {
			kinds = []string{"walk", "readdir", "stat", "open", "pages", "skip"}
			if global {
				kinds = append(kinds, "http")
			}
		}
		op.Kind = pick(t, l+"-kind", kinds)
		if op.Kind == "http" {
			op.N = pick(t, l+"-range", []int{0, 0, 0, 3})
			var below []string
			for _, x := range es {
				if x.pt.Pkg == e.pt.Pkg && within(x.pt.Name, e.pt.Name) {
					below = append(below, strings.TrimPrefix(x.pt.Name, e.pt.Name))
				}
			}
			op.Sub = "/" + strings.TrimPrefix(pick(t, l+"-sub", below), "/")
			if rapid.Bool().Draw(t, l+"-slash") {
				op.Sub = strings.TrimSuffix(op.Sub, "/") + "/"
			}
		}
		ops = append(ops, op)
	}
	return ops
}

func TestC02(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 14, maxData: 70000, modes: true, mtimes: true}, exts: 1})
		defer s.done()
		s.declare(intn(t, "decls", 1, 4), false)
		s.sources(intn(t, "main", 0, 4) > 0)
		payload := s.pack(s.parse())
		es := s.expected()
		packed, _ := unpack(t, payload)
		disk, err := stdos.New(s.info())
		if err != nil {
			t.Fatalf("stdos.New: %v", err)
		}
		ops := s.genOps("op", es, intn(t, "ops", 3, 14), false)
		// every entry, one way or another
		for _, e := range es {
			kind := "open"
			if fi, err := os.Stat(e.abs); err == nil && fi.IsDir() {
				kind = pick(t, "each"+e.pt.String(), []string{"walk", "readdir"})
			}
			ops = append(ops, Op{Kind: kind, Path: e.pt.String()})
		}
		for _, op := range ops {
			x, y := runOp(disk, op), runOp(packed, op)
			if x != y {
				t.Fatalf("%+v: on disk\n%s\npacked\n%s", op, x, y)
			}
			k.label("operation " + op.Kind)
		}
		if intn(t, "process", 0, 2) == 0 {
			// by the functions of pkger, in a process of their own
			ops = s.genOps("gop", es, intn(t, "gops", 3, 14), true)
			var out opsOut
			cwd := pick(t, "cwd", s.dirsOnDisk())
			if err := startAgent("ops", cwd, opsIn{ops, payload}, &out); err != nil {
				t.Fatalf("running in %s: %v", cwd, err)
			}
			for i, op := range ops {
				if out.Dev[i] != out.Packed[i] {
					t.Fatalf("pkger: %+v: on disk\n%s\npacked\n%s", op, out.Dev[i], out.Packed[i])
				}
				k.label("pkger, operation " + op.Kind)
			}
			k.label("in another process")
			k.labelIf(cwd != s.dir, "from another folder of the module")
		}
		k.labelIf(len(s.ext) > 0, "with another module")
		k.done(len(es) > 1, strings.Join(s.log, "\n")+fmt.Sprint(ops), append(s.log, fmt.Sprintf("%+v", ops)))
	})
}

// dirsOnDisk lists the root of the module and its folders.
func (s *scene) dirsOnDisk() []string {
	var out []string
	for _, d := range s.tr.dirs() {
		if s.ownModule(here.Path{Pkg: s.mod, Name: d}) {
			continue
		}
		out = append(out, filepath.Join(s.dir, d))
	}
	return out
}
