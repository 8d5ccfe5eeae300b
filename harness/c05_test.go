package harness

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

//go:embed runner.go
var runnerFile []byte

// runnerSource is runner.go, as part of a program.
func runnerSource() []byte {
	return bytes.Replace(runnerFile, []byte("package harness\n"), []byte("package main\n"), 1)
}

const mainSource = `package main

import (
	"encoding/json"
	"os"
%s)

func main() {
	var ops []Op
	if err := json.NewDecoder(os.Stdin).Decode(&ops); err != nil {
		panic(err)
	}
	var out []string
	for _, op := range ops {
		out = append(out, runOp(global{}, op))
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(err)
	}
}
`

// goRun runs the go command in the module.
func (s *scene) goRun(dir string, args ...string) (string, error) {
	cmd := exec.Command(os.Getenv("VP_GO"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// runProgram runs a generated program with nothing but itself.
func runProgram(t tb, bin, cwd string, env []string, ops []Op) []string {
	t.Helper()
	in, err := json.Marshal(ops)
	infra(err)
	cmd := exec.Command(bin)
	cmd.Dir = cwd
	cmd.Env = env
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		t.Fatalf("the program in %s: %v\n%s%s", cwd, err, clip(o.String(), 1000), clip(e.String(), 3000))
	}
	var out []string
	if err := json.Unmarshal(o.Bytes(), &out); err != nil {
		t.Fatalf("the program printed %s: %v", clip(o.String(), 1000), err)
	}
	return out
}

func TestC05(t *testing.T) {
	runner := runnerSource()
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		most := 70000
		if tier == "thorough" {
			most = 1 << 21
		}
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 14, maxData: most, modes: true, mtimes: true}, exts: 1, src: true})
		defer s.done()
		s.declare(intn(t, "decls", 1, 5), false)
		if intn(t, "huge", 0, 8) == 0 && s.tr["/huge.bin"] == nil {
			// more than any buffer on the way
			s.tr["/huge.bin"] = &node{Data: content{"random", intn(t, "huge-size", 500000, 1200000), 7}.bytes(), Mode: 0644}
			infra(os.WriteFile(s.dir+"/huge.bin", s.tr["/huge.bin"].Data, 0644))
			s.decls = append(s.decls, &decl{kind: "include", m: &s.module, name: "/huge.bin", arg: "/huge.bin"})
			s.say("include /huge.bin")
			k.label("more than 1 MB of it")
		}

		// where the program is, and where its package is embedded
		type layout struct {
			prog, out string // folders
			pkg       string // of the embedding folder
			fresh     bool   // which has no Go files before
		}
		lays := []layout{
			{"", "", "main", false}, {"", "", "main", false},
			{"cmd/reader", "cmd/reader", "main", false},
			{"", "internal/assets", "assets", false},
			{"", "embedded", "embedded", true},
			{"", "embedded", pick(t, "odd-name", []string{"x_test", "_x", "é", "main_", "pkged", "Pkger", "mem_"}), false},
			{"cmd/reader", "pkged", "other", false},
			{"", "x-y.z", "xyz", false},
			{"cmd/reader", "is-fresh", "", true},
			{"", pick(t, "odd-folder", []string{"func", "type", "go-type", "1st", "a.b", "v2", "internal/package", "import.x", "x_test", "init", "web-main", "a-_", "_", "__", "_x", "nil", "1"}), "", true},
			{"cmd/reader", pick(t, "odd-folder2", []string{"go", "range", "cmd/reader/select", "package", "x", "string", "nil", "true-func", "package.main"}), "", true},
		}
		lay := pick(t, "layout", lays)
		for _, d := range []string{lay.prog, lay.out} {
			if top := "/" + strings.Split(d, "/")[0]; d != "" && s.tr[top] != nil {
				lay = lays[0]
			}
		}
		s.sources(lay.prog == "")
		s.importExts()
		src := func(dir, name string, b []byte) {
			infra(os.MkdirAll(filepath.Join(s.dir, dir), 0755))
			infra(os.WriteFile(filepath.Join(s.dir, dir, name), b, 0644))
		}
		imports := ""
		if lay.out != lay.prog {
			imports = fmt.Sprintf("\n\t_ %q\n", s.mod+"/"+lay.out)
			if !lay.fresh {
				src(lay.out, "doc.go", []byte("// Package "+lay.pkg+" holds the assets.\npackage "+lay.pkg+"\n"))
			}
		}
		infra(os.MkdirAll(filepath.Join(s.dir, lay.out), 0755))
		src(lay.prog, "main.go", []byte(fmt.Sprintf(mainSource, imports)))
		src(lay.prog, "runner.go", runner)
		if lay.prog == "" {
			// what sources put there
			for i, d := range s.decls {
				if d.kind != "include" {
					src("", fmt.Sprintf("decl%d.go", i), []byte(fmt.Sprintf("package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc declared%d() {\n\t%s\n}\n", i, call(d.kind, quote(t, fmt.Sprintf("again%d", i), d.arg)))))
				}
			}
		}
		s.say("program in %q, embedded in %q", lay.prog, lay.out)

		es := s.expected()
		ops := s.genOps("op", es, intn(t, "ops", 3, 12), true)
		for _, e := range es {
			ops = append(ops, Op{Kind: "open", Path: e.pt.String()})
		}
		var dev opsOut
		if err := startAgent("ops", pick(t, "dev-cwd", s.dirsOnDisk()), opsIn{Ops: ops}, &dev); err != nil {
			t.Fatalf("from disk: %v", err)
		}

		// two packs in a row end the same
		before := s.snap()
		args := s.includeFlags()
		if lay.out != "" {
			o := []string{"-o", pick(t, "o", []string{lay.out, lay.out, lay.out + "/", "./" + lay.out})}
			if rapid.Bool().Draw(t, "flag-joined") {
				o = []string{"-o=" + o[1]}
			}
			if rapid.Bool().Draw(t, "flag-order") {
				args = append(o, args...)
			} else {
				args = append(args, o...)
			}
		}
		out := filepath.Join(s.dir, lay.out, "pkged.go")
		kept := true // the folder is not embedded, whose time it would change
		for _, e := range es {
			kept = kept && e.abs != filepath.Dir(out)
		}
		if kept && intn(t, "earlier", 0, 2) > 0 {
			// what an earlier run, maybe of another version, left there
			old := pick(t, "earlier-text", []string{
				"", "package", "not Go", "package other\n", "package main\n\nfunc main() {\n",
				"package x\n\nimport \"github.com/markbates/pkger\"\n\nvar _, _ = pkger.Open(\"/nothing/there\")\n",
				"package x\n\nimport _ \"no.such.example.com/module\"\n",
				"// Code generated by pkger; DO NOT EDIT.\n\npackage x\n\nvar _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`00`)))\n" + strings.Repeat("//\n", 100000),
			})
			infra(os.WriteFile(out, []byte(old), pick(t, "earlier-mode", []os.FileMode{0644, 0666, 0755})))
			k.label("over an earlier pkged.go")
		}
		r := s.cli(args...)
		if r.code != 0 {
			t.Fatalf("%v", r)
		}
		after := s.snap()
		for _, p := range []string{out, filepath.Dir(out)} {
			delete(before, p)
			delete(after, p)
		}
		if d := diffSnaps(before, after); d != "" {
			t.Fatalf("%v\nchanged\n%s", r, d)
		}
		code, err := os.ReadFile(out)
		if err != nil {
			t.Fatalf("%v\nleft no pkged.go: %v", r, err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, "pkged.go", code, parser.ParseComments)
		if err != nil {
			t.Fatalf("pkged.go: %v", err)
		}
		if lay.pkg != "" && af.Name.Name != lay.pkg {
			t.Fatalf("pkged.go is in package %q, the folder is %q", af.Name.Name, lay.pkg)
		}
		if !ast.IsGenerated(af) {
			t.Fatalf("pkged.go is not marked as generated")
		}

		bin := filepath.Join(s.base, "program")
		if o, err := s.goRun(s.dir, "build", "-o", bin, "./"+lay.prog); err != nil {
			t.Fatalf("%v\nbuilding: %v\n%s", r, err, o)
		}
		if intn(t, "vet", 0, 3) == 0 {
			if o, err := s.goRun(s.dir, "vet", "./"+lay.out); err != nil {
				t.Fatalf("%v\nvet: %v\n%s", r, err, o)
			}
			k.label("vetted")
		}
		if intn(t, "skippkger", 0, 5) == 0 {
			// the tag leaves the package on disk; what is there has changed since
			var on []Op
			for _, e := range es {
				if fi, err := os.Stat(e.abs); err == nil && !fi.IsDir() && path.Base(e.abs) != "go.mod" {
					on = append(on, Op{Kind: "open", Path: e.pt.String()})
				}
			}
			if lay.fresh {
				on = nil
			}
			if on != nil {
				b2 := bin + "-disk"
				if o, err := s.goRun(s.dir, "build", "-tags", "skippkger", "-o", b2, "./"+lay.prog); err != nil {
					t.Fatalf("building with the skippkger tag: %v\n%s", err, o)
				}
				got := runProgram(t, b2, s.dir, append(os.Environ(), "PWD="+s.dir), on)
				var want opsOut
				if err := startAgent("ops", s.dir, opsIn{Ops: on}, &want); err != nil {
					t.Fatalf("from disk: %v", err)
				}
				for i := range on {
					if got[i] != want.Dev[i] {
						t.Fatalf("%+v with the skippkger tag: %s, want %s", on[i], got[i], want.Dev[i])
					}
				}
				k.label("built with the skippkger tag")
			}
		}

		// all of it goes away
		gone := filepath.Join(s.base, "gone")
		infra(os.Mkdir(gone, 0755))
		cwd := filepath.Join(s.base, "else", "where")
		infra(os.MkdirAll(cwd, 0755))
		what := intn(t, "gone", 0, 2)
		if what > 0 {
			infra(os.Chdir(s.cwd))
			for i, m := range s.all() {
				if _, err := os.Stat(m.dir); err != nil {
					continue // was in another
				}
				infra(os.Rename(m.dir, filepath.Join(gone, fmt.Sprint(i))))
			}
			k.label("the source is gone")
		} else {
			// or is not what it was
			for _, e := range es {
				if fi, err := os.Stat(e.abs); err == nil && fi.Mode().IsRegular() {
					infra(os.Chmod(e.abs, 0644))
					infra(os.WriteFile(e.abs, []byte("not what it was"), 0644))
				}
			}
			cwd = s.dir
			k.label("the source has changed")
		}
		env := []string{"PWD=" + cwd, "PATH=" + cwd}
		if what == 2 {
			env = []string{}
			k.label("with no environment")
		}
		got := runProgram(t, bin, cwd, env, ops)
		if len(got) != len(ops) {
			t.Fatalf("%d operations gave %d results", len(ops), len(got))
		}
		for i, op := range ops {
			if got[i] != dev.Dev[i] {
				t.Fatalf("%+v: on disk\n%s\npacked\n%s", op, clip(dev.Dev[i], 1500), clip(got[i], 1500))
			}
			k.label("operation " + op.Kind)
		}
		k.label("embedded in " + lay.out)
		k.labelIf(len(s.ext) > 0, "with another module")
		k.done(len(es) > 1, strings.Join(s.log, "\n")+fmt.Sprint(ops), s.log)
	})
}
