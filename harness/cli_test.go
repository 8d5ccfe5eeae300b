package harness

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/markbates/pkger/pkging/embed"
)

// cliRun is what a run of the pkger command did.
type cliRun struct {
	args     []string
	out, err string
	code     int
}

func (r cliRun) String() string {
	return fmt.Sprintf("pkger %q: exit status %d\n%s\n%s", r.args, r.code, clip(r.out, 1500), clip(r.err, 1500))
}

// command runs the pkger command in a folder; limit is the size of the files
// that it may write, in bytes, if not 0.
func command(dir string, limit int, args ...string) cliRun {
	cmd := exec.Command(os.Getenv("VP_CLI"), args...)
	if limit > 0 {
		cmd = exec.Command("prlimit", append([]string{fmt.Sprintf("--fsize=%d", limit), os.Getenv("VP_CLI")}, args...)...)
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRun{args: args, out: o.String(), err: e.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			infra(err)
		}
		r.code = ee.ExitCode()
	}
	return r
}

// cli runs it in the root of the module.
func (s *scene) cli(args ...string) cliRun { return command(s.dir, 0, args...) }

// includeFlags are the flags for the -include declarations.
func (s *scene) includeFlags() []string {
	var out []string
	for i, inc := range s.includes() {
		if i%2 == 0 {
			out = append(out, "-include", inc)
		} else {
			out = append(out, "-include="+inc)
		}
	}
	return out
}

// importExts imports the other modules: the command tidies go.mod.
func (s *scene) importExts() {
	if len(s.ext) == 0 {
		return
	}
	src := "package vpimports\n\nimport (\n"
	for _, e := range s.ext {
		src += fmt.Sprintf("\t_ %q\n", e.mod)
	}
	dir := filepath.Join(s.dir, "vpimports")
	infra(os.MkdirAll(dir, 0755))
	infra(os.WriteFile(filepath.Join(dir, "imports.go"), []byte(src+")\n"), 0644))
}

// snap is what lies in the scene's folders, apart from what the command is
// there to change.
func (s *scene) snap() map[string]string {
	out := map[string]string{}
	infra(filepath.Walk(s.base, func(p string, fi os.FileInfo, err error) error {
		if err != nil && fi == nil {
			out[p] = "not to be seen"
			return nil
		}
		switch {
		case p == s.base || p == s.dir: // files are made and removed there
			return nil
		case filepath.Dir(p) == s.dir && (fi.Name() == "pkged.go" || fi.Name() == "go.mod" || fi.Name() == "go.sum"):
			return nil
		}
		out[p] = fmt.Sprintf("%v %d", fi.Mode(), fi.ModTime().UnixNano())
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err == nil {
				out[p] += " " + sum(b)
			}
		}
		if fi.IsDir() && err != nil {
			return filepath.SkipDir
		}
		return nil
	}))
	return out
}

func diffSnaps(a, b map[string]string) string {
	var out []string
	for p, x := range a {
		if y, ok := b[p]; !ok {
			out = append(out, p+" is gone")
		} else if x != y {
			out = append(out, fmt.Sprintf("%s: %s, then %s", p, x, y))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p+" is new")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// setTimes gives everything in the module's folder a time of its own.
func (s *scene) setTimes() {
	for _, m := range s.all() {
		names := osTree(m.dir)
		for i := len(names) - 1; i >= 0; i-- {
			n := names[i]
			mt := time.Unix(1500000000+int64(len(n))*1000, int64(len(n)*37)*1000)
			if nd := m.tr[n]; nd != nil && !nd.MTime.IsZero() {
				mt = nd.MTime
			}
			infra(os.Chtimes(m.dir+n, mt, mt))
		}
	}
}

// payloadOf is what a generated file embeds, however it is written down, and
// the package it is in.
func payloadOf(t tb, src []byte) (payload []byte, pkg string) {
	t.Helper()
	f, err := parser.ParseFile(token.NewFileSet(), "pkged.go", src, 0)
	if err != nil {
		t.Fatalf("this is not Go: %v\n%s", err, clip(string(src), 400))
	}
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING {
			return true
		}
		if v, err := strconv.Unquote(l.Value); err == nil && len(v) > len(payload) {
			if _, err := embed.Decode([]byte(v)); err == nil {
				payload = []byte(v)
			}
		}
		return true
	})
	if payload == nil {
		t.Fatalf("this embeds nothing: %s", clip(string(src), 400))
	}
	return payload, f.Name.Name
}

// embedded lists what the generated file at p embeds.
func embedded(t tb, p string) ([]string, embed.Data) {
	t.Helper()
	src, err := os.ReadFile(p)
	if err != nil {
		t.Fatalf("no generated file: %v", err)
	}
	payload, _ := payloadOf(t, src)
	_, d := unpack(t, payload)
	var out []string
	for n := range d.Files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out, d
}

// codeFolders are the folders with Go sources that are parsed.
func (s *scene) codeFolders() []string {
	var out []string
	infra(filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && p != s.dir {
			b := fi.Name()
			if b[0] == '.' || b[0] == '_' || b == "vendor" || b == "testdata" || b == "node_modules" {
				return filepath.SkipDir
			}
		}
		if strings.HasSuffix(p, ".go") && !fi.IsDir() {
			d := path.Clean("/" + strings.TrimPrefix(filepath.Dir(p), s.dir))
			if len(out) == 0 || out[len(out)-1] != d {
				out = append(out, d)
			}
		}
		return nil
	}))
	return out
}
