package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"pgregory.net/rapid"
)

// libIn asks a process that is as good as new what the library says.
type libIn struct {
	Path, Stat, Info, Parse []string
}

type libOut struct {
	Paths            map[string]here.Path
	Stat, Info       string
	Parse            string
	PathErr, StatErr bool
	InfoErr          bool
	ParseErr         bool
}

func agentLib() {
	var in libIn
	out := libOut{Paths: map[string]here.Path{}}
	agentIn(&in)
	for _, a := range in.Path {
		pt, err := pkger.Parse(a)
		out.PathErr = out.PathErr || err != nil
		out.Paths[a] = pt
	}
	for _, a := range in.Stat {
		f, err := pkger.Open(a)
		if err != nil {
			out.StatErr = true
			break
		}
		fi, err := f.Stat()
		infra(err)
		fis := []os.FileInfo{fi}
		if fi.IsDir() {
			fis, err = f.Readdir(-1)
			infra(err)
		}
		for _, fi := range fis {
			out.Stat += fmt.Sprintln(pkging.NewFileInfo(fi))
		}
		f.Close()
	}
	for _, a := range in.Info {
		info, err := pkger.Info(a)
		if err != nil {
			out.InfoErr = true
			break
		}
		out.Info += indented(info)
	}
	m := map[string]parser.Decls{}
	for _, a := range in.Parse {
		var info here.Info
		var err error
		if a == "." {
			info, err = here.Dir(".")
		} else {
			info, err = here.Package(a)
		}
		var decls parser.Decls
		if err == nil {
			decls, err = parser.Parse(info)
		}
		if err != nil {
			out.ParseErr = true
			break
		}
		m[a] = decls
	}
	out.Parse = indented(m)
	agentOut(out)
}

func indented(v interface{}) string {
	bb := &bytes.Buffer{}
	enc := json.NewEncoder(bb)
	enc.SetIndent("", " ")
	infra(enc.Encode(v))
	return bb.String()
}

func TestC21(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 10, maxData: 200, modes: true}, exts: 1})
		defer s.done()
		s.declare(intn(t, "decls", 1, 5), true)
		s.sources(intn(t, "main", 0, 4) > 0)
		s.importExts()
		if len(s.ext) > 0 {
			// another module's declarations are its own
			e := s.ext[0]
			if e.tr["/own.go"] == nil {
				infra(os.WriteFile(filepath.Join(e.dir, "own.go"), []byte("package lib\n\nimport \"github.com/markbates/pkger\"\n\nvar _, _ = pkger.Open(\"/lib.go\")\nvar _, _ = pkger.Stat(\"/go.mod\")\n"), 0644))
			}
		}
		want := s.expected()
		before := s.snap()
		unchanged := func(r cliRun) {
			t.Helper()
			if d := diffSnaps(before, s.snap()); d != "" {
				t.Fatalf("%v\nchanged\n%s", r, d)
			}
		}
		ok := func(r cliRun) cliRun {
			t.Helper()
			if r.code != 0 {
				t.Fatalf("%v", r)
			}
			unchanged(r)
			return r
		}
		fails := func(r cliRun) {
			t.Helper()
			if r.code == 0 {
				t.Fatalf("%v", r)
			}
			unchanged(r)
		}
		flags := s.includeFlags()

		var what []string
		what = append(what, rapid.Permutation([]string{"list", "json", "pack", "parse", "path", "stat", "info", "error"}).Draw(t, "what")...)
		what = what[:intn(t, "whats", 3, len(what))]
		for i, w := range what {
			l := fmt.Sprintf("%s%d", w, i)
			k.label("command " + w)
			switch w {
			case "list":
				r := ok(s.cli(append([]string{"list"}, flags...)...))
				lines := []string{s.info().ImportPath}
				for _, e := range want {
					lines = append(lines, " > "+e.pt.String())
				}
				if r.out != strings.Join(lines, "\n")+"\n" {
					t.Fatalf("%v\nwant\n%s", r, strings.Join(lines, "\n"))
				}
			case "json":
				r := ok(s.cli(append([]string{"list", "-json"}, flags...)...))
				var got struct {
					ImportPath string
					Files      []parser.File
				}
				dec := json.NewDecoder(strings.NewReader(r.out))
				dec.DisallowUnknownFields()
				if err := dec.Decode(&got); err != nil || dec.More() {
					t.Fatalf("%v\n%v", r, err)
				}
				if got.ImportPath != s.info().ImportPath {
					t.Fatalf("%v: import path, want %q", r, s.info().ImportPath)
				}
				var es []entry
				for _, f := range got.Files {
					es = append(es, entry{f.Path, f.Abs})
					if f.Here.Module.Path != f.Path.Pkg && !s.ownModule(f.Path) {
						t.Fatalf("%v: %v is said to belong to %q", r, f.Path, f.Here.Module.Path)
					}
				}
				if entryLines(es) != entryLines(want) {
					t.Fatalf("%v\nwant\n%s", r, entryLines(want))
				}
			case "pack":
				r := ok(s.cli(flags...))
				names, _ := embedded(t, filepath.Join(s.dir, "pkged.go"))
				var lines []string
				for _, e := range want {
					lines = append(lines, e.pt.String())
				}
				if strings.Join(names, "\n") != strings.Join(lines, "\n") {
					t.Fatalf("%v\nembeds\n%s\nwant\n%s", r, strings.Join(names, "\n"), strings.Join(lines, "\n"))
				}
				// as it was, for the commands that follow
				infra(os.Remove(filepath.Join(s.dir, "pkged.go")))
			case "parse":
				var args []string
				if rapid.Bool().Draw(t, l+"-dot") {
					args = append(args, ".")
				}
				for _, e := range s.ext {
					if rapid.Bool().Draw(t, l+"-ext") {
						args = append(args, e.mod)
					}
				}
				cmdline := append([]string{"parse"}, args...)
				if intn(t, l+"-dashes", 0, 3) == 0 {
					// the end of the flags
					cmdline = append([]string{"parse", "--"}, args...)
				}
				r := ok(s.cli(cmdline...))
				if len(args) == 0 {
					args = []string{"."}
				}
				var lib libOut
				if err := startAgent("lib", s.dir, libIn{Parse: args}, &lib); err != nil || lib.ParseErr {
					t.Fatalf("parsing %q: %v", args, err)
				}
				if r.out != lib.Parse {
					t.Fatalf("%v\nthe library says\n%s", r, lib.Parse)
				}
				s.checkParse(r)
			case "path", "stat", "info":
				s.libCommand(l, w, want, ok, fails)
			case "error":
				var args []string
				switch intn(t, l+"-how", 0, 10) {
				case 0:
					args = []string{pick(t, l+"-unknown", []string{"lists", "pack", "x", "/", "help", "List", "", "stat2"})}
				case 1:
					args = []string{"list", "-nosuchflag"}
				case 2:
					args = append([]string{"-nosuchflag"}, flags...)
				case 3:
					args = []string{"parse", pick(t, l+"-pkg", []string{"no.such/package", s.mod + "/no/such", "./nowhere"})}
					switch intn(t, l+"-among", 0, 2) {
					case 1:
						args = append(args, ".")
					case 2:
						args = []string{"parse", ".", args[1]}
					}
				case 4:
					args = []string{"path"}
				case 5:
					args = []string{"list", "-include", s.missing(l)}
				case 6:
					args = append(flags, "-include", s.missing(l))
				case 7:
					args = []string{pick(t, l+"-cmd", []string{"stat", "info", "path", "parse", "list"}), pick(t, l+"-flag", []string{"-nosuchflag", "--nosuchflag=1", "-x"})}
					if args[0] == "path" && intn(t, l+"-arg", 0, 1) == 0 {
						args = append(args, "/")
					}
				case 8:
					args = pick(t, l+"-novalue", [][]string{{"-o"}, {"-include"}, {"list", "-include"}, {"list", "-json=maybe"}})
				case 9:
					args = append(pick(t, l+"-first", [][]string{{"info"}, {"info", s.mod}}), pick(t, l+"-pkg", []string{"no.such/package", s.mod + "/no/such", "nosuch"}))
				case 10:
					// a source that does not parse, for the command only
					broken := filepath.Join(s.dir, "zz_broken.go")
					infra(os.WriteFile(broken, []byte("package broken\n\nfunc f() {\n"), 0644))
					r := s.cli(pick(t, l+"-cmd", [][]string{{"list"}, {"list", "-json"}, {"parse"}, {"parse", "."}, {"parse", ".", "."}, append([]string{"parse", "."}, s.extMods()...), append(s.extMods()[:0:0], append(append([]string{"parse"}, s.extMods()...), ".")...), {}})...)
					infra(os.Remove(broken))
					fails(r)
					k.label("with a broken source")
					continue
				}
				fails(s.cli(args...))
			}
		}
		k.labelIf(len(s.ext) > 0, "with another module")
		k.done(len(want) > 1, strings.Join(s.log, "\n")+fmt.Sprint(what), append(s.log, fmt.Sprint(what)))
	})
}

// infosOf normalises a sequence of file infos: reading files may change when
// the system last saw them read.
func infosOf(t tb, out string) string {
	dec := json.NewDecoder(strings.NewReader(out))
	var lines []string
	for dec.More() {
		var fi pkging.FileInfo
		if err := dec.Decode(&fi); err != nil {
			t.Fatalf("%v\n%s", err, out)
		}
		lines = append(lines, metaOf(&fi).String())
	}
	return strings.Join(lines, "\n")
}

// missing spells a path that does not exist.
func (s *scene) missing(l string) string {
	m := s.pickModule(l)
	for i := 0; ; i++ {
		name := genMissing(s.t, fmt.Sprintf("%s-missing%d", l, i), m.tr)
		made := false // at run time
		for _, d := range s.decls {
			made = made || d.m != nil && d.m.mod == m.mod && d.name == name
		}
		if _, err := os.Lstat(m.dir + name); err != nil && !made {
			return s.spellPath(l+"-s", m, name)
		}
	}
}

// extMods are the other modules.
func (s *scene) extMods() []string {
	var out []string
	for _, e := range s.ext {
		out = append(out, e.mod)
	}
	return out
}

// checkParse compares what parse prints of the module with what the sources
// declare.
func (s *scene) checkParse(r cliRun) {
	t := s.t
	var got map[string][]struct {
		Type  string
		File  parser.File
		Value string
		Pos   token.Position
	}
	if err := json.Unmarshal([]byte(r.out), &got); err != nil {
		t.Fatalf("%v\n%v", r, err)
	}
	ds, ok := got["."]
	if !ok {
		return
	}
	count := map[string]int{}
	for _, d := range s.decls {
		if d.kind != "include" {
			count[fmt.Sprintf("pkger.%s %q %v", d.kind, d.arg, here.Path{Pkg: d.m.mod, Name: d.name})]++
		}
	}
	for _, d := range ds {
		count[fmt.Sprintf("%s %q %v", d.Type, d.Value, d.File.Path)]--
	}
	for c, n := range count {
		if n != 0 {
			t.Fatalf("%v\n%s: %d too few", r, c, n)
		}
	}
	// and where
	decls, err := parser.Parse(s.info())
	if err != nil {
		t.Fatalf("%v\n%v", r, err)
	}
	for _, d := range decls {
		pos, err := d.Position()
		if err != nil {
			t.Fatalf("Position: %v", err)
		}
		count[pos.String()]++
	}
	for _, d := range ds {
		count[d.Pos.String()]--
	}
	for c, n := range count {
		if n != 0 {
			t.Fatalf("%v\n%s: %d too few", r, c, n)
		}
	}
}

// libCommand compares path, stat or info with what the library returns.
func (s *scene) libCommand(l, w string, es []entry, ok func(cliRun) cliRun, fails func(cliRun)) {
	t := s.t
	var args []string
	var pts []entry
	for i, n := 0, intn(t, l+"-n", 0, 3); i < n; i++ {
		l := fmt.Sprintf("%s-a%d", l, i)
		m := s.pickModule(l)
		name := "/"
		if names := m.tr.names(); len(names) > 0 {
			name = pick(t, l+"-name", names)
		}
		args = append(args, s.spellPath(l+"-s", m, name))
		pts = append(pts, entry{here.Path{Pkg: m.mod, Name: name}, m.dir + name})
	}
	cwd := s.dir
	if intn(t, l+"-sub", 0, 2) == 0 {
		cwd = pick(t, l+"-cwd", s.dirsOnDisk())
		s.k.labelIf(cwd != s.dir, "from another folder of the module")
	}
	if w != "path" && intn(t, l+"-miss", 0, 4) == 0 && w == "stat" {
		fails(command(cwd, 0, append([]string{w}, append(args, s.missing(l))...)...))
		s.k.label("of a missing path")
		return
	}
	for _, a := range args {
		if strings.HasPrefix(a, "-") {
			return // a flag
		}
	}
	var in libIn
	var lib libOut
	switch w {
	case "path":
		in.Path = args
		if len(args) == 0 {
			return
		}
	case "stat":
		in.Stat = args
		if len(args) == 0 {
			in.Stat = []string{"."}
		}
	case "info":
		if args = nil; true {
			// of modules, or of what is in them
			for i, e := range pts {
				if i == 0 || rapid.Bool().Draw(t, fmt.Sprintf("%s-m%d", l, i)) {
					args = append(args, e.pt.Pkg)
				}
			}
		}
		in.Info = args
		if len(args) == 0 {
			in.Info = []string{"."}
		}
	}
	if err := startAgent("lib", cwd, in, &lib); err != nil {
		t.Fatalf("%s %q: %v", w, args, err)
	}
	all := append([]string{w}, args...)
	if w == "path" && intn(t, l+"-dashes", 0, 3) == 0 {
		// the end of the flags
		all = append([]string{w, "--"}, args...)
	}
	r := command(cwd, 0, all...)
	if lib.PathErr || lib.StatErr || lib.InfoErr {
		if w != "info" {
			t.Fatalf("%s %q: the library reports an error", w, args)
		}
		fails(r)
		return
	}
	ok(r)
	switch w {
	case "path":
		var got map[string]here.Path
		if err := json.Unmarshal([]byte(r.out), &got); err != nil {
			t.Fatalf("%v\n%v", r, err)
		}
		for i, a := range args {
			if got[a] != lib.Paths[a] || got[a] != pts[i].pt {
				t.Fatalf("%v\n%q is %v, the library says %v, want %v", r, a, got[a], lib.Paths[a], pts[i].pt)
			}
		}
		if len(got) != len(lib.Paths) {
			t.Fatalf("%v\nhas %d paths, want %d", r, len(got), len(lib.Paths))
		}
	case "stat":
		if a, b := infosOf(t, r.out), infosOf(t, lib.Stat); a != b {
			t.Fatalf("%v\nthe library says\n%s", r, lib.Stat)
		}
	case "info":
		if r.out != lib.Info {
			t.Fatalf("%v\nthe library says\n%s", r, lib.Info)
		}
		dec := json.NewDecoder(strings.NewReader(r.out))
		for _, a := range args {
			var info here.Info
			if err := dec.Decode(&info); err != nil || info.Module.Path != a {
				t.Fatalf("%v\nof %q, %v", r, a, err)
			}
		}
	}
}
