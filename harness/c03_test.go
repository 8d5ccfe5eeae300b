package harness

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"pgregory.net/rapid"
)

// found is a declaration as it is reported, or is to be.
type found struct {
	Kind, Value string
	Path        here.Path
	Pos         string
}

// srcFile is a source file in the making.
type srcFile struct {
	s     *scene
	abs   string
	b     strings.Builder
	want  []found
	n     *int
	decoy int
	nl    string
	used  map[string]bool // names of constants of the file
}

// constName names a constant: often as those of other files and functions.
func (f *srcFile) constName(l string, local bool) string {
	c := fmt.Sprintf("c%d", *f.n)
	if intn(f.s.t, l+"-plain", 0, 2) > 0 {
		if x := pick(f.s.t, l+"-const", []string{"assets", "tmpl", "where", "root"}); local || !f.used[x] {
			c = x
		}
	}
	if !local {
		if f.used == nil {
			f.used = map[string]bool{}
		}
		f.used[c] = true
	}
	return c
}

// again writes another declaration of the same path, by the same constant or
// literal.
func (f *srcFile) again(l, arg string, first found) {
	*f.n++
	ctx := pick(f.s.t, l+"-actx", contexts)
	f.puts(expand(ctx[0], *f.n))
	f.repeat(l, arg, first)
	f.puts(expand(ctx[1], *f.n))
}

// repeat writes the call again.
func (f *srcFile) repeat(l, arg string, first found) {
	t := f.s.t
	kind := first.Kind
	if rapid.Bool().Draw(t, l+"-other") {
		kind = pick(t, l+"-akind", declKinds)
	}
	f.puts("pkger." + kind + "(")
	first.Kind, first.Pos = kind, f.pos()
	f.want = append(f.want, first)
	f.b.WriteString(arg)
	switch kind {
	case "MkdirAll":
		f.puts(", 0755")
	case "Walk":
		f.puts(", nil")
	}
	f.puts(")")
	f.s.k.label("the same path again")
}

func (f *srcFile) puts(s string) {
	f.b.WriteString(strings.Replace(s, "\n", f.nl, -1))
}

// pos is where the next byte goes.
func (f *srcFile) pos() string {
	s := f.b.String()
	i := strings.LastIndex(s, "\n")
	return fmt.Sprintf("%s:%d:%d@%d", f.abs, strings.Count(s, "\n")+1, len(s)-i, len(s))
}

// contexts are places for an expression.
var contexts = [][2]string{
	{"func F%d() {\n\t", "\n}\n\n"},
	{"func F%d() {\n\tx, err := ", "\n\tuse(x, err)\n}\n\n"},
	{"var V%d = one(", ")\n\n"},
	{"var V%d, W%d = ", "\n\n"},
	{"var V%d = []interface{}{1, \"pkger\", one(", "), pkgerx}\n\n"},
	{"var V%d = map[string]interface{}{\"pkger.Open(\\\"/no\\\")\": ", "}\n"},
	{"func F%d() {\n\tdefer use(func() interface{} { return ", " }())\n}\n"},
	{"func F%d() (err error) {\n\tif _, err := ", "; err != nil {\n\t\treturn err\n\t}\n\treturn nil\n}\n"},
	{"func F%d() {\n\tif false {\n\t} else if ok(", ") {\n\t}\n}\n"},
	{"func F%d() {\n\tfor range []int{} {\n\t\tgo use(", ")\n\t}\n}\n"},
	{"func F%d() {\n\tfor i := 0; i < n(", "); i++ {\n\t}\n}\n"},
	{"func F%d() {\n\tswitch x := any(", ").(type) {\n\tdefault:\n\t\t_ = x\n\t}\n}\n"},
	{"func F%d() {\n\tswitch {\n\tcase true:\n\tcase false:\n\t\tuse(", ")\n\t}\n}\n"},
	{"type T%d struct{}\n\nfunc (t *T%d) M() interface{} { return one(", ") }\n"},
	{"func F%d() {\n\tselect {\n\tcase ch <- one(", "):\n\tdefault:\n\t}\n}\n"},
	{"func F%d() {\nL:\n\tfor {\n\t\tuse(", ")\n\t\tbreak L\n\t}\n}\n"},
	{"func F%d[T any](x T) {\n\tuse(two[int](", "))\n}\n"},
	{"var V%d = struct{ A, B interface{} }{B: one(", ")}\n"},
	{"func F%d() { use(func() { use(", ") }) }\n"},
	{"func F%d() {\n\t/* pkger.Open(\"/no\") */ ", " // pkger.Stat(\"/no\")\n}\n"},
	{"func F%d() {\n\thttp.Handle(\"/\", http.FileServer(", "))\n}\n"},
	{"func F%d() {\n\tuse(one(", ").Open(\"/no\"))\n}\n"},
	{"func F%d() {\n\tx[0], y.z, *p = 1, 2, one(", ")\n}\n"},
	{"func F%d() {\n\té := `日本 ` + s(", ")\n}\n"},
	{"var V%d = func() int {\n\treturn n(", ")\n}()\n"},
	{"func F%d() {\n\t{\n\t\t{\n\t\t\t_ = ok(", ") && true\n\t\t}\n\t}\n}\n"},
	{"func F%d(a ...interface{}) {\n\tF%d(a[n(", "):]...)\n}\n"},
	{"func F%d() {\n\tgoto end\nend:\n\tuse(-n(", "))\n}\n"},
}

// decoys are no declarations.
var decoys = []string{
	"// pkger.Open(\"/no\")\n",
	"/*\nfunc x() { pkger.Walk(\"/no\", nil) }\n*/\n",
	"var D%d = \"pkger.Open(\\\"/no\\\")\"\n",
	"var D%d = `\nfunc x() { pkger.Dir(\"/no\") }\n`\n",
	"func D%d(v string) { pkger.Open(v) }\n",
	"func D%d() { pkger.Open(\"/no\" + \"/pe\") }\n",
	"func D%d() { pkger.Stat(path.Join(\"/no\", \"x\")) }\n",
	"func D%d() { pkger.Open() }\n",
	"func D%d() { pkger.Parse(\"/no\") }\n",
	"func D%d() { pkger.Remove(\"/no\") }\n",
	"func D%d() { pkger.RemoveAll(\"/no\") }\n",
	"func D%d() { pkger.Info(\"/no\") }\n",
	"func D%d() { pkger.open(\"/no\") }\n",
	"func D%d() { pkger.Opens(\"/no\") }\n",
	"func D%d() { pkger.MkDirAll(\"/no\", 0755) }\n",
	"func D%d() { os.Open(\"/no\") }\n",
	"func D%d() { Pkger.Open(\"/no\") }\n",
	"func D%d() { pkging.Walk(\"/no\", nil) }\n",
	"func D%d() { Open(\"/no\"); Stat(\"/no\"); MkdirAll(\"/no\", 0) }\n",
	"func D%d() { x.pkger.Open(\"/no\") }\n",
	"func D%d() { pkger.Default.Open(\"/no\") }\n",
	"func D%d() { pkger().Open(\"/no\") }\n",
	"func D%d() { f := pkger.Open; f(\"/no\") }\n",
	"func D%d() { pkger.Open(42) }\n",
	"func D%d() { pkger.Open(nil) }\n",
	"func D%d() { pkger.Include(names[0]) }\n",
	"func D%d() { pkger.Create(*p) }\n",
	"func D%d() { d := \"/no\"; pkger.Open(d) }\n",
	"var d%d = \"/no\"\n\nfunc D%d() { pkger.Open(d%d) }\n",
	"const d%d = \"/no\"\n\nfunc D%d(d%d string) { pkger.Open(d%d) }\n",
	"const d%d = 17\n\nfunc D%d() { pkger.Open(d%d) }\n",
	"func D%d() { pkger.Open(constOfAnotherFile) }\n",
	"const (\n\td%d = 17\n\te%d\n)\n\nfunc D%d() { pkger.Open(e%d) }\n",
	"const (\n\td%d = iota\n\te%d\n\tf%d\n)\n\nfunc D%d() { pkger.Walk(f%d, nil); pkger.Stat(d%d) }\n",
	"const d%d, e%d = 1, \"/no\" + \"/pe\"\n\nfunc D%d() { pkger.Include(e%d) }\n",
	"func D%d() { pkger.Stat(notDefinedAnywhere) }\n",
	"type D%d struct{ pkger interface{ Open(string) } }\n",
	"func D%d() { pkger.Walk(func() string { return \"/no\" }(), nil) }\n",
	"func D%d() { pkger.Dir(string(\"/no\")) }\n",
	"func D%d() { go func(pkger_ T) { pkger_.Open(\"/no\") }(T{}) }\n",
}

// expand numbers the names in a template.
func expand(tmpl string, n int) string {
	return strings.Replace(tmpl, "%d", fmt.Sprint(n), -1)
}

// call writes a call that is a declaration, maybe with more in it.
func (f *srcFile) call(l string, depth int, arg string) {
	t := f.s.t
	*f.n++
	m := f.s.pickModule(l)
	name := anyName(t, l+"-name")
	v := f.s.spellPath(l+"-spell", m, name)
	kind := pick(t, l+"-kind", declKinds)
	f.puts("pkger." + kind + "(")
	if rapid.Bool().Draw(t, l+"-ws") {
		f.puts(pick(t, l+"-space", []string{" ", "\n\t\t", "/* \"/no\" */ ", "// pkger.Open(\"/no\")\n\t\t"}))
	}
	lit := quote(t, l, v)
	f.want = append(f.want, found{kind, v, here.Path{Pkg: m.mod, Name: name}, f.pos()})
	if arg == "" {
		f.b.WriteString(lit)
	} else {
		// defined elsewhere; the caller puts the literal there
		f.b.WriteString(arg)
	}
	f.s.lit = lit
	switch kind {
	case "MkdirAll":
		f.puts(", 0755")
	case "Walk":
		if depth < 2 && rapid.Bool().Draw(t, l+"-nest") {
			f.puts(", func(p string, fi os.FileInfo, err error) error {\n\t\treturn e(")
			lit := f.s.lit
			f.call(l+"n", depth+1, "")
			f.s.lit = lit
			f.puts(")\n\t}")
		} else {
			f.puts(", nil")
		}
	}
	f.puts(")")
}

// declaration writes one declaration, by a literal or a constant.
func (f *srcFile) declaration(l string) {
	t := f.s.t
	*f.n++
	n := *f.n
	ctx := pick(t, l+"-ctx", contexts)
	pre, post := expand(ctx[0], n), expand(ctx[1], n)
	form := intn(t, l+"-form", 0, 13)
	local := strings.HasPrefix(pre, "func F") && strings.Contains(pre, "{\n")
	if form >= 10 && form < 13 && !local {
		form = 1
	}
	f.s.k.labelIf(form >= 5 && form < 13, "by a constant")
	c := ""
	if form >= 5 && form < 13 {
		c = f.constName(l, form == 10 || form == 11)
	}
	idx := len(f.want)
	switch form {
	default:
		f.puts(pre)
		f.call(l, 0, "")
		f.puts(post)
		if intn(t, l+"-again", 0, 3) == 0 {
			f.again(l, quote(t, l+"-q2", f.want[idx].Value), f.want[idx])
		}
	case 4:
		// below a call that is none, or by more than one on a line
		f.puts(pre + "pkger.Open(")
		f.call(l, 0, "")
		f.puts(", ")
		f.call(l+"b", 0, "")
		f.puts(")" + post)
		f.s.k.label("within the arguments of another")
	case 13:
		// the same on one line
		f.puts(fmt.Sprintf("func F%d() { use(", n))
		f.call(l, 0, "")
		for i, m := 0, intn(t, l+"-times", 1, 3); i < m; i++ {
			f.puts(pick(t, fmt.Sprintf("%s-sep%d", l, i), []string{", ", "); use(", "+"}))
			f.repeat(fmt.Sprintf("%s-same%d", l, i), f.s.lit, f.want[idx])
		}
		f.puts(") }\n")
		f.s.k.label("the same on one line")
	case 5, 6, 7, 8, 9:
		// the constant may come after the function
		f.puts(pre)
		arg := c
		if form == 9 {
			arg = "e" + c
		}
		f.call(l, 0, arg)
		f.puts(post)
		lit := f.s.lit
		switch form {
		case 5:
			f.puts("const " + c + " = ")
		case 6:
			f.puts("const " + c + " string = ")
		case 7:
			f.puts("const (\n\tx" + c + " = \"/no\"\n\t// " + c + " = \"/no\"\n\t" + c + " = ")
		case 8:
			f.puts("const x" + c + ", " + c + ", y" + c + " = \"/no\", ")
		case 9:
			f.puts("const (\n\te" + c + " = d" + c + "\n\td" + c + " = " + c + "\n)\n\nconst " + c + " = ")
			f.s.k.label("through another constant")
		}
		f.b.WriteString(lit)
		defer func() {
			if intn(t, l+"-again", 0, 3) == 0 {
				f.again(l, arg, f.want[idx])
			}
		}()
		f.puts(map[int]string{5: "\n", 6: "\n", 7: "\n\tz" + c + " = `/no`\n)\n", 8: ", 3\n", 9: "\n"}[form])
	case 10, 11, 12:
		// a constant of the function, that hides another one
		i := strings.Index(pre, "{\n") + 2
		head, rest := pre[:i], pre[i:]
		// the literal must be known first: make the call apart, then move it
		g := &srcFile{s: f.s, abs: f.abs, n: f.n, nl: f.nl}
		g.call(l, 0, c)
		lit := f.s.lit
		at := f.b.Len()
		f.puts(head + "\tconst " + c + " = ")
		f.b.WriteString(lit)
		f.puts("\n" + rest)
		body := g.b.String()
		start := f.b.Len()
		f.b.WriteString(body)
		for _, w := range g.want {
			var line, col, off int
			p := w.Pos[len(f.abs)+1:]
			_, err := fmt.Sscanf(p, "%d:%d@%d", &line, &col, &off)
			infra(err)
			h := &srcFile{abs: f.abs}
			h.b.WriteString(f.b.String()[:start+off])
			w.Pos = h.pos()
			f.want = append(f.want, w)
		}
		f.puts(post)
		if form == 12 {
			f.puts("const " + c + " = \"/no\"\n")
		}
		_ = at
		f.s.k.label("by a constant of the function")
	}
}

var srcDirs = []string{"", "", "cmd/tool", "internal/deep/er/still", "a/b", "vendored", "testdata2", "xtestdata", "mynode_modules", "a_b", "x.y", "a/_x/b", "_x", ".hid", "a/.hid/b",
	"vendor/q", "a/vendor", "a/node_modules/m", "node_modules", "testdata", "a/testdata/b", "fixtures", "tmp", "Vendor", "z"}

func ignoredDir(d string) bool {
	for _, c := range strings.Split(d, "/") {
		switch {
		case c == "":
		case c[0] == '.', c[0] == '_', c == "vendor", c == "node_modules", c == "testdata":
			return true
		}
	}
	return false
}

func kindOf(d parser.Decl) string {
	return strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%T", d), "parser."), "Decl")
}

func (s *scene) foundIn(decls parser.Decls) []found {
	var out []found
	for _, d := range decls {
		w := found{Kind: kindOf(d)}
		if w.Kind == "HTTP" {
			w.Kind = "Dir"
		}
		f, err := d.File()
		if err != nil {
			s.t.Fatalf("a declaration without a file: %v", err)
		}
		w.Path = f.Path
		if w.Value, err = d.Value(); err != nil && w.Value != "" {
			s.t.Fatalf("a declaration without a value: %v", err)
		}
		p, err := d.Position()
		if err != nil {
			s.t.Fatalf("a declaration without a position: %v", err)
		}
		w.Pos = fmt.Sprintf("%s:%d:%d@%d", p.Filename, p.Line, p.Column, p.Offset)
		if p.Line == 0 {
			w.Pos = "none"
		}
		out = append(out, w)
	}
	return out
}

func foundLines(fs []found) []string {
	var out []string
	for _, f := range fs {
		out = append(out, fmt.Sprintf("%s %q %s %s", f.Kind, f.Value, f.Path, f.Pos))
	}
	sort.Strings(out)
	return out
}

func diffLines(got, want []string) string {
	m := map[string]int{}
	for _, l := range got {
		m[l]++
	}
	for _, l := range want {
		m[l]--
	}
	var out []string
	for l, n := range m {
		switch {
		case n > 0:
			out = append(out, fmt.Sprintf("not wanted (%d): %s", n, l))
		case n < 0:
			out = append(out, fmt.Sprintf("missing (%d): %s", -n, l))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// writeSources writes generated source files and returns what is declared.
func (s *scene) writeSources(l string, max int) (want []found, srcs []string) {
	t := s.t
	n := 0
	seen := map[string]bool{}
	for i, m := 0, intn(t, l+"-files", 1, max); i < m; i++ {
		l := fmt.Sprintf("%sf%d", l, i)
		dir := pick(t, l+"-dir", srcDirs)
		if dir == "vendor/q" {
			dir = "b/vendor/q" // the go command minds it at the top
		}
		base := pick(t, l+"-base", []string{"a.go", "main.go", "x_test.go", "z.go", "doc.go", "tagged.go", "win_windows.go", "a.b.go", "é.go"})
		abs := filepath.Join(s.dir, dir, base)
		if seen[abs] || s.tr.belowFile("/"+path.Join(dir, base)) {
			continue
		}
		seen[abs] = true
		f := &srcFile{s: s, abs: abs, n: &n, nl: "\n"}
		if intn(t, l+"-crlf", 0, 7) == 0 {
			f.nl = "\r\n"
			s.k.label("with CRLF")
		}
		if intn(t, l+"-bom", 0, 15) == 0 {
			f.b.WriteString("\uFEFF")
		}
		if base == "tagged.go" {
			f.puts("// +build " + pick(t, l+"-tag", []string{"linux", "ignore", "windows,!linux"}) + "\n\n")
			s.k.label("with build constraints")
		}
		pkg := "p"
		if base == "x_test.go" && rapid.Bool().Draw(t, l+"-ext") {
			pkg = "p_test"
		}
		f.puts(pick(t, l+"-header", []string{"", "", "// Code generated by a tool. DO NOT EDIT.\n\n", "/*\nCopyright: pkger.Open(\"/no\")\n*/\n\n", "//go:generate pkger -include /no\n\n"}))
		f.puts("// Package p: pkger.Open(\"/no\")\npackage " + pkg + "\n\nimport (\n\t\"os\"\n\n\t" + pick(t, l+"-alias", []string{"", "", "pkger "}) + "\"github.com/markbates/pkger\"\n")
		f.puts(pick(t, l+"-imports", []string{"", "", "", "\t\"bytes\"\n\t\"fmt\"\n\t\"io\"\n\t\"net/http\"\n\t. \"strings\"\n\t_ \"sync\"\n\t\"time\"\n", "\tother \"example.com/pkger\"\n"}) + ")\n\n")
		if intn(t, l+"-cgo", 0, 9) == 0 {
			f.puts("// int x;\nimport \"C\"\n\n")
			s.k.label("with C")
		}
		for j, k := 0, intn(t, l+"-pieces", 0, 6); j < k; j++ {
			l := fmt.Sprintf("%sp%d", l, j)
			if intn(t, l+"-decoy", 0, 2) == 0 {
				n++
				f.puts(expand(pick(t, l+"-what", decoys), n))
				f.decoy++
				s.k.label("with calls that declare nothing")
			} else {
				f.declaration(l)
			}
		}
		infra(os.MkdirAll(filepath.Dir(abs), 0755))
		infra(os.WriteFile(abs, []byte(f.b.String()), 0644))
		infra(os.WriteFile(filepath.Join(filepath.Dir(abs), "consts.go"), []byte("package p\n\nconst constOfAnotherFile = \"/no\"\n"), 0644))
		srcs = append(srcs, strings.TrimPrefix(abs, s.dir)+":\n"+f.b.String())
		if ignoredDir(dir) {
			s.k.labelIf(len(f.want) > 0, "in an ignored folder")
			continue
		}
		want = append(want, f.want...)
	}
	return want, srcs
}

func TestC03(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 1}, exts: 1, dirs: []string{"testdata", "_app", ".app", "app", "node_modules"}})
		defer s.done()
		want, srcs := s.writeSources("", 6)
		// no source, whatever it says
		if rapid.Bool().Draw(t, "others") {
			for _, n := range []string{"note.txt", "x.go.bak", "go", "x.gohtml"} {
				infra(os.WriteFile(filepath.Join(s.dir, n), []byte("package p\n\nfunc f() { pkger.Open(\"/no\") }\n"), 0644))
			}
			infra(os.MkdirAll(filepath.Join(s.dir, "dir.go"), 0755))
		}
		info := s.info()
		if intn(t, "lost", 0, 7) == 0 {
			// one path of a package that is nowhere
			d := "lost"
			src := fmt.Sprintf("package lost\n\nimport \"github.com/markbates/pkger\"\n\nfunc f() {\n%s\tpkger.%s(%q)\n%s}\n",
				pick(t, "lost-before", []string{"", "\tpkger.Open(\"/go.mod\")\n"}),
				pick(t, "lost-kind", []string{"Open", "Stat", "Walk", "Include", "Dir", "Create", "MkdirAll"}), pick(t, "lost-path", []string{"no.such/package:/x", "nosuch:/x", "-e:/go.mod", s.mod + "/none:/x"}),
				pick(t, "lost-after", []string{"", "\tpkger.Walk(\"/\", nil)\n"}))
			infra(os.MkdirAll(filepath.Join(s.dir, d), 0755))
			infra(os.WriteFile(filepath.Join(s.dir, d, "lost.go"), []byte(src), 0644))
			if decls, err := parser.Parse(info); err == nil {
				t.Fatalf("parsing succeeds with\n%s\nand reports %v", src, foundLines(s.foundIn(decls)))
			}
			k.label("with a package that cannot be found")
			k.done(true, strings.Join(srcs, "\n")+src, srcs)
			return
		}
		var includes []string
		for i, n := 0, intn(t, "includes", 0, 2); i < n; i++ {
			l := fmt.Sprintf("inc%d", i)
			m := s.pickModule(l)
			name := anyName(t, l+"-name")
			v := s.spellPath(l+"-s", m, name)
			includes = append(includes, v)
			want = append(want, found{"Include", v, here.Path{Pkg: m.mod, Name: name}, "none"})
		}
		decls, err := parser.Parse(info, includes...)
		if err != nil {
			t.Fatalf("Parse: %v\n%s", err, strings.Join(srcs, "\n"))
		}
		if d := diffLines(foundLines(s.foundIn(decls)), foundLines(want)); d != "" {
			t.Fatalf("%s\n%s", d, strings.Join(srcs, "\n"))
		}
		// by kind, the same
		p, err := parser.New(info)
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		m, err := p.DeclsMap()
		if err != nil {
			t.Fatalf("DeclsMap: %v", err)
		}
		var byKind []found
		for kind, ds := range m {
			for _, f := range s.foundIn(ds) {
				if f.Kind != kind {
					t.Fatalf("%v is listed as %s", f, kind)
				}
				byKind = append(byKind, f)
			}
		}
		var noInc []found
		for _, f := range want {
			if f.Pos != "none" {
				noInc = append(noInc, f)
			}
		}
		if d := diffLines(foundLines(byKind), foundLines(noInc)); d != "" {
			t.Fatalf("DeclsMap: %s\n%s", d, strings.Join(srcs, "\n"))
		}
		// asked again, the same
		again, err := p.Decls()
		if err != nil {
			t.Fatalf("Decls: %v", err)
		}
		if d := diffLines(foundLines(s.foundIn(again)), foundLines(noInc)); d != "" {
			t.Fatalf("Decls after DeclsMap: %s\n%s", d, strings.Join(srcs, "\n"))
		}
		// file by file and folder by folder, the same
		var inFiles, inFolders []found
		collect := func(what string, ps *parser.ParsedSource, to *[]found) {
			m, err := ps.DeclsMap()
			if err != nil {
				t.Fatalf("%s %s: DeclsMap: %v", what, ps.Abs, err)
			}
			for kind, ds := range m {
				for _, f := range s.foundIn(ds) {
					if f.Kind != kind {
						t.Fatalf("%s: %v is listed as %s", what, f, kind)
					}
					*to = append(*to, f)
				}
			}
		}
		infra(filepath.Walk(s.dir, func(p2 string, fi os.FileInfo, err error) error {
			infra(err)
			if fi.IsDir() {
				if p2 != s.dir && ignoredDir(strings.TrimPrefix(p2, s.dir+"/")) {
					return filepath.SkipDir
				}
				list, err := p.ParseDir(p2, 0)
				if err != nil {
					t.Fatalf("ParseDir(%q): %v", p2, err)
				}
				for _, ps := range list {
					collect("ParseDir", ps, &inFolders)
				}
				return nil
			}
			if !strings.HasSuffix(p2, ".go") {
				return nil
			}
			ps, err := p.ParseFile(p2, 0)
			if err != nil {
				t.Fatalf("ParseFile(%q): %v", p2, err)
			}
			if ps.Abs != p2 {
				t.Fatalf("ParseFile(%q) is the source %q", p2, ps.Abs)
			}
			collect("ParseFile", ps, &inFiles)
			return nil
		}))
		if d := diffLines(foundLines(inFolders), foundLines(noInc)); d != "" {
			t.Fatalf("folder by folder: %s\n%s", d, strings.Join(srcs, "\n"))
		}
		if d := diffLines(foundLines(inFiles), foundLines(noInc)); d != "" {
			t.Fatalf("file by file: %s\n%s", d, strings.Join(srcs, "\n"))
		}
		k.labelIf(len(want) > 5, "more than 5 declarations")
		k.done(len(want) > 1, strings.Join(srcs, "\n"), srcs)
	})
}
