package harness

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// anyName is a clean absolute name that needs no file.
func anyName(t *rapid.T, l string) string {
	n := "/"
	for i, m := 0, intn(t, l+"-depth", 0, 4); i < m; i++ {
		n = path.Join(n, genName(t, fmt.Sprintf("%s-%d", l, i)))
	}
	return n
}

// spellForeign writes a path of another package in another way.
func spellForeign(t *rapid.T, l, pkg, name string) string {
	s := name
	if name != "/" || rapid.Bool().Draw(t, l+"-long") {
		for i, m := 0, intn(t, l+"-noise", 0, 2); i < m; i++ {
			s = noise(t, fmt.Sprintf("%s-n%d", l, i), s, true)
		}
	} else {
		s = pick(t, l+"-root", []string{"", ":", ":/", ":/."})
		s = strings.TrimPrefix(s, ":")
		if s == "" && rapid.Bool().Draw(t, l+"-colon") {
			return pkg + ":"
		}
		if s == "" {
			return pkg
		}
	}
	s = pkg + ":" + s
	if intn(t, l+"-blank", 0, 5) == 0 {
		s = " " + s + "\n"
	}
	return s
}

func TestC15(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		mod := genModPath(t)
		dir := pick(t, "dir", []string{"/src/app", "/home/u/go/src/" + mod, "/s p/a.b", "/x", "/home/u/a/b/c/d", filepath.Join(scratch, "nosuch")})
		info := modInfo(dir, mod)
		switch intn(t, "where", 0, 3) {
		case 0:
			// a package below the root of the module
			info.Dir = dir + "/cmd/tool"
			info.ImportPath = mod + "/cmd/tool"
			k.label("package below the root")
		case 1:
			info.ImportPath = ""
			info.Name = ""
			k.label("root without Go files")
		}
		mp, err := mem.New(info)
		if err != nil {
			t.Fatalf("mem.New: %v", err)
		}
		up, err := memFromData(embed.Data{Here: info, Infos: map[string]here.Info{mod: info}})
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		dp, err := stdos.New(info)
		if err != nil {
			t.Fatalf("stdos.New: %v", err)
		}
		useAsCurrent(mp)
		parsers := []struct {
			name  string
			parse func(string) (here.Path, error)
		}{
			{"mem", mp.Parse}, {"unpacked", up.Parse}, {"disk", dp.Parse}, {"pkger", pkger.Parse}, {"wrapped", pkging.Wrap(dp, mp).Parse},
		}
		tool := func(s string) (here.Path, error) {
			d, err := parser.NewInclude(info, s)
			if err != nil {
				return here.Path{}, err
			}
			f, err := d.File()
			if err != nil {
				return here.Path{}, err
			}
			if want := filepath.Join(dir, f.Path.Name); f.Abs != want {
				t.Fatalf("include %q is located at %q, want %q", s, f.Abs, want)
			}
			return f.Path, nil
		}
		check := func(s string, want here.Path, own bool) {
			for _, p := range parsers {
				got, err := p.parse(s)
				if err != nil || got != want {
					t.Fatalf("%s: Parse(%q) = %#v, %v, want %#v (module %s in %s)", p.name, s, got, err, want, mod, dir)
				}
				again, err := p.parse(got.String())
				if err != nil || again != got {
					t.Fatalf("%s: Parse(%q) = %#v, and Parse(%q) = %#v, %v", p.name, s, got, got.String(), again, err)
				}
			}
			if own {
				if got, err := tool(s); err != nil || got != want {
					t.Fatalf("the tool takes %q for %#v, %v, want %#v (module %s in %s)", s, got, err, want, mod, dir)
				}
			}
		}
		var log []string
		for i, n := 0, intn(t, "paths", 1, 6); i < n; i++ {
			l := fmt.Sprintf("p%d", i)
			name := anyName(t, l)
			switch intn(t, l+"-kind", 0, 3) {
			case 0:
				pkg := pick(t, l+"-pkg", []string{"other", "github.com/x/y", "github.com/x/y/v2", mod + "x", mod + "/sub", "a.b/c-d_e", "x", "golang.org/x/tools/cmd/stringer"})
				s := spellForeign(t, l, pkg, name)
				check(s, here.Path{Pkg: pkg, Name: name}, false)
				log = append(log, fmt.Sprintf("%q", s))
				k.label("another package")
			default:
				s := spell(t, l, mod, dir, name)
				check(s, here.Path{Pkg: mod, Name: name}, true)
				log = append(log, fmt.Sprintf("%q", s))
				k.labelIf(strings.HasPrefix(strings.TrimSpace(s), dir), "location on disk")
				k.labelIf(strings.HasPrefix(strings.TrimSpace(s), ":"), "leading colon")
				k.labelIf(strings.HasPrefix(strings.TrimSpace(s), mod), "module path")
			}
		}
		// whatever the string: one answer, that stays the same
		for i, n := 0, intn(t, "wild", 1, 4); i < n; i++ {
			l := fmt.Sprintf("w%d", i)
			var s string
			for j, m := 0, intn(t, l+"-n", 0, 6); j < m; j++ {
				s += pick(t, fmt.Sprintf("%s-t%d", l, j), []string{"/", "..", ".", ":", ":/", "\\", " ", "a", "b c", mod, dir, "\t", "//", "::", "\x00", "é", "x:/y", "C:", "/a", "/.."})
			}
			if intn(t, l+"-random", 0, 3) == 0 {
				s += rapid.String().Draw(t, l+"-s")
			}
			first, ferr := parsers[0].parse(s)
			for _, p := range parsers {
				got, err := p.parse(s)
				if (err == nil) != (ferr == nil) || got != first {
					t.Fatalf("Parse(%q): %s: %#v, %v; %s: %#v, %v", s, parsers[0].name, first, ferr, p.name, got, err)
				}
				if err != nil {
					continue
				}
				if !canonical(got.Name) || got.Pkg == "" {
					t.Fatalf("%s: Parse(%q) = %#v", p.name, s, got)
				}
				again, err := p.parse(got.String())
				if err != nil || again != got {
					t.Fatalf("%s: Parse(%q) = %#v, and Parse(%q) = %#v, %v", p.name, s, got, got.String(), again, err)
				}
			}
			log = append(log, fmt.Sprintf("%q", s))
		}
		k.done(true, fmt.Sprint(mod, dir, log), map[string]interface{}{"module": mod, "dir": dir, "strings": log})
	})
	_ = os.Args
}
