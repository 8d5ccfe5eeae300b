package harness

import (
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

var errStop = errors.New("stop here")

// visits records a walk, with what the callback answers.
type visits struct {
	got    []string
	answer map[string]int // 1: SkipDir, 2: an error; by name below the root of the module
	onErr  int            // what a call with an error is answered with: 0 the error, 1 nil, 2 SkipDir
	names  bool           // record no more than names
}

func (v *visits) visit(name string, fi os.FileInfo, err error) error {
	line := fmt.Sprintf("%q %s", name, errClass(err))
	if fi != nil {
		m := metaOf(fi)
		if m.Dir {
			m.Size = 0
		}
		if v.names {
			line += fmt.Sprintf(" %q dir=%v", m.Name, m.Dir)
		} else {
			line += " " + m.String()
		}
	}
	v.got = append(v.got, line)
	if err != nil {
		switch v.onErr {
		case 1:
			return nil
		case 2:
			return filepath.SkipDir
		}
		return err
	}
	switch v.answer[name] {
	case 1:
		return filepath.SkipDir
	case 2:
		return errStop
	}
	return nil
}

func TestC10(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		dir := filepath.Join(base, pick(t, "dirname", []string{"mod", "m", "mod.d", "a b"}))
		infra(os.Mkdir(dir, 0755))
		mod := genModPath(t)
		tr := genTree(t, "tree", treeOpts{max: 25, maxData: 50, modes: true, mtimes: true})
		if rapid.Bool().Draw(t, "twins") && len(tr) > 0 {
			// siblings that are easily mistaken for what is below one another
			n := intn(t, "twins-n", 1, 3)
			for i := 0; i < n; i++ {
				l := fmt.Sprintf("twin%d", i)
				of := pick(t, l+"-of", tr.names())
				nm := of + pick(t, l+"-suffix", []string{" x", "!", "-b", ".txt", "0", "x", "a/b", ",", "\u00e9"})
				if tr.fits(nm) {
					nd := &node{Mode: 0644, Data: []byte(nm)}
					if rapid.Bool().Draw(t, l+"-dir") {
						nd = &node{Dir: true, Mode: 0755}
					}
					tr[nm] = nd
				}
			}
			k.label("prefix twins")
		}
		tr.write(dir)

		root := "/"
		if len(tr) > 0 && intn(t, "root-kind", 0, 3) > 0 {
			root = pick(t, "root", tr.names())
		}
		rootDir := root == "/" || tr[root].Dir

		// what the callback answers, at up to three places
		answer := map[string]int{}
		below := append(tr.below(root), root)
		for i, n := 0, intn(t, "answers", 0, 3); i < n; i++ {
			at := pick(t, fmt.Sprintf("at%d", i), below)
			answer[at] = intn(t, fmt.Sprintf("answer%d", i), 1, 3)
			if answer[at] == 3 {
				answer[at] = 1
			}
			k.labelIf(answer[at] == 2, "error answered")
			k.labelIf(answer[at] == 1 && (at == "/" || tr[at].Dir), "SkipDir for a folder")
			k.labelIf(answer[at] == 1 && at != "/" && !tr[at].Dir, "SkipDir for a file")
		}
		onErr := intn(t, "onerr", 0, 2)

		lite := false
		walk := func(qualified bool, w func(wf filepath.WalkFunc) error) (string, error) {
			v := &visits{answer: answer, onErr: onErr, names: lite}
			err := w(func(name string, fi os.FileInfo, err error) error {
				if qualified {
					if !strings.HasPrefix(name, mod+":/") {
						t.Fatalf("Walk visits %q, which is not a path of %s", name, mod)
					}
					name = strings.TrimPrefix(name, mod+":")
				} else {
					name = path.Clean("/" + strings.TrimPrefix(name, dir))
				}
				return v.visit(name, fi, err)
			})
			return strings.Join(v.got, "\n"), err
		}

		real := path.Join(dir, root)
		want, wantErr := walk(false, func(wf filepath.WalkFunc) error { return filepath.Walk(real, wf) })

		// another module in the same package, with much the same names
		other := pick(t, "other", []string{"other", mod + "x", mod + "/sub", "example.com", mod + ".org"})
		d := memData(dir, mod, append(tr.names(), "/"))
		addModule(t, d, other, tr)
		mp, err := memFromData(d)
		if err != nil {
			t.Fatalf("unpacking: %v", err)
		}
		for i, nm := range []string{"unpacked", "disk"} {
			s := spell(t, "spell"+nm, mod, dir, root)
			got, err := walk(true, func(wf filepath.WalkFunc) error {
				if i == 0 {
					return mp.Walk(s, wf)
				}
				dp, err := stdos.New(modInfo(dir, mod))
				infra(err)
				return dp.Walk(s, wf)
			})
			if got != want || !errors.Is(err, wantErr) {
				t.Fatalf("%s: Walk(%q) with answers %v visits\n%s\nand returns %v; filepath.Walk visits\n%s\nand returns %v", nm, s, answer, got, err, want, wantErr)
			}
		}

		// a package filled step by step
		if len(tr) > 0 {
			lite = true
			want, wantErr = walk(false, func(wf filepath.WalkFunc) error { return filepath.Walk(real, wf) })
			bp := buildMem(t, dir, mod, other, tr)
			s := spell(t, "spellbuilt", mod, dir, root)
			got, err := walk(true, func(wf filepath.WalkFunc) error { return bp.Walk(s, wf) })
			if got != want || !errors.Is(err, wantErr) {
				t.Fatalf("filled: Walk(%q) with answers %v visits\n%s\nand returns %v; filepath.Walk visits\n%s\nand returns %v", s, answer, got, err, want, wantErr)
			}
			lite = false
		}

		// errors of the disk
		if rapid.Bool().Draw(t, "broken") {
			if intn(t, "broken-missing", 0, 2) == 0 {
				root = genMissing(t, "missing", tr)
				k.label("missing root")
			} else {
				n := 0
				for _, d := range tr.names() {
					if tr[d].Dir && rapid.Bool().Draw(t, "lock"+d) {
						os.Chmod(dir+d, pick(t, "lockmode"+d, []os.FileMode{0, 0100, 0400, 0300})) // not if a parent is locked already
						k.label("folder that cannot be read")
						if n++; n == 2 {
							break
						}
					}
				}
			}
			real = path.Join(dir, root)
			want, wantErr := walk(false, func(wf filepath.WalkFunc) error { return filepath.Walk(real, wf) })
			s := spell(t, "brokenspell", mod, dir, root)
			dp, err := stdos.New(modInfo(dir, mod))
			infra(err)
			got, err := walk(true, func(wf filepath.WalkFunc) error { return dp.Walk(s, wf) })
			if got != want || !sameErr(err, wantErr) || errors.Is(err, errStop) != errors.Is(wantErr, errStop) {
				t.Fatalf("disk: Walk(%q) with answers %v/%d visits\n%s\nand returns %v; filepath.Walk visits\n%s\nand returns %v", s, answer, onErr, got, err, want, wantErr)
			}
		}
		k.labelIf(!rootDir, "root is a file")
		k.labelIf(len(below) > 8, "8 or more entries")
		k.done(len(below) >= 4 && rootDir, fmt.Sprint(tr.describe(), root, answer, onErr),
			map[string]interface{}{"tree": tr.describe(), "root": root, "answers": fmt.Sprint(answer)})
	})
}
