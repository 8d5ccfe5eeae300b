package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging/embed"
	"pgregory.net/rapid"
)

// memEntries lists what a marshalled package holds.
func memEntries(b []byte) map[string]embed.File {
	var d embed.Data
	infra(json.Unmarshal(b, &d))
	return d.Files
}

// genLayers draws packages with much in common.
func genLayers(t *rapid.T, k *kase, n int, dir, mod string, tr tree) []layerSpec {
	var out []layerSpec
	real := intn(t, "real", 0, 2)
	ops := []string{"open", "stat", "create", "info", "current", "parse", "mkdirall", "removeall", "walk"}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("layer%d", i)
		s := layerSpec{Name: fmt.Sprintf("L%d", i), Fail: map[string]bool{}, Blank: map[string]bool{}}
		if real == 0 || real == 1 && rapid.Bool().Draw(t, l+"-stand-in") {
			for _, op := range ops[:6] {
				s.Fail[op] = rapid.Bool().Draw(t, l+"-"+op)
				s.Blank[op] = intn(t, l+"-blank-"+op, 0, 3) == 0
			}
			for _, op := range ops[6:] {
				s.Fail[op] = intn(t, l+"-"+op, 0, 9) == 0
			}
			for j, m := 0, intn(t, l+"-entries", 0, 3); j < m; j++ {
				s.Entries = append(s.Entries, fmt.Sprintf("/e%d", j))
			}
			k.label("stand-in")
		} else {
			// some of the tree, with contents of its own
			part := tree{}
			for _, n := range tr.names() {
				up := filepath.Dir(n)
				if up != "/" && part[up] == nil || intn(t, l+n, 0, 3) == 0 {
					continue
				}
				nd := *tr[n]
				if !nd.Dir {
					nd.Data = []byte(fmt.Sprintf("%s of layer %d", n, i))
				}
				part[n] = &nd
			}
			lm := mod
			if intn(t, l+"-mod", 0, 4) == 0 {
				lm = "example.com/other"
			}
			ld := filepath.Join(dir, "..", l)
			infra(os.MkdirAll(ld, 0755))
			part.write(ld)
			d := memData(ld, lm, append(part.names(), "/"))
			b, err := json.Marshal(d)
			infra(err)
			if s.Payload, err = embed.Encode(b); err != nil {
				t.Fatalf("encoding: %v", err)
			}
			k.label("payload")
		}
		out = append(out, s)
	}
	return out
}

func genLayerStep(t *rapid.T, l, mod, dir string, tr tree) layerStep {
	st := layerStep{Kind: pick(t, l+"-kind", []string{"open", "open", "stat", "create", "create", "mkdirall", "removeall", "walk", "walk", "parse", "info", "current"})}
	name := genMissing(t, l+"-missing", tr)
	if names := tr.names(); len(names) > 0 && intn(t, l+"-there", 0, 3) > 0 {
		name = pick(t, l+"-name", names)
	}
	m := mod
	if intn(t, l+"-other", 0, 4) == 0 {
		m = "example.com/other"
	}
	if st.Kind == "walk" && rapid.Bool().Draw(t, l+"-all") {
		name = "/"
	}
	st.Path = m + ":" + name
	switch st.Kind {
	case "info":
		st.Path = m
	case "mkdirall":
		st.N = int(pick(t, l+"-perm", []os.FileMode{0755, 0700}))
	case "walk":
		st.N = pick(t, l+"-stop", []int{0, 0, 0, 1, 2, 3, 5, -1, -2})
	case "create":
		st.Data = "made by " + l
	}
	return st
}

func TestC16(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		mod := "example.com/app"
		dir := filepath.Join(base, "app")
		infra(os.MkdirAll(dir, 0755))
		tr := genTree(t, "tree", treeOpts{max: 8, maxData: 50, noColon: true})
		tr.write(dir)
		process := intn(t, "process", 0, 3) == 0
		disk := process && intn(t, "disk", 0, 2) == 0
		var in layersIn
		n := intn(t, "layers", 1, 4)
		in.Layers = genLayers(t, k, n, dir, mod, tr)
		next, bad, ops, multi, last, again := 0, 0, 0, 0, 0, 0
		for i, m := 0, intn(t, "steps", 4, 20); i < m || next < n; i++ {
			l := fmt.Sprintf("step%d", i)
			switch {
			case next < n && (next == 0 && !disk || intn(t, l+"-apply", 0, 3) == 0 || i >= m):
				in.Steps = append(in.Steps, layerStep{Kind: "apply", Layer: next})
				last = next
				next++
			case next > 1 && intn(t, l+"-again", 0, 9) == 0:
				// one that has been applied is brought to the top
				j := intn(t, l+"-layer", 0, next-1)
				if j == last {
					j = (j + 1) % next
				}
				in.Steps = append(in.Steps, layerStep{Kind: "apply", Layer: j})
				last = j
				again++
			case intn(t, l+"-bad", 0, 12) == 0:
				in.Steps = append(in.Steps, layerStep{Kind: "bad", Err: rapid.Bool().Draw(t, l+"-with"), Data: pick(t, l+"-data", []string{"", "xyz", "1f8b", "deadbeef"})})
				bad++
			default:
				st := genLayerStep(t, l, mod, dir, tr)
				if next == 0 && (strings.HasPrefix(st.Path, "example.com/other") || st.Kind == "removeall" || st.Kind == "create" || st.Kind == "mkdirall") {
					// on disk there is the module alone
					st.Kind, st.Path = "open", mod+":/go.mod"
				}
				in.Steps = append(in.Steps, st)
				ops++
				if next > 1 {
					multi++
				}
			}
		}
		want := &stack{}
		var got layersOut
		if process {
			infra(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.16\n"), 0644))
			if disk {
				infra(os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0644))
				want.disk = diskLayer(dir)
				k.label("the disk before anything is applied")
			}
			if err := startAgent("apply", dir, in, &got); err != nil {
				t.Fatalf("running: %v", err)
			}
			k.label("by pkger.Apply")
		} else {
			got = in.run(&wrapped{})
			k.label("by pkging.Wrap")
		}
		ref := in.run(want)
		var log []string
		for i, st := range in.Steps {
			log = append(log, fmt.Sprintf("%+v: %s", st, clip(got.Lines[i], 300)))
			if got.Lines[i] != ref.Lines[i] {
				t.Fatalf("step %d, %+v:\n%s\nwant\n%s\n%s", i, st, got.Lines[i], ref.Lines[i], strings.Join(log, "\n"))
			}
			// what happens in the layers; if one fails that is not to, it is
			// up to the implementation what happens in the others
			if st.Kind == "create" || (st.Kind == "mkdirall" || st.Kind == "removeall") && ref.Lines[i] != "error" {
				if sorted(got.Calls[i]) != sorted(ref.Calls[i]) {
					t.Fatalf("step %d, %+v:\nasked of the layers\n%s\nwant\n%s\n%s", i, st, got.Calls[i], ref.Calls[i], strings.Join(log, "\n"))
				}
			}
			if i == len(in.Steps)-1 {
				for j := range in.Layers {
					if got.Held[j] != ref.Held[j] {
						t.Fatalf("in the end layer %d holds\n%s\nwant\n%s\n%s", j, got.Held[j], ref.Held[j], strings.Join(log, "\n"))
					}
				}
			}
		}
		k.labelIf(bad > 0, "apply of what cannot be decoded")
		k.labelIf(again > 0, "one applied again")
		k.labelIf(n > 2, "three layers and more")
		k.done(multi > 0 || disk, fmt.Sprint(in.Steps, in.Layers), log)
	})
}

// sorted are the lines, in order.
func sorted(s string) string {
	ls := strings.Split(s, "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}
