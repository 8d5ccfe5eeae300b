package harness

import (
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func TestC04(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		s := newScene(t, k, sceneOpts{tree: treeOpts{max: 14, maxData: 50}, exts: 1})
		defer s.done()
		s.declare(intn(t, "decls", 1, 7), true)
		s.sources(intn(t, "main", 0, 4) > 0)
		want := s.expected()
		got := s.reported(s.parse())
		if entryLines(got) != entryLines(want) {
			t.Fatalf("reported\n%s\nwant\n%s", entryLines(got), entryLines(want))
		}
		kinds := map[string]bool{}
		virtual := false
		for _, d := range s.decls {
			kinds[d.kind] = true
			virtual = virtual || d.kind == "MkdirAll" || d.kind == "Create"
			k.label("declared by %s", d.kind)
			k.labelIf(d.name == "/", "whole module")
		}
		k.labelIf(virtual, "with paths made at run time")
		k.labelIf(len(s.ext) > 0, "with another module")
		k.done(len(want) > 1 && len(s.decls) > 1, strings.Join(s.log, "\n"), s.log)
	})
}
