package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// reserialise replaces the package by what comes back from its marshalled
// form, and returns the original.
func (m *memMachine) reserialise(l string) *mem.Pkger {
	t := m.t
	if len(m.writers) > 0 && rapid.Bool().Draw(t, l+"-early") {
		// what is being written can be finished afterwards
		if _, err := json.Marshal(m.p); err != nil {
			t.Fatalf("marshalling while %v is written: %v", m.writers[0].pt, err)
		}
		m.k.label("marshalled while written")
	}
	for len(m.writers) > 0 {
		m.close(m.writers[0])
	}
	a, err := json.Marshal(m.p)
	if err != nil {
		t.Fatalf("marshalling: %v", err)
	}
	var q *mem.Pkger
	if rapid.Bool().Draw(t, l+"-encoded") {
		enc, err := embed.Encode(a)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}
		if q, err = mem.UnmarshalEmbed(enc); err != nil {
			t.Fatalf("unpacking what was marshalled: %v", err)
		}
	} else {
		q = &mem.Pkger{}
		if rapid.Bool().Draw(t, l+"-used") {
			// which held something else
			var err error
			q, err = mem.New(here.Info{Dir: "/other", ImportPath: "other", Name: "other", Module: here.Module{Path: "other", Dir: "/other", Main: true}})
			infra(err)
			infra(q.MkdirAll("/other/folder", 0755))
			for _, pt := range []string{"/other/x", m.mods[0] + ":/other", ":/x"} {
				if f, err := q.Create(pt); err == nil {
					f.Write([]byte("of the other"))
					f.Close()
				}
			}
			m.k.label("restored into a package that held something else")
		}
		if err := json.Unmarshal(a, q); err != nil {
			t.Fatalf("unmarshalling what was marshalled: %v", err)
		}
	}
	b, err := json.Marshal(q)
	if err != nil {
		t.Fatalf("marshalling again: %v", err)
	}
	if !bytes.Equal(a, b) {
		t.Fatalf("marshalling again differs:\n%s\n%s", clip(string(a), 2000), clip(string(b), 2000))
	}
	if d := diffDumps(dump(t, m.p, m.mods...), dump(t, q, m.mods...)); d != "" {
		t.Fatalf("the original and the restored package differ:\n%s", d)
	}
	x, err := m.p.Current()
	y, err2 := q.Current()
	if err != nil || err2 != nil || js(x) != js(y) {
		t.Fatalf("Current: %v, %v; restored: %v, %v", x, err, y, err2)
	}
	for _, mod := range append([]string{"", "no/such/module"}, m.mods...) {
		x, err := m.p.Info(mod)
		y, err2 := q.Info(mod)
		if (err == nil) != (err2 == nil) || js(x) != js(y) {
			t.Fatalf("Info(%q): %v, %v; restored: %v, %v", mod, x, err, y, err2)
		}
	}
	for pt := range m.fs {
		f, err := m.p.Open(pt.String())
		g, err2 := q.Open(pt.String())
		if err != nil || err2 != nil {
			t.Fatalf("Open(%v): %v; restored: %v", pt, err, err2)
		}
		if js(f.Info()) != js(g.Info()) {
			t.Fatalf("module information of %v: %v; restored: %v", pt, f.Info(), g.Info())
		}
	}
	old := m.p
	m.p = q
	m.say("reserialise")
	return old
}

func TestC19(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		m := newMemMachine(t, k)
		phases := intn(t, "phases", 1, 3)
		after := 0
		multi := false
		for p := 0; p < phases; p++ {
			n := intn(t, fmt.Sprintf("steps-%d", p), 0, 10)
			for i := 0; i < n; i++ {
				m.step()
			}
			before := map[here.Path]bool{}
			mods := map[string]bool{}
			for pt := range m.fs {
				before[pt] = true
				mods[pt.Pkg] = true
			}
			multi = multi || len(mods) > 1
			old := m.reserialise(fmt.Sprintf("ser%d", p))
			was := dump(t, old, m.mods...)
			// the restored package behaves like the original would
			changes := m.mutations
			n = intn(t, fmt.Sprintf("after-%d", p), 0, 8)
			for i := 0; i < n; i++ {
				m.step()
				m.checkAll()
			}
			m.release()
			after += m.mutations - changes
			if d := diffDumps(was, dump(t, old, m.mods...)); d != "" {
				t.Fatalf("using the restored package changed the original:\n%s", d)
			}
		}
		k.labelIf(multi, "several modules")
		k.labelIf(after > 0, "changed after restoring")
		k.done(len(m.fs) > 1 && m.mutations > 0, strings.Join(m.log, "\n"), m.log)
	})
}
