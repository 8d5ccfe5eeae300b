package harness

import (
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func TestC08(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		m := newMemMachine(t, k)
		n := intn(t, "steps", 1, 25)
		for i := 0; i < n; i++ {
			m.step()
			m.checkAll()
		}
		for len(m.writers) > 0 {
			m.close(m.writers[0])
		}
		m.checkAll()
		m.release()
		k.labelIf(m.rejected > 0, "rejected operations")
		k.labelIf(m.mutations >= 5, "5 or more changes")
		k.done(m.mutations >= 2, strings.Join(m.log, "\n"), m.log)
	})
}
