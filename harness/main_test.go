// Package harness decides the properties listed in ../properties.jsonl by
// generated-input search. One test function per property, named after it.
//
// It is driven by tools/check.py, which builds it against /repo and runs it
// in several processes, as an unprivileged user, with its files in a scratch
// directory.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var (
	scratch  = os.Getenv("VP_SCRATCH")   // of this process
	shared   = os.Getenv("VP_SHARED")    // of all processes of this run
	tier     = os.Getenv("VERIF_TIER")   // quick or thorough
	softStop = envInt("VP_SOFT", 100000) // seconds
	started  = time.Now()
)

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

// infra ends the process: the harness, not the code under test, failed.
func infra(err error) {
	if err == nil {
		return
	}
	fmt.Printf("VPINFRA: %v\n%s\n", err, debug.Stack())
	os.Exit(97)
}

func TestMain(m *testing.M) {
	if name := os.Getenv("VP_AGENT"); name != "" {
		runAgent(name)
		os.Exit(0)
	}
	if scratch == "" {
		d, err := os.MkdirTemp("", "vp-harness-")
		infra(err)
		scratch = d
		defer os.RemoveAll(d)
	}
	infra(os.MkdirAll(scratch, 0755))
	cwd := filepath.Join(scratch, "cwd")
	infra(os.MkdirAll(cwd, 0755))
	infra(os.Chdir(cwd))
	setUmask(022)
	go watchdog()
	code := m.Run()
	stats.write()
	os.Exit(code)
}

// statistics ---------------------------------------------------------------

type statistics struct {
	mu       sync.Mutex
	evals    int
	skipped  int
	distinct map[uint64]bool
	labels   map[string]int
	samples  []interface{}
}

var stats = &statistics{distinct: map[uint64]bool{}, labels: map[string]int{}}

// casesStarted and heartbeat let the watchdog see a case that never ends.
var (
	caseSeq   int64
	caseBusy  int64
	beats     int64
	caseStart int64 // unix nano
)

// kase is one generated case.
type kase struct {
	labels map[string]bool
}

// skipCase reports whether the time for this run is used up.
func skipCase() bool {
	if time.Since(started) > time.Duration(softStop)*time.Second {
		stats.mu.Lock()
		stats.skipped++
		stats.mu.Unlock()
		return true
	}
	return false
}

func begin() *kase {
	atomic.AddInt64(&caseSeq, 1)
	atomic.StoreInt64(&caseStart, time.Now().UnixNano())
	atomic.StoreInt64(&caseBusy, 1)
	return &kase{labels: map[string]bool{}}
}

func (k *kase) label(format string, args ...interface{}) {
	k.labels[fmt.Sprintf(format, args...)] = true
}

func (k *kase) labelIf(cond bool, name string) {
	if cond {
		k.labels[name] = true
	}
}

// done counts the case. key tells distinct cases apart; sample is a
// description of the case for the evidence.
func (k *kase) done(nontrivial bool, key string, sample interface{}) {
	atomic.StoreInt64(&caseBusy, 0)
	h := fnv.New64a()
	h.Write([]byte(key))
	stats.mu.Lock()
	defer stats.mu.Unlock()
	stats.evals++
	for l := range k.labels {
		stats.labels[l]++
	}
	if !nontrivial {
		return
	}
	stats.distinct[h.Sum64()] = true
	n := len(stats.distinct)
	if n <= 1 || (n&(n-1) == 0 && len(stats.samples) < 6) {
		stats.samples = append(stats.samples, sample)
	}
}

func (s *statistics) write() {
	out := os.Getenv("VP_STATS")
	if out == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	var hs []string
	for h := range s.distinct {
		hs = append(hs, strconv.FormatUint(h, 36))
	}
	sort.Strings(hs)
	b, err := json.Marshal(map[string]interface{}{
		"evaluations": s.evals,
		"skipped":     s.skipped,
		"distinct":    hs,
		"labels":      s.labels,
		"samples":     s.samples,
	})
	infra(err)
	infra(os.WriteFile(out, b, 0644))
}

// watchdog reports a case that does not end. Every other case of the same
// check takes milliseconds; the limit is minutes, and only counts while this
// goroutine itself gets to run as planned, so a busy machine does not trip it.
func watchdog() {
	limit := envInt("VP_CASE_LIMIT", 0)
	if limit == 0 {
		return
	}
	var seq int64
	ticks := 0
	for {
		t := time.Now()
		time.Sleep(time.Second)
		late := time.Since(t) > 3*time.Second
		cur := atomic.LoadInt64(&caseSeq)
		if atomic.LoadInt64(&caseBusy) == 0 || cur != seq || late {
			if cur != seq {
				ticks = 0
			}
			seq = cur
			continue
		}
		ticks++
		if ticks >= limit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VPHANG: case %d has not ended after %d s\n%s\n", cur, ticks, buf)
			stats.write()
			os.Exit(98)
		}
	}
}

// directories --------------------------------------------------------------

var dirSeq int64

// newDir makes a fresh directory for one case. The code under test caches
// what it learns about directories, so none is ever used twice.
func newDir() string {
	n := atomic.AddInt64(&dirSeq, 1)
	d := filepath.Join(scratch, fmt.Sprintf("c%d", n))
	infra(os.Mkdir(d, 0755))
	return d
}

// dropDir removes what newDir made.
func dropDir(dir string) {
	if rel, err := filepath.Rel(scratch, dir); err != nil || rel == "." || rel[0] == '.' {
		infra(fmt.Errorf("not a scratch directory: %s", dir))
	}
	if os.RemoveAll(dir) == nil {
		return
	}
	unlock(dir)
	infra(os.RemoveAll(dir))
}

// unlock makes folders accessible again.
func unlock(dir string) {
	os.Chmod(dir, 0755)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.IsDir() {
			unlock(filepath.Join(dir, e.Name()))
		}
	}
}
