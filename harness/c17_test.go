package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// act is one thing a goroutine does: something that has nothing to do with
// what the others change.
type act struct {
	Op   string
	Path string
	Data string
	N    int
	Own  string // the folder of the goroutine

	Times int // how often, 0 is once
}

// perform does it, as often as asked, and says what came of it: the same
// every time.
func (a act) perform(p pkging.Pkger, h http.Handler) string {
	first := a.once(p, h)
	for i := 1; i < a.Times; i++ {
		if a.Op == "create" && i%3 == 0 {
			if err := p.Remove(a.Path); err != nil {
				return "before the next time: " + errClass(err)
			}
		}
		if x := a.once(p, h); x != first {
			return first + "\nthe next time:\n" + x
		}
	}
	return first
}

func (a act) once(p pkging.Pkger, h http.Handler) string {
	switch a.Op {
	case "mkdirall":
		return errClass(p.MkdirAll(a.Path, 0755))
	case "remove":
		return errClass(p.Remove(a.Path))
	case "removeall":
		return errClass(p.RemoveAll(a.Path))
	case "create":
		f, err := p.Create(a.Path)
		if err != nil {
			return errClass(err)
		}
		b := []byte(a.Data)
		for len(b) > 0 {
			n := min(a.N+1, len(b))
			if _, err := f.Write(b[:n]); err != nil {
				return "write: " + errClass(err)
			}
			b = b[n:]
			if len(b)%3 == 0 {
				runtime.Gosched()
			}
		}
		return f.Name() + errClass(f.Close())
	case "add":
		cur, err := p.Current()
		if err != nil {
			return errClass(err)
		}
		f, err := os.Open(cur.Dir + a.Path)
		infra(err)
		defer f.Close()
		return errClass(p.(*mem.Pkger).Add(f))
	case "stat":
		fi, err := p.Stat(a.Path)
		if err != nil {
			return errClass(err)
		}
		return layerMeta(fi)
	case "open":
		f, err := p.Open(a.Path)
		if err != nil {
			return errClass(err)
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			return "Stat: " + errClass(err)
		}
		out := f.Name() + " " + layerMeta(fi)
		if fi.IsDir() {
			var lines []string
			for {
				fis, err := f.Readdir(a.N)
				for _, fi := range fis {
					lines = append(lines, layerMeta(fi))
				}
				if err != nil || a.N <= 0 {
					out += " " + errClass(err)
					break
				}
			}
			sort.Strings(lines)
			return out + "\n" + strings.Join(lines, "\n")
		}
		if a.N > 0 {
			at, err := f.Seek(int64(a.N), io.SeekStart)
			out += fmt.Sprint(" ", at, errClass(err))
		}
		b, err := io.ReadAll(f)
		return out + fmt.Sprintf(" %q %s", b, errClass(err))
	case "walk":
		var lines []string
		err := p.Walk(a.Path, func(name string, fi os.FileInfo, err error) error {
			if fi == nil {
				lines = append(lines, name+" "+errClass(err))
				return err
			}
			lines = append(lines, name+" "+layerMeta(fi)+errClass(err))
			return err
		})
		return strings.Join(lines, "\n") + errClass(err)
	case "walkroot", "listroot":
		// what others have there now is their business
		var lines []string
		see := func(name string, fi os.FileInfo) {
			n := name
			if i := strings.Index(name, ":/"); i >= 0 {
				n = name[i+1:]
			}
			if within(n, "/pub") || within(n, a.Own) {
				lines = append(lines, name+" "+layerMeta(fi))
			}
		}
		if a.Op == "walkroot" {
			err := p.Walk("/", func(name string, fi os.FileInfo, err error) error {
				see(name, fi)
				return err
			})
			return strings.Join(lines, "\n") + errClass(err)
		}
		f, err := p.Open("/")
		if err != nil {
			return errClass(err)
		}
		defer f.Close()
		fis, err := f.Readdir(-1)
		for _, fi := range fis {
			see("/"+fi.Name(), fi)
		}
		sort.Strings(lines)
		return strings.Join(lines, "\n") + errClass(err)
	case "http":
		r := ask(h, request{Method: "GET", Path: a.Path, Header: map[string]string{}})
		if r.Status >= 300 {
			return fmt.Sprint(r.Status)
		}
		var hs []string
		for _, h := range strings.Split(r.Header, "\n") {
			if lm := strings.TrimPrefix(h, "Last-Modified: "); lm != h {
				if at, err := http.ParseTime(lm); err == nil && at.After(layersBegan) {
					h = "Last-Modified: now"
				}
			}
			hs = append(hs, h)
		}
		return fmt.Sprintf("%d %q\n%s", r.Status, r.Body, strings.Join(hs, "\n"))
	case "marshal":
		m, ok := p.(*mem.Pkger)
		if !ok {
			return ""
		}
		b, err := json.Marshal(m)
		if err != nil {
			return errClass(err)
		}
		if a.N > 0 {
			// packed and unpacked while the others do theirs
			if b, err = embed.Encode(b); err != nil {
				return errClass(err)
			}
			q, err := mem.UnmarshalEmbed(b)
			if err != nil {
				return "unpacking: " + errClass(err)
			}
			if b, err = json.Marshal(q); err != nil {
				return errClass(err)
			}
		}
		var d embed.Data
		if err := json.Unmarshal(b, &d); err != nil {
			return errClass(err)
		}
		var lines []string
		for n, f := range d.Files {
			if i := strings.Index(n, ":/"); within(n[i+1:], "/pub") || within(n[i+1:], a.Own) {
				lines = append(lines, fmt.Sprintf("%s %s %q", n, layerMeta(f.Info), f.Data))
			}
		}
		sort.Strings(lines)
		return strings.Join(lines, "\n")
	case "parse":
		pt, err := p.Parse(a.Path)
		return pt.String() + errClass(err)
	case "info":
		cur, err := p.Current()
		if err != nil {
			return errClass(err)
		}
		info, err := p.Info(cur.Module.Path)
		return layerInfo(cur) + layerInfo(info) + errClass(err)
	}
	return "no such operation"
}

// genActs draws what one goroutine does.
func genActs(t *rapid.T, l, mod string, i int, pub tree, kind string) []act {
	own := fmt.Sprintf("/w%d", i)
	files := []string{}
	dirs := []string{own}
	acts := []act{{Op: "mkdirall", Path: own, Own: own}}
	if rapid.Bool().Draw(t, l+"-latecomer") {
		acts = nil
	}
	pubs := []string{"/pub"}
	for _, n := range pub.names() {
		pubs = append(pubs, "/pub"+n)
	}
	for j, n := 0, intn(t, l+"-n", 1, 12); j < n; j++ {
		l := fmt.Sprintf("%s-%d", l, j)
		a := act{Own: own, N: pick(t, l+"-x", []int{0, 0, 1, 3, 10})}
		switch intn(t, l, 0, 15) {
		case 0:
			// all may make this one
			a.Op, a.Path = "mkdirall", "/common/"+pick(t, l+"-common", []string{"a", "a/b", "c"})
		case 1:
			a.Op, a.Path = "mkdirall", path.Join(pick(t, l+"-dir", dirs), pick(t, l+"-sub", []string{"x", "x/y", "z"}))
			dirs = append(dirs, a.Path)
		case 2, 3, 4, 5:
			a.Op, a.Path = "create", path.Join(pick(t, l+"-dir", dirs), pick(t, l+"-file", []string{"f", "g", "f.txt"}))
			if intn(t, l+"-among", 0, 3) == 0 {
				a.Path = fmt.Sprintf("/f%d", i)
			}
			a.Data = strings.Repeat(fmt.Sprintf("%d-%d;", i, j), intn(t, l+"-len", 0, 9))
			files = append(files, a.Path)
		case 6:
			a.Op = pick(t, l+"-rm", []string{"remove", "removeall"})
			a.Path = pick(t, l+"-victim", append(files, dirs...))
		case 7:
			a.Op = pick(t, l+"-mine", []string{"open", "stat", "walk"})
			a.Path = pick(t, l+"-which", append(files, dirs...))
			if strings.HasPrefix(a.Path, "/f") && a.Op == "walk" {
				a.Op = "stat"
			}
		case 8:
			a.Op, a.Path = "http", pick(t, l+"-req", append(pubs, own+"/", own+"/f"))
			if nd := pub[strings.TrimPrefix(a.Path, "/pub")]; a.Path == "/pub" || nd != nil && nd.Dir {
				a.Path += "/"
			}
		case 9:
			a.Op, a.Path = "walk", "/pub"
		case 10:
			if kind == "disk" {
				continue
			}
			a.Op = pick(t, l+"-root", []string{"walkroot", "listroot", "marshal"})
		case 11:
			a.Op, a.Path = pick(t, l+"-read", []string{"parse", "info"}), mod+":/pub/../x/"
		default:
			a.Op = pick(t, l+"-read", []string{"open", "open", "stat"})
			a.Path = pick(t, l+"-pub", pubs)
			if rapid.Bool().Draw(t, l+"-spelt") {
				a.Path = mod + ":" + a.Path + "/."
			}
		}
		if (a.Op == "open" || a.Op == "walk") && a.N > 0 && strings.HasPrefix(a.Path, "/w") {
			a.N = 2
		}
		switch a.Op {
		case "create", "open", "stat", "walk", "walkroot", "listroot", "marshal", "parse":
			if intn(t, l+"-often", 0, 9) == 0 && (a.Op != "create" || strings.HasPrefix(a.Path, own+"/")) {
				a.Times = pick(t, l+"-times", []int{2, 10, 50, 200})
				if kind == "disk" {
					a.Times = min(a.Times, 20)
				}
			}
		}
		acts = append(acts, a)
	}
	return acts
}

func TestC17(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		mod := genModPath(t)
		kind := pick(t, "kind", []string{"new", "unpacked", "filled", "disk", "new", "unpacked", "filled", "process"})
		k.label("%s", kind)
		pub := genTree(t, "pub", treeOpts{max: 6, maxData: 3000, mtimes: true, noColon: true})
		twin := func(name string) (string, pkging.Pkger) {
			dir := filepath.Join(base, name)
			infra(os.MkdirAll(dir, 0755))
			if kind != "new" {
				infra(os.MkdirAll(dir+"/pub", 0755))
				pub.write(dir + "/pub")
			}
			info := modInfo(dir, mod)
			switch kind {
			case "new":
				p, err := mem.New(info)
				infra(err)
				return dir, p
			case "disk":
				p, err := stdos.New(info)
				infra(err)
				return dir, p
			}
			if kind == "filled" {
				return dir, buildMem(t, dir, mod, "", under(pub, "/pub"))
			}
			p, err := memOf(dir, mod, osTree(dir))
			if err != nil {
				t.Fatalf("unpacking: %v", err)
			}
			return dir, p
		}
		n := pick(t, "goroutines", []int{2, 3, 4, 8})
		adders := kind != "disk" && kind != "process" && intn(t, "adders", 0, 11) == 0
		if adders {
			k.label("adding files of the disk")
			n = min(n, 3)
		}
		var scripts [][]act
		var log []string
		total := 0
		for i := 0; i < n; i++ {
			as := genActs(t, fmt.Sprintf("g%d", i), mod, i, pub, kind)
			if kind == "new" {
				// one of them may make it
				as = append([]act{{Op: "mkdirall", Path: "/common", Own: fmt.Sprintf("/w%d", i)}}, as...)
			}
			if adders {
				a := act{Op: "add", Path: fmt.Sprintf("/add%d", i), Own: fmt.Sprintf("/w%d", i)}
				if rapid.Bool().Draw(t, fmt.Sprintf("add-file%d", i)) {
					a.Path += "/f"
				}
				at := intn(t, fmt.Sprintf("add-at%d", i), 0, len(as))
				as = append(as[:at:at], append([]act{a}, as[at:]...)...)
			}
			scripts = append(scripts, as)
			total += len(as)
			log = append(log, fmt.Sprintf("goroutine %d: %+v", i, as))
		}
		if kind == "process" {
			applyWhileReading(t, k, base, mod, pub, scripts)
			k.done(true, strings.Join(log, "\n"), log)
			return
		}
		cdir, p := twin("app")
		// without a shared handle, the goroutines are the first to use it
		shared := rapid.Bool().Draw(t, "shared")
		sdir, ref := twin("twin/app")
		if adders {
			for _, dir := range []string{cdir, filepath.Join(base, "twin/app")} {
				infra(os.MkdirAll(dir, 0755))
				infra(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n"), 0644))
				for i := range scripts {
					tree{fmt.Sprintf("/add%d", i): &node{Dir: true, Mode: 0755}, fmt.Sprintf("/add%d/f", i): &node{Data: []byte("on disk"), Mode: 0644},
						fmt.Sprintf("/add%d/g", i): &node{Data: nil, Mode: 0600}}.write(dir)
				}
			}
		}
		got, want := concurrently(p, scripts, shared), sequentially(ref, scripts)
		for i := range scripts {
			for j, a := range scripts[i] {
				x := strings.Replace(got[i][j], cdir, sdir, -1)
				if x != want[i][j] {
					t.Fatalf("goroutine %d, %+v:\n%s\nby itself:\n%s\n%s", i, a, x, want[i][j], strings.Join(log, "\n"))
				}
			}
		}
		// the union of it all
		if kind == "disk" {
			if d := diffLines(osContents(cdir), osContents(sdir)); d != "" {
				t.Fatalf("in the end:\n%s\n%s", d, strings.Join(log, "\n"))
			}
		} else {
			x, y := memLines(t, p), memLines(t, ref)
			if d := diffLines(x, y); d != "" {
				t.Fatalf("in the end:\n%s\n%s", d, strings.Join(log, "\n"))
			}
		}
		if r := raceReport(); r != "" {
			t.Fatalf("%s\n%s", r, strings.Join(log, "\n"))
		}
		k.labelIf(n > 3, "many goroutines")
		k.done(total > n, strings.Join(log, "\n"), log)
	})
}

// under moves the tree below a folder.
func under(tr tree, dir string) tree {
	out := tree{dir: &node{Dir: true, Mode: 0755}}
	for n, nd := range tr {
		out[dir+n] = nd
	}
	return out
}

// memLines lists what there is at the end; the mode of a folder is that of
// whoever came first.
func memLines(t tb, p pkging.Pkger) []string {
	var out []string
	for n, h := range entries(t, p.(*mem.Pkger)) {
		out = append(out, fmt.Sprintf("%s %v %v %d %q", n, h.Meta.Dir, h.Meta.Mode, h.Meta.Size, h.Data))
	}
	sort.Strings(out)
	return out
}

func handlerOf(p pkging.Pkger) http.Handler {
	return http.FileServer(httpRoot{p})
}

// httpRoot opens the root anew for every request.
type httpRoot struct{ pkging.Pkger }

func (r httpRoot) Open(name string) (http.File, error) {
	f, err := r.Pkger.Open("/")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Open(name)
}

func concurrently(p pkging.Pkger, scripts [][]act, shared bool) [][]string {
	out := make([][]string, len(scripts))
	var ready, done sync.WaitGroup
	start := make(chan bool)
	// one handler, and one handle, for all
	var h http.Handler = handlerOf(p)
	if shared {
		if f, err := p.Open("/"); err == nil {
			defer f.Close()
			h = http.FileServer(f)
		}
	}
	for i := range scripts {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			for _, a := range scripts[i] {
				out[i] = append(out[i], a.perform(p, h))
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	return out
}

func sequentially(p pkging.Pkger, scripts [][]act) [][]string {
	out := make([][]string, len(scripts))
	h := handlerOf(p)
	for i := range scripts {
		for _, a := range scripts[i] {
			out[i] = append(out[i], a.perform(p, h))
		}
	}
	return out
}

var raceSeen int64

// raceReport is what the race detector has found since the last call.
func raceReport() string {
	fs, _ := filepath.Glob(filepath.Join(scratch, "race.*"))
	var size int64
	last := ""
	for _, f := range fs {
		b, err := os.ReadFile(f)
		infra(err)
		size += int64(len(b))
		last = string(b)
	}
	if size == raceSeen {
		return ""
	}
	raceSeen = size
	if len(last) > 5000 {
		last = last[len(last)-5000:]
	}
	return last
}

// applyIn is a process in which packages are applied while others read.
type applyIn struct {
	Payloads [][]byte
	First    bool // the first is applied before anyone reads
	Scripts  [][]act
}

type applyOut struct {
	Lines [][]string
	Last  []string // of the first script, when all are applied
}

func agentApplying() {
	var in applyIn
	agentIn(&in)
	var out applyOut
	if in.First {
		pkger.Apply(mem.UnmarshalEmbed(in.Payloads[0]))
		in.Payloads = in.Payloads[1:]
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	out.Lines = make([][]string, len(in.Scripts))
	h := http.FileServer(pkger.Dir("/"))
	for i := range in.Scripts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, a := range in.Scripts[i] {
				out.Lines[i] = append(out.Lines[i], a.perform(asPkger{}, h))
			}
		}(i)
	}
	for _, b := range in.Payloads {
		wg.Add(1)
		go func(b []byte) {
			defer wg.Done()
			<-start
			runtime.Gosched()
			pkger.Apply(mem.UnmarshalEmbed(b))
		}(b)
	}
	close(start)
	wg.Wait()
	for _, a := range in.Scripts[0] {
		out.Last = append(out.Last, a.perform(asPkger{}, h))
	}
	agentOut(out)
}

// asPkger is the functions of package pkger.
type asPkger struct{ applied }

func (asPkger) Remove(p string) error { return pkger.Remove(p) }

// applyWhileReading applies packages with the same public files while others
// read those.
func applyWhileReading(t *rapid.T, k *kase, base, mod string, pub tree, scripts [][]act) {
	dir := filepath.Join(base, "app")
	infra(os.MkdirAll(dir+"/pub", 0755))
	pub.write(dir + "/pub")
	infra(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.16\n"), 0644))
	infra(os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0644))
	in := applyIn{First: rapid.Bool().Draw(t, "first")}
	names := []string{"/"}
	for _, n := range osTree(dir) {
		if within(n, "/pub") {
			names = append(names, n)
		}
	}
	for i, n := 0, intn(t, "applied", 2, 4); i < n; i++ {
		b, err := json.Marshal(memData(dir, mod, names))
		infra(err)
		enc, err := embed.Encode(b)
		if err != nil {
			t.Fatalf("encoding: %v", err)
		}
		in.Payloads = append(in.Payloads, enc)
	}
	ref, err := memOf(dir, mod, names)
	if err != nil {
		t.Fatalf("unpacking: %v", err)
	}
	for _, s := range scripts {
		var only []act
		for _, a := range s {
			if (a.Op == "open" || a.Op == "stat" || a.Op == "http") && strings.Contains(a.Path, "/pub") || a.Op == "parse" {
				only = append(only, a)
			}
		}
		only = append(only, act{Op: "open", Path: "/pub"}, act{Op: "http", Path: "/pub/"}, act{Op: "stat", Path: mod + ":/pub"})
		in.Scripts = append(in.Scripts, only)
	}
	want := sequentially(ref, in.Scripts)
	var got applyOut
	err = startAgent("applying", dir, in, &got)
	if r := raceReport(); r != "" {
		t.Fatalf("%s\n%+v", r, in.Scripts)
	}
	if err != nil {
		t.Fatalf("%v\n%+v", err, in.Scripts)
	}
	for i := range in.Scripts {
		for j, a := range in.Scripts[i] {
			if got.Lines[i][j] != want[i][j] {
				t.Fatalf("while packages are applied, %+v:\n%s\nwant\n%s", a, got.Lines[i][j], want[i][j])
			}
			if i == 0 && got.Last[j] != want[i][j] {
				t.Fatalf("after packages are applied, %+v:\n%s\nwant\n%s", a, got.Last[j], want[i][j])
			}
		}
	}
	k.labelIf(!in.First, "from disk to applied")
}
