package harness

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

// layerSpec is a package to be applied: a stand-in that does as it is told,
// or an unpacked payload.
type layerSpec struct {
	Name    string
	Fail    map[string]bool // operations that fail
	Blank   map[string]bool // operations that succeed with nothing in particular
	Entries []string        // what its Walk visits
	Payload []byte
}

// layerStep is what a program does.
type layerStep struct {
	Kind  string // apply, bad, open, stat, create, mkdirall, removeall, walk, parse, info, current
	Path  string
	Data  string
	N     int
	Layer int
	Err   bool // bad: with a package besides the error
}

// calls records what stand-ins are asked to do.
type calls struct{ lines []string }

// standIn is a package that does as it is told.
type standIn struct {
	layerSpec
	calls *calls
}

func (l *standIn) do(op, arg string) error {
	l.calls.lines = append(l.calls.lines, l.Name+" "+op+" "+arg)
	if l.Fail[op] {
		return &os.PathError{Op: op, Path: arg, Err: errors.New(l.Name + " fails")}
	}
	return nil
}

func (l *standIn) Parse(p string) (here.Path, error) {
	if l.Blank["parse"] {
		return here.Path{}, l.do("parse", p)
	}
	return here.Path{Pkg: l.Name, Name: p}, l.do("parse", p)
}
func (l *standIn) Current() (here.Info, error) {
	if l.Blank["current"] {
		return here.Info{Dir: "/of/" + l.Name}, l.do("current", "")
	}
	return here.Info{ImportPath: "current of " + l.Name}, l.do("current", "")
}
func (l *standIn) Info(p string) (here.Info, error) {
	if l.Blank["info"] {
		return here.Info{Dir: "/of/" + l.Name}, l.do("info", p)
	}
	return here.Info{ImportPath: p + " of " + l.Name}, l.do("info", p)
}
func (l *standIn) file(op, p string) (pkging.File, error) {
	if err := l.do(op, p); err != nil {
		return nil, err
	}
	return &standFile{l, op, p}, nil
}
func (l *standIn) Create(p string) (pkging.File, error) { return l.file("create", p) }
func (l *standIn) Open(p string) (pkging.File, error)   { return l.file("open", p) }
func (l *standIn) Stat(p string) (os.FileInfo, error) {
	if err := l.do("stat", p); err != nil {
		return nil, err
	}
	if l.Blank["stat"] {
		return fakeInfo{name: p}, nil
	}
	return fakeInfo{name: l.Name + p, size: int64(len(p)), mod: time.Unix(5, 5)}, nil
}
func (l *standIn) MkdirAll(p string, perm os.FileMode) error {
	return l.do("mkdirall", p+" "+perm.String())
}
func (l *standIn) Remove(p string) error    { return l.do("remove", p) }
func (l *standIn) RemoveAll(p string) error { return l.do("removeall", p) }
func (l *standIn) Walk(p string, wf filepath.WalkFunc) error {
	if err := l.do("walk", p); err != nil {
		return err
	}
	for _, e := range l.Entries {
		err := wf(l.Name+":"+e, fakeInfo{name: e}, nil)
		if err == filepath.SkipDir {
			return nil
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type standFile struct {
	l  *standIn
	op string
	p  string
}

func (f *standFile) Close() error                       { return nil }
func (f *standFile) Info() here.Info                    { return here.Info{ImportPath: f.l.Name} }
func (f *standFile) Name() string                       { return f.op + " of " + f.l.Name + f.p }
func (f *standFile) Open(string) (http.File, error)     { return nil, os.ErrNotExist }
func (f *standFile) Path() here.Path                    { return here.Path{Pkg: f.l.Name, Name: f.p} }
func (f *standFile) Read([]byte) (int, error)           { return 0, io.EOF }
func (f *standFile) Readdir(int) ([]os.FileInfo, error) { return nil, io.EOF }
func (f *standFile) Seek(int64, int) (int64, error)     { return 0, nil }
func (f *standFile) Stat() (os.FileInfo, error)         { return f.l.Stat(f.p) }
func (f *standFile) Write(b []byte) (int, error)        { return len(b), nil }

func (s layerSpec) make(c *calls) (pkging.Pkger, error) {
	if s.Payload != nil {
		return mem.UnmarshalEmbed(s.Payload)
	}
	return &standIn{s, c}, nil
}

// layered is what is tested: a stack of packages, put up in some way.
type layered interface {
	reader
	Current() (here.Info, error)
	Create(string) (pkging.File, error)
	MkdirAll(string, os.FileMode) error
	RemoveAll(string) error
	apply(p pkging.Pkger, err error) (panicked bool)
}

// applied is the stack of package pkger.
type applied struct{ global }

func (applied) Current() (here.Info, error)               { return pkger.Current() }
func (applied) Create(p string) (pkging.File, error)      { return pkger.Create(p) }
func (applied) MkdirAll(p string, perm os.FileMode) error { return pkger.MkdirAll(p, perm) }
func (applied) RemoveAll(p string) error                  { return pkger.RemoveAll(p) }
func (applied) apply(p pkging.Pkger, err error) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	pkger.Apply(p, err)
	return
}

// wrapped puts up the stack by itself.
type wrapped struct{ pkging.Pkger }

func (w *wrapped) apply(p pkging.Pkger, err error) bool {
	if err != nil {
		return true
	}
	w.Pkger = pkging.Wrap(w.Pkger, p)
	return false
}

// stack is how it should be.
type stack struct {
	disk pkging.Pkger // before anything is applied
	top  []pkging.Pkger
}

var errNoLayer = errors.New("no layer")

func (s *stack) apply(p pkging.Pkger, err error) bool {
	if err != nil {
		return true
	}
	s.top = append([]pkging.Pkger{p}, s.top...)
	return false
}

func (s *stack) layers() []pkging.Pkger {
	if len(s.top) == 0 && s.disk != nil {
		return []pkging.Pkger{s.disk}
	}
	return s.top
}

// first is the newest that succeeds.
func (s *stack) first(do func(pkging.Pkger) error) error {
	err := errNoLayer
	for _, l := range s.layers() {
		if err = do(l); err == nil {
			return nil
		}
	}
	return err
}

// each is all of them, in order, until one fails.
func (s *stack) each(do func(pkging.Pkger) error) error {
	for _, l := range s.layers() {
		if err := do(l); err != nil {
			return err
		}
	}
	return nil
}

func (s *stack) Parse(p string) (out here.Path, err error) {
	return out, s.first(func(l pkging.Pkger) (err error) { out, err = l.Parse(p); return })
}
func (s *stack) Current() (out here.Info, err error) {
	err = s.first(func(l pkging.Pkger) (err error) { out, err = l.Current(); return })
	return
}
func (s *stack) Info(p string) (out here.Info, err error) {
	err = s.first(func(l pkging.Pkger) (err error) { out, err = l.Info(p); return })
	return
}
func (s *stack) Create(p string) (out pkging.File, err error) {
	err = s.first(func(l pkging.Pkger) (err error) { out, err = l.Create(p); return })
	return
}
func (s *stack) Open(p string) (out pkging.File, err error) {
	err = s.first(func(l pkging.Pkger) (err error) { out, err = l.Open(p); return })
	return
}
func (s *stack) Stat(p string) (out os.FileInfo, err error) {
	err = s.first(func(l pkging.Pkger) (err error) { out, err = l.Stat(p); return })
	return
}
func (s *stack) Walk(p string, wf filepath.WalkFunc) error {
	return s.each(func(l pkging.Pkger) error { return l.Walk(p, wf) })
}
func (s *stack) MkdirAll(p string, perm os.FileMode) error {
	return s.each(func(l pkging.Pkger) error { return l.MkdirAll(p, perm) })
}
func (s *stack) RemoveAll(p string) error {
	return s.each(func(l pkging.Pkger) error { return l.RemoveAll(p) })
}

var layersBegan = time.Now().Add(-time.Hour)

// layerMeta leaves out when something was made just now.
func layerMeta(fi os.FileInfo) string {
	if fi == nil {
		return "nothing"
	}
	mt := fi.ModTime().UTC().String()
	if fi.ModTime().After(layersBegan) && fi.ModTime().Before(time.Now().Add(time.Hour)) {
		mt = "now"
	}
	size := fi.Size()
	if fi.IsDir() {
		size = 0
	}
	return fmt.Sprintf("%q %d %v %s %v", fi.Name(), size, fi.Mode(), mt, fi.IsDir())
}

// layerInfo leaves out what the build cache has to do with.
func layerInfo(i here.Info) string {
	return fmt.Sprintf("%q %q %q %q %q", i.Dir, i.ImportPath, i.Name, i.Module.Path, i.Module.Dir)
}

// layerOp does it and says what came of it.
func layerOp(p layered, st layerStep) string {
	var out string
	result := func(err error) string {
		if err != nil {
			return "error"
		}
		return out
	}
	switch st.Kind {
	case "parse":
		pt, err := p.Parse(st.Path)
		out = pt.String()
		return result(err)
	case "info":
		info, err := p.Info(st.Path)
		out = layerInfo(info)
		return result(err)
	case "current":
		info, err := p.Current()
		out = layerInfo(info)
		return result(err)
	case "stat":
		fi, err := p.Stat(st.Path)
		out = layerMeta(fi)
		return result(err)
	case "mkdirall":
		return result(p.MkdirAll(st.Path, os.FileMode(st.N)))
	case "removeall":
		return result(p.RemoveAll(st.Path))
	case "walk":
		var lines []string
		err := p.Walk(st.Path, func(name string, fi os.FileInfo, err error) error {
			lines = append(lines, name+" "+layerMeta(fi)+" "+result(err))
			if st.N > 0 && len(lines) == st.N {
				return errStop
			}
			if st.N < 0 && len(lines) == -st.N {
				return filepath.SkipDir
			}
			return err
		})
		return strings.Join(lines, "\n") + fmt.Sprint(err != nil, err == errStop)
	case "create":
		f, err := p.Create(st.Path)
		if err != nil {
			return "error"
		}
		if _, err := f.Write([]byte(st.Data)); err != nil {
			out += "write fails "
		}
		out += f.Name() + " of " + f.Info().ImportPath
		err = f.Close()
		return result(err)
	case "open":
		f, err := p.Open(st.Path)
		if err != nil {
			return "error"
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			return "no Stat"
		}
		out = f.Name() + " " + layerMeta(fi)
		if !fi.IsDir() {
			b, _ := io.ReadAll(f)
			return out + fmt.Sprintf(" %q", b)
		}
		fis, _ := f.Readdir(-1)
		var kids []string
		for _, fi := range fis {
			kids = append(kids, layerMeta(fi))
		}
		sort.Strings(kids)
		return out + strings.Join(kids, "\n")
	}
	return "no such operation"
}

// layersIn is a program.
type layersIn struct {
	Layers []layerSpec
	Steps  []layerStep
	Dir    string // of the module, if the disk is asked
}

// layersOut is what it sees, and what its layers see.
type layersOut struct {
	Lines []string // one per step
	Calls []string // per step, what stand-ins did
	Held  []string // at the end, per layer
}

// run does all the steps to a stack.
func (in layersIn) run(p layered) (out layersOut) {
	c := &calls{}
	layers := map[int]pkging.Pkger{}
	for _, st := range in.Steps {
		c.lines = nil
		line := ""
		switch st.Kind {
		case "apply":
			l := layers[st.Layer]
			if l == nil {
				var err error
				l, err = in.Layers[st.Layer].make(c)
				infra(err)
				layers[st.Layer] = l
			}
			line = fmt.Sprint("panics ", p.apply(l, nil))
		case "bad":
			// what cannot be unpacked, as a generated file has it
			var l pkging.Pkger
			var err error
			if st.Err {
				l, err = &standIn{layerSpec{Name: "bad"}, c}, errors.New("bad")
			} else {
				l, err = mem.UnmarshalEmbed([]byte(st.Data))
			}
			line = fmt.Sprint("panics ", p.apply(l, err))
		default:
			line = layerOp(p, st)
		}
		out.Lines = append(out.Lines, line)
		out.Calls = append(out.Calls, strings.Join(c.lines, "\n"))
	}
	for i := range in.Layers {
		mp, ok := layers[i].(*mem.Pkger)
		if !ok {
			out.Held = append(out.Held, "")
			continue
		}
		var lines []string
		b, err := mp.MarshalJSON()
		if err != nil {
			out.Held = append(out.Held, err.Error())
			continue
		}
		for n, f := range memEntries(b) {
			lines = append(lines, fmt.Sprintf("%q %s %q", n, layerMeta(f.Info), f.Data))
		}
		sort.Strings(lines)
		out.Held = append(out.Held, strings.Join(lines, "\n"))
	}
	return out
}

func agentApply() {
	var in layersIn
	agentIn(&in)
	agentOut(in.run(applied{}))
}

// diskLayer is the disk as it answers before anything is applied.
func diskLayer(dir string) pkging.Pkger {
	info, err := here.Dir(dir)
	infra(err)
	p, err := stdos.New(info)
	infra(err)
	return p
}
