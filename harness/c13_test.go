package harness

import (
	"errors"
	"fmt"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
	"pgregory.net/rapid"
)

// proxy is the package that pkger's functions use in this process: whichever
// the current case says.
type proxy struct{ pkging.Pkger }

var (
	theProxy   = &proxy{}
	applyProxy sync.Once
)

func useAsCurrent(p pkging.Pkger) {
	theProxy.Pkger = p
	applyProxy.Do(func() { infra(pkger.Apply(theProxy, nil)) })
}

// request is what a client sends.
type request struct {
	Method string
	Path   string
	Query  string
	Header map[string]string
}

func (r request) String() string {
	var hs []string
	for k, v := range r.Header {
		hs = append(hs, k+": "+v)
	}
	sort.Strings(hs)
	return fmt.Sprintf("%s %q %s %q", r.Method, r.Path, r.Query, hs)
}

// response is all of what the client sees.
type response struct {
	Status int
	Header string
	Body   string
}

func ask(h http.Handler, r request) response {
	req := &http.Request{Method: r.Method, URL: &url.URL{Path: r.Path, RawQuery: r.Query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "example.com"}
	for k, v := range r.Header {
		req.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return asResponse(w.Code, w.Header(), w.Body.String())
}

func asResponse(code int, h http.Header, body string) response {
	var hs []string
	boundary := ""
	for k, v := range h {
		line := strings.Join(v, ", ")
		if k == "Content-Type" {
			if mt, ps, err := mime.ParseMediaType(line); err == nil && strings.HasPrefix(mt, "multipart/") {
				boundary = ps["boundary"]
			}
		}
		if k == "Date" {
			continue
		}
		hs = append(hs, k+": "+line)
	}
	sort.Strings(hs)
	header := strings.Join(hs, "\n")
	if boundary != "" {
		header = strings.Replace(header, boundary, "BOUNDARY", -1)
		body = strings.Replace(body, boundary, "BOUNDARY", -1)
	}
	return response{code, header, body}
}

func diffResponses(got, want response) string {
	var out []string
	if got.Status != want.Status {
		out = append(out, fmt.Sprintf("status %d, want %d", got.Status, want.Status))
	}
	if got.Header != want.Header {
		out = append(out, fmt.Sprintf("headers\n%s\nwant\n%s", got.Header, want.Header))
	}
	if got.Body != want.Body {
		out = append(out, fmt.Sprintf("body %q, want %q", clip(got.Body, 600), clip(want.Body, 600)))
	}
	return strings.Join(out, "\n")
}

func genRequest(t *rapid.T, l string, root string, tr tree) request {
	r := request{Method: pick(t, l+"-method", []string{"GET", "GET", "GET", "GET", "HEAD", "POST"}), Header: map[string]string{}}
	under := tr.below(root)
	p := "/"
	var nd *node
	switch intn(t, l+"-kind", 0, 9) {
	case 0:
	case 1, 2:
		// not there, or not there in this way
		p = genMissing(t, l+"-missing", tr)
		if within(p, root) {
			p = strings.TrimPrefix(p, root)
		}
	case 3:
		// outside the served folder, were it not for the root
		if ns := tr.names(); len(ns) > 0 {
			p = pick(t, l+"-outside", ns)
			p = strings.Repeat("/..", intn(t, l+"-ups", 1, 3)) + p
		}
	default:
		if len(under) > 0 {
			n := pick(t, l+"-there", under)
			nd = tr[n]
			p = "/" + strings.TrimPrefix(strings.TrimPrefix(n, root), "/")
		}
	}
	if intn(t, l+"-noisy", 0, 3) == 0 && strings.HasPrefix(p, "/") {
		p = noise(t, l+"-noise", p, true)
	}
	switch intn(t, l+"-tail", 0, 7) {
	case 0:
		p = strings.TrimSuffix(p, "/") + "/"
	case 1:
		p = strings.TrimSuffix(p, "/") + "/index.html"
	case 2:
		if nd == nil || nd.Dir {
			p = strings.TrimSuffix(p, "/") + "/"
		}
	case 3:
		p += "//"
	}
	if rapid.Bool().Draw(t, l+"-bare") && intn(t, l+"-bare2", 0, 5) == 0 {
		p = strings.TrimLeft(p, "/")
	}
	// outside the domain: see DESIGN.md
	if strings.ContainsAny(p, "\\\x00") || strings.TrimRightFunc(p, unicode.IsSpace) != p {
		p = "/"
	}
	r.Path = p
	if intn(t, l+"-query", 0, 9) == 0 {
		r.Query = "a=b&c=/d"
	}
	size := 0
	mt := time.Unix(1600000000, 0)
	if nd != nil {
		size = len(nd.Data)
		if !nd.MTime.IsZero() {
			mt = nd.MTime
		}
	}
	if intn(t, l+"-ranged", 0, 2) == 0 {
		r.Header["Range"] = genRange(t, l+"-range", size)
	}
	date := func(k string) string {
		d := pick(t, l+"-delta"+k, []time.Duration{0, -time.Second, time.Second, -time.Hour * 24 * 400, time.Hour * 24 * 400, time.Nanosecond})
		return mt.Add(d).UTC().Format(http.TimeFormat)
	}
	for _, h := range []string{"If-Modified-Since", "If-Unmodified-Since", "If-Range", "If-None-Match", "If-Match"} {
		if intn(t, l+"-"+h, 0, 9) != 0 {
			continue
		}
		switch h {
		case "If-None-Match", "If-Match":
			r.Header[h] = pick(t, l+"-etag", []string{"*", `"abc"`, `W/"x"`, "nonsense"})
		default:
			r.Header[h] = date(h)
			if intn(t, l+"-bad"+h, 0, 9) == 0 {
				r.Header[h] = "yesterday"
			}
		}
	}
	if intn(t, l+"-ae", 0, 5) == 0 {
		r.Header["Accept-Encoding"] = "gzip"
	}
	return r
}

func genRange(t *rapid.T, l string, size int) string {
	n := func(x string) int {
		return pick(t, l+x, []int{0, 1, 2, size / 2, size - 1, size, size + 1, size + 1000, 5, 10})
	}
	one := func(i int) string {
		x := fmt.Sprint(i)
		switch intn(t, l+"-form"+x, 0, 3) {
		case 0:
			return fmt.Sprintf("%d-", n("-a"+x))
		case 1:
			return fmt.Sprintf("-%d", n("-b"+x))
		default:
			a := n("-c" + x)
			return fmt.Sprintf("%d-%d", a, a+intn(t, l+"-len"+x, -1, 20))
		}
	}
	if intn(t, l+"-odd", 0, 9) == 0 {
		return pick(t, l+"-oddity", []string{"bytes=", "bytes=x-y", "lines=1-2", "bytes=5-1", "bytes=--1", "bytes = 0-1", "bytes=0-1,,3-4", "bytes=99999999999999999999-"})
	}
	var rs []string
	for i, m := 0, pick(t, l+"-n", []int{1, 1, 1, 2, 3}); i < m; i++ {
		rs = append(rs, one(i))
	}
	return "bytes=" + strings.Join(rs, pick(t, l+"-sep", []string{",", ", "}))
}

func TestC13(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		base := newDir()
		defer dropDir(base)
		mod := genModPath(t)
		dir := filepath.Join(base, "mod")
		infra(os.Mkdir(dir, 0755))
		tr := genTree(t, "tree", treeOpts{max: 12, maxData: 70000, modes: true, mtimes: true})
		// what a web server looks for
		for i, n := 0, intn(t, "web", 0, 4); i < n; i++ {
			l := fmt.Sprintf("web%d", i)
			nm := path.Join(pick(t, l+"-dir", tr.dirs()), pick(t, l+"-name", []string{"index.html", "index.html", "style.css", "sub", "page.html", "x.tmp", "index.htm"}))
			if !tr.fits(nm) {
				continue
			}
			if path.Base(nm) == "sub" || intn(t, l+"-odd", 0, 9) == 0 {
				tr[nm] = &node{Dir: true, Mode: 0755}
			} else {
				tr[nm] = &node{Mode: 0644, Data: genContent(t, l, 5000), MTime: pick(t, l+"-mtime", mtimePool)}
			}
		}
		tr.write(dir)
		root := "/"
		if rapid.Bool().Draw(t, "serve-sub") {
			root = pick(t, "root", tr.dirs())
		}

		if intn(t, "command", 0, 39) == 39 && tr["/vendor"] == nil && tr["/go.mod"] == nil && ownNetwork() {
			serveCommand(t, k, mod, dir, root, tr)
			return
		}
		var p pkging.Pkger
		var err error
		kind := pick(t, "backend", []string{"unpacked", "disk", "filled"})
		if len(tr) == 0 && kind == "filled" {
			kind = "unpacked"
		}
		switch kind {
		case "unpacked":
			data := memData(dir, mod, append(tr.names(), "/"))
			addModule(t, data, pick(t, "other", []string{"other", mod + "x", mod + "/sub"}), tr)
			p, err = memFromData(data)
			if err != nil {
				t.Fatalf("unpacking: %v", err)
			}
		case "disk":
			p, err = stdos.New(modInfo(dir, mod))
			infra(err)
			if fs := tr.files(); len(fs) > 0 && intn(t, "lock", 0, 3) == 0 {
				os.Chmod(dir+pick(t, "locked", fs), 0)
				k.label("file that cannot be read")
			}
		case "filled":
			p = buildMem(t, dir, mod, "", tr)
			for _, n := range append([]string{"/"}, tr.names()...) {
				fi, err := p.Stat(n)
				if err != nil {
					t.Fatalf("Stat(%q): %v", n, err)
				}
				infra(os.Chtimes(dir+n, fi.ModTime(), fi.ModTime()))
				if n != "/" {
					tr[n].MTime = fi.ModTime()
				}
			}
		}

		var fs http.FileSystem
		s := spell(t, "rootspell", mod, dir, root)
		how := pick(t, "how", []string{"folder", "folder", "pkger.Dir", "subfolder"})
		switch how {
		case "pkger.Dir":
			useAsCurrent(p)
			fs = pkger.Dir(s)
		case "subfolder":
			top, err := p.Open("/")
			if err != nil {
				t.Fatalf("opening the root: %v", err)
			}
			defer top.Close()
			f, err := top.Open(root)
			if err != nil {
				t.Fatalf("opening %q through the root: %v", root, err)
			}
			defer f.Close()
			fs = f.(http.FileSystem)
		default:
			f, err := p.Open(s)
			if err != nil {
				t.Fatalf("opening %q: %v", s, err)
			}
			defer f.Close()
			fs = f
		}
		h := http.FileServer(fs)
		ref := http.FileServer(http.Dir(path.Join(dir, root)))

		var log []string
		ok := 0
		for i, n := 0, intn(t, "requests", 1, 12); i < n; i++ {
			r := genRequest(t, fmt.Sprintf("r%d", i), root, tr)
			times := 1
			if intn(t, fmt.Sprintf("again%d", i), 0, 4) == 0 {
				times = 3
			}
			want := ask(ref, r)
			if name := path.Clean("/" + r.Path); intn(t, fmt.Sprintf("held%d", i), 0, 3) == 0 {
				// someone else is in the middle of the same
				if f, err := fs.Open(name); err == nil {
					f.Readdir(1)
					f.Read(make([]byte, 3))
					k.label("while it is being read elsewhere")
					defer f.Close()
				}
			}
			for j := 0; j < times; j++ {
				got := ask(h, r)
				if d := diffResponses(got, want); d != "" {
					t.Fatalf("%s of %s (%s): %v is answered with\n%s", how, kind, root, r, d)
				}
			}
			log = append(log, fmt.Sprintf("%v -> %d", r, want.Status))
			k.label("status %d", want.Status)
			k.labelIf(strings.Contains(want.Header, "multipart/byteranges"), "several ranges")
			k.labelIf(strings.HasPrefix(want.Body, "<!doctype html>\n<meta name") || strings.HasPrefix(want.Body, "<pre>"), "folder listing")
			if want.Status < 400 {
				ok++
			}
			if r.Path == "" {
				continue
			}
			// the file system itself says what is not there
			if f, err := fs.Open("/" + strings.TrimLeft(path.Clean("/"+r.Path), "/")); err == nil {
				f.Close()
			} else if _, rerr := http.Dir(path.Join(dir, root)).Open(path.Clean("/" + r.Path)); errors.Is(rerr, os.ErrNotExist) != errors.Is(err, os.ErrNotExist) {
				t.Fatalf("%s of %s (%s): opening %q: %v; http.Dir: %v", how, kind, root, r.Path, err, rerr)
			}
		}
		k.label("%s of %s", how, kind)
		k.done(ok > 0 && len(tr.below(root)) > 1, fmt.Sprint(tr.describe(), root, kind, how, log),
			map[string]interface{}{"tree": tr.describe(), "served": root, "backend": kind, "through": how, "requests": log})
	})
}
