package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

// Op is one thing a program does with a package. This file is also the
// better part of the programs that the harness generates.
type Op struct {
	Kind string // stat, open, chunks, readdir, pages, walk, skip, http, parse, info
	Path string
	N    int
	Sub  string // request path, of http
}

type reader interface {
	Open(string) (pkging.File, error)
	Stat(string) (os.FileInfo, error)
	Walk(string, filepath.WalkFunc) error
	Parse(string) (here.Path, error)
	Info(string) (here.Info, error)
}

// global is what the functions of package pkger do.
type global struct{}

func (global) Open(p string) (pkging.File, error)       { return pkger.Open(p) }
func (global) Stat(p string) (os.FileInfo, error)       { return pkger.Stat(p) }
func (global) Walk(p string, f filepath.WalkFunc) error { return pkger.Walk(p, f) }
func (global) Parse(p string) (here.Path, error)        { return pkger.Parse(p) }
func (global) Info(p string) (here.Info, error)         { return pkger.Info(p) }
func opClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case os.IsNotExist(err):
		return "not exist"
	}
	return "error"
}

func opMeta(fi os.FileInfo) string {
	if fi == nil {
		return "nothing"
	}
	return fmt.Sprintf("%q %d %v %d %v", fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().UnixNano(), fi.IsDir())
}

func opSum(b []byte) string {
	s := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(s[:]))
}

// runOp does it and says what came of it.
func runOp(r reader, op Op) (out string) {
	switch op.Kind {
	case "stat":
		fi, err := r.Stat(op.Path)
		return opClass(err) + " " + opMeta(fi)
	case "walk", "skip":
		var lines []string
		n := 0
		err := r.Walk(op.Path, func(p string, fi os.FileInfo, err error) error {
			lines = append(lines, fmt.Sprintf("%q %s %s", p, opMeta(fi), opClass(err)))
			n++
			if op.Kind == "skip" && n > 1 && n%(op.N+2) == 0 && fi != nil {
				return filepath.SkipDir
			}
			return err
		})
		return opClass(err) + "\n" + strings.Join(lines, "\n")
	case "parse":
		pt, err := r.Parse(op.Path)
		return opClass(err) + " " + pt.String()
	case "http":
		rec := httptest.NewRecorder()
		req, err := http.NewRequest("GET", "http://example.com/", nil)
		if err != nil {
			return err.Error()
		}
		req.URL.Path = op.Sub
		req.RequestURI = ""
		if op.N > 0 {
			req.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", op.N, op.N+20))
		}
		http.FileServer(pkger.Dir(op.Path)).ServeHTTP(rec, req)
		h := rec.Header()
		if rec.Code >= 400 {
			// net/http keeps it or not, depending on the go line of the
			// program's go.mod
			h.Del("Last-Modified")
		}
		return fmt.Sprintf("%d %q %q %q %q %q %s", rec.Code, h.Get("Content-Type"), h.Get("Content-Length"), h.Get("Last-Modified"),
			h.Get("Location"), h.Get("Content-Range"), opSum(rec.Body.Bytes()))
	}
	f, err := r.Open(op.Path)
	if err != nil {
		return opClass(err)
	}
	defer func() {
		out += " closed " + opClass(f.Close())
	}()
	fi, err := f.Stat()
	out = fmt.Sprintf("%q %q %s %s", f.Name(), f.Path().String(), opClass(err), opMeta(fi))
	switch op.Kind {
	case "open":
		b, err := ioutil.ReadAll(f)
		if fi != nil && fi.IsDir() {
			b = nil
		}
		return out + " " + opClass(err) + " " + opSum(b)
	case "chunks":
		if fi != nil && fi.IsDir() {
			return out
		}
		var all []byte
		buf := make([]byte, op.N+1)
		for i := 0; i < 1<<22; i++ {
			n, err := f.Read(buf)
			all = append(all, buf[:n]...)
			if err != nil {
				out += " " + opClass(err)
				break
			}
		}
		at, err := f.Seek(int64(op.N), io.SeekStart)
		out += fmt.Sprintf(" %s %d %s", opSum(all), at, opClass(err))
		n, err := io.ReadFull(f, buf)
		return out + fmt.Sprintf(" %d %s %s", n, opSum(buf[:n]), opClass(err))
	case "readdir":
		fis, err := f.Readdir(-1)
		if fi != nil && !fi.IsDir() {
			return out + fmt.Sprintf(" %v", err != nil)
		}
		var lines []string
		for _, fi := range fis {
			lines = append(lines, opMeta(fi))
		}
		sort.Strings(lines)
		return out + " " + opClass(err) + "\n" + strings.Join(lines, "\n")
	case "pages":
		if fi != nil && !fi.IsDir() {
			return out
		}
		var lines, counts []string
		for i := 0; i < 10000; i++ {
			fis, err := f.Readdir(op.N + 1)
			counts = append(counts, fmt.Sprint(len(fis)))
			for _, fi := range fis {
				lines = append(lines, opMeta(fi))
			}
			if err != nil {
				counts = append(counts, opClass(err))
				break
			}
		}
		sort.Strings(lines)
		return out + " " + strings.Join(counts, ",") + "\n" + strings.Join(lines, "\n")
	}
	return out + " unknown operation"
}
