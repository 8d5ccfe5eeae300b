package harness

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"pgregory.net/rapid"
)

// rawString reports what stands between backticks in a Go source.
func rawString(b []byte) error {
	src := "package p\n\nvar _ = []byte(`" + string(b) + "`)\n"
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return err
	}
	if len(f.Decls) != 1 {
		return fmt.Errorf("%d declarations", len(f.Decls))
	}
	for _, c := range b {
		// kept as they are in a raw string, in any encoding of the source
		if c == '`' || c == '\r' || c < ' ' && c != '\n' && c != '\t' || c >= 0x7f {
			return fmt.Errorf("byte %#x", c)
		}
	}
	return nil
}

// damage changes an encoded payload.
func damage(t *rapid.T, l string, enc []byte) []byte {
	b := append([]byte(nil), enc...)
	at := func(n int) int {
		if n <= 0 {
			return 0
		}
		switch intn(t, l+"-where", 0, 3) {
		case 0:
			return intn(t, l+"-start", 0, min(n-1, 40))
		case 1:
			return n - 1 - intn(t, l+"-end", 0, min(n-1, 40))
		}
		return intn(t, l+"-at", 0, n-1)
	}
	const digits = "0123456789abcdef"
	switch intn(t, l+"-damage", 0, 13) {
	case 0, 1:
		return b[:at(len(b))]
	case 2:
		// whole bytes fewer
		return b[:at(len(b))&^1]
	case 3:
		if len(b) > 0 {
			b[at(len(b))] = digits[intn(t, l+"-digit", 0, 15)]
		}
	case 4:
		if len(b) > 0 {
			b[at(len(b))] ^= 1 << intn(t, l+"-bit", 0, 7)
		}
	case 5:
		// several digits, as a bad disk would
		for i, n := 0, intn(t, l+"-n", 2, 12); i < n && len(b) > 0; i++ {
			b[intn(t, fmt.Sprintf("%s-at%d", l, i), 0, len(b)-1)] = digits[intn(t, fmt.Sprintf("%s-digit%d", l, i), 0, 15)]
		}
	case 6:
		i := at(len(b) + 1)
		ins := pick(t, l+"-ins", []string{"0", "00", "ff", "0000000000000000", "g", "\n", " ", "`", "1f8b08", "\x00"})
		return append(b[:i:i], append([]byte(ins), b[i:]...)...)
	case 7:
		// a piece is lost
		i := at(len(b))
		n := intn(t, l+"-cut", 1, 40)
		return append(b[:i:i], b[min(len(b), i+n):]...)
	case 8:
		// a piece comes twice
		i := at(len(b))
		n := min(len(b), i+intn(t, l+"-dup", 1, 60))
		return append(b[:n:n], b[i:]...)
	case 9:
		// two pieces change places
		i, n := at(len(b)), intn(t, l+"-swap", 2, 20)
		if i+2*n <= len(b) {
			x := append([]byte(nil), b[i:i+n]...)
			copy(b[i:], b[i+n:i+2*n])
			copy(b[i+n:], x)
		}
	case 10:
		return append(b, pick(t, l+"-app", []string{"00", "0", "\n", "1f8b", "ffff", "1f8b080000000000000003000000000000000000"})...)
	case 11:
		// something else written after it
		o, err := embed.Encode(genContent(t, l+"-other", 300))
		if err != nil {
			t.Fatalf("Encode: %v", err)
		}
		return append(b, o...)
	case 12:
		return bytes.ToUpper(b)
	case 13:
		for i, n := at(len(b)), intn(t, l+"-zeros", 1, 30); i < len(b) && n > 0; i, n = i+1, n-1 {
			b[i] = '0'
		}
	}
	return b
}

// mangle changes a JSON value somewhere.
func mangle(t *rapid.T, l string, v interface{}, depth int) interface{} {
	junk := func() interface{} {
		return pick(t, l+"-junk", []interface{}{nil, "", "x", "/", ":", "a:/b", float64(0), float64(-1), 1e300, true, []interface{}{}, map[string]interface{}{}, []interface{}{nil},
			"2020-01-01T00:00:00Z", "AAAA", "!!!", map[string]interface{}{"details": nil}, map[string]interface{}{"details": map[string]interface{}{}}})
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 || depth > 5 || intn(t, l+"-here", 0, 6) == 0 {
			return junk()
		}
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		k := pick(t, l+"-key", keys)
		switch intn(t, l+"-op", 0, 9) {
		case 0:
			delete(x, k)
		case 1:
			x[pick(t, l+"-newkey", []string{"", ":", "/", "x", "/../..", ":::", "no:/such", "app", "app:", "app:/a/../..", "app:/a\x00", " ", "\\", "app:/a/b/c/d"})] = x[k]
		case 2:
			y := x[k]
			delete(x, k)
			x[k+pick(t, l+"-suffix", []string{"x", "/", "/x", "/..", "/../..", ":/"})] = y
		case 3:
			x[k] = x[pick(t, l+"-other", keys)]
		default:
			x[k] = mangle(t, l+"m", x[k], depth+1)
		}
		return x
	case []interface{}:
		if len(x) == 0 {
			return junk()
		}
		i := intn(t, l+"-i", 0, len(x)-1)
		x[i] = mangle(t, l+"m", x[i], depth+1)
		return x
	case bool:
		return !x
	case float64:
		return pick(t, l+"-number", []interface{}{float64(0), float64(-1), float64(1 << 40), float64(2147484141), float64(420), 0.5, nil})
	}
	return junk()
}

// exercise does all that can be done to a package: none of it may crash.
func exercise(t *rapid.T, p *mem.Pkger) {
	names := []string{"", "/", ":", "/a", "app:/", "app:/a/b", "x:/y", "/new", "..", "no:/such"}
	for _, mod := range []string{"", "app:/", "/", "other:/"} {
		p.Walk(mod, func(n string, fi os.FileInfo, err error) error {
			names = append(names, n)
			if fi != nil {
				fi.Name()
				fi.Size()
				fi.Mode()
				fi.ModTime()
				fi.IsDir()
				fi.Sys()
			}
			return nil
		})
	}
	if len(names) > 60 {
		names = names[:60]
	}
	p.Current()
	for _, n := range names {
		p.Info(n)
		p.Parse(n)
		p.Stat(n)
		f, err := p.Open(n)
		if err != nil {
			continue
		}
		f.Stat()
		f.Name()
		f.Path()
		f.Info()
		_ = fmt.Sprint(f)
		io.Copy(io.Discard, io.LimitReader(f, 1<<20))
		f.Seek(0, io.SeekStart)
		f.Seek(-1, io.SeekEnd)
		f.Read(make([]byte, 3))
		f.Readdir(2)
		f.Readdir(-1)
		if g, err := f.Open("/a"); err == nil {
			g.Stat()
			g.Close()
		}
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "http://example.com/", nil)
		http.FileServer(f).ServeHTTP(rec, req)
		rec = httptest.NewRecorder()
		req.URL.Path = "/a"
		req.Header.Set("Range", "bytes=1-2")
		http.FileServer(f).ServeHTTP(rec, req)
		f.Close()
	}
	json.Marshal(p)
	for i, n := range names {
		switch i % 5 {
		case 0:
			p.MkdirAll(n+"/d", 0755)
		case 1, 2:
			if f, err := p.Create(n); err == nil {
				f.Write([]byte("x"))
				f.Stat()
				f.Close()
			}
		case 3:
			p.Remove(n)
		case 4:
			p.RemoveAll(n)
		}
	}
	json.Marshal(p)
	p.Walk("", func(string, os.FileInfo, error) error { return nil })
}

func samePackage(t *rapid.T, what string, p *mem.Pkger, want []byte) {
	got, err := json.Marshal(p)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("%s unpacks to another package: %v\n%s\nwant\n%s", what, err, clip(string(got), 1000), clip(string(want), 1000))
	}
}

func TestC18(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if skipCase() {
			return
		}
		k := begin()
		// bytes, there and back
		var b []byte
		switch intn(t, "kind", 0, 3) {
		case 0:
			b = rapid.SliceOf(rapid.Byte()).Draw(t, "bytes")
			k.label("arbitrary bytes")
		case 1:
			if intn(t, "huge", 0, 79) == 79 {
				// as large as assets are; compresses well
				b = []byte(pick(t, "huge-of", []string{"\x00", "0123456789abcdef"}))
				b = bytes.Repeat(b, pick(t, "huge-size", []int{32<<20 + 1, 64<<20 - 1, 64 << 20, 64<<20 + 1, 100<<20 + 7, 128<<20 + 1})/len(b))
				k.label("more than 32 MB")
				break
			}
			fallthrough
		default:
			b = genContent(t, "content", 1<<22)
		}
		in := append([]byte(nil), b...)
		enc, err := embed.Encode(b)
		if err != nil {
			t.Fatalf("Encode of %s: %v", sum(b), err)
		}
		if !bytes.Equal(in, b) {
			t.Fatalf("Encode changes what it is given")
		}
		if err := rawString(enc); err != nil {
			t.Fatalf("the encoded form of %s cannot stand in a raw string: %v", sum(b), err)
		}
		encIn := append([]byte(nil), enc...)
		dec, err := embed.Decode(enc)
		if err != nil || !bytes.Equal(dec, b) {
			t.Fatalf("Decode of the encoded form of %s: %s, %v", sum(b), sum(dec), err)
		}
		if !bytes.Equal(enc, encIn) {
			t.Fatalf("Decode changes what it is given")
		}
		again, err := embed.Encode(b)
		if err != nil || !bytes.Equal(again, enc) {
			t.Fatalf("encoding %s again differs: %v", sum(b), err)
		}
		var log []string
		detected := 0
		for i, n := 0, intn(t, "damages", 1, 6); i < n; i++ {
			l := fmt.Sprintf("d%d", i)
			bad := damage(t, l, enc)
			dec, err := embed.Decode(bad)
			if err == nil && !bytes.Equal(dec, b) {
				t.Fatalf("a damaged payload of %s decodes to %s\n%s\n%s", sum(b), sum(dec), clip(string(enc), 400), clip(string(bad), 400))
			}
			if err != nil {
				detected++
			}
			log = append(log, fmt.Sprintf("damaged %v: %v", !bytes.Equal(bad, enc), err))
		}
		k.labelIf(detected > 0, "damage detected")

		// a package
		dir := filepath.Join(scratch, "nosuch")
		tr := genTree(t, "tree", treeOpts{max: 6, maxData: 400})
		data := embed.Data{}
		if rapid.Bool().Draw(t, "package") {
			base := newDir()
			defer dropDir(base)
			dir = filepath.Join(base, "app")
			infra(os.Mkdir(dir, 0755))
			tr.write(dir)
			data = memData(dir, "app", append([]string{"/"}, tr.names()...))
			raw, err := json.Marshal(data)
			infra(err)
			enc, err := embed.Encode(raw)
			if err != nil {
				t.Fatalf("Encode: %v", err)
			}
			p, err := mem.UnmarshalEmbed(enc)
			if err != nil {
				t.Fatalf("UnmarshalEmbed: %v", err)
			}
			want, err := json.Marshal(p)
			if err != nil {
				t.Fatalf("marshalling: %v", err)
			}
			for i, n := 0, intn(t, "pdamages", 1, 4); i < n; i++ {
				bad := damage(t, fmt.Sprintf("pd%d", i), enc)
				if p, err := mem.UnmarshalEmbed(bad); err == nil {
					samePackage(t, "a damaged payload", p, want)
				}
			}
			// well encoded, but not what was ever marshalled
			var v interface{}
			infra(json.Unmarshal(raw, &v))
			for i, n := 0, intn(t, "mangled", 1, 4); i < n; i++ {
				v = mangle(t, fmt.Sprintf("m%d", i), v, 0)
			}
			raw, err = json.Marshal(v)
			infra(err)
			enc, err = embed.Encode(raw)
			if err != nil {
				t.Fatalf("Encode: %v", err)
			}
			if p, err := mem.UnmarshalEmbed(enc); err == nil {
				exercise(t, p)
				k.label("odd payload used")
			} else {
				k.label("odd payload rejected")
			}
			q := &mem.Pkger{}
			if err := json.Unmarshal(raw, q); err == nil {
				exercise(t, q)
			}
			log = append(log, clip(string(raw), 300))
		}

		// anything at all
		var wild []byte
		switch intn(t, "wild", 0, 5) {
		case 0:
			wild = rapid.SliceOf(rapid.Byte()).Draw(t, "wild-bytes")
		case 1:
			wild = []byte(hex.EncodeToString(rapid.SliceOf(rapid.Byte()).Draw(t, "wild-hex")))
		case 2:
			// a good stream of bad bytes
			var bb bytes.Buffer
			gz := gzip.NewWriter(&bb)
			gz.Name = "x"
			gz.Write(rapid.SliceOf(rapid.Byte()).Draw(t, "wild-gz"))
			gz.Close()
			wild = []byte(hex.EncodeToString(bb.Bytes()))
		case 3:
			wild, _ = embed.Encode([]byte(pick(t, "wild-json", []string{"null", "{}", "[]", "0", `""`, `{"files":null}`, `{"files":{"/a":null}}`, `{"files":{"/a":{}}}`,
				`{"files":{"/a":{"info":{}}}}`, `{"infos":{"":{}}}`, `{"here":null,"infos":null,"files":{"":{"info":{"details":{"is_dir":true}}}}}`,
				`{"files":{"::":{"info":{}}}}`, `{"files":{"/":{"info":{}}}}`, `{"files":{"/a":{"info":{},"path":{"Pkg":"x","Name":"nope"}}}}`, "", "{", `{"files":{"/a":{"info":{"details":{"size":-5,"mode":4294967295}},"data":"AAAA"}}}`})))
		case 4:
			wild, _ = embed.Encode([]byte(strings.Repeat("[", intn(t, "wild-deep", 0, 20000))))
		default:
			wild = []byte(rapid.StringMatching(`(1f8b08)?[0-9a-f]*`).Draw(t, "wild-like"))
		}
		embed.Decode(wild)
		if p, err := mem.UnmarshalEmbed(wild); err == nil {
			exercise(t, p)
			k.label("arbitrary payload used")
		}
		k.done(len(b) > 0, sum(b)+strings.Join(log, "\n"), []string{sum(b), strings.Join(log, "; ")})
	})
}
