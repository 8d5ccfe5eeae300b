From 08b7143bfb1ef8662030c8730109d90d25fb7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 01/43] fix: keep directories without Go files apart in the
 here cache

---
 here/here.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index f87a061..98e102f 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"sync"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -9,6 +11,22 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+var dirs sync.Map
+
+// Dir attempts to gather info for the requested directory. Results are
+// cached by directory: folders without Go files all have the same, empty,
+// import path, and must not be mistaken for one another.
+func Dir(p string) (Info, error) {
+	if i, ok := dirs.Load(p); ok {
+		return i.(Info), nil
+	}
+	i, err := here.Dir(p)
+	if err != nil {
+		return i, err
+	}
+	dirs.Store(p, i)
+	return i, nil
+}
-- 
2.43.0


From c27b5113c2bd9e644f071ab1e8a65a63bbd83234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 02/43] fix: parse paths to clean names below the module root

Backslashes and blanks could leave dot-dot elements in the parsed name, the
module directory was stripped textually from any name it happens to start,
and dot-dot elements could eat the package prefix.
---
 here/path.go          | 60 +++++++++++++++++++++++++++++++++++++++++++
 parser/include.go     |  2 +-
 parser/source.go      |  2 +-
 parser/walk.go        |  2 +-
 pkging/mem/mem.go     |  2 +-
 pkging/stdos/stdos.go |  2 +-
 6 files changed, 65 insertions(+), 5 deletions(-)
 create mode 100644 here/path.go

diff --git a/here/path.go b/here/path.go
new file mode 100644
index 0000000..48c2c09
--- /dev/null
+++ b/here/path.go
@@ -0,0 +1,60 @@
+package here
+
+import (
+	"path"
+	"path/filepath"
+	"strings"
+)
+
+// Parse the string in here.Path format. The name of the result is always
+// absolute and clean, so it can be joined to the root of its module without
+// leaving it.
+func Parse(info Info, p string) (Path, error) {
+	p = strings.TrimSpace(p)
+	if filepath.IsAbs(p) {
+		name := clean(filepath.ToSlash(filepath.Clean(p)))
+		for _, dir := range []string{info.Module.Dir, info.Dir} {
+			dir = strings.TrimSuffix(clean(filepath.ToSlash(dir)), "/")
+			if len(dir) > 0 && (name == dir || strings.HasPrefix(name, dir+"/")) {
+				name = clean(strings.TrimPrefix(name, dir))
+				return Path{Pkg: info.Module.Path, Name: name}, nil
+			}
+		}
+	}
+
+	p = strings.Replace(p, "\\", "/", -1)
+	if strings.HasPrefix(p, "/") {
+		return Path{Pkg: info.Module.Path, Name: clean(p)}, nil
+	}
+
+	i := strings.Index(p, ":/")
+	switch i {
+	case -1:
+		// no name, only (maybe) a package
+		info.Dir = ""
+		return info.Parse(p)
+	case 0:
+		return Path{Pkg: info.Module.Path, Name: clean(p[1:])}, nil
+	default:
+		return Path{Pkg: path.Clean(p[:i]), Name: clean(p[i+1:])}, nil
+	}
+}
+
+// Join the name to the path, which it never leaves.
+func Join(p Path, name string) Path {
+	p.Name = path.Join(clean(p.Name), clean(name))
+	return p
+}
+
+// clean makes the name absolute, and removes from it all that parsing
+// it again would remove.
+func clean(name string) string {
+	for {
+		c := strings.Replace(name, "\\", "/", -1)
+		c = path.Clean("/" + strings.TrimSpace(c))
+		if c == name {
+			return c
+		}
+		name = c
+	}
+}
diff --git a/parser/include.go b/parser/include.go
index cb95500..58f678c 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,7 +20,7 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(inc)
+	pt, err := here.Parse(her, inc)
 	if err != nil {
 		return id, err
 	}
diff --git a/parser/source.go b/parser/source.go
index be58036..81d35f7 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -173,7 +173,7 @@ func (p *ParsedSource) parse() error {
 			return false
 		}
 
-		pt, err := info.Parse(val)
+		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..26ed0c8 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -72,7 +72,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
 
-		pt, err := her.Parse(n)
+		pt, err := here.Parse(her, n)
 		if err != nil {
 			return err
 		}
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..b0d0d08 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -49,7 +49,7 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..daa81fa 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -130,7 +130,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From ced8d57c16d389bd88a2bc41d6ab96c16797057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 03/43] fix: open names through a folder below that folder, in
 its module

The name kept neither the package of a folder of another module nor, with
dot-dot elements, below the folder; the folder itself was answered for names
that spell its own path; and a name below a file was not reported as missing.
---
 pkging/mem/file.go   | 12 +-----------
 pkging/stdos/file.go | 10 +++++++---
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..45aac8d 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"net/http"
 	"os"
-	"path"
 	"path/filepath"
 	"time"
 
@@ -168,16 +167,7 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
-	}
-
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
+	pt := here.Join(f.path, name)
 
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..6ea5593 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -1,9 +1,10 @@
 package stdos
 
 import (
+	"errors"
 	"net/http"
 	"os"
-	"path"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,9 +46,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	f2, err := f.pkging.Open(here.Join(f.path, name).String())
 	if err != nil {
+		if errors.Is(err, syscall.ENOTDIR) {
+			// a file has nothing below it
+			err = &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
+		}
 		return nil, err
 	}
 	return f2, nil
-- 
2.43.0


From 80b91b04a773979a0c7e30cbd55be822750af7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 04/43] fix: make folders on disk where their path says

A path with a package prefix made a folder named after the package.
---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index daa81fa..e1debd2 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 3670f971b93afaa6de1e7c9191e9402c20b195ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 05/43] fix: stat the disk file as it is now

The information from when the file was opened, or created and still empty,
was returned for ever.
---
 pkging/stdos/file.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 6ea5593..a2dbe7d 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -64,12 +64,12 @@ func (f *File) Path() here.Path {
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
 func (f *File) Stat() (os.FileInfo, error) {
-	if f.info != nil {
-		return f.info, nil
-	}
-
 	info, err := f.File.Stat()
 	if err != nil {
+		if f.info != nil {
+			// closed
+			return f.info, nil
+		}
 		return nil, err
 	}
 	f.info = pkging.NewFileInfo(info)
-- 
2.43.0


From f030617d04db9b787caab113cda7b3aa9c8876ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 06/43] fix: pass errors of a disk walk to the callback

As Walk promises, and filepath.Walk does.
---
 pkging/stdos/stdos.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index e1debd2..106dc86 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -1,7 +1,6 @@
 package stdos
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 	"strings"
@@ -169,24 +168,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 	fp := filepath.Join(info.Dir, pt.Name)
 	err = filepath.Walk(fp, func(path string, fi os.FileInfo, err error) error {
-		if err != nil {
-			return err
-		}
-
-		pt, err := f.Parse(fmt.Sprintf("%s:%s", pt.Pkg, path))
-		if err != nil {
-			return err
-		}
-
-		info, err := f.Info(pt.Pkg)
-		if err != nil {
-			return err
-		}
-
+		pt := pt
 		path = strings.TrimPrefix(path, info.Dir)
 		path = strings.ReplaceAll(path, "\\", "/")
 		pt.Name = path
-		return wf(pt.String(), pkging.NewFileInfo(fi), nil)
+		if fi == nil {
+			return wf(pt.String(), nil, err)
+		}
+		return wf(pt.String(), pkging.NewFileInfo(fi), err)
 	})
 
 	return err
-- 
2.43.0


From 955a14a343e4acc24560c9e6d33f795cbd5dfdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 07/43] fix: support modules without Go files in their root

Their import path is empty, paths carry their module path.
---
 parser/include.go     | 2 +-
 pkging/mem/mem.go     | 4 ++++
 pkging/stdos/stdos.go | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/include.go b/parser/include.go
index 58f678c..18f2aab 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -25,7 +25,7 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		return id, err
 	}
 
-	if pt.Pkg != her.ImportPath {
+	if pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index b0d0d08..408d9c2 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -23,6 +23,10 @@ func New(info here.Info) (*Pkger, error) {
 		Here:  info,
 	}
 	f.infos.Store(info.ImportPath, info)
+	if len(info.ImportPath) == 0 {
+		// the root of the module has no Go files
+		f.infos.Store(info.Module.Path, info)
+	}
 	return f, nil
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 106dc86..58b1e39 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -24,6 +24,10 @@ func New(her here.Info) (*Pkger, error) {
 		Here:  her,
 	}
 	p.infos.Store(her.ImportPath, her)
+	if len(her.ImportPath) == 0 {
+		// the root of the module has no Go files
+		p.infos.Store(her.Module.Path, her)
+	}
 	return p, nil
 }
 
-- 
2.43.0


From 4fd9606137b729d328e018a3cdd1c3925ffe380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 08/43] fix: initialise the maps once

Goroutines starting from an unpacked package raced to create the once
itself, and could each see a map of their own.
---
 internal/maps/files.go |  5 +----
 internal/maps/infos.go | 10 +++-------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..ce8cf94 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
@@ -33,7 +30,7 @@ func (m *Infos) Data() *sync.Map {
 
 func (m *Infos) MarshalJSON() ([]byte, error) {
 	mm := map[string]interface{}{}
-	m.data.Range(func(key, value interface{}) bool {
+	m.Data().Range(func(key, value interface{}) bool {
 		mm[fmt.Sprintf("%s", key)] = value
 		return true
 	})
@@ -62,8 +59,7 @@ func (m *Infos) Delete(key string) {
 // A false return indicates either the key was not found
 // or the value is not of type here.Info
 func (m *Infos) Load(key string) (here.Info, bool) {
-	m.Data()
-	i, ok := m.data.Load(key)
+	i, ok := m.Data().Load(key)
 	if !ok {
 		return here.Info{}, false
 	}
-- 
2.43.0


From a0c33b5898b055a1be612bde7dd5e2bd19dcbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 09/43] fix: close the folder a Dir opens its files through

---
 pkger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkger.go b/pkger.go
index 5f56a51..657c130 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,6 +36,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
-- 
2.43.0


From 7a5abed34346c67c833af0de618f09a11c87ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 10/43] fix: remove only the path and what lies below it from
 memory

Names that merely start with the path, and the same names in other
modules, were removed too.
---
 pkging/mem/mem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 408d9c2..08d3f0a 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -79,7 +79,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if key.Pkg == pt.Pkg && within(key.Name, pt.Name) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -88,6 +88,11 @@ func (fx *Pkger) RemoveAll(name string) error {
 	return nil
 }
 
+// within reports whether name is dir, or lies below it.
+func within(name, dir string) bool {
+	return dir == "/" || name == dir || strings.HasPrefix(name, dir+"/")
+}
+
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.MkdirAll("/", 0755)
-- 
2.43.0


From 753526c75961fccd1014dea8b92040c2d343d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 11/43] fix: keep folders that are not empty when removing from
 memory

And report missing files as such, os.IsNotExist was not satisfied.
---
 pkging/mem/mem.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 08d3f0a..e4b9d2c 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -6,6 +6,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -64,7 +65,13 @@ func (fx *Pkger) Remove(name string) error {
 	}
 
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
+	}
+
+	for _, k := range fx.files.Keys() {
+		if k.Pkg == pt.Pkg && k != pt && within(k.Name, pt.Name) {
+			return &os.PathError{Op: "remove", Path: pt.String(), Err: syscall.ENOTEMPTY}
+		}
 	}
 
 	fx.files.Delete(pt)
@@ -210,7 +217,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{Op: "stat", Path: pt.String(), Err: os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From 9c893ba18118a7e7e42e29f8a0ab25f3ef3c3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 12/43] fix: make folders in memory as MkdirAll promises

An existing folder was replaced, and a file in the way too; parents were
made in the current module whichever module the path named; the mode did
not say folder; and the root had no name.
---
 pkging/mem/mem.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index e4b9d2c..05a771c 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -144,18 +144,24 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	if f, ok := fx.files.Load(pt); ok {
+		if fi, err := f.Stat(); err == nil && !fi.IsDir() {
+			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: syscall.ENOTDIR}
+		}
+		return nil
+	}
+
 	dir, name := path.Split(pt.Name)
 
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if name == "" {
+		name = filepath.Base(fx.Here.Dir)
+	} else {
+		parent := here.Path{Pkg: pt.Pkg, Name: dir}
+		if err := fx.MkdirAll(parent.String(), perm); err != nil {
 			return err
 		}
 	}
 
-	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
-	}
-
 	f := &File{
 		Here:   fx.Here,
 		pkging: fx,
@@ -164,7 +170,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    os.ModeDir | perm,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From c8dfb06c2c465c843e0aa7be18774c8b6f097348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 13/43] fix: create files in memory only where a file can be

Folders were replaced by files, files were created below files, and the
parent was looked for in the current module whichever module the path
named.
---
 pkging/mem/mem.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 05a771c..2df3275 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -102,7 +102,6 @@ func within(name, dir string) bool {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -113,19 +112,29 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
-	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+	if dir.Name == "/" {
+		if err := fx.MkdirAll(dir.String(), 0755); err != nil {
 			return nil, err
 		}
 	}
+	di, err := fx.Stat(dir.String())
+	if err != nil {
+		return nil, err
+	}
+	if !di.IsDir() {
+		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: syscall.ENOTDIR}
+	}
+	if fi, err := fx.Stat(pt.String()); err == nil && fi.IsDir() {
+		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: syscall.EISDIR}
+	}
 
 	f := &File{
 		Here: her,
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From fd5b9e1809d8b9939770d8578d1a832355282a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 14/43] fix: read and seek empty files in memory

Reading one was an error instead of io.EOF, seeking had no effect; folders
are the files that can not be read.
---
 pkging/mem/file.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 45aac8d..1ab119a 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -2,11 +2,11 @@ package mem
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"net/http"
 	"os"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -29,13 +29,13 @@ type File struct {
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
-func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+func (f *File) Seek(offset int64, whence int) (int64, error) {
+	if f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
 	if sk, ok := f.reader.(io.Seeker); ok {
-		return sk.Seek(ofpkginget, whence)
+		return sk.Seek(offset, whence)
 	}
 	return 0, nil
 }
@@ -69,15 +69,18 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
+	if f.info != nil && f.info.IsDir() {
+		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EISDIR}
 	}
 
-	if f.reader != nil {
-		return f.reader.Read(p)
+	if f.reader == nil {
+		f.reader = bytes.NewReader(f.data)
 	}
 
-	return 0, fmt.Errorf("unable to read %s", f.Name())
+	if len(p) == 0 {
+		return 0, nil
+	}
+	return f.reader.Read(p)
 }
 
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
-- 
2.43.0


From 0fe1ae94f0f7e3ae142233836969811570bda6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 15/43] fix: close a file in memory while others look at it

Close changed the contents and the information of the stored file without
synchronisation, information already handed out included.
---
 pkging/mem/embed.go |  2 ++
 pkging/mem/file.go  | 19 +++++++++++++------
 pkging/mem/mem.go   |  2 ++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..858a1b1 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -18,6 +18,8 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		if !ok {
 			return true
 		}
+		f.mu.RLock()
+		defer f.mu.RUnlock()
 		ef := embed.File{
 			Info:   f.info,
 			Here:   f.Here,
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 1ab119a..995fe29 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"sync"
 	"syscall"
 	"time"
 
@@ -26,6 +27,7 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+	mu     sync.RWMutex // guards info and data, which Close replaces
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -58,9 +60,12 @@ func (f *File) Close() error {
 		return nil
 	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
@@ -93,12 +98,14 @@ func (f *File) Write(b []byte) (int, error) {
 }
 
 // Info returns the here.Info of the file
-func (f File) Info() here.Info {
+func (f *File) Info() here.Info {
 	return f.Here
 }
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
-func (f File) Stat() (os.FileInfo, error) {
+func (f *File) Stat() (os.FileInfo, error) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
 	if f.info == nil {
 		return nil, os.ErrNotExist
 	}
@@ -106,16 +113,16 @@ func (f File) Stat() (os.FileInfo, error) {
 }
 
 // Name retuns the name of the file in pkger format
-func (f File) Name() string {
+func (f *File) Name() string {
 	return f.path.String()
 }
 
 // Path returns the here.Path of the file
-func (f File) Path() here.Path {
+func (f *File) Path() here.Path {
 	return f.path
 }
 
-func (f File) String() string {
+func (f *File) String() string {
 	return f.Path().String()
 }
 
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 2df3275..b7f34e5 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -211,6 +211,8 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
+	f.mu.RLock()
+	defer f.mu.RUnlock()
 	nf := &File{
 		pkging: fx,
 		info:   pkging.NewFileInfo(f.info),
-- 
2.43.0


From 3835d0d0467671436d82d5b0a7c998dd078a7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 16/43] fix: walk files in memory in order, below the root only

Siblings whose names start with the name of the root were visited; entries
came in the order of their whole names, not folder by folder; and SkipDir
for a file skipped the names that start with its name, for a folder its
siblings too.
---
 pkging/mem/mem.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index b7f34e5..44dc5fd 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"syscall"
 	"time"
@@ -246,21 +247,29 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		return err
 	}
 
-	skip := "!"
+	// a folder goes right before its contents
+	sort.SliceStable(keys, func(a, b int) bool {
+		as := strings.Replace(keys[a].Name, "/", "\x00", -1)
+		bs := strings.Replace(keys[b].Name, "/", "\x00", -1)
+		return as < bs
+	})
+
+	skip := ""
 	for _, k := range keys {
 		if k.Pkg != pt.Pkg {
 			continue
 		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !within(k.Name, pt.Name) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if skip != "" && within(k.Name, skip) {
 			continue
 		}
 
 		fl, ok := f.files.Load(k)
 		if !ok {
-			return os.ErrNotExist
+			// removed meanwhile
+			continue
 		}
 
 		fi, err := fl.Stat()
@@ -272,8 +281,13 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
 			skip = k.Name
+			if !fi.IsDir() {
+				if k == pt {
+					return nil
+				}
+				skip = path.Dir(k.Name)
+			}
 			continue
 		}
 
-- 
2.43.0


From 818937cc18f340d349b38453781d721ae9a8a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 17/43] fix: read folders in memory page by page, direct
 children only

Every call started again from the first entry, the end was never reported,
files were listed like folders, and entries whose folder is not in the
package were listed for the folder above.
---
 pkging/mem/file.go | 65 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 995fe29..74d88ff 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
 	"sync"
 	"syscall"
@@ -27,7 +28,11 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
-	mu     sync.RWMutex // guards info and data, which Close replaces
+
+	entries []os.FileInfo // what Readdir has yet to return
+	listed  bool
+
+	mu sync.RWMutex // guards info and data, which Close replaces
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -132,47 +137,55 @@ func (f *File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
-		if err != nil {
-			return err
+	if f.info == nil || !f.info.IsDir() {
+		return nil, &os.PathError{Op: "readdir", Path: f.Name(), Err: syscall.ENOTDIR}
+	}
+
+	if !f.listed {
+		if err := f.list(); err != nil {
+			return nil, err
 		}
+	}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
+	infos := f.entries
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
+		}
+		if len(infos) > count {
+			infos = infos[:count:count]
 		}
+	}
+	f.entries = f.entries[len(infos):]
+	return infos, nil
+}
 
-		if root == path {
-			return nil
+// list the direct children of the folder, for Readdir to return
+func (f *File) list() error {
+	f.entries = nil
+	err := f.pkging.Walk(f.path.String(), func(name string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
 		}
 
-		pt, err := f.pkging.Parse(path)
+		pt, err := f.pkging.Parse(name)
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+		if pt == f.path {
 			return nil
 		}
 
-		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if path.Dir(pt.Name) == f.path.Name {
+			f.entries = append(f.entries, info)
+		}
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
-
 		return nil
 	})
-
-	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
-		}
-		if err != io.EOF {
-			return nil, err
-		}
-	}
-	return infos, nil
-
+	f.listed = err == nil
+	return err
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From 22d8598a2c1baf9fa5c37b21a8dd11d4362adbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 18/43] fix: reject payloads that would crash when used

---
 pkging/mem/embed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 858a1b1..b53c57d 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -2,6 +2,7 @@ package mem
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -51,7 +52,7 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 		Files: map[string]embed.File{},
 	}
 
-	if err := json.Unmarshal(b, &y); err != nil {
+	if err := json.Unmarshal(b, y); err != nil {
 		return err
 	}
 
@@ -63,6 +64,10 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 
 	p.files = &maps.Files{}
 	for k, v := range y.Files {
+		if v.Info == nil {
+			return fmt.Errorf("no information about %s", k)
+		}
+
 		pt, err := p.Parse(k)
 		if err != nil {
 			return err
-- 
2.43.0


From 6c4c9a0a43b9e2354fd552963a74c7be6cf44002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 19/43] fix: report that the payload could not be written

---
 pkging/pkgutil/stuff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From 35746674daef6b1747a17c68fd2bf56d683e6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 20/43] fix: leave no output behind when packing fails

A pack that failed left the beginning of a pkged.go, failed writes went
unnoticed, and a panic was taken for success.
---
 cmd/pkger/cmds/pack.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..15ee390 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,8 +1,10 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -123,7 +125,7 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
-func Package(info here.Info, out string, decls parser.Decls) error {
+func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
 		return err
@@ -131,16 +133,15 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	os.RemoveAll(out)
 	defer func() {
-		if err := recover(); err != nil {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("%v", e)
+		}
+		if err != nil {
 			os.RemoveAll(out)
 		}
 	}()
 
-	f, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
+	f := &bytes.Buffer{}
 
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
@@ -155,5 +156,5 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
-	return nil
+	return ioutil.WriteFile(out, f.Bytes(), 0666)
 }
-- 
2.43.0


From 9d1500f1a656acf3a6c31c07c0c4400d97cb0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 21/43] fix: do not crash on arguments the parser can not
 resolve

Names from other files and packages have no object, constants of an iota
style list no value of their own.
---
 parser/source.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 81d35f7..1341745 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,7 +35,7 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -44,7 +44,7 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			if v.Name == node.Name {
+			if v.Name == node.Name && i < len(x.Values) {
 				s = p.valueNode(x.Values[i])
 				break
 			}
-- 
2.43.0


From 8cc26a66a2a26b876a3caea3f1a62d1749f1f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 22/43] fix: find declarations inside the arguments of other
 calls

Nothing inside a call whose first argument is not a constant was looked at.
---
 parser/source.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 1341745..bc9d19e 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -156,15 +156,14 @@ func (p *ParsedSource) parse() error {
 		}
 
 		if len(ce.Args) < 1 {
-			p.err = fmt.Errorf("declarations require at least one argument")
-			return false
+			return true
 		}
 
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			// not a constant, there may be declarations inside
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
-- 
2.43.0


From 48743ad0e8e768ac782bbd7be269b0da96ced4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 23/43] fix: report declarations whose package can not be found

They were silently dropped, and the pack succeeded without their files.
---
 parser/source.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index bc9d19e..3155a13 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -71,6 +71,7 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
+	var perr error
 	var fn walker = func(node ast.Node) bool {
 		ce, ok := node.(*ast.CallExpr)
 		if !ok {
@@ -168,20 +169,20 @@ func (p *ParsedSource) parse() error {
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, p.Abs)
+			perr = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
 		}
 
 		pt, err := here.Parse(info, val)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, p.Abs)
+			perr = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
 		}
 
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
-				p.err = fmt.Errorf("%s: %s", err, p.Abs)
+				perr = fmt.Errorf("%s: %s", err, p.Abs)
 				return false
 			}
 		}
@@ -196,7 +197,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return perr
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From b0cd3b784fffec029810c5ea165f054d84940813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 24/43] fix: ignore the folders vendor, node_modules and
 testdata only

Folders whose names merely start like that were ignored, and the module
itself if its own folder was named like that.
---
 parser/parser.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..594a8cc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -199,11 +199,8 @@ func (p *Parser) parse() error {
 			return nil
 		}
 
-		base := filepath.Base(path)
-		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
-				return filepath.SkipDir
-			}
+		if path != root && ignoredFolder(filepath.Base(path)) {
+			return filepath.SkipDir
 		}
 
 		srcs, err := p.ParseDir(path, 0)
@@ -227,6 +224,20 @@ func (p *Parser) parse() error {
 	return err
 }
 
+// ignoredFolder reports whether the go tool ignores folders of this name,
+// or they hold sources of others.
+func ignoredFolder(base string) bool {
+	for _, x := range defaultIgnoredFolders {
+		if base == x {
+			return true
+		}
+		if len(x) == 1 && strings.HasPrefix(base, x) {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) parseIncludes() error {
 	for _, i := range p.includes {
 		d, err := NewInclude(p.Info, i)
-- 
2.43.0


From bc9cb0c249f3c49ee395cedad155993416a5e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 25/43] fix: list the declarations of a folder in the order of
 its files

They came in the order of a map, different every time.
---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 594a8cc..330667a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 
@@ -133,6 +134,9 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 			srcs = append(srcs, s)
 		}
 	}
+	sort.Slice(srcs, func(i, j int) bool {
+		return srcs[i].Abs < srcs[j].Abs
+	})
 
 	return srcs, nil
 }
-- 
2.43.0


From 5ab32b339ef182cfb885cfae6db4288da5488366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:37 +0000
Subject: [PATCH 26/43] fix: recognise paths made at run time in every spelling

The spellings of the declarations were compared, not their paths, and a
Walk of a folder made at run time needed it to exist.
---
 parser/create.go |  2 +-
 parser/mkdir.go  |  2 +-
 parser/open.go   |  2 +-
 parser/walk.go   | 13 ++++++++-----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/create.go b/parser/create.go
index f98d0ad..e5b4606 100644
--- a/parser/create.go
+++ b/parser/create.go
@@ -47,5 +47,5 @@ func (d CreateDecl) Value() (string, error) {
 }
 
 func (d CreateDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/mkdir.go b/parser/mkdir.go
index 41b28f8..249c586 100644
--- a/parser/mkdir.go
+++ b/parser/mkdir.go
@@ -47,5 +47,5 @@ func (d MkdirAllDecl) Value() (string, error) {
 }
 
 func (d MkdirAllDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/open.go b/parser/open.go
index 85ec71e..4d38110 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,7 +48,7 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
+	if _, ok := virtual[d.file.Path.String()]; ok {
 		return nil, nil
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index 26ed0c8..9f8a0dc 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -5,7 +5,6 @@ import (
 	"go/token"
 	"os"
 	"path/filepath"
-	"strings"
 
 	"github.com/markbates/pkger/here"
 )
@@ -56,6 +55,10 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 	her := d.file.Here
 	pt := d.file.Path
 
+	if _, ok := virtual[pt.String()]; ok {
+		return nil, nil
+	}
+
 	root := filepath.Join(her.Module.Dir, pt.Name)
 
 	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
@@ -70,14 +73,14 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			}
 		}
 
-		n := strings.TrimPrefix(path, her.Module.Dir)
-
-		pt, err := here.Parse(her, n)
+		rel, err := filepath.Rel(root, path)
 		if err != nil {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
+		pt := here.Join(pt, filepath.ToSlash(rel))
+
+		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From 80f857fb0d7cac08269a7cf52bc2f01690a054ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 27/43] fix: give each listed file the information of its own
 folder

Files after a subfolder got that of the subfolder.
---
 parser/walk.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index 9f8a0dc..95621ce 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -66,11 +66,13 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
+		}
+		her, err := here.Dir(dir)
+		if err != nil {
+			return err
 		}
 
 		rel, err := filepath.Rel(root, path)
-- 
2.43.0


From 65a8c57ddc5816c5a3705a9864857c6588daa304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 28/43] fix: add folders of modules without Go files in their
 root

---
 pkging/mem/add.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..a614dc9 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -50,11 +50,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 					return err
 				}
 
-				her, err := here.Package(pt.Pkg)
-				if err != nil {
-					return err
-				}
-
 				mf := &File{
 					Here:   her,
 					info:   pkging.NewFileInfo(info),
-- 
2.43.0


From f6d722d88ce46a98f913c8be5a583c06e61562e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 29/43] fix: pack exactly the files that are listed, under
 their paths

Files of other modules were packed under paths of the current module, folders
with everything below them though parts had been left out of the list, and
declared files ending in .tmp not at all.
---
 pkging/mem/add.go       | 27 +++++++++++++++++++++++++++
 pkging/pkgutil/stuff.go | 10 +---------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a614dc9..45fd594 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -97,3 +97,30 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// AddAs copies the file into the *Pkger under the given path. Of a folder
+// only the folder itself is copied, not what is below it.
+func (fx *Pkger) AddAs(pt here.Path, her here.Info, f *os.File) error {
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	mf := &File{
+		Here:   her,
+		info:   pkging.NewFileInfo(info),
+		path:   pt,
+		pkging: fx,
+	}
+
+	if !info.IsDir() {
+		bb := &bytes.Buffer{}
+		if _, err := io.Copy(bb, f); err != nil {
+			return err
+		}
+		mf.data = bb.Bytes()
+	}
+
+	fx.files.Store(pt, mf)
+	return nil
+}
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 1169a30..8ec6124 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/parser"
@@ -25,20 +24,13 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 
 	for _, pf := range files {
 		err = func() error {
-			if strings.HasSuffix(pf.Abs, ".tmp") {
-				return nil
-			}
 			df, err := os.Open(pf.Abs)
 			if err != nil {
 				return fmt.Errorf("could open stuff %s: %s", pf.Abs, err)
 			}
 			defer df.Close()
 
-			if err := pkg.Add(df); err != nil {
-				return err
-			}
-
-			return err
+			return pkg.AddAs(pf.Path, pf.Here, df)
 		}()
 
 		if err != nil {
-- 
2.43.0


From a04f9149cfc23e65b2971fcca8f84ef25dce1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 30/43] fix: generate valid Go in folders whose name is no
 package name

---
 cmd/pkger/cmds/pack.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index 15ee390..057aa75 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -4,11 +4,13 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"go/token"
 	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
@@ -125,6 +127,20 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
+// packageName makes a package name from the name of a folder without Go files.
+func packageName(name string) string {
+	if token.IsIdentifier(name) && name != "_" {
+		return name
+	}
+	name = strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+	return "pkg_" + name
+}
+
 func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
@@ -145,7 +161,7 @@ func Package(info here.Info, out string, decls parser.Decls) (err error) {
 
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
-	fmt.Fprintf(f, "package %s\n\n", c.Name)
+	fmt.Fprintf(f, "package %s\n\n", packageName(c.Name))
 	fmt.Fprintf(f, "import (\n\t\"github.com/markbates/pkger\"\n\t")
 	fmt.Fprintf(f, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
 	fmt.Fprintf(f, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
-- 
2.43.0


From 546ec65a6f4a68561416e28847545f8db8aa8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 31/43] fix: do not pack inode numbers and access times

The system dependent part of the file information changes with every read,
and does not survive being unpacked and packed again.
---
 pkging/mem/embed.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index b53c57d..7e6edb1 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -21,8 +21,10 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		}
 		f.mu.RLock()
 		defer f.mu.RUnlock()
+		fi := pkging.NewFileInfo(f.info)
+		fi.Details.Sys = nil // of the system it came from
 		ef := embed.File{
-			Info:   f.info,
+			Info:   fi,
 			Here:   f.Here,
 			Path:   f.path,
 			Parent: f.parent,
-- 
2.43.0


From 78ad85cba799985b7370311940bbdfc36f45bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 32/43] fix: pack and list the same with and without an earlier
 pkged.go

The information about the module still listed it and its imports.
---
 cmd/pkger/cmds/list.go | 7 +++++++
 cmd/pkger/cmds/pack.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/cmd/pkger/cmds/list.go b/cmd/pkger/cmds/list.go
index ab3598a..cd22202 100644
--- a/cmd/pkger/cmds/list.go
+++ b/cmd/pkger/cmds/list.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/parser"
 )
 
@@ -42,6 +43,12 @@ func (e *listCmd) Exec(args []string) error {
 	fp := filepath.Join(info.Dir, outName)
 	os.RemoveAll(fp)
 
+	// without the file just removed
+	info, err = here.Dir(info.Dir)
+	if err != nil {
+		return err
+	}
+
 	decls, err := parser.Parse(info, e.include...)
 	if err != nil {
 		return err
diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index 057aa75..9b76179 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -52,6 +52,12 @@ func (e *packCmd) Exec(args []string) error {
 	fp := filepath.Join(info.Dir, e.out, outName)
 	os.RemoveAll(fp)
 
+	// without the file just removed
+	info, err = here.Dir(info.Dir)
+	if err != nil {
+		return err
+	}
+
 	decls, err := parser.Parse(info, e.include...)
 	if err != nil {
 		return err
-- 
2.43.0


From 0cf916b21f52fa331fc80bfc1e94df71754e7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 33/43] fix: pack and list the same whatever the build cache
 holds

---
 here/here.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/here/here.go b/here/here.go
index 98e102f..80008f7 100644
--- a/here/here.go
+++ b/here/here.go
@@ -11,14 +11,14 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Package = Here.Package
 var Current = Here.Current
 
 var dirs sync.Map
 
 // Dir attempts to gather info for the requested directory. Results are
 // cached by directory: folders without Go files all have the same, empty,
-// import path, and must not be mistaken for one another.
+// import path, and must not be mistaken for one another. What the build
+// cache happens to hold is not part of them.
 func Dir(p string) (Info, error) {
 	if i, ok := dirs.Load(p); ok {
 		return i.(Info), nil
@@ -27,6 +27,14 @@ func Dir(p string) (Info, error) {
 	if err != nil {
 		return i, err
 	}
+	i.Stale, i.StaleReason = false, ""
 	dirs.Store(p, i)
 	return i, nil
 }
+
+// Package attempts to gather info for the requested package.
+func Package(p string) (Info, error) {
+	i, err := Here.Package(p)
+	i.Stale, i.StaleReason = false, ""
+	return i, err
+}
-- 
2.43.0


From 362948b6eae395dfad50ac85484d7cc74480b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 34/43] fix: clean the package of a path without a name, too

---
 here/path.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/here/path.go b/here/path.go
index 48c2c09..fc06431 100644
--- a/here/path.go
+++ b/here/path.go
@@ -32,11 +32,23 @@ func Parse(info Info, p string) (Path, error) {
 	case -1:
 		// no name, only (maybe) a package
 		info.Dir = ""
-		return info.Parse(p)
+		pt, err := info.Parse(p)
+		if err != nil {
+			return pt, err
+		}
+		if pt.Pkg = cleanPkg(pt.Pkg); strings.HasPrefix(pt.Pkg, "/") {
+			return Parse(info, pt.Pkg)
+		}
+		pt.Name = clean(pt.Name)
+		return pt, nil
 	case 0:
 		return Path{Pkg: info.Module.Path, Name: clean(p[1:])}, nil
 	default:
-		return Path{Pkg: path.Clean(p[:i]), Name: clean(p[i+1:])}, nil
+		pt := Path{Pkg: cleanPkg(p[:i]), Name: clean(p[i+1:])}
+		if strings.HasPrefix(pt.Pkg, "/") {
+			return Parse(info, pt.String())
+		}
+		return pt, nil
 	}
 }
 
@@ -58,3 +70,14 @@ func clean(name string) string {
 		name = c
 	}
 }
+
+// cleanPkg removes from the package all that parsing it again would remove.
+func cleanPkg(pkg string) string {
+	for {
+		c := path.Clean(strings.TrimSpace(pkg))
+		if c == pkg {
+			return c
+		}
+		pkg = c
+	}
+}
-- 
2.43.0


From 3182222ab764bca8b00f8a5d4ea940e82d79b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 35/43] fix: keep leading blanks of the names of packed files

---
 here/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/here/path.go b/here/path.go
index fc06431..28479c6 100644
--- a/here/path.go
+++ b/here/path.go
@@ -54,7 +54,7 @@ func Parse(info Info, p string) (Path, error) {
 
 // Join the name to the path, which it never leaves.
 func Join(p Path, name string) Path {
-	p.Name = path.Join(clean(p.Name), clean(name))
+	p.Name = path.Join(clean(p.Name), clean("/"+name))
 	return p
 }
 
-- 
2.43.0


From ed5ebbac5db0230948c9100f2dea3a4efa6d13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 36/43] fix: pack modules with folders whose Go files make no
 package

---
 here/here.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index 80008f7..cb2604f 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,9 @@
 package here
 
 import (
+	"encoding/json"
+	"os/exec"
+	"path/filepath"
 	"sync"
 
 	"github.com/gobuffalo/here"
@@ -25,13 +28,29 @@ func Dir(p string) (Info, error) {
 	}
 	i, err := here.Dir(p)
 	if err != nil {
-		return i, err
+		var ok bool
+		if i, ok = brokenDir(p); !ok {
+			return i, err
+		}
 	}
 	i.Stale, i.StaleReason = false, ""
 	dirs.Store(p, i)
 	return i, nil
 }
 
+// brokenDir gathers what there is to know about a folder of a module whose Go
+// files make no package, such as those build constraints exclude.
+func brokenDir(p string) (Info, bool) {
+	i := Info{Dir: p, Name: filepath.Base(p)}
+	c := exec.Command("go", "list", "-json", "-m")
+	c.Dir = p
+	b, err := c.Output()
+	if err != nil || json.Unmarshal(b, &i.Module) != nil {
+		return i, false
+	}
+	return i, len(i.Module.Dir) > 0
+}
+
 // Package attempts to gather info for the requested package.
 func Package(p string) (Info, error) {
 	i, err := Here.Package(p)
-- 
2.43.0


From 605d140856d41266136e96354c6fe9f33ca8ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 37/43] fix: reject payloads with data after the end

---
 pkging/embed/embed.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkging/embed/embed.go b/pkging/embed/embed.go
index 3ed7e7e..f92a62b 100644
--- a/pkging/embed/embed.go
+++ b/pkging/embed/embed.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"encoding/hex"
+	"fmt"
 	"io"
 
 	"github.com/markbates/pkger/here"
@@ -16,15 +17,21 @@ func Decode(src []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	r, err := gzip.NewReader(bytes.NewReader(dst))
+	in := bytes.NewReader(dst)
+	r, err := gzip.NewReader(in)
 	if err != nil {
 		return nil, err
 	}
+	// an encoded payload is one gzip member, and nothing else
+	r.Multistream(false)
 
 	bb := &bytes.Buffer{}
 	if _, err := io.Copy(bb, r); err != nil {
 		return nil, err
 	}
+	if in.Len() > 0 {
+		return nil, fmt.Errorf("payload has %d bytes after its end", in.Len())
+	}
 	return bb.Bytes(), nil
 }
 
-- 
2.43.0


From c57915a7086737f40733b0c77683ed3c3de62b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 38/43] fix: add files opened by relative names where they are

---
 pkging/mem/add.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 45fd594..8847731 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -19,12 +19,17 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
+		// a name can be relative to the working directory
+		name, err := filepath.Abs(f.Name())
+		if err != nil {
+			return err
+		}
+		pt, err := fx.Parse(name)
 		if err != nil {
 			return err
 		}
 
-		dir := f.Name()
+		dir := name
 		if !info.IsDir() {
 			dir = filepath.Dir(dir)
 		}
@@ -34,7 +39,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			return err
 		}
 		if info.IsDir() {
-			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
+			err = filepath.Walk(name, func(path string, info os.FileInfo, err error) error {
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 2775cb71a719394962b1967cf50989a66ebc6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 39/43] fix: add the whole of files that were read from

---
 pkging/mem/add.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 8847731..2bfa6cd 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -3,6 +3,7 @@ package mem
 import (
 	"bytes"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 
@@ -89,12 +90,10 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		}
 
 		if !info.IsDir() {
-			bb := &bytes.Buffer{}
-			_, err = io.Copy(bb, f)
+			mf.data, err = contents(f, info)
 			if err != nil {
 				return err
 			}
-			mf.data = bb.Bytes()
 		}
 
 		fx.files.Store(mf.Path(), mf)
@@ -119,13 +118,24 @@ func (fx *Pkger) AddAs(pt here.Path, her here.Info, f *os.File) error {
 	}
 
 	if !info.IsDir() {
-		bb := &bytes.Buffer{}
-		if _, err := io.Copy(bb, f); err != nil {
+		if mf.data, err = contents(f, info); err != nil {
 			return err
 		}
-		mf.data = bb.Bytes()
 	}
 
 	fx.files.Store(pt, mf)
 	return nil
 }
+
+// contents of the whole file, wherever in it f is.
+func contents(f *os.File, info os.FileInfo) ([]byte, error) {
+	var r io.Reader = f
+	if info.Mode().IsRegular() {
+		r = io.NewSectionReader(f, 0, math.MaxInt64)
+	}
+	bb := &bytes.Buffer{}
+	if _, err := io.Copy(bb, r); err != nil {
+		return nil, err
+	}
+	return bb.Bytes(), nil
+}
-- 
2.43.0


From 958186fdad58f2d5ecfa374593f9dd9d8c683ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 40/43] fix: gather info of relative folders by where they are

---
 here/here.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/here/here.go b/here/here.go
index cb2604f..700d607 100644
--- a/here/here.go
+++ b/here/here.go
@@ -23,6 +23,10 @@ var dirs sync.Map
 // import path, and must not be mistaken for one another. What the build
 // cache happens to hold is not part of them.
 func Dir(p string) (Info, error) {
+	// what "." means changes with the working directory
+	if abs, err := filepath.Abs(p); err == nil {
+		p = abs
+	}
 	if i, ok := dirs.Load(p); ok {
 		return i.(Info), nil
 	}
-- 
2.43.0


From fe625434d9a7da99c3e1bbbfe370ced70a781427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 41/43] fix: make folders of other modules in memory with the
 information of their module

They were given that of the current module, and the root of the other module
its name.
---
 pkging/mem/mem.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 44dc5fd..3feb76a 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -161,10 +161,15 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 		return nil
 	}
 
+	her, ok := fx.infos.Load(pt.Pkg)
+	if !ok {
+		her = fx.Here
+	}
+
 	dir, name := path.Split(pt.Name)
 
 	if name == "" {
-		name = filepath.Base(fx.Here.Dir)
+		name = filepath.Base(her.Dir)
 	} else {
 		parent := here.Path{Pkg: pt.Pkg, Name: dir}
 		if err := fx.MkdirAll(parent.String(), perm); err != nil {
@@ -173,7 +178,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
-- 
2.43.0


From c5cef42d84b7d3a800d8920353e4480739e82084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 42/43] fix: do not take a package name for a flag of the go
 command

---
 here/here.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/here/here.go b/here/here.go
index 700d607..0b08c9a 100644
--- a/here/here.go
+++ b/here/here.go
@@ -2,8 +2,10 @@ package here
 
 import (
 	"encoding/json"
+	"fmt"
 	"os/exec"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/gobuffalo/here"
@@ -57,6 +59,10 @@ func brokenDir(p string) (Info, bool) {
 
 // Package attempts to gather info for the requested package.
 func Package(p string) (Info, error) {
+	if strings.HasPrefix(p, "-") {
+		// the go command would take it for a flag
+		return Info{}, fmt.Errorf("malformed package name %q: leading dash", p)
+	}
 	i, err := Here.Package(p)
 	i.Stale, i.StaleReason = false, ""
 	return i, err
-- 
2.43.0


From e2cdc34b28702d88c2e66d8260c5a4b2d9d30720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:32 +0000
Subject: [PATCH 43/43] fix: make folders in memory for any module path

The parent of a folder was named by a string and parsed again, which did
not end if the path of the module begins with a slash, as that of a
damaged payload may.
---
 pkging/mem/mem.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 3feb76a..da1870f 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -154,6 +154,10 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	return fx.mkdirAll(pt, perm)
+}
+
+func (fx *Pkger) mkdirAll(pt here.Path, perm os.FileMode) error {
 	if f, ok := fx.files.Load(pt); ok {
 		if fi, err := f.Stat(); err == nil && !fi.IsDir() {
 			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: syscall.ENOTDIR}
@@ -171,8 +175,8 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if name == "" {
 		name = filepath.Base(her.Dir)
 	} else {
-		parent := here.Path{Pkg: pt.Pkg, Name: dir}
-		if err := fx.MkdirAll(parent.String(), perm); err != nil {
+		parent := here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}
+		if err := fx.mkdirAll(parent, perm); err != nil {
 			return err
 		}
 	}
-- 
2.43.0

