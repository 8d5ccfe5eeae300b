#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Packing loses, alters and invents nothing",
  "Every file and directory reported for packing can be opened from the packed payload under the path it was reported with, with byte-identical contents and the name, size, mode, directory flag and modification time it had on disk when packed. The payload holds no path that was not reported.",
  ["inputs", "programs"], "all module trees (any file contents, sizes, names, nesting, modes, times, empty files and directories) and all sets of declared paths",
  "Test_Stuff packs one fixed tree of small text files and opens two of them; no content, size, name or mode is varied and no content is compared byte for byte after a round trip.",
  ["pkging/pkgutil/stuff.go", "pkging/mem/add.go", "pkging/mem/embed.go", "pkging/embed/embed.go", "pkging/embed/file.go", "parser/decl.go"],
  [("Stuff", "pkging/pkgutil/stuff.go"), ("Pkger.Add", "pkging/mem/add.go"), ("MarshalJSON/UnmarshalEmbed", "pkging/mem/embed.go"), ("Encode/Decode", "pkging/embed/embed.go")],
  ["pkgutil.Stuff output", "mem.UnmarshalEmbed result"])

p("C02", "A packed program sees what it saw on disk",
  "For every embedded path, Stat, Open followed by reading, Readdir of an embedded directory and Walk of an embedded directory give the same names, contents, sizes, modes, modification times and visiting order from the packed payload as they give from disk in development. Every spelling of a path (with or without the module prefix, with redundant separators or dot elements) resolves to the same file in both; a path that exists in neither is an error satisfying os.IsNotExist in both.",
  ["inputs", "programs"], "all embedded trees, all paths and path spellings, all read operations",
  "The shared pkgtest suite runs each backend against its own small fixture with fixed paths; it never compares the two backends on arbitrary trees (sibling names sharing a prefix, empty files, odd spellings).",
  ["pkging/mem/mem.go", "pkging/mem/file.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/pkger.go"],
  [("mem.Pkger Open/Stat/Walk", "pkging/mem/mem.go"), ("stdos.Pkger Open/Stat/Walk", "pkging/stdos/stdos.go"), ("Parse", "here/here.go")],
  ["pkging.Pkger and pkging.File methods on both backends"])

p("C03", "The parser finds every declaration and nothing else",
  "For every Go source file in a module outside ignored folders (names starting with '.' or '_', and folders named vendor, node_modules or testdata), each call pkger.MkdirAll, Create, Include, Stat, Open, Dir or Walk whose first argument is a string literal, or a constant the same file defines as such a literal (directly or through another such constant), is reported exactly once, with its kind, its path value and the position of that argument. Calls with other arguments, other functions, other packages, comments and strings are never reported, and never stop the remaining calls from being found. A reported call whose path names a package that cannot be found is an error of the whole parse.",
  ["programs"], "all syntactically valid module source trees",
  "Parser tests count declarations (11) in one fixture; they do not vary where a call appears, how its constant is written, the file or folder layout, or what surrounds it.",
  ["parser/parser.go", "parser/source.go", "parser/decl.go"],
  [("Parser.parse directory walk and ignored folders", "parser/parser.go"), ("ParsedSource.parse AST walk", "parser/source.go"), ("valueIdent/valueNode constant resolution", "parser/source.go")],
  ["parser.Parse result", "pkger parse output"])

p("C04", "Declared paths expand to exactly the declared files",
  "The files reported for a set of declarations and -include paths are exactly: each declared existing file, each declared existing directory with everything below it, each once, sorted by path, each with its true location on disk. Paths that the program itself creates at run time (declared by MkdirAll or Create, in any spelling) need not exist and are not reported for another declaration of the same path, and the expansion of a directory leaves them out together with everything below them.",
  ["inputs", "programs"], "all on-disk trees and all combinations of declarations over them, overlapping ones included",
  "Tests assert only the number of files for one fixture; overlapping declarations, directories next to same-prefix siblings, and run-time-created paths are not varied.",
  ["parser/decl.go", "parser/open.go", "parser/walk.go", "parser/include.go", "parser/stat.go", "parser/http.go", "parser/create.go", "parser/mkdir.go"],
  [("Decls.Files", "parser/decl.go"), ("OpenDecl.Files", "parser/open.go"), ("WalkDecl.Files", "parser/walk.go"), ("NewInclude", "parser/include.go")],
  ["parser.Decls.Files", "pkger list"])

p("C05", "The generated pkged.go builds and is self-contained",
  "Running pkger writes one pkged.go, in the module root or in the -o folder, that is valid Go in the package of that folder and compiles with the rest of the module whatever the embedded contents are. The built program then serves the embedded files with their exact contents from any working directory, with the source tree gone and no Go toolchain installed.",
  ["programs", "inputs", "configurations"], "all modules with embeddable files, all embedded bytes, all -o targets",
  "No existing test runs the command, compiles a pkged.go or runs a packed binary; cmd/pkger has no tests at all.",
  ["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go", "apply.go", "pkger.go", "pkging/mem/embed.go"],
  [("Package", "cmd/pkger/cmds/pack.go"), ("Apply", "apply.go")],
  ["pkged.go on disk", "output of the built binary"])

p("C06", "A pack that fails reports it and leaves no broken output",
  "If any declared file is missing or unreadable, any source fails to parse, or any write of the output fails, packing returns an error and does not report success. After a failed pack no partial pkged.go remains on disk, and other files of the module are untouched.",
  ["fault_sequences", "inputs"], "every position at which a read, a parse or a write can fail during packing, on any module tree",
  "Tests only run the successful path, with a bytes.Buffer that never fails.",
  ["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go", "parser/open.go", "parser/walk.go", "pkging/mem/add.go"],
  [("Package error handling", "cmd/pkger/cmds/pack.go"), ("Stuff write", "pkging/pkgutil/stuff.go")],
  ["return value of Package and Stuff", "exit status of pkger", "presence of pkged.go"])

p("C07", "Packing and listing are deterministic",
  "Packing or listing a module whose files and folders are unchanged gives the same result every time: the same declarations in the listing's group order, the same sorted file list and a byte-identical payload, independently of map iteration order, of the order in which files were created on disk, and of whether an earlier pkged.go exists (whose removal and writing changes, of what is packed, only the size and time of the folder it is in).",
  ["inputs", "histories"], "all modules, any number of repetitions, any creation order of the same files",
  "Each test packs once; nothing is compared between two runs.",
  ["parser/decl.go", "parser/parser.go", "pkging/pkgutil/stuff.go", "pkging/mem/embed.go", "cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go"],
  [("sort in Decls.Files", "parser/decl.go"), ("ordered declaration kinds", "parser/parser.go")],
  ["Stuff output bytes", "Decls.Files"])

p("C08", "The in-memory file system behaves like a file system",
  "Under every sequence of MkdirAll, Create, Write, Close, Remove and RemoveAll, the in-memory package holds exactly the tree a reference file system holds: Stat, Open, reading, Readdir and Walk agree with it after every step, file contents are what was last written and closed, and an operation on one path never changes another. Operations a file system rejects (creating below a missing folder or a file, creating over a folder, removing a non-empty folder, making a folder over a file, opening, reading or removing what is absent) return an error, change nothing, and for absent paths satisfy os.IsNotExist; RemoveAll of an absent path succeeds.",
  ["histories", "inputs"], "all operation sequences over all path names",
  "The pkgtest suite performs each operation once, in isolation, on a path with no siblings; no sequence of two mutations is ever checked against a model.",
  ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"],
  [("MkdirAll/Create/Remove/RemoveAll", "pkging/mem/mem.go"), ("File.Write/Close", "pkging/mem/file.go"), ("Files map", "internal/maps/files.go")],
  ["mem.Pkger methods"],
  [("files", "map from path to file", "pkging/mem/mem.go")])

p("C09", "The disk-backed file system agrees with the real one",
  "Every operation on the disk-backed package acts on exactly the file below the module root that the path names, in every spelling of the path, with the effect and the result the os package gives for that file: what is created, written, made or removed through it is so on disk, what is on disk is what Stat, Open, Readdir and Walk report, and an error of the operating system is returned.",
  ["histories", "inputs"], "all operation sequences, all on-disk trees, all path spellings",
  "Tests run each operation once with a plain absolute path; qualified spellings and sequences are not exercised, nor is the disk inspected independently afterwards.",
  ["pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkger.go"],
  [("path resolution via Parse and Info", "pkging/stdos/stdos.go"), ("File", "pkging/stdos/file.go")],
  ["stdos.Pkger methods", "the disk itself"])

p("C10", "Walk visits every entry once, in order, and honours SkipDir",
  "On both backends Walk(root) calls the callback exactly once for root and each entry below it, in the order filepath.Walk uses (lexical within each folder, a folder before its contents), with the entry's qualified path and its file information, and for nothing outside root, not even siblings whose names start with root's name. If the callback returns filepath.SkipDir for a folder exactly that folder's contents are skipped, and for a file exactly the rest of its folder; any other error stops the walk at once and is returned. On disk an error of reading a folder or of finding root is passed to the callback, as filepath.Walk does.",
  ["inputs", "histories"], "all trees, all roots, all callback behaviours (which visits return SkipDir or an error)",
  "WalkTest walks one fixture to the end; no callback ever returns SkipDir or an error and no sibling shares a prefix.",
  ["pkging/mem/mem.go", "pkging/stdos/stdos.go", "internal/maps/files.go"],
  [("mem Walk", "pkging/mem/mem.go"), ("sorted Keys", "internal/maps/files.go"), ("stdos Walk", "pkging/stdos/stdos.go")],
  ["sequence of callback invocations"])

p("C11", "File handles read, seek and write like os files",
  "For every file and every sequence of Read (any buffer size) and Seek (any offset and whence) on an open handle, both backends return the bytes, counts, offsets and errors that an os.File on the same contents returns, empty files included (io.EOF at the end). Handles are independent: reading, seeking, writing to or closing one handle never affects another handle or the stored file, and any sequence of Writes followed by Close stores exactly their concatenation.",
  ["histories", "inputs"], "all contents, all interleavings of reads and seeks over any number of handles",
  "Test_File_Seek does five fixed seeks on one 17-byte file; no empty file, no interleaved handles, no partial reads are tested.",
  ["pkging/mem/file.go", "pkging/stdos/file.go"],
  [("mem File Read/Seek/Write/Close", "pkging/mem/file.go"), ("os.File embedding", "pkging/stdos/file.go")],
  ["pkging.File methods"])

p("C12", "Readdir lists each direct child once, in full or in pages",
  "On both backends, Readdir(n<=0) on a folder returns each not yet returned direct child exactly once and no error; repeated Readdir(n>0) returns at most n children per call, never repeats or omits one, and ends with an empty result and io.EOF. Only direct children appear, with the same information Stat gives for them; names that share a prefix are independent; Readdir on a file is an error.",
  ["inputs", "histories"], "all folder contents and all sequences of page sizes",
  "No test calls Readdir directly with a positive count, nor on a folder with same-prefix siblings or subfolders.",
  ["pkging/mem/file.go", "pkging/stdos/file.go"],
  [("mem Readdir", "pkging/mem/file.go"), ("stdos Readdir", "pkging/stdos/file.go")],
  ["pkging.File.Readdir"])

p("C13", "HTTP serving equals serving the real folder",
  "An http.FileServer over an opened package folder or over pkger.Dir, on disk or packed, answers every request for a path below it with the same status, body and content headers (type, length, range, last-modified, redirect location) as http.FileServer over the real folder: files, folder listings, index.html, redirects, missing paths, HEAD, range and conditional requests; so does what pkger serve listens with. Requests are independent of one another, however many are made.",
  ["inputs", "histories"], "all served trees, all request methods, paths and headers, all request sequences",
  "HTTPTest makes four GET requests for one fixture and compares status and body only.",
  ["pkging/mem/file.go", "pkging/stdos/file.go", "pkger.go", "cmd/pkger/cmds/serve.go"],
  [("File.Open", "pkging/mem/file.go"), ("File.Open", "pkging/stdos/file.go"), ("Dir.Open", "pkger.go"), ("serve", "cmd/pkger/cmds/serve.go")],
  ["HTTP responses"])

p("C14", "No path escapes the module or the served folder",
  "Whatever string is passed as a path, with any mixture of dot-dot elements, separators, backslashes, prefixes and repetitions, no operation of the package reads, lists, creates or removes anything outside the root of the module the path names; and opening a name through an opened folder, as HTTP serving does, never reaches outside that folder.",
  ["inputs"], "all path strings, for every operation and both backends",
  "No test uses a hostile path.",
  ["pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/mem/mem.go", "pkging/mem/file.go", "pkger.go", "here/here.go"],
  [("Parse and Join", "pkging/stdos/stdos.go"), ("File.Open", "pkging/stdos/file.go"), ("File.Open", "pkging/mem/file.go")],
  ["opened contents", "the disk outside the root"])

p("C15", "Path parsing is canonical",
  "Parse maps every spelling of a module path (bare with a leading slash, ':'-prefixed, prefixed with the module path, absolute on-disk location below the module root, with redundant separators, dot elements or surrounding blanks) to one and the same package and absolute, cleaned name; a path prefixed with another package keeps that package. Parsing the string form of a parsed path gives the same path back, and both backends and the tool parse alike.",
  ["inputs"], "all path spellings, package names and module locations",
  "Test_Parse parses a single string.",
  ["here/here.go", "pkging/stdos/stdos.go", "pkging/mem/mem.go", "pkger.go", "cmd/pkger/cmds/path.go"],
  [("Parse", "pkging/stdos/stdos.go"), ("Parse", "pkging/mem/mem.go")],
  ["Parse results"])

p("C16", "Applied packages layer: the newest answers first",
  "After any sequence of Apply calls, the package-level Open, Stat, Create, Info, Current and Parse are answered by the most recently applied package that succeeds and fall back, one layer at a time, to those applied before it; an error is returned only if every layer fails. MkdirAll and RemoveAll take effect in every layer and Walk visits the newest layer's entries first and then those below; before any Apply the disk answers, and applying a failed decode panics rather than being ignored.",
  ["histories", "configurations"], "all stacks of applied packages and all operation sequences over them",
  "No test calls Apply or Wrap.",
  ["apply.go", "pkger.go", "pkging/wrap.go"],
  [("Apply", "apply.go"), ("withPkger", "pkging/wrap.go"), ("impl", "pkger.go")],
  ["package-level functions of pkger", "pkging.Wrap"])

p("C17", "Concurrent use gives sequential results",
  "Any number of goroutines may use one package at once, for reading the same files, serving HTTP, and creating, writing and removing their own files, starting from a new, an unpacked or a filled package: there is no data race, every reader sees complete correct contents, and when all are done the package holds exactly the union of what each did. Applying packages while others read is equally safe.",
  ["schedules", "histories"], "all schedules of concurrent operations on distinct files, and of concurrent reads of the same ones",
  "Tests use one goroutine per package; upstream CI's -race run never has two goroutines touch one Pkger.",
  ["internal/maps/files.go", "internal/maps/infos.go", "pkging/mem/mem.go", "pkging/mem/file.go", "pkging/stdos/stdos.go", "pkger.go", "apply.go"],
  [("sync.Map with lazy initialisation", "internal/maps/files.go"), ("RWMutex around current", "pkger.go")],
  ["race detector", "final state"])

p("C18", "Payload encoding is lossless and damage is detected",
  "Decoding an encoded payload returns exactly the original bytes for every input, and the encoded form consists only of characters that can stand in a Go raw string. A truncated or corrupted payload is rejected with an error by decoding and unpacking, or yields the original bytes; it never yields different bytes. No byte string whatever makes decoding or unpacking crash, nor any use of a package that was unpacked without an error.",
  ["inputs", "fault_sequences"], "all byte strings; all truncations and corruptions of encoded payloads",
  "Test_Encoding encodes three bytes; no damaged payload is ever decoded.",
  ["pkging/embed/embed.go", "pkging/mem/embed.go"],
  [("hex and gzip with checksum", "pkging/embed/embed.go"), ("UnmarshalEmbed", "pkging/mem/embed.go")],
  ["embed.Encode/Decode", "mem.UnmarshalEmbed"])

p("C19", "An in-memory package survives serialisation",
  "For every reachable state of an in-memory package, marshalling it and unmarshalling the result gives a package indistinguishable from the original through every read operation, including module information, folder and file metadata and paths of several modules. The restored package is fully usable: later operations on it behave as they would on the original, do not affect the original, and marshalling it again gives the same bytes.",
  ["histories", "inputs"], "all reachable package states, any number of round trips",
  "Only Test_Stuff unmarshals anything, once, and only reads two files from it.",
  ["pkging/mem/embed.go", "pkging/embed/file.go", "pkging/mem/mem.go", "pkging/mem/file.go"],
  [("MarshalJSON/UnmarshalJSON", "pkging/mem/embed.go")],
  ["mem.Pkger methods before and after"])

p("C20", "Files of other modules keep their module",
  "A path prefixed with another module's path resolves to that module's root everywhere: on disk it opens that module's file, it is listed under that module's path, and the packed program opens it, with the same contents, under the same prefixed path. The same name in two modules never collides, and operations on one module's path never affect the other's.",
  ["inputs", "programs", "configurations"], "all sets of dependency modules, of files in them, and of same-named files across modules",
  "The fixture refers to one file of one dependency and asserts only how many files are listed.",
  ["parser/source.go", "parser/include.go", "parser/walk.go", "pkging/mem/add.go", "pkging/pkgutil/stuff.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/mem/mem.go", "here/here.go"],
  [("package lookup in ParsedSource.parse", "parser/source.go"), ("stdos Info", "pkging/stdos/stdos.go"), ("RemoveAll/Walk package filter", "pkging/mem/mem.go")],
  ["pkger list", "unpacked payload", "stdos.Pkger"])

p("C21", "The command line tells the truth",
  "pkger list prints exactly the files pkger would embed with the same -include flags, in plain and JSON form; pkger parse prints exactly the declarations the parser finds; pkger path, stat and info print what the library returns for the same arguments. Unknown subcommands and flags, missing paths and other failures give a non-zero exit status, and none of the reporting commands changes any source or asset file of the module.",
  ["programs", "configurations"], "all modules, subcommands, flags and arguments",
  "cmd/pkger and cmd/pkger/cmds have no tests.",
  ["cmd/pkger/main.go", "cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go", "cmd/pkger/cmds/path.go", "cmd/pkger/cmds/stat.go", "cmd/pkger/cmds/info.go"],
  [("Route", "cmd/pkger/cmds/pack.go"), ("listCmd.Exec", "cmd/pkger/cmds/list.go")],
  ["stdout and exit status of the pkger binary"])

p("C22", "File metadata survives copying and JSON",
  "File information copied from any source reports the same name, size, mode, modification time and directory flag as the source, and so does the result of marshalling it to JSON and back, with the modification time exact to the nanosecond in any time zone with whole-minute offset and any year from 0 to 9999.",
  ["inputs"], "all file names, sizes, modes, times and zones",
  "Tests copy one real file's information and round-trip one current time at one-second precision.",
  ["pkging/file_info.go", "pkging/mod_time.go"],
  [("NewFileInfo", "pkging/file_info.go"), ("ModTime JSON", "pkging/mod_time.go")],
  ["pkging.FileInfo, pkging.ModTime"])

p("C23", "No operation leaks open files",
  "Once every handle returned to the caller is closed, the process holds no more open file descriptors than before, after any sequence of operations, failed ones, HTTP requests and packing included.",
  ["histories", "fault_sequences"], "all operation sequences with every returned handle closed",
  "No test counts descriptors; leaked ones are collected by finalizers and stay invisible.",
  ["pkger.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "pkging/pkgutil/stuff.go", "pkging/mem/add.go", "cmd/pkger/cmds/pack.go"],
  [("Dir.Open", "pkger.go"), ("deferred Close", "pkging/pkgutil/stuff.go")],
  ["/proc/self/fd"])

p("C24", "Adding disk files copies them completely",
  "Adding open disk files and folders to an in-memory package stores, for each file and for every entry below each folder, its exact contents and metadata at its path below the module root, replacing earlier versions and leaving other entries alone. The copy is independent of the disk: later changes on disk do not show, and nothing on disk is changed by using the package.",
  ["inputs", "histories"], "all trees, all sequences of additions and re-additions",
  "Test_Pkger_Add adds one fixture tree once and compares names, sizes and modes, not contents.",
  ["pkging/mem/add.go"],
  [("Pkger.Add", "pkging/mem/add.go")],
  ["mem.Pkger methods after Add"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
