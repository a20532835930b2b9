package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stubs: an abstract file system in Go. A call of a function F of package
// os, io, ... is analysed as the call of the probe's function saStub_os_F,
// a method as saStub_os_T_M. Every step may fail with an error of its own.

func (ex *Exec) stubFor(fn *ssa.Function) *ssa.Function {
	if ex.stubs == nil {
		ex.stubs = map[string]*ssa.Function{}
		for n, m := range ex.pkg.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "saStub_") {
				ex.stubs[n] = f
			}
		}
	}
	if len(ex.stubs) == 0 || fn.Pkg == ex.pkg || fn.Object() == nil || fn.Object().Pkg() == nil {
		return nil
	}
	n := "saStub_" + fn.Object().Pkg().Name() + "_"
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type().String()
		t = strings.TrimLeft(t[strings.LastIndexByte(t, '.')+1:], "*")
		n += t + "_"
	}
	return ex.stubs[n+fn.Name()]
}

const declFS = declOpt + `
//--
type saFE struct{ n int }
func (e *saFE) Error() string { return "fault" }
type saStep struct {
	op, p, q string
	perm os.FileMode
	err error
	kind int
}
type saHandle struct {
	f *os.File
	p string
	rd, wr, closed bool
	at int
}
type saJoin struct{ a, b, r string }
type saInfo struct {
	mode os.FileMode
}
func (i *saInfo) Name() string { return "name" }
func (i *saInfo) Size() int64 { return int64(len(saDisk)) }
func (i *saInfo) Mode() os.FileMode { return i.mode }
func (i *saInfo) ModTime() (t time.Time) { return }
func (i *saInfo) IsDir() bool { return i.mode&os.ModeDir != 0 }
func (i *saInfo) Sys() any { return nil }
type saEntry struct {
	name string
	mode os.FileMode
}
func (e *saEntry) Name() string { return e.name }
func (e *saEntry) IsDir() bool { return e.mode&os.ModeDir != 0 }
func (e *saEntry) Type() os.FileMode { return e.mode }
func (e *saEntry) Info() (os.FileInfo, error) {
	if err := saFault("info", e.name, ""); err != nil {
		return nil, err
	}
	return &saInfo{e.mode}, nil
}
var (
	saSteps []saStep
	saHandles []*saHandle
	saJoins []saJoin
	saEntries []*saEntry
	saDisk []byte  // the contents of the file that is read
	saWrote []byte // everything that was written
	saPerm0 os.FileMode
)
func saFsReset(disk []byte) {
	saSteps, saHandles, saJoins, saEntries = nil, nil, nil, nil
	saDisk, saWrote = disk, nil
	saAssume(io.EOF != nil)
}
func saFault(op, p, q string) error {
	var err error
	if saPick(0, 1) == 1 {
		err = &saFE{n: len(saSteps)}
		saAssume(err != io.EOF)
	}
	saSteps = append(saSteps, saStep{op: op, p: p, q: q, err: err})
	return err
}
func saMode(kind int) os.FileMode {
	switch kind {
	case 0:
		return 0
	case 1:
		return os.ModeDir
	case 2:
		return os.ModeSymlink
	}
	return os.ModeNamedPipe
}
func saStat(op, p string) (os.FileInfo, error) {
	if err := saFault(op, p, ""); err != nil {
		return nil, err
	}
	hi := 3
	if op == "stat" {
		hi = 1
	}
	k := saPick(0, hi)
	saPerm0 = []os.FileMode{0o640, 0o755}[saPick(0, 1)]
	saSteps[len(saSteps)-1].kind = k
	return &saInfo{saMode(k) | saPerm0 | os.ModeSticky}, nil
}
func saOpen(op, p string, perm os.FileMode, rd, wr bool) (*os.File, error) {
	err := saFault(op, p, "")
	saSteps[len(saSteps)-1].perm = perm
	if err != nil {
		return nil, err
	}
	h := &saHandle{f: new(os.File), p: p, rd: rd, wr: wr}
	saHandles = append(saHandles, h)
	return h.f, nil
}
func saHandleOf(f *os.File, msg string) *saHandle {
	saAssert(f != nil, "a nil file is used: "+msg)
	for _, h := range saHandles {
		if h.f == f {
			saAssert(!h.closed || msg == "Close", "a closed file is used: "+msg)
			return h
		}
	}
	saAssert(false, "an unknown file is used: "+msg)
	return nil
}
func saWriteTo(f *os.File, b []byte) (int, error) {
	h := saHandleOf(f, "Write")
	saAssert(h.wr, "a file opened for reading is written")
	if err := saFault("write", h.p, ""); err != nil {
		return 0, err
	}
	saWrote = append(saWrote, b...)
	return len(b), nil
}
func saReadAll(f *os.File) ([]byte, error) {
	h := saHandleOf(f, "Read")
	saAssert(h.rd, "a file opened for writing is read")
	n := h.at
	h.at = len(saDisk)
	if err := saFault("read", h.p, ""); err != nil {
		if saPick(0, 1) == 1 {
			return append([]byte(nil), saDisk[n:]...), err
		}
		return nil, err
	}
	return append([]byte(nil), saDisk[n:]...), nil
}
func saStub_os_Mkdir(p string, perm os.FileMode) error {
	err := saFault("mkdir", p, "")
	saSteps[len(saSteps)-1].perm = perm
	return err
}
func saStub_os_MkdirAll(p string, perm os.FileMode) error {
	err := saFault("mkdirall", p, "")
	saSteps[len(saSteps)-1].perm = perm
	return err
}
func saStub_os_Remove(p string) error { return saFault("remove", p, "") }
func saStub_os_RemoveAll(p string) error { return saFault("removeall", p, "") }
func saStub_syscall_Rmdir(p string) error { return saFault("rmdir", p, "") }
func saStub_syscall_Unlink(p string) error { return saFault("unlink", p, "") }
func saStub_os_Rename(p, q string) error { return saFault("rename", p, q) }
func saStub_os_Link(p, q string) error { return saFault("link", p, q) }
func saStub_os_Symlink(p, q string) error { return saFault("symlink", p, q) }
func saStub_os_Truncate(p string, n int64) error { return saFault("truncate", p, "") }
func saStub_os_Chmod(p string, perm os.FileMode) error {
	err := saFault("chmod", p, "")
	saSteps[len(saSteps)-1].perm = perm
	return err
}
func saStub_os_Lstat(p string) (os.FileInfo, error) { return saStat("lstat", p) }
func saStub_os_Stat(p string) (os.FileInfo, error) { return saStat("stat", p) }
func saStub_os_Open(p string) (*os.File, error) { return saOpen("open", p, 0, true, false) }
func saStub_os_Create(p string) (*os.File, error) { return saOpen("create", p, 0o666, true, true) }
func saStub_os_OpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := "open"
	if wr || flag&(os.O_TRUNC|os.O_CREATE|os.O_APPEND) != 0 {
		op = "open to write"
		if flag&(os.O_TRUNC|os.O_CREATE|os.O_APPEND|os.O_EXCL) == os.O_TRUNC|os.O_CREATE {
			op = "create"
		}
	}
	return saOpen(op, p, perm, flag&os.O_WRONLY == 0, wr)
}
func saStub_os_ReadFile(p string) ([]byte, error) {
	f, err := saOpen("open", p, 0, true, false)
	if err != nil {
		return nil, err
	}
	b, err := saReadAll(f)
	saHandleOf(f, "").closed = true
	return b, err
}
func saStub_os_WriteFile(p string, b []byte, perm os.FileMode) error {
	f, err := saOpen("create", p, perm, false, true)
	if err != nil {
		return err
	}
	_, err = saWriteTo(f, b)
	saHandleOf(f, "").closed = true
	return err
}
func saStub_io_ReadAll(r io.Reader) ([]byte, error) {
	return saReadAll(r.(*os.File))
}
func saStub_io_Copy(w io.Writer, r io.Reader) (int64, error) {
	b, err := saReadAll(r.(*os.File))
	if err != nil {
		return 0, err
	}
	n, err := saWriteTo(w.(*os.File), b)
	return int64(n), err
}
func saStub_io_WriteString(w io.Writer, s string) (int, error) {
	return saWriteTo(w.(*os.File), []byte(s))
}
func saStub_os_File_Write(f *os.File, b []byte) (int, error) { return saWriteTo(f, b) }
func saStub_os_File_WriteString(f *os.File, s string) (int, error) { return saWriteTo(f, []byte(s)) }
func saStub_os_File_Read(f *os.File, b []byte) (int, error) {
	h := saHandleOf(f, "Read")
	saAssert(h.rd, "a file opened for writing is read")
	if h.at == len(saDisk) {
		return 0, io.EOF
	}
	if err := saFault("read", h.p, ""); err != nil {
		return 0, err
	}
	n := len(saDisk) - h.at
	if len(b) < n {
		n = len(b)
	}
	if n > 0 {
		n = saPick(1, n)
	}
	copy(b, saDisk[h.at:h.at+n])
	h.at += n
	return n, nil
}
func saStub_os_File_Sync(f *os.File) error { return saFault("sync", saHandleOf(f, "Sync").p, "") }
func saStub_os_File_Name(f *os.File) string { return saHandleOf(f, "Name").p }
func saStub_os_File_Stat(f *os.File) (os.FileInfo, error) {
	return saStat("stat", saHandleOf(f, "Stat").p)
}
func saStub_os_File_Chmod(f *os.File, perm os.FileMode) error {
	err := saFault("chmod", saHandleOf(f, "Chmod").p, "")
	saSteps[len(saSteps)-1].perm = perm
	return err
}
func saStub_os_File_Close(f *os.File) error {
	h := saHandleOf(f, "Close")
	if h.closed {
		return &saFE{}
	}
	h.closed = true
	return saFault("close", h.p, "")
}
func saStub_os_ReadDir(p string) ([]os.DirEntry, error) {
	err := saFault("readdir", p, "")
	var r []os.DirEntry
	n := saSize(0, 2)
	for i := 0; i < n; i++ {
		e := &saEntry{saAny[string]("name"), saMode(saPick(0, 3))}
		saEntries = append(saEntries, e)
		r = append(r, e)
	}
	return r, err
}
func saStub_filepath_Join(elem ...string) string {
	saAssert(len(elem) == 2, "a path is not joined from two parts")
	r := saAny[string]("joined")
	saJoins = append(saJoins, saJoin{elem[0], elem[1], r})
	return r
}
func saStub_path_Join(elem ...string) string { return saStub_filepath_Join(elem...) }
func saStub_fs_FileMode_IsDir(m os.FileMode) bool { return m&os.ModeDir != 0 }
func saStub_fs_FileMode_IsRegular(m os.FileMode) bool { return m&os.ModeType == 0 }
func saStub_fs_FileMode_Perm(m os.FileMode) os.FileMode { return m & os.ModePerm }
func saStub_fs_FileMode_Type(m os.FileMode) os.FileMode { return m & os.ModeType }
//--
// saVerdict: the outcome is the one the steps demand
func saVerdict[T any](r Result[T], bad bool, name string) {
	first := -1
	for i, s := range saSteps {
		if s.err == nil || s.op == "close" {
			continue
		}
		if first < 0 {
			first = i
		}
	}
	if first >= 0 {
		saAssert(r.IsErr(), "a failed step goes unreported: "+name)
		saAssert(saSame(r.UnwrapErr(), saSteps[first].err), "another error than the failed step's is returned: "+name)
		for _, s := range saSteps[first+1:] {
			saAssert(s.op == "close", "a step is attempted after a failed one: "+name)
		}
	} else if bad {
		saAssert(r.IsErr(), "an operation on the wrong kind of file succeeds: "+name)
		saAssert(r.UnwrapErr() != nil, "an Err without error: "+name)
	} else if r.IsErr() {
		ok := false
		for _, s := range saSteps {
			if s.err != nil && s.op == "close" && s.err == r.UnwrapErr() {
				ok = true
			}
		}
		saAssert(ok, "an error is returned though every step succeeded: "+name)
	}
	for _, h := range saHandles {
		saAssert(h.closed, "a file is left open: "+name)
	}
}
// saWrongKind: removal found a thing of the wrong kind
func saWrongKind(dir bool) bool {
	for _, s := range saSteps {
		if s.op == "lstat" && s.err == nil && (s.kind == 1) != dir {
			return true
		}
	}
	return false
}
// saNoChange: no step changes the file system
func saChanges(op string) bool {
	return op != "open" && op != "read" && op != "close" && op != "lstat" && op != "stat" && op != "readdir" && op != "sync" && op != "info"
}
// saOnly: op on p (and q) is the one change, and nothing else is looked at
func saOnly(op, p, q string, name string) {
	n := 0
	for _, s := range saSteps {
		saAssert(saSame(s.p, p) || s.op == "info", "another path is accessed: "+name)
		if saChanges(s.op) {
			n++
			saAssert(s.op == op, "another change than the operation's: "+name)
			saAssert(saSame(s.q, q), "another second path: "+name)
			if op == "mkdir" {
				saAssert(s.perm&0o700 == 0o700, "the directory is not usable: "+name)
			}
		}
	}
	if op == "" {
		saAssert(n == 0, "a reading operation changes something: "+name)
	} else {
		saAssert(n == 1, "the operation is not performed exactly once: "+name)
	}
}
// saRemoved: a directory (or not) is removed, once
func saRemoved(dir bool, p, name string) {
	n := 0
	seen := false
	for _, s := range saSteps {
		saAssert(saSame(s.p, p), "another path is accessed: "+name)
		if s.op == "lstat" {
			seen = true
		}
		if saChanges(s.op) {
			n++
			saAssert(s.op == "remove" && seen || dir && s.op == "rmdir" || !dir && s.op == "unlink", "another change than the removal of that kind of file: "+name)
		}
	}
	saAssert(n == 1, "the removal is not performed exactly once: "+name)
}
func saPermCopied(from string) {
	last := os.FileMode(0)
	seen := false
	for _, s := range saSteps {
		switch s.op {
		case "chmod":
			last = s.perm
		case "stat":
			saAssert(saSame(s.p, from), "the permission bits are not the source's: Copy")
			seen = true
		case "open", "read":
			saAssert(saSame(s.p, from), "another file is read: Copy")
		}
	}
	saAssert(seen && last == saPerm0, "the permission bits are not copied: Copy")
}
func saListedDir(v Vec[DirEntry], path string) {
	saAssert(v.Len() == USize(len(saEntries)), "wrong number of entries: ReadDir")
	for i, e := range saEntries {
		d := v.AsSlice()[i]
		saAssert(saSame(string(d.FileName), e.name), "a wrong name or order: ReadDir")
		saAssert(d.FileType.IsDir() == (e.mode == os.ModeDir), "IsDir: ReadDir")
		saAssert(d.FileType.IsFile() == (e.mode == 0), "IsFile: ReadDir")
		saAssert(d.FileType.IsSymlink() == (e.mode == os.ModeSymlink), "IsSymlink: ReadDir")
		ok := false
		for _, j := range saJoins {
			if saSame(j.r, string(d.Path)) && saSame(j.a, path) && saSame(j.b, e.name) {
				ok = true
			}
		}
		saAssert(ok, "the path is not the directory's path joined with the name: ReadDir")
	}
}
// saSameBytes: element by element, at an unknown position
func saSameBytes(got, want []byte, i int, name string) {
	saAssert(len(got) == len(want), "wrong number of bytes: "+name)
	if i >= 0 && i < len(want) {
		saAssert(got[i] == want[i], "a wrong byte: "+name)
	}
}
// saFilled: the file p was created or emptied, then written
func saFilled(p, from string, perms bool, name string) {
	made := false
	for _, s := range saSteps {
		if !saChanges(s.op) {
			saAssert(saSame(s.p, p) || saSame(s.p, from), "another path is accessed: "+name)
			continue
		}
		saAssert(saSame(s.p, p), "another file is changed: "+name)
		switch s.op {
		case "create":
			saAssert(!made, "the file is emptied again: "+name)
			saAssert(s.perm&0o200 != 0 || perms, "the file is created unwritable: "+name)
			made = true
		case "write":
			saAssert(made, "the file is not emptied before it is written: "+name)
		case "chmod":
			saAssert(perms, "permissions are changed: "+name)
		default:
			saAssert(false, "another change than writing: "+name)
		}
	}
	saAssert(made, "the file is not created: "+name)
}
`

func fsProbe(name, sig, body string) Probe {
	p := probe(name, "func PROBE("+sig+") {\n"+body+"\n}")
	p.decls = declFS
	p.steps0 = true
	return p
}

func followProbe(p Probe) Probe {
	p.follow, p.sizes = 64, 3
	return p
}

func init() {
	reg := func(id, note string, ps ...Probe) {
		register(&Property{id: id, note: note, probes: func() []Probe { return ps }})
	}
	reg("F01", "every file operation, with every step failing or not, in an abstract file system that records the steps",
		fsProbe("CreateDir", "path String", `
	saFsReset(nil)
	saVerdict(CreateDir(path), false, "CreateDir")`),
		fsProbe("RemoveDir", "path String", `
	saFsReset(nil)
	r := RemoveDir(path)
	saVerdict(r, saWrongKind(true), "RemoveDir")`),
		fsProbe("Write", "path String, data []Byte", `
	saFsReset(nil)
	saVerdict(Write(path, data), false, "Write")`),
		fsProbe("RemoveFile", "path String", `
	saFsReset(nil)
	r := RemoveFile(path)
	saVerdict(r, saWrongKind(false), "RemoveFile")`),
		fsProbe("Rename", "from, to String", `
	saFsReset(nil)
	saVerdict(Rename(from, to), false, "Rename")`),
		fsProbe("Read", "path String, disk []byte", `
	saFsReset(disk)
	saVerdict(Read(path), false, "Read")`),
		fsProbe("ReadDir", "path String", `
	saFsReset(nil)
	saVerdict(ReadDir(path), false, "ReadDir")`),
		fsProbe("Copy", "from, to String, disk []byte", `
	saFsReset(disk)
	saVerdict(Copy(from, to), false, "Copy")`),
		fsProbe("ReadToString", "path String, disk []byte", `
	saFsReset(disk)
	saVerdict(ReadToString(path), false, "ReadToString")`),
	)
	reg("F02", "the effects of every successful file operation in an abstract file system, for any paths and contents",
		fsProbe("CreateDir", "path String", `
	saFsReset(nil)
	if CreateDir(path).IsOk() {
		saOnly("mkdir", string(path), "", "CreateDir")
	}`),
		fsProbe("RemoveDir", "path String", `
	saFsReset(nil)
	if RemoveDir(path).IsOk() {
		saRemoved(true, string(path), "RemoveDir")
	}`),
		fsProbe("RemoveFile", "path String", `
	saFsReset(nil)
	if RemoveFile(path).IsOk() {
		saRemoved(false, string(path), "RemoveFile")
	}`),
		fsProbe("Rename", "from, to String", `
	saFsReset(nil)
	if Rename(from, to).IsOk() {
		saOnly("rename", string(from), string(to), "Rename")
	}`),
		fsProbe("Write", "path String, data []Byte, i int", `
	saFsReset(nil)
	var want []byte
	for _, b := range data {
		want = append(want, byte(b))
	}
	r := Write(path, data)
	if r.IsOk() {
		saFilled(string(path), string(path), false, "Write")
		saSameBytes(saWrote, want, i, "Write")
	}`),
		fsProbe("Copy", "from, to String, disk []byte, i int", `
	saFsReset(disk)
	if Copy(from, to).IsOk() {
		saFilled(string(to), string(from), true, "Copy")
		saSameBytes(saWrote, disk, i, "Copy")
		saPermCopied(string(from))
	}`),
		fsProbe("Read", "path String, disk []byte, i int", `
	saFsReset(disk)
	r := Read(path)
	if r.IsOk() {
		saOnly("", string(path), "", "Read")
		got := r.Unwrap()
		saAssert(len(got) == len(disk), "wrong number of bytes: Read")
		if i >= 0 && i < len(disk) {
			saAssert(byte(got[i]) == disk[i], "a wrong byte: Read")
		}
	}`),
		fsProbe("ReadToString", "path String, disk []byte", `
	saFsReset(disk)
	r := ReadToString(path)
	if r.IsOk() {
		saOnly("", string(path), "", "ReadToString")
		saAssert(saSame(string(r.Unwrap()), string(disk)), "the text is not the file's: ReadToString")
	}`),
		followProbe(fsProbe("ReadDir", "path String", `
	saFsReset(nil)
	r := ReadDir(path)
	if r.IsOk() {
		saOnly("", string(path), "", "ReadDir")
		saListedDir(r.Unwrap(), string(path))
	}`)),
	)
}

// gokio: the synchronous operations are stubs that record the call and give
// an unknown result.
const declG = `
//--
type saOpCall struct {
	op, p, q string
	data []gost.Byte
}
var saOps []saOpCall
var saRes gost.Result[any]
var saResBytes gost.Result[[]gost.Byte]
var saResText gost.Result[gost.String]
var saResDir gost.Result[gost.Vec[gost.DirEntry]]
func saDone(op, p, q string, data []gost.Byte) { saOps = append(saOps, saOpCall{op, p, q, data}) }
func saOp(op, p, q string, data []gost.Byte) gost.Result[any] {
	saDone(op, p, q, data)
	return saRes
}
func saStub_gost_CreateDir(p gost.String) gost.Result[any] { return saOp("CreateDir", string(p), "", nil) }
func saStub_gost_RemoveDir(p gost.String) gost.Result[any] { return saOp("RemoveDir", string(p), "", nil) }
func saStub_gost_RemoveFile(p gost.String) gost.Result[any] { return saOp("RemoveFile", string(p), "", nil) }
func saStub_gost_Rename(p, q gost.String) gost.Result[any] { return saOp("Rename", string(p), string(q), nil) }
func saStub_gost_Copy(p, q gost.String) gost.Result[any] { return saOp("Copy", string(p), string(q), nil) }
func saStub_gost_Write(p gost.String, d []gost.Byte) gost.Result[any] { return saOp("Write", string(p), "", d) }
func saStub_gost_Read(p gost.String) gost.Result[[]gost.Byte] {
	saDone("Read", string(p), "", nil)
	return saResBytes
}
func saStub_gost_ReadToString(p gost.String) gost.Result[gost.String] {
	saDone("ReadToString", string(p), "", nil)
	return saResText
}
func saStub_gost_ReadDir(p gost.String) gost.Result[gost.Vec[gost.DirEntry]] {
	saDone("ReadDir", string(p), "", nil)
	return saResDir
}
// saAsync: the future of op(p, q, data) gives want
func saAsync[T any](fu gost.Future[T], op, p, q string, data []gost.Byte, want T) {
	saAssert(saRunGo(), "the unawaited operation waits for somebody: "+op)
	saAssert(len(saOps) == 1, "the operation is not run exactly once: "+op)
	saAssert(saOps[0].op == op, "another operation is run: "+op)
	saAssert(saSame(saOps[0].p, p) && saSame(saOps[0].q, q), "other paths, or in other roles: "+op)
	saAssert(len(saOps[0].data) == len(data), "other data: "+op)
	for i := range data {
		saAssert(saOps[0].data[i] == data[i], "other data: "+op)
	}
	saAssert(!saBlocks(func() { fu.Await() }), "Await blocks after the operation ended: "+op)
	saAssert(saSame(fu.Await(), want), "another result than the operation's: "+op)
	saAssert(len(saOps) == 1, "Await runs the operation again: "+op)
}
`

func init() {
	register(&Property{id: "G01", pkg: "gokio", note: "every asynchronous operation in an abstract machine of goroutines and channels, with the synchronous operations recorded",
		probes: func() []Probe {
			var ps []Probe
			for _, o := range []struct{ name, sig, args, p, q, d, typ string }{
				{"CreateDir", "p gost.String", "p", "p", "``", "nil", "any"},
				{"RemoveDir", "p gost.String", "p", "p", "``", "nil", "any"},
				{"RemoveFile", "p gost.String", "p", "p", "``", "nil", "any"},
				{"Rename", "p, q gost.String", "p, q", "p", "q", "nil", "any"},
				{"Copy", "p, q gost.String", "p, q", "p", "q", "nil", "any"},
				{"Write", "p gost.String, d []gost.Byte", "p, d", "p", "``", "d", "any"},
				{"Read", "p gost.String", "p", "p", "``", "nil", "[]gost.Byte"},
				{"ReadToString", "p gost.String", "p", "p", "``", "nil", "gost.String"},
				{"ReadDir", "p gost.String", "p", "p", "``", "nil", "gost.Vec[gost.DirEntry]"},
			} {
				v := map[string]string{"any": "saRes", "[]gost.Byte": "saResBytes", "gost.String": "saResText", "gost.Vec[gost.DirEntry]": "saResDir"}[o.typ]
				p := probe(o.name, fmt.Sprintf(`
func PROBE(%s, want gost.Result[%s]) {
	saOps, %s = nil, want
	fu := %s(%s)
	saAsync(fu, "%s", string(%s), string(%s), %s, want)
}`, o.sig, o.typ, v, o.name, o.args, o.name, o.p, o.q, o.d))
				p.decls = declG
				p.follow, p.sizes = 64, 3
				ps = append(ps, p)
			}
			ps = append(ps,
				probe("Spawn", `
func PROBE(f func() int64) {
	fu := Spawn(f)
	saAssert(saNoEvents(saMark()), "Spawn runs the function itself")
	saAssert(saBlocks(func() { fu.Await() }), "Await returns before the function ran")
	saAssert(saRunGo(), "the unawaited computation waits for somebody")
	t := saMark()
	want := f()
	saAssert(saSame(t, saMark()), "the function is not run exactly once")
	saAssert(!saBlocks(func() { fu.Await() }), "Await blocks after the function returned")
	saAssert(saSame(fu.Await(), want), "Await gives another value")
}`),
				probe("Two", `
func PROBE(f, g func() int64) {
	a := Spawn(f)
	b := Spawn(g)
	saAssert(saRunGo(), "the unawaited computations wait for somebody")
	saAssert(saSame(b.Await(), g()), "the second future gives another value")
	saAssert(saSame(a.Await(), f()), "the first future gives another value")
}`))
			return ps
		}})
}
