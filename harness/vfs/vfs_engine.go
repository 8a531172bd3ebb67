// Package vfs is the environment the code under test sees inside the engine:
// an in-memory file system, standard streams, environment variables and
// external commands. It replaces the functions of os and os/exec.
package vfs

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type node struct {
	dir  bool
	link string      // a symbolic link to this
	odd  fs.FileMode // neither file nor directory: its type
	data []byte
	mode fs.FileMode
	mod  time.Time
}

// set changes what a file holds, in place.
func (n *node) set(data []byte) {
	n.data, n.mod = append([]byte{}, data...), time.Now()
}

var (
	tree    = map[string]*node{}
	links   int // how many symbolic links there have been
	handles = map[*os.File]*handle{}
	cwd     = "/w"
	env     []string
	seq     int

	Stdout, Stderr []byte

	// Fault, if set, can make an operation fail before it does anything.
	Fault func(op, path string) error
	// Trace, if set, is told of every operation that changes something.
	Trace func(op, path string)
	// Exec, if set, carries out external commands.
	Exec func(dir string, argv, env []string) (stdout []byte, err error)
	// NoProg lists programs that cannot be found.
	NoProg = map[string]bool{}
)

type handle struct {
	path string
	pos  int
	wr   bool
	rd   bool
	app  bool
	ents []fs.DirEntry
	read bool
	std  int
}

// ---- what harnesses use

// Root is the scratch directory.
func Root() string { return "/w" }

func init() {
	tree["/"] = &node{dir: true, mode: 0755}
	tree["/w"] = &node{dir: true, mode: 0755}
	tree["/tmp"] = &node{dir: true, mode: 0777}
}

func Mkdir(path string) { mkdirAll(path) }

func mkdirAll(path string) {
	if path == "" || path == "." {
		return
	}
	path = real(path, true)
	if n := tree[path]; n != nil {
		return
	}
	mkdirAll(filepath.Dir(path))
	tree[path] = &node{dir: true, mode: 0744}
}

func Put(path string, data []byte) {
	path = real(path, true)
	mkdirAll(filepath.Dir(path))
	if n := tree[path]; n != nil && !n.dir {
		n.set(data)
		return
	}
	tree[path] = &node{data: data, mode: 0644, mod: time.Now()}
}

// Touch sets the modification time of a file.
func Touch(path string, t time.Time) { tree[real(path, true)].mod = t }

// PutBad makes a directory entry that is listed but cannot be read.
func PutBad(path string) { PutLink(path, path+".nowhere") }

// PutLink makes a symbolic link, or points an existing one to something else.
func PutLink(path, to string) {
	mkdirAll(filepath.Dir(path))
	links++
	tree[real(path, false)] = &node{link: to, mode: 0777}
}

// PutSocket makes a directory entry that is neither a file nor a directory.
func PutSocket(path string) {
	mkdirAll(filepath.Dir(path))
	tree[real(path, false)] = &node{odd: fs.ModeSocket, mode: 0755}
}

func Get(path string) ([]byte, bool) {
	n := tree[real(path, true)]
	if n == nil || n.dir || n.odd != 0 {
		return nil, false
	}
	return n.data, true
}

func Exists(path string) bool { return tree[real(path, false)] != nil }
func IsDir(path string) bool {
	n := tree[real(path, false)]
	return n != nil && n.dir
}

func Del(path string) { del(real(path, false)) }

func del(path string) {
	for k := range tree {
		if k == path || strings.HasPrefix(k, path+"/") {
			delete(tree, k)
		}
	}
}

// Files lists all files (not directories) at or below dir, sorted.
func Files(dir string) []string {
	var a []string
	for k, n := range tree {
		if !n.dir && (k == dir || strings.HasPrefix(k, dir+"/")) {
			a = append(a, k)
		}
	}
	sort.Strings(a)
	return a
}

// Dirs lists all directories at or below dir, sorted.
func Dirs(dir string) []string {
	var a []string
	for k, n := range tree {
		if n.dir && (k == dir || strings.HasPrefix(k, dir+"/")) {
			a = append(a, k)
		}
	}
	sort.Strings(a)
	return a
}

func SetEnv(kv ...string) { env = append(env, kv...) }
func SetCwd(p string)     { cwd = p }
func Cwd() string         { return cwd }

// ---- the model

func abs(p string) string {
	if !filepath.IsAbs(p) {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

// real resolves the symbolic links in an absolute path, its last element
// included if so wanted.
func real(p string, last bool) string {
	if links == 0 {
		return p
	}
	for hops := 0; hops < 20; hops++ {
		again := false
		for k := 1; k <= len(p); k++ {
			if k < len(p) && p[k] != '/' || k == len(p) && !last {
				continue
			}
			n := tree[p[:k]]
			if n == nil || n.link == "" {
				continue
			}
			to := n.link
			if !filepath.IsAbs(to) {
				to = filepath.Dir(p[:k]) + "/" + to
			}
			p, again = filepath.Clean(to+p[k:]), true
			break
		}
		if !again {
			return p
		}
	}
	return "/loop/of/links"
}

// at is the place a path means; there is the place of the entry itself, be it a
// symbolic link.
func at(path string) string    { return real(abs(path), true) }
func there(path string) string { return real(abs(path), false) }

func perr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func fault(op, path string) error {
	if Fault == nil {
		return nil
	}
	if err := Fault(op, abs(path)); err != nil {
		return perr(op, path, err)
	}
	return nil
}

func trace(op, path string) {
	if Trace != nil {
		Trace(op, abs(path))
	}
}

func find(op, path string) (*node, error) { return findAt(op, path, at) }

func lfind(op, path string) (*node, error) { return findAt(op, path, there) }

func findAt(op, path string, place func(string) string) (*node, error) {
	if path == "" {
		return nil, perr(op, path, syscall.ENOENT)
	}
	p := place(path)
	n := tree[p]
	if n == nil {
		for d := filepath.Dir(p); ; d = filepath.Dir(d) {
			if x := tree[d]; x != nil && !x.dir {
				return nil, perr(op, path, syscall.ENOTDIR)
			}
			if d == "/" {
				break
			}
		}
		return nil, perr(op, path, syscall.ENOENT)
	}
	if !n.dir && strings.HasSuffix(path, "/") {
		return nil, perr(op, path, syscall.ENOTDIR)
	}
	return n, nil
}

type info struct {
	name string
	n    *node
	dir  bool
	size int64
	mode fs.FileMode
	mod  time.Time
}

func infoOf(name string, n *node) info {
	return info{name, n, n.dir, int64(len(n.data)), n.mode, n.mod}
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	switch {
	case i.dir:
		return i.mode | fs.ModeDir
	case i.n != nil && i.n.link != "":
		return i.mode | fs.ModeSymlink
	case i.n != nil:
		return i.mode | i.n.odd
	}
	return i.mode
}
func (i info) ModTime() time.Time         { return i.mod }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return i.name }

//verif:replace os.Stat
func stat(path string) (os.FileInfo, error) {
	if err := fault("stat", path); err != nil {
		return nil, err
	}
	n, err := find("stat", path)
	if err != nil {
		return nil, err
	}
	return infoOf(filepath.Base(path), n), nil
}

//verif:replace os.Lstat
func lstat(path string) (os.FileInfo, error) {
	if err := fault("lstat", path); err != nil {
		return nil, err
	}
	n, err := lfind("lstat", path)
	if err != nil {
		return nil, err
	}
	return infoOf(filepath.Base(path), n), nil
}

//verif:replace os.ReadFile
func readFile(path string) ([]byte, error) {
	if err := fault("open", path); err != nil {
		return nil, err
	}
	n, err := find("open", path)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, perr("read", path, syscall.EISDIR)
	}
	if n.odd != 0 {
		return nil, perr("open", path, syscall.ENXIO)
	}
	return append([]byte{}, n.data...), nil
}

func parentOK(op, path string) error {
	d, err := find(op, filepath.Dir(at(path)))
	if err != nil {
		return perr(op, path, err.(*fs.PathError).Err)
	}
	if !d.dir {
		return perr(op, path, syscall.ENOTDIR)
	}
	return nil
}

//verif:replace os.WriteFile
func writeFile(path string, data []byte, perm os.FileMode) error {
	if err := fault("write", path); err != nil {
		return err
	}
	if err := parentOK("open", path); err != nil {
		return err
	}
	p := at(path)
	if n := tree[p]; n != nil {
		if n.dir {
			return perr("open", path, syscall.EISDIR)
		}
		if n.odd != 0 {
			return perr("open", path, syscall.ENXIO)
		}
		perm = n.mode
	}
	trace("write", path)
	if n := tree[p]; n != nil {
		n.set(data)
	} else {
		tree[p] = &node{data: append([]byte{}, data...), mode: perm, mod: time.Now()}
	}
	return nil
}

func children(p string) []fs.DirEntry {
	if p != "/" {
		p += "/"
	}
	var names []string
	for k := range tree {
		if strings.HasPrefix(k, p) && k != p && strings.IndexByte(k[len(p):], '/') < 0 {
			names = append(names, k[len(p):])
		}
	}
	sort.Strings(names)
	a := make([]fs.DirEntry, 0, len(names))
	for _, x := range names {
		a = append(a, infoOf(x, tree[p+x]))
	}
	return a
}

//verif:replace os.ReadDir
func readDir(path string) ([]os.DirEntry, error) {
	if err := fault("readdir", path); err != nil {
		return nil, err
	}
	n, err := find("open", path)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, perr("readdirent", path, syscall.ENOTDIR)
	}
	return children(at(path)), nil
}

//verif:replace os.Mkdir
func mkdir(path string, perm os.FileMode) error {
	if err := fault("mkdir", path); err != nil {
		return err
	}
	if err := parentOK("mkdir", path); err != nil {
		return err
	}
	p := there(path)
	if tree[p] != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	trace("mkdir", path)
	tree[p] = &node{dir: true, mode: perm}
	return nil
}

//verif:replace os.MkdirAll
func osMkdirAll(path string, perm os.FileMode) error {
	if err := fault("mkdir", path); err != nil {
		return err
	}
	p := at(path)
	var todo []string
	for d := p; ; d = filepath.Dir(d) {
		if n := tree[d]; n != nil {
			if !n.dir {
				return perr("mkdir", d, syscall.ENOTDIR)
			}
			break
		}
		todo = append(todo, d)
	}
	for i := len(todo) - 1; i >= 0; i-- {
		trace("mkdir", todo[i])
		tree[todo[i]] = &node{dir: true, mode: perm}
	}
	return nil
}

//verif:replace os.Remove
func remove(path string) error {
	if err := fault("remove", path); err != nil {
		return err
	}
	n, err := lfind("remove", path)
	if err != nil {
		return err
	}
	p := there(path)
	if n.dir && len(children(p)) > 0 {
		return perr("remove", path, syscall.ENOTEMPTY)
	}
	trace("remove", path)
	delete(tree, p)
	return nil
}

//verif:replace os.RemoveAll
func removeAll(path string) error {
	if path == "" {
		return nil
	}
	if strings.HasSuffix(path, "/.") || path == "." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	if err := fault("removeall", path); err != nil {
		return err
	}
	p := there(path)
	if tree[p] != nil {
		trace("remove", path)
	}
	del(p)
	return nil
}

//verif:replace os.Rename
func rename(from, to string) error {
	if err := fault("rename", from); err != nil {
		return err
	}
	if _, err := lfind("rename", from); err != nil {
		return err
	}
	if err := parentOK("rename", to); err != nil {
		return err
	}
	a, b := there(from), there(to)
	trace("remove", a)
	trace("write", b)
	var ks []string
	for k := range tree {
		if k == a || strings.HasPrefix(k, a+"/") {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		n := tree[k]
		delete(tree, k)
		tree[b+k[len(a):]] = n
	}
	return nil
}

//verif:replace os.Symlink
func symlink(from, to string) error {
	if err := parentOK("symlink", to); err != nil {
		return err
	}
	if tree[there(to)] != nil {
		return perr("symlink", to, syscall.EEXIST)
	}
	trace("write", to)
	links++
	tree[there(to)] = &node{link: from, mode: 0777}
	return nil
}

//verif:replace os.Link
func link(from, to string) error {
	n, err := lfind("link", from)
	if err != nil {
		return err
	}
	if err := parentOK("link", to); err != nil {
		return err
	}
	if tree[there(to)] != nil {
		return perr("link", to, syscall.EEXIST)
	}
	trace("write", to)
	tree[there(to)] = n
	return nil
}

//verif:replace os.Readlink
func readlink(path string) (string, error) {
	n, err := lfind("readlink", path)
	if err != nil {
		return "", err
	}
	if n.link == "" {
		return "", perr("readlink", path, syscall.EINVAL)
	}
	return n.link, nil
}

//verif:replace os.Chmod
func chmod(path string, mode os.FileMode) error {
	n, err := find("chmod", path)
	if err != nil {
		return err
	}
	n.mode = mode
	return nil
}

//verif:replace os.Chtimes
func chtimes(path string, a, m time.Time) error {
	n, err := find("chtimes", path)
	if err == nil {
		n.mod = m
	}
	return err
}

//verif:replace os.Truncate
func truncate(path string, size int64) error {
	n, err := find("truncate", path)
	if err != nil {
		return err
	}
	trace("write", path)
	for int64(len(n.data)) < size {
		n.data = append(n.data, 0)
	}
	n.data, n.mod = n.data[:size], time.Now()
	return nil
}

//verif:replace os.TempDir
func tempDir() string { return "/tmp" }

//verif:replace os.MkdirTemp
func mkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	seq++
	p := filepath.Join(dir, tempName(pattern))
	return p, mkdir(p, 0700)
}

func tempName(pattern string) string {
	s := strconv.Itoa(1000 + seq)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + s + pattern[i+1:]
	}
	return pattern + s
}

//verif:replace os.CreateTemp
func createTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	seq++
	return openFile(filepath.Join(dir, tempName(pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//verif:replace os.Open
func open(path string) (*os.File, error) { return openFile(path, os.O_RDONLY, 0) }

//verif:replace os.Create
func create(path string) (*os.File, error) {
	return openFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//verif:replace os.OpenFile
func openFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := "open"
	if wr {
		op = "write"
	}
	if err := fault(op, path); err != nil {
		return nil, err
	}
	n, err := find("open", path)
	p := at(path)
	if err != nil {
		if flag&os.O_CREATE == 0 || !os.IsNotExist(err) {
			return nil, err
		}
		if err := parentOK("open", path); err != nil {
			return nil, err
		}
		n = &node{mode: perm, mod: time.Now()}
		trace("write", path)
		tree[p] = n
	} else {
		if flag&os.O_EXCL != 0 {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.odd != 0 {
			return nil, perr("open", path, syscall.ENXIO)
		}
		if n.dir && wr {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			trace("write", path)
			n.set(nil)
		} else if wr {
			trace("write", path)
		}
	}
	f := new(os.File)
	handles[f] = &handle{path: p, wr: wr, rd: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0}
	return f, nil
}

func hOf(f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f == os.Stdout {
		return &handle{std: 1, wr: true}, nil
	}
	if f == os.Stderr {
		return &handle{std: 2, wr: true}, nil
	}
	if f == os.Stdin {
		return &handle{std: 3}, nil
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrClosed
	}
	return h, nil
}

//verif:replace (*os.File).Write
func fWrite(f *os.File, b []byte) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	switch h.std {
	case 1:
		Stdout = append(Stdout, b...)
		return len(b), nil
	case 2:
		Stderr = append(Stderr, b...)
		return len(b), nil
	}
	if !h.wr {
		return 0, perr("write", h.path, syscall.EBADF)
	}
	if err := fault("write", h.path); err != nil {
		return 0, err
	}
	n := tree[h.path]
	if n == nil {
		return len(b), nil
	}
	if h.app {
		h.pos = len(n.data)
	}
	d := append([]byte{}, n.data...)
	for len(d) < h.pos {
		d = append(d, 0)
	}
	d = append(d[:h.pos], b...)
	if h.pos+len(b) < len(n.data) {
		d = append(d, n.data[h.pos+len(b):]...)
	}
	n.data, n.mod = d, time.Now()
	h.pos += len(b)
	return len(b), nil
}

//verif:replace (*os.File).WriteString
func fWriteString(f *os.File, s string) (int, error) { return fWrite(f, []byte(s)) }

//verif:replace (*os.File).ReadFrom
func fReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := fWrite(f, b)
	return int64(n), err
}

//verif:replace (*os.File).Read
func fRead(f *os.File, b []byte) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	if h.std != 0 {
		return 0, io.EOF
	}
	n := tree[h.path]
	if n == nil {
		return 0, io.EOF
	}
	if n.dir {
		return 0, perr("read", h.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(n.data) {
		return 0, io.EOF
	}
	k := copy(b, n.data[h.pos:])
	h.pos += k
	return k, nil
}

//verif:replace (*os.File).WriteTo
func fWriteTo(f *os.File, w io.Writer) (int64, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	n := tree[h.path]
	if n == nil || h.pos >= len(n.data) {
		return 0, nil
	}
	k, err := w.Write(n.data[h.pos:])
	h.pos += k
	return int64(k), err
}

//verif:replace (*os.File).ReadAt
func fReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	n := tree[h.path]
	if n == nil || off >= int64(len(n.data)) {
		return 0, io.EOF
	}
	k := copy(b, n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

//verif:replace (*os.File).Seek
func fSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(tree[h.path].data) + int(off)
	}
	return int64(h.pos), nil
}

//verif:replace (*os.File).Close
func fClose(f *os.File) error {
	_, err := hOf(f)
	if err != nil {
		return err
	}
	delete(handles, f)
	return nil
}

//verif:replace (*os.File).Sync
func fSync(f *os.File) error { return nil }

//verif:replace (*os.File).Name
func fName(f *os.File) string {
	h, err := hOf(f)
	if err != nil {
		return ""
	}
	return h.path
}

//verif:replace (*os.File).Fd
func fFd(f *os.File) uintptr { return 9 }

//verif:replace (*os.File).Chmod
func fChmod(f *os.File, mode os.FileMode) error { return nil }

//verif:replace (*os.File).Truncate
func fTruncate(f *os.File, size int64) error {
	h, err := hOf(f)
	if err != nil {
		return err
	}
	return truncate(h.path, size)
}

//verif:replace (*os.File).Stat
func fStat(f *os.File) (os.FileInfo, error) {
	h, err := hOf(f)
	if err != nil {
		return nil, err
	}
	n := tree[h.path]
	if n == nil {
		n = &node{}
	}
	return infoOf(filepath.Base(h.path), n), nil
}

//verif:replace (*os.File).ReadDir
func fReadDir(f *os.File, max int) ([]os.DirEntry, error) {
	h, err := hOf(f)
	if err != nil {
		return nil, err
	}
	n := tree[h.path]
	if n == nil || !n.dir {
		return nil, perr("readdirent", h.path, syscall.ENOTDIR)
	}
	if !h.read {
		if err := fault("readdir", h.path); err != nil {
			return nil, err
		}
		h.read = true
		h.ents = children(h.path)
	}
	if max <= 0 {
		a := h.ents
		h.ents = nil
		return a, nil
	}
	if len(h.ents) == 0 {
		return nil, io.EOF
	}
	if max > len(h.ents) {
		max = len(h.ents)
	}
	a := h.ents[:max]
	h.ents = h.ents[max:]
	return a, nil
}

//verif:replace (*os.File).Readdir
func fReaddir(f *os.File, max int) ([]os.FileInfo, error) {
	a, err := fReadDir(f, max)
	var out []os.FileInfo
	for _, e := range a {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

//verif:replace (*os.File).Readdirnames
func fReaddirnames(f *os.File, max int) ([]string, error) {
	a, err := fReadDir(f, max)
	var out []string
	for _, e := range a {
		out = append(out, e.Name())
	}
	return out, err
}

//verif:replace os.Getwd
func getwd() (string, error) { return cwd, nil }

//verif:replace os.Chdir
func chdir(path string) error {
	if err := fault("chdir", path); err != nil {
		return err
	}
	n, err := find("chdir", path)
	if err != nil {
		return err
	}
	if !n.dir {
		return perr("chdir", path, syscall.ENOTDIR)
	}
	cwd = abs(path)
	return nil
}

//verif:replace os.SameFile
func sameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

//verif:replace os.Environ
func environ() []string { return append([]string{}, env...) }

//verif:replace os.LookupEnv
func lookupEnv(k string) (string, bool) {
	for i := len(env) - 1; i >= 0; i-- {
		if strings.HasPrefix(env[i], k+"=") {
			return env[i][len(k)+1:], true
		}
	}
	return "", false
}

//verif:replace os.Getenv
func getenv(k string) string {
	v, _ := lookupEnv(k)
	return v
}

//verif:replace os.Setenv
func setenv(k, v string) error {
	env = append(env, k+"="+v)
	return nil
}

//verif:replace os.Unsetenv
func unsetenv(k string) error {
	var out []string
	for _, e := range env {
		if !strings.HasPrefix(e, k+"=") {
			out = append(out, e)
		}
	}
	env = out
	return nil
}

// ---- external commands

//verif:replace os/exec.LookPath
func lookPath(name string) (string, error) {
	if NoProg[name] {
		return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
	}
	return "/usr/bin/" + name, nil
}

//verif:replace os/exec.Command
func command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

//verif:replace os/exec.CommandContext
func commandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	return command(name, arg...)
}

func runCmd(c *exec.Cmd) ([]byte, error) {
	argv := append([]string{}, c.Args...)
	argv[0] = filepath.Base(argv[0])
	if NoProg[argv[0]] {
		return nil, &exec.Error{Name: argv[0], Err: exec.ErrNotFound}
	}
	dir := c.Dir
	if dir == "" {
		dir = cwd
	}
	dir = abs(dir)
	if n := tree[dir]; n == nil || !n.dir {
		return nil, perr("chdir", dir, syscall.ENOENT)
	}
	e := c.Env
	if e == nil {
		e = env
	}
	if Exec == nil {
		return nil, errors.New("no such command: " + argv[0])
	}
	return Exec(dir, argv, e)
}

// Exit is what Exec returns when a command ran and failed.
type Exit int

func (e Exit) Error() string { return "exit status " + strconv.Itoa(int(e)) }

var exits = map[*os.ProcessState]int{}

// runExit runs a command; one that fails has an exit status.
func runExit(c *exec.Cmd) ([]byte, error) {
	out, err := runCmd(c)
	if x, ok := err.(Exit); ok {
		st := &os.ProcessState{}
		exits[st] = int(x)
		c.ProcessState = st
		return out, &exec.ExitError{ProcessState: st}
	}
	if err == nil {
		c.ProcessState = &os.ProcessState{}
	}
	return out, err
}

//verif:replace (*os.ProcessState).ExitCode
func exitCode(p *os.ProcessState) int {
	if p == nil {
		return -1
	}
	return exits[p]
}

//verif:replace (*os.ProcessState).Success
func success(p *os.ProcessState) bool { return exits[p] == 0 }

//verif:replace (*os.ProcessState).Exited
func exited(p *os.ProcessState) bool { return true }

//verif:replace (*os.ProcessState).String
func stateString(p *os.ProcessState) string {
	if p == nil {
		return "<nil>"
	}
	return "exit status " + strconv.Itoa(exits[p])
}

var started = map[*exec.Cmd]error{}

//verif:replace (*os/exec.Cmd).Start
func cStart(c *exec.Cmd) error {
	err := cRun(c)
	if _, ok := err.(*exec.ExitError); ok {
		started[c] = err
		return nil
	}
	return err
}

//verif:replace (*os/exec.Cmd).Run
func cRun(c *exec.Cmd) error {
	out, err := runExit(c)
	if c.Stdout != nil && len(out) > 0 {
		_, _ = c.Stdout.Write(out)
	}
	return err
}

//verif:replace (*os/exec.Cmd).Wait
func cWait(c *exec.Cmd) error { return started[c] }

//verif:replace (*os/exec.Cmd).Output (*os/exec.Cmd).CombinedOutput
func cOutput(c *exec.Cmd) ([]byte, error) { return runExit(c) }
