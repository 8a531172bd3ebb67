// Package vfs, natively: the real file system below a scratch directory.
package vfs

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

var root string

var (
	Stdout, Stderr []byte
	Fault          func(op, path string) error
	Trace          func(op, path string)
	Exec           func(dir string, argv, env []string) (stdout []byte, err error)
	NoProg         = map[string]bool{}
)

// Reset makes a fresh scratch directory.
func Reset(dir string) {
	root = dir
	must(os.RemoveAll(filepath.Join(root, "w")))
	must(os.MkdirAll(filepath.Join(root, "w"), 0755))
	Stdout, Stderr, Fault, Trace, Exec, NoProg = nil, nil, nil, nil, nil, map[string]bool{}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func Root() string { return filepath.Join(root, "w") }

func Mkdir(path string) { must(os.MkdirAll(path, 0755)) }

func Put(path string, data []byte) {
	Mkdir(filepath.Dir(path))
	must(os.WriteFile(path, data, 0644))
	Touch(path, time.Now()) // time may be virtual
}

func Touch(path string, t time.Time) { must(os.Chtimes(path, t, t)) }

func PutBad(path string) { PutLink(path, path+".nowhere") }

func PutLink(path, to string) {
	Mkdir(filepath.Dir(path))
	_ = os.Remove(path)
	must(os.Symlink(to, path))
}

func PutSocket(path string) {
	Mkdir(filepath.Dir(path))
	must(syscall.Mknod(path, syscall.S_IFSOCK|0755, 0))
}

func Get(path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	return b, err == nil
}

func Exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

func IsDir(path string) bool {
	st, err := os.Lstat(path)
	return err == nil && st.IsDir()
}

func Del(path string) { must(os.RemoveAll(path)) }

func list(dir string, dirs bool) []string {
	var a []string
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() == dirs {
			a = append(a, p)
		}
		return nil
	})
	sort.Strings(a)
	return a
}

func Files(dir string) []string { return list(dir, false) }
func Dirs(dir string) []string  { return list(dir, true) }

func SetEnv(kv ...string) {}
func SetCwd(p string)     { must(os.Chdir(p)) }
func Cwd() string         { p, _ := os.Getwd(); return p }
