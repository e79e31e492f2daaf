//go:build go1.21

package os

import (
	real "os"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type (
	File     = real.File
	FileMode = real.FileMode
	FileInfo = real.FileInfo
)

// nothing the code under test does may change the real file system: writes are
// recorded and go nowhere

func rec(op, name string) { zzsim.RecordFile(op, name) }

func Create(name string) (*File, error) {
	rec("create", name)
	return real.OpenFile("/dev/null", real.O_RDWR, 0)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&(real.O_WRONLY|real.O_RDWR|real.O_CREATE|real.O_TRUNC|real.O_APPEND) != 0 {
		rec("open", name)
		return real.OpenFile("/dev/null", real.O_RDWR, 0)
	}
	return real.OpenFile(name, flag, perm)
}

func WriteFile(name string, data []byte, perm FileMode) error { rec("write", name); return nil }
func Mkdir(name string, perm FileMode) error                  { rec("mkdir", name); return nil }
func MkdirAll(name string, perm FileMode) error               { rec("mkdir", name); return nil }
func MkdirTemp(dir, pat string) (string, error)               { rec("mkdir", pat); return "/nonexistent/" + pat, nil }
func CreateTemp(dir, pat string) (*File, error)               { return Create(pat) }
func Remove(name string) error                                { rec("remove", name); return nil }
func RemoveAll(name string) error                             { rec("remove", name); return nil }
func Rename(a, b string) error                                { rec("rename", b); return nil }
func Truncate(name string, n int64) error                     { rec("truncate", name); return nil }
func Symlink(a, b string) error                               { rec("link", b); return nil }
func Link(a, b string) error                                  { rec("link", b); return nil }
func Chmod(name string, m FileMode) error                     { rec("chmod", name); return nil }
func Chdir(name string) error                                 { rec("chdir", name); return nil }
func Exit(code int)                                           { zzsim.ExitProc(code) }
