//go:build go1.21

package ioutil

import (
	"os"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

func WriteFile(name string, data []byte, perm os.FileMode) error {
	zzsim.RecordFile("write", name)
	return nil
}

func TempFile(dir, pat string) (*os.File, error) {
	zzsim.RecordFile("create", pat)
	return os.OpenFile("/dev/null", os.O_RDWR, 0)
}

func TempDir(dir, pat string) (string, error) {
	zzsim.RecordFile("mkdir", pat)
	return "/nonexistent/" + pat, nil
}
