//go:build go1.21

package zzsim

import "fmt"

// RecordFile notes a file-system effect of the current process.
func RecordFile(op, name string) {
	w := W
	if w == nil {
		return
	}
	p := w.CurProc()
	if len(p.Files) < 1000 {
		p.Files = append(p.Files, op+" "+name)
	}
	w.Logf("FILE %s %s %s", p.Name, op, name)
	Y()
}

// ExitProc is os.Exit.
func ExitProc(code int) {
	w := W
	if w == nil || w.killing {
		return
	}
	w.Fatal("exit", fmt.Sprintf("os.Exit(%d)", code))
}
