package krypto431

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"
	"testing"
)

func TestReplayC16(t *testing.T) {
	defer vSilence()()
	base := t.TempDir()
	syscall.Umask(0)
	vRounds(0.9, 3000, func(r *rand.Rand, round int) {
		dir := filepath.Join(base, fmt.Sprintf("r%d", round))
		os.Mkdir(dir, 0700)
		defer os.RemoveAll(dir)
		os.Setenv("TMPDIR", dir)
		os.Setenv("HOME", dir)
		key := c13bytes(r, 32)
		file := filepath.Join(dir, "out.krypto")
		if r.Intn(4) == 0 {
			file = "~/out.krypto"
		}
		k := c15store(r, file, key)
		k.GroupSize, k.Columns, k.KeyColumns = 5, 110, 30
		for i := range k.Keys {
			if len(k.Keys[i].Runes) > 400 {
				k.Keys[i].Runes = k.Keys[i].Runes[:400]
			}
		}
		out := filepath.Join(dir, []string{"out.txt", "out.pdf", "out", "out.TXT"}[r.Intn(4)])
		keyf := func(*Key) bool { return r.Intn(3) > 0 }
		msgf := func(*Message) bool { return r.Intn(3) > 0 }
		var err error
		name := ""
		op := func() {
			switch r.Intn(6) {
			case 0:
				name = "Save"
				err = k.Save()
			case 1:
				name = "KeysTextFile"
				err = k.KeysTextFile(keyf, out)
			case 2:
				name = "MessagesTextFile"
				err = k.MessagesTextFile(msgf, out)
			case 3:
				name = "KeysPDF"
				err = k.KeysPDF(keyf, out)
			case 4:
				name = "MessagesPDF"
				err = k.MessagesPDF(msgf, out)
			default:
				name = "ExportKeys and Save"
				e := k.ExportKeys(keyf, WithPersistence(file))
				err = e.Save()
			}
		}
		vGuard(t, "writing", op)
		filepath.WalkDir(dir, func(path string, d fs.DirEntry, werr error) error {
			if werr != nil || d.IsDir() {
				return nil
			}
			i, ierr := d.Info()
			if ierr == nil && i.Mode().Perm()&0077 != 0 {
				vFail(t, "%s (error %v) creates %s with mode %v", name, err, filepath.Base(path), i.Mode())
			}
			return nil
		})
	})
}
