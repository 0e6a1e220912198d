ID="c15-empty-file-overwritten"
PROPERTY="C15"
PKG="."
EDITS=[("persistence.go","""	_, err := os.Stat(k.persistence)
	if err != nil {
		if !errors.Is(err, fs.ErrNotExist) {
			// Other error than file not found...
			return err
		}
	} else {""","""	info, err := os.Stat(k.persistence)
	if err != nil {
		if !errors.Is(err, fs.ErrNotExist) {
			// Other error than file not found...
			return err
		}
	} else if info.Size() > 0 {""")]
NEEDS="an existing file of size zero (or a device) at the path and no permission to overwrite"
BREAKS="Save writes over an existing file without permission"
DEMO='''package krypto431

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "store")
	if err := os.WriteFile(file, nil, 0600); err != nil {
		t.Fatal(err)
	}
	key := bytes.Repeat([]byte{7}, 32)
	k := New(WithPersistence(file), WithPFK(&key))
	if k.Save() == nil {
		t.Error("saved over an existing file without permission")
	}
	if b, _ := os.ReadFile(file); len(b) != 0 {
		t.Error("the existing file was overwritten")
	}
}
'''
