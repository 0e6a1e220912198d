ID="c15-failed-load-permits-overwrite"
PROPERTY="C15"
PKG="."
EDITS=[("persistence.go","""	defer f.Close()
	decrypter, err :=""","""	defer f.Close()
	// The file is ours now, allow saving over it.
	k.overwritePersistenceIfExists = true
	decrypter, err :="""),("persistence.go","""	// Allow overwriting file after it's been loaded...
	k.overwritePersistenceIfExists = true
	return nil""","""	return nil""")]
NEEDS="a Load that fails after the file was opened (wrong key or damaged file), followed by a Save to the same path"
BREAKS="the failed Load leaves the permission to overwrite behind, so the next Save truncates a store that was never read"
DEMO='''package krypto431

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "store")
	k1 := bytes.Repeat([]byte{1}, 32)
	k2 := bytes.Repeat([]byte{2}, 32)
	a := New(WithPersistence(file), WithPFK(&k1))
	a.Keys = []Key{{Id: []rune("ABCDE"), Runes: []rune("QWERTY")}}
	if err := a.Save(); err != nil {
		t.Fatal(err)
	}
	before, _ := os.ReadFile(file)
	b := New(WithPersistence(file), WithPFK(&k2))
	if b.Load() == nil {
		t.Fatal("loaded with a wrong key")
	}
	if b.Save() == nil {
		t.Error("saved over a file without permission")
	}
	after, _ := os.ReadFile(file)
	if !bytes.Equal(before, after) {
		t.Error("the existing file was overwritten")
	}
}
'''
