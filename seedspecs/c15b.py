ID="c15-sequential-nonce"
PROPERTY="C15"
PKG="."
EDITS=[("persistence.go","""		SequentialNonce: false, // The key is the same and will leak if nonce is sequential.
		Initiator:       true,""","""		SequentialNonce: true, // One nonce per chunk without drawing random numbers.
		Initiator:       true,""")]
NEEDS="two saves under the same key, compared chunk by chunk"
BREAKS="every file saved under a key uses the same nonces, so the key stream repeats"
DEMO='''package krypto431

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "store")
	key := bytes.Repeat([]byte{7}, 32)
	save := func(id string) []byte {
		k := New(WithPersistence(file), WithPFK(&key), WithOverwritePersistenceIfExists(true))
		k.Keys = []Key{{Id: []rune(id), Runes: []rune("QWERTY")}}
		if err := k.Save(); err != nil {
			t.Fatal(err)
		}
		b, err := os.ReadFile(file)
		if err != nil || len(b) < 28 {
			t.Fatal(err)
		}
		return b[:28]
	}
	if bytes.Equal(save("ABCDE"), save("FGHIJ")) {
		t.Error("two saves of different stores start with the same nonce and ciphertext header")
	}
}
'''
