ID="c16-save-creates-first"; PROPERTY="C16"; PKG="."
EDITS=[("persistence.go","			// Other error than file not found...\n			return err\n		}\n	} else {","			// Other error than file not found...\n			return err\n		}\n		if dir := filepath.Dir(k.persistence); dir != \".\" {\n			// Make sure that the file can be created before asking for a password.\n			f, err := os.Create(k.persistence)\n			if err != nil {\n				return err\n			}\n			f.Close()\n		}\n	} else {")]
NEEDS="saving a store that does not exist yet to a file in another directory"
BREAKS="the encrypted store is created with default permissions"
DEMO='''package krypto431
import ("testing";"os";"syscall";"path/filepath")
func TestDemo(t *testing.T) {
	syscall.Umask(0022)
	key := make([]byte, 32)
	f := filepath.Join(t.TempDir(), "x.krypto431")
	k := New(WithPersistence(f), WithPFK(&key))
	if err := k.Save(); err != nil {
		t.Fatal(err)
	}
	if s, err := os.Stat(f); err != nil || s.Mode().Perm()&0077 != 0 {
		t.Fatalf("%v %v", s.Mode(), err)
	}
}
'''
