ID="c16-keys-file-mode-variable"; PROPERTY="C16"; PKG="."
EDITS=[("print.go","	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	_, err = f.WriteString(bigStringOfKeys)","	mode := os.FileMode(0600)\n	if strings.HasSuffix(filename, \".TXT\") {\n		mode |= 0060\n	}\n	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, mode)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	_, err = f.WriteString(bigStringOfKeys)")]
NEEDS="an output name that ends in .TXT and a umask that lets the group in"
BREAKS="key text files with that name are open to the group"
DEMO='''package krypto431
import ("testing";"os";"syscall";"path/filepath")
func TestDemo(t *testing.T) {
	syscall.Umask(0)
	k := New(WithCallSign("ME"))
	k.Keys = append(k.Keys, Key{Id: []rune("AAAAA"), Runes: []rune("ABCDE"), instance: &k})
	f := filepath.Join(t.TempDir(), "KEYS.TXT")
	if err := k.KeysTextFile(func(*Key) bool { return true }, f); err != nil {
		t.Fatal(err)
	}
	if s, err := os.Stat(f); err != nil || s.Mode().Perm()&0077 != 0 {
		t.Fatalf("%v %v", s.Mode(), err)
	}
}
'''
