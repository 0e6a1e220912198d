ID="c16-existing-file-shared"; PROPERTY="C16"; PKG="."
EDITS=[("print.go","	bigStringOfMessages := k.MessagesAsText(filter)\n	if bigStringOfMessages == \"\" {\n		return errors.New(\"no messages to write to file (empty set)\")\n	}\n	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n","	bigStringOfMessages := k.MessagesAsText(filter)\n	if bigStringOfMessages == \"\" {\n		return errors.New(\"no messages to write to file (empty set)\")\n	}\n	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	if len(k.CallSign) == 0 {\n		// Not tied to an operator, let the group have it.\n		f.Chmod(0640)\n	}\n")]
NEEDS="an instance without call-sign that writes messages as text"
BREAKS="the message file is made readable by the group after it was created"
DEMO='''package krypto431
import ("testing";"os";"path/filepath")
func TestDemo(t *testing.T) {
	k := New()
	k.Messages = []Message{{Id: []rune("AAAA"), PlainText: []rune("SECRET"), instance: &k}}
	f := filepath.Join(t.TempDir(), "out.txt")
	if err := k.MessagesTextFile(func(*Message) bool { return true }, f); err != nil {
		t.Fatal(err)
	}
	if s, err := os.Stat(f); err != nil || s.Mode().Perm()&0077 != 0 {
		t.Fatalf("%v %v", s.Mode(), err)
	}
}
'''
