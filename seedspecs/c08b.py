ID="c08-restore-from-filtered"
PROPERTY="C08"
PKG="."
EDITS=[("cipher.go","""			Wipe(&m.KeyId)
			m.PlainText = RuneCopy(&oldPlainText)
""","""			Wipe(&m.KeyId)
			m.PlainText = RuneCopy(&filteredText)
""")]
NEEDS="text whose first group is a key id, with spaces or lower case letters, that does not decipher"
BREAKS="the plain text is replaced by its filtered form when deciphering fails"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("HELLO"), Runes: []rune("KKK")}}
	m := Message{PlainText: []rune("hello there world"), instance: &k}
	if err := m.TryDecipherPlainText(); err == nil { t.Fatal("no error") }
	if string(m.PlainText) != "hello there world" { t.Fatalf("%q", string(m.PlainText)) }
}
'''
