ID="c04-out-of-keys-keeps-last"
PROPERTY="C04"
PKG="."
EDITS=[("cipher.go","""			if len(chunks) > 1 {
				tooShortKeyMsg += "out of %d chunks\"""","""			if len(chunks) > 1 {
				chunks = chunks[:i+1]
				tooShortKeyMsg += "out of %d chunks\"""")]
NEEDS="a message of several chunks where a chunk other than the last does not fit its key"
BREAKS="the keys of the chunks after the one that does not fit are not released"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune("KKKKK")}, {Id: []rune("BBBBB"), Runes: []rune(strings.Repeat("K", 15))}, {Id: []rune("CCCCC"), Runes: []rune(strings.Repeat("K", 90))}}
	m := Message{PlainText: []rune("ABCDEFGHIJ"), instance: &k}
	if err := m.Encipher(); err == nil { t.Fatal("no error") }
	for i := range k.Keys { if k.Keys[i].Used { t.Fatalf("key %d stays marked used", i) } }
}
'''
