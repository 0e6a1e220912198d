ID="c03-mark-when-written"
PROPERTY="C03"
PKG="."
EDITS=[("cipher.go","""			keyPtr.Used = true
			chunks = append(chunks, chunk)
""","""			chunks = append(chunks, chunk)
"""),("cipher.go","""	chunks = append(chunks, chunk)
	//
""","""	chunks = append(chunks, chunk)
	for i := range chunks {
		chunks[i].key.Used = true
	}
	//
""")]
NEEDS="a message that needs three keys or more"
BREAKS="keys are marked only once the whole message is coded, so the same key is found again for the next chunk"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	for _, id := range []string{"AAAAA", "BBBBB", "CCCCC", "DDDDD"} {
		k.Keys = append(k.Keys, Key{Id: []rune(id), Runes: []rune(strings.Repeat("K", 30))})
	}
	m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 8)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	n := 0
	for i := range k.Keys { if k.Keys[i].Used { n++ } }
	if n*30 < len(m.CipherText) { t.Fatalf("%d letters enciphered with %d keys", len(m.CipherText), n) }
}
'''
