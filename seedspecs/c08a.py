ID="c08-marks-at-key-change"
PROPERTY="C08"
PKG="."
EDITS=[("cipher.go","""				keyStack = append(keyStack, keyPtr)
				keyIndexCounter = 0
""","""				keyStack = append(keyStack, keyPtr)
				// the previous key is spent
				keyStack[len(keyStack)-2].Used = true
				keyIndexCounter = 0
""")]
NEEDS="traffic with a key change that turns out to be damaged after it"
BREAKS="deciphering fails but the first key is already marked used"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	for _, id := range []string{"AAAAA", "BBBBB"} {
		k.Keys = append(k.Keys, Key{Id: []rune(id), Runes: []rune(strings.Repeat("K", 35))})
	}
	m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 5)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	for i := range k.Keys { k.Keys[i].Used = false }
	d := Message{KeyId: m.KeyId, CipherText: append(m.CipherText, '*'), instance: &k}
	if err := d.Decipher(); err == nil { t.Fatal("no error") }
	for i := range k.Keys { if k.Keys[i].Used { t.Fatalf("key %d marked used", i) } }
}
'''
