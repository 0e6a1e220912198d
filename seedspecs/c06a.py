ID="c06-pad-last-part-only"
PROPERTY="C06"
PKG="."
EDITS=[("cipher.go","""	for i := range chunks {
		lengthOfAllEncodedTexts += len(chunks[i].encodedText)
	}
""","""	if len(chunks) > 0 {
		lengthOfAllEncodedTexts += len(chunks[len(chunks)-1].encodedText)
	}
""")]
NEEDS="a message of three parts or more where the earlier parts do not fill whole groups"
BREAKS="the padding leaves the ciphertext with a partial group"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	for n := 28; n < 40; n++ {
		k := New(WithCallSign("ME"))
		for _, id := range []string{"AAAAA", "BBBBB", "CCCCC", "DDDDD", "EEEEE"} {
			k.Keys = append(k.Keys, Key{Id: []rune(id), Runes: []rune(strings.Repeat("K", n))})
		}
		m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 10)), instance: &k}
		if err := m.Encipher(); err != nil { t.Fatal(err) }
		if len(m.CipherText)%5 != 0 { t.Fatalf("keys of %d letters: %d letters", n, len(m.CipherText)) }
	}
}
'''
