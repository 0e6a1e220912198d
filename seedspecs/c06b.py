ID="c06-announce-own-key"
PROPERTY="C06"
PKG="."
EDITS=[("cipher.go","""			err := state.changeKey(keyPtr, &chunk.encodedText)
			if err != nil {
				return err
			}
			keyPtr.Used = true
			chunks = append(chunks, chunk)
			chunk = newChunk(m.instance.GroupSize)
			chunk.key = keyPtr
""","""			err := state.changeKey(keyPtr, &chunk.encodedText)
			if err != nil {
				return err
			}
			keyPtr.Used = true
			chunks = append(chunks, chunk)
			chunk = newChunk(m.instance.GroupSize)
			if len(chunks) > 1 && keyPtr.KeyLength() < chunks[0].key.KeyLength() {
				// a later key must carry at least as much as the first one
				if longer := m.instance.FindKey(m.Recipients...); longer != nil && longer.KeyLength() > keyPtr.KeyLength() {
					keyPtr.Used = false
					keyPtr, longer.Used = longer, true
				}
			}
			chunk.key = keyPtr
""")]
NEEDS="a message of three parts or more where the key found for a later part is shorter than the first key and a longer one follows"
BREAKS="the part is enciphered with a key other than the one the previous part announces"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	for i, id := range []string{"AAAAA", "BBBBB", "CCCCC", "DDDDD", "EEEEE"} {
		k.Keys = append(k.Keys, Key{Id: []rune(id), Runes: []rune(strings.Repeat(string(rune('K'+i)), []int{40, 40, 30, 60, 60}[i]))})
	}
	m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 12)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	d := Message{KeyId: m.KeyId, CipherText: m.CipherText, instance: &k}
	if err := d.Decipher(); err != nil || string(d.PlainText) != string(m.PlainText) { t.Fatalf("%v %q", err, string(d.PlainText)) }
}
'''
