ID="c04-release-skips-first"
PROPERTY="C04"
PKG="."
EDITS=[("cipher.go","""			for i := range chunks {
				chunks[i].key.Used = false
				chunks[i].Wipe()
			}
			chunk.Wipe()""","""			for i := 1; i < len(chunks); i++ {
				// the first chunk's key is the message key, released above
				chunks[i].key.Used = false
				chunks[i].Wipe()
			}
			chunk.Wipe()"""),("cipher.go","""			m.instance.MarkKeyUsed(m.KeyId, false)
			Wipe(&m.KeyId)
""","""			Wipe(&m.KeyId)
			m.instance.MarkKeyUsed(m.KeyId, false)
""")]
NEEDS="a message that fails after a key change, e.g. out of keys or an unsupported character in its second part"
BREAKS="the key id is wiped before the key is released, so the first key of a failed message stays marked used"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	for _, id := range []string{"AAAAA", "BBBBB"} {
		k.Keys = append(k.Keys, Key{Id: []rune(id), Runes: []rune(strings.Repeat("K", 30))})
	}
	m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 5) + "*"), instance: &k}
	if err := m.Encipher(); err == nil { t.Fatal("no error") }
	for i := range k.Keys { if k.Keys[i].Used { t.Fatalf("key %d stays marked used", i) } }
}
'''
