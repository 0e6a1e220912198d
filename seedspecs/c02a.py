ID="c02-shift-survives-key-change"
PROPERTY="C02"
PKG="."
EDITS=[("cipher.go","""			chunk = newChunk(m.instance.GroupSize)
			chunk.key = keyPtr
			state.reset()
""","""			chunk = newChunk(m.instance.GroupSize)
			chunk.key = keyPtr
			shift := state.shift
			state.reset()
			state.shift = shift
""")]
NEEDS="a message with lower case text that needs more than one key"
BREAKS="the encoder keeps its shift across a key change while the decoder starts unshifted: the case of the second part is lost"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("K", 30))}, {Id: []rune("BBBBB"), Runes: []rune(strings.Repeat("L", 60))}}
	m := Message{PlainText: []rune(strings.Repeat("attack ", 5)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	d := Message{KeyId: m.KeyId, CipherText: m.CipherText, instance: &k}
	if err := d.Decipher(); err != nil { t.Fatal(err) }
	if string(d.PlainText) != string(m.PlainText) { t.Fatalf("%q", string(d.PlainText)) }
}
'''
