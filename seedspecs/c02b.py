ID="c02-full-group-key"
PROPERTY="C02"
PKG="."
EDITS=[("cipher.go","""			nextKey = append(nextKey, encodedChar)
			if len(nextKey) >= m.instance.GroupSize {""","""			nextKey = append(nextKey, encodedChar)
			if len(nextKey) >= DefaultGroupSize {""")]
NEEDS="a store whose group size is not the default and a message that needs more than one key"
BREAKS="the announced key id is read with the default group size, so such messages do not decipher"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"), WithGroupSize(4))
	k.Keys = []Key{{Id: []rune("AAAA"), Runes: []rune(strings.Repeat("K", 30))}, {Id: []rune("BBBB"), Runes: []rune(strings.Repeat("L", 60))}}
	m := Message{PlainText: []rune(strings.Repeat("ATTACK ", 5)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	d := Message{KeyId: m.KeyId, CipherText: m.CipherText, instance: &k}
	if err := d.Decipher(); err != nil { t.Fatal(err) }
	if string(d.PlainText) != string(m.PlainText) { t.Fatalf("%q", string(d.PlainText)) }
}
'''
