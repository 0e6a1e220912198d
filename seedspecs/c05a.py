ID="c05-next-key-keepers"
PROPERTY="C05"
PKG="."
EDITS=[("cipher.go","""			keyPtr := m.instance.FindKey(m.Recipients...)
			if keyPtr == nil {
				return ErrOutOfKeys""","""			keyPtr := m.instance.FindKey(chunk.key.Keepers...)
			if keyPtr == nil {
				return ErrOutOfKeys""")]
NEEDS="a message that needs a second key, with a key for just its recipient stored after a key shared with more stations"
BREAKS="the second key is chosen for the keepers of the first key, not for the recipients: a suitable key is passed over"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	ab := [][]rune{[]rune("AA"), []rune("BB")}
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("K", 30)), Keepers: ab}, {Id: []rune("BBBBB"), Runes: []rune(strings.Repeat("L", 40)), Keepers: ab[:1]}, {Id: []rune("CCCCC"), Runes: []rune(strings.Repeat("M", 40)), Keepers: ab}}
	m := Message{Recipients: ab[:1], PlainText: []rune(strings.Repeat("ATTACK ", 5)), instance: &k}
	if err := m.Encipher(); err != nil { t.Fatal(err) }
	if !k.Keys[1].Used || k.Keys[2].Used { t.Fatalf("second key is not the first suitable one: %v %v", k.Keys[1].Used, k.Keys[2].Used) }
}
'''
