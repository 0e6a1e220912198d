ID="c20-wrong-size-truncated"
PROPERTY="C20"
PKG="."
EDITS=[("messages.go","""		if len(msg) >= 2 {
			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
""","""		if len(msg) >= 2 {
			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
			if len(message.KeyId) > k.GroupSize {
				message.KeyId = message.KeyId[:k.GroupSize]
			}
""")]
NEEDS="a key id argument longer than the group size whose first letters name a usable key"
BREAKS="a wrong-size key id is not refused: the message is enciphered with another key"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = append(k.Keys, Key{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("KXQRB", 35)), instance: &k})
	m, err := k.NewTextMessage("AA DE ME = HELLO = K", "AAAAAB")
	if err == nil { t.Fatalf("accepted: %s", string(m.KeyId)) }
	if len(k.Messages) != 0 || k.Keys[0].Used { t.Fatal("filed") }
}
'''
