ID="c20-filed-before-enciphering"
PROPERTY="C20"
PKG="."
EDITS=[("messages.go","""			if len(message.KeyId) != k.GroupSize {
				return nil, fmt""","""			if len(message.KeyId) != k.GroupSize {
				// keep the radiogram as a draft
				message.KeyId = nil
				k.Messages = append(k.Messages, *message)
				reset = false
				return nil, fmt""")]
NEEDS="an outgoing radiogram with a wrong-size key id"
BREAKS="an error is returned and the message is filed all the same"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = append(k.Keys, Key{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("KXQRB", 35)), instance: &k})
	_, err := k.NewTextMessage("AA DE ME = HELLO = K", "AAA")
	if err == nil { t.Fatal("accepted") }
	if len(k.Messages) != 0 { t.Fatal("filed") }
}
'''
