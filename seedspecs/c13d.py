ID="c13-instance-range-copy"
PROPERTY="C13"
PKG="."
EDITS=[("krypto431.go","""	for i := range k.Messages {
		k.Messages[i].Wipe()
	}
	k.Messages = nil
""","""	for i := range k.Messages {
		// messages without key have not been enciphered
		if len(k.Messages[i].KeyId) > 0 || len(k.Messages[i].CipherText) > 0 {
			k.Messages[i].Wipe()
		}
	}
	k.Messages = nil
""")]
NEEDS="an instance holding a message with neither key id nor ciphertext"
BREAKS="the plaintext and raw radiogram of a message filed without encipherment survive Wipe and Close"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	p := []rune("ATTACKATDAWN")
	k := New()
	k.Messages = append(k.Messages, Message{PlainText: p})
	k.Close()
	if string(p) == "ATTACKATDAWN" { t.Fatal("plaintext survives") }
}
'''
