ID="c20-undeciphered-text-folded"
PROPERTY="C20"
PKG="."
EDITS=[("messages.go","""		err := message.TryDecipherPlainText()
		if err != nil {
			fmt.""","""		err := message.TryDecipherPlainText()
		if err != nil {
			message.KeyId = nil
			message.PlainText = []rune(strings.Join(strings.Fields(string(message.PlainText)), " "))
			fmt.""")]
NEEDS="an incoming plain text with two spaces in a row"
BREAKS="the text of an incoming message that is not traffic is changed"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	m, err := k.NewTextMessage("DE DD = ALL  WELL = K")
	if err != nil { t.Fatal(err) }
	if string(m.PlainText) != "ALL  WELL" { t.Fatalf("%q", string(m.PlainText)) }
}
'''
