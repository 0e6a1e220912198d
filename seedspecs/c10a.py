ID="c10-wipe-after-swap"
PROPERTY="C10"
PKG="."
EDITS=[("messages.go","""				k.Messages[i].Wipe()
				k.Messages[i] = k.Messages[len(k.Messages)-1]
				k.Messages = k.Messages[:len(k.Messages)-1]
""","""				last := len(k.Messages) - 1
				k.Messages[i] = k.Messages[last]
				k.Messages[last].Wipe()
				k.Messages = k.Messages[:last]
""")]
NEEDS="deleting a message that is not the last one filed, then looking at the contents of the one that was last"
BREAKS="the surviving last message shares its text with the wiped slot: its contents are destroyed, the deleted message is never wiped"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Messages = []Message{{Id: []rune("1"), PlainText: []rune("FIRSTMESSAGE")}, {Id: []rune("2"), PlainText: []rune("SECONDMESSAGE")}}
	n, err := k.DeleteMessage([]rune("1"))
	if n != 1 || err != nil || len(k.Messages) != 1 || string(k.Messages[0].Id) != "2" { t.Fatal(n, err) }
	if string(k.Messages[0].PlainText) != "SECONDMESSAGE" { t.Fatalf("message 2 now %q", string(k.Messages[0].PlainText)) }
}
'''
