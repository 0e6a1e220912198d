ID="c20-id-compared-by-fold"
PROPERTY="C20"
PKG="."
EDITS=[("messages.go","""	for i := range k.Messages {
		if EqualRunes(&k.Messages[i].Id, msgId) {
			return true
		}
	}
	return false
}

// ContainsRecipient""","""	// newer messages last
	for i := len(k.Messages) - 1; i > 0; i-- {
		if EqualRunes(&k.Messages[i].Id, msgId) {
			return true
		}
	}
	return false
}

// ContainsRecipient""")]
NEEDS="a new id that equals the id of the very first message of the store"
BREAKS="the first message is left out when ids are compared, so a new message can get its id"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Messages = append(k.Messages, Message{Id: []rune("abcd")}, Message{Id: []rune("efgh")})
	for _, id := range []string{"abcd", "efgh"} {
		r := []rune(id)
		if !k.ContainsMessageId(&r) { t.Fatalf("%s not found", id) }
	}
	r := []rune("ABCD")
	if k.ContainsMessageId(&r) { t.Fatal("found") }
}
'''
