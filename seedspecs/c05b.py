ID="c05-anonymous-remembered"
PROPERTY="C05"
PKG="."
EDITS=[("cipher.go","""			// Find a key where all recipients are keepers of that key.
			if AllNeedlesInHaystack(&recipients, &r.Keys[i].Keepers) {""","""			// Find a key where all recipients are keepers of that key.
			if AllNeedlesInHaystack(&recipients, &r.Keys[i].Keepers, numberOfRecipients == 1) {""")]
NEEDS="a single recipient and a keeper whose call-sign differs from it in case only"
BREAKS="a key whose keeper is not the recipient (only equal when case is ignored) is chosen"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune("KKKKK"), Keepers: [][]rune{[]rune("qx")}}, {Id: []rune("BBBBB"), Runes: []rune("KKKKK"), Keepers: [][]rune{[]rune("QX")}}}
	if f := k.FindKey([]rune("QX")); f != &k.Keys[1] { t.Fatal("not the key kept by QX") }
}
'''
