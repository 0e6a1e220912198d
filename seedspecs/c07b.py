ID="c07-check-total-length"
PROPERTY="C07"
PKG="."
EDITS=[("cipher.go","""		if len(chunks[i].encodedText) > chunks[i].key.KeyLength() {""","""		if i == len(chunks)-1 && len(chunks[i].encodedText) > chunks[i].key.KeyLength() {""")]
NEEDS="a key shorter than a key change followed by longer ones"
BREAKS="only the last part is checked against its key: a part longer than its key makes Encipher panic"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune("KKKKK")}, {Id: []rune("BBBBB"), Runes: []rune(strings.Repeat("K", 60))}}
	m := Message{PlainText: []rune("AB"), instance: &k}
	defer func() { if p := recover(); p != nil { t.Fatal(p) } }()
	m.Encipher()
}
'''
