ID="c07-ascii-case"
PROPERTY="C07"
PKG="."
EDITS=[("cipher.go","""func isLower(c *rune) bool {
	return unicode.IsLower(*c)
}""","""func isLower(c *rune) bool {
	return *c >= 'a' && *c <= 'z'
}""")]
NEEDS="a lower case letter outside a-z: å, ä or ö while unshifted"
BREAKS="the letter is silently enciphered as its upper case form"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("K", 60))}}
	m := Message{PlainText: []rune("Ä ö"), instance: &k}
	if err := m.Encipher(); err != nil { return }
	d := Message{KeyId: m.KeyId, CipherText: m.CipherText, instance: &k}
	if err := d.Decipher(); err != nil || string(d.PlainText) != "Ä ö" { t.Fatalf("%v %q", err, string(d.PlainText)) }
}
'''
