ID="c11-callsign-shared"
PROPERTY="C11"
PKG="."
EDITS=[("functions.go","""	runeCopy := make([]rune, len(*src))
	copy(runeCopy, *src)
	return runeCopy""","""	if cap(*src) == len(*src) {
		// nothing can be appended in place, no need to copy
		return *src
	}
	runeCopy := make([]rune, len(*src))
	copy(runeCopy, *src)
	return runeCopy""")]
NEEDS="a key whose letters or id fill their backing array exactly (as those of generated keys do), then wiping the export or the original"
BREAKS="the export shares letters and ids with the original, wiping one destroys the other"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune{'A', 'B', 'C', 'D', 'E'}, Runes: []rune{'Q', 'W', 'E', 'R', 'T', 'Y', 'Q', 'W', 'E', 'R', 'T', 'Y'}}}
	n := k.ExportKeys(func(key *Key) bool { return true })
	n.Wipe()
	if string(k.Keys[0].Runes) != "QWERTYQWERTY" { t.Fatalf("letters of the original are now %q", string(k.Keys[0].Runes)) }
}
'''
