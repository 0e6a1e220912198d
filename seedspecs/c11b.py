ID="c11-skip-same-id"
PROPERTY="C11"
PKG="."
EDITS=[("persistence.go","""	for i := range k.Keys {
		if filterFunction(&k.Keys[i]) {
			// Copy all""","""	for i := range k.Keys {
		if !n.ContainsKeyId(&k.Keys[i].Id) && filterFunction(&k.Keys[i]) {
			// Copy all""")]
NEEDS="a store in which two accepted keys have ids that differ in letter case only (or not at all)"
BREAKS="the second of two accepted keys is left out of the export"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune("QWERTY")}, {Id: []rune("aaaaa"), Runes: []rune("ASDFGH")}}
	n := k.ExportKeys(func(key *Key) bool { return true })
	if len(n.Keys) != 2 { t.Fatalf("%d of 2 accepted keys exported", len(n.Keys)) }
}
'''
