ID="c10-unknown-stops"
PROPERTY="C10"
PKG="."
EDITS=[("keys.go","""	for x := range keyIds {
		for i := range k.Keys {
			if EqualRunesFold(&k.Keys[i].Id, &keyIds[x]) {
				k.Keys[i].Wipe()
				k.Keys[i] = k.Keys[len(k.Keys)-1]
				k.Keys = k.Keys[:len(k.Keys)-1]
				deleted++
				break
			}
		}
	}
""","""	for x := range keyIds {
		before := deleted
		for i := range k.Keys {
			if EqualRunesFold(&k.Keys[i].Id, &keyIds[x]) {
				k.Keys[i].Wipe()
				k.Keys[i] = k.Keys[len(k.Keys)-1]
				k.Keys = k.Keys[:len(k.Keys)-1]
				deleted++
				break
			}
		}
		if deleted == before && x > 0 {
			break
		}
	}
""")]
NEEDS="a list of ids with an unknown id that is neither the first nor the last"
BREAKS="keys named after an unknown id are not deleted"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA")}, {Id: []rune("BBBBB")}, {Id: []rune("CCCCC")}}
	n, err := k.DeleteKeyByString("AAAAA,ZZZZZ,CCCCC")
	if n != 2 || err != nil || len(k.Keys) != 1 { t.Fatal(n, err, len(k.Keys)) }
}
'''
