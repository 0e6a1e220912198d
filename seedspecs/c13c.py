ID="c13-keepers-shared-wipe"
PROPERTY="C13"
PKG="."
EDITS=[("krypto431.go","""	runeSlices := []*[]rune{&k.Runes, &k.Comment, &k.Id}
	for i := range k.Keepers {
		runeSlices = append(runeSlices, &k.Keepers[i])
	}
""","""	runeSlices := []*[]rune{&k.Runes, &k.Comment, &k.Id}
	for i := range k.Keepers {
		// one-letter call-signs tell nothing
		if keeper := k.Keepers[i]; len(keeper) > 1 {
			runeSlices = append(runeSlices, &keeper)
		}
	}
	k.Keepers = nil
""")]
NEEDS="a keeper of one letter"
BREAKS="a keeper consisting of one letter survives the wiping of its key"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	kp := []rune("Q")
	k := Key{Runes: []rune("ABC"), Keepers: [][]rune{[]rune("VQ"), kp}}
	k.Wipe()
	if kp[0] == 'Q' { t.Fatal("keeper survives") }
}
'''
