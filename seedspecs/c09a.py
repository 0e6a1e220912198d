ID="c09-size-rounded-down"
PROPERTY="C09"
PKG="."
EDITS=[("keys.go","make([]rune, int(int(math.Ceil(float64(k.KeyLength)/float64(k.GroupSize)))*k.GroupSize))","make([]rune, int(math.Ceil(float64(k.KeyLength/k.GroupSize)))*k.GroupSize)")]
NEEDS="a key length that is not a multiple of the group size"
BREAKS="the key length is rounded down to whole groups: the integer division happens before the rounding"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"), WithGroupSize(5), WithKeyLength(352))
	if err := k.GenerateKeys(1, nil); err != nil { t.Fatal(err) }
	if n := len(k.Keys[0].Runes); n != 355 { t.Fatalf("%d letters, want 355", n) }
}
'''
