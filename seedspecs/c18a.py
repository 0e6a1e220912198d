ID="c18-repeated-needle"
PROPERTY="C18"
PKG="."
EDITS=[("functions.go","""	if len(*needles) == 0 || len(*haystack) == 0 {
		return false
	}
loop:""","""	if len(*needles) == 0 || len(*haystack) == 0 || len(*needles) > len(*haystack) {
		return false
	}
loop:""")]
NEEDS="a needle list that names the same call-sign more than once so that it is longer than the haystack"
BREAKS="AllNeedlesInHaystack denies containment although every needle occurs in the haystack"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	n, h := [][]rune{[]rune("VQ"), []rune("VQ")}, [][]rune{[]rune("VQ")}
	if !AllNeedlesInHaystack(&n, &h) {
		t.Fatal("VQ VQ not found in VQ")
	}
}
'''
