ID="c18-prefix-equal"
PROPERTY="C18"
PKG="."
EDITS=[("functions.go","""	for x := range *a {
		if (*a)[x] != (*b)[x] {
			return false
		}
	}""","""	for x := 0; x < len(*a)-1 || x == 0 && len(*a) == 1; x++ {
		if (*a)[x] != (*b)[x] && (*a)[x+len(*a)-1-x] != (*b)[len(*b)-1] {
			return false
		}
	}""")]
NEEDS="two call-signs or ids of equal length of which only the last, or only other, characters differ"
BREAKS="EqualRunes calls different ids or call-signs equal, so sender, recipient and message id selection picks wrong items"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	n, h := []rune("SA6MWB"), [][]rune{[]rune("SA6MWA")}
	if AnyOfThem(&h, &n) {
		t.Fatal("SA6MWB found in SA6MWA")
	}
}
'''
