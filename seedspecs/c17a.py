ID="c17-block-mixed-length"
PROPERTY="C17"
PKG="."
EDITS=[("functions.go","""				if columns > 0 && outCount >= columns-groupsize-1 {""","""				if columns > 0 && outCount > columns-groupsize {""")]
NEEDS="block form with a number of columns for which the last group that fits exactly fills the line plus one separator"
BREAKS="a line of a grouped block becomes longer than the configured number of columns"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	for c := 5; c < 40; c++ {
		k := New(WithCallSign("ME")); k.KeyColumns = c
		key := Key{Runes: []rune(strings.Repeat("ABCDE", 20)), instance: &k}
		b, err := key.GroupsBlock()
		if err != nil { t.Fatal(err) }
		for _, l := range strings.Split(string(*b), "\\n") {
			if len(l) > c { t.Fatalf("%d columns: line %q", c, l) }
		}
	}
}
'''
