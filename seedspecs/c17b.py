ID="c17-trailing-separator"
PROPERTY="C17"
PKG="."
EDITS=[("functions.go","""			if i != len(*input)-1 {
				if columns > 0 && outCount >= columns-groupsize-1 {
					output = append(output, []rune(LineBreak)...)
					outCount = 0
				} else {
""","""			last := i == len(*input)-1
			if !last || (columns > 0 && outCount >= columns-groupsize-1) {
				if columns > 0 && outCount >= columns-groupsize-1 {
					output = append(output, []rune(LineBreak)...)
					outCount = 0
				} else {
""")]
NEEDS="block form where the last full group ends a line"
BREAKS="a line break is appended after the last group"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME")); k.Columns = 12
	m := Message{CipherText: []rune("ABCDEFGHIJ"), instance: &k}
	b, err := m.GroupsBlock()
	if err != nil { t.Fatal(err) }
	n := 0
	for _, c := range *b { if c == ' ' || c == '\\n' { n++ } }
	if n != 1 { t.Fatalf("%q", string(*b)) }
}
'''
