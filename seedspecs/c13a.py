ID="c13-key-fallback-partial"
PROPERTY="C13"
PKG="."
EDITS=[("krypto431.go","""	for i := range runeSlices {
		written, err := crand.ReadRunes(*runeSlices[i])
		if err != nil || written != len(*runeSlices[i]) {
			if err != nil {
				fmt.Fprintln(os.Stderr, err.Error())
			}
			if written""","""	for i := range runeSlices {
		written, err := crand.ReadRunes(*runeSlices[i])
		if written != len(*runeSlices[i]) {
			if err != nil {
				fmt.Fprintln(os.Stderr, err.Error())
			}
			if written""")]
NEEDS="a key wiped while the random source fails (crand.ReadRunes reports the full length together with an error)"
BREAKS="the letters, id, comment and keepers of the key stay in memory when the random source fails"
DEMO='''package krypto431
import ("testing"; "errors"; cr "crypto/rand")
type dead struct{}
func (dead) Read([]byte) (int, error) { return 0, errors.New("no entropy") }
func TestDemo(t *testing.T) {
	r := cr.Reader
	defer func() { cr.Reader = r }()
	letters := []rune("QWERTYUIOPASDFGHJKL")
	k := Key{Runes: letters, Id: []rune("ABCDE")}
	cr.Reader = dead{}
	k.Wipe()
	cr.Reader = r
	for i, c := range letters {
		if c != 0 { t.Fatalf("letter %d still %c", i, c) }
	}
}
'''
