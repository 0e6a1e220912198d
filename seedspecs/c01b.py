ID="c01-index-advances-on-failure"; PROPERTY="C01"; PKG="diana"
EDITS=[("diana/diana.go","	err := TrigraphByte(&b, character, &(*key)[*keyIndex])\n	if err != nil {","	keyLetter := &(*key)[*keyIndex]\n	*keyIndex++\n	err := TrigraphByte(&b, character, keyLetter)\n	if err != nil {"),
("diana/diana.go","	b = 0\n	*keyIndex++\n	return nil","	b = 0\n	return nil")]
NEEDS="a character or key letter outside A-Z at a valid index"
BREAKS="the index advances although appending failed"
DEMO='''package diana
import "testing"
func TestDemo(t *testing.T) {
	out, c, key, i := []byte("XX"), byte('a'), []byte("KEY"), 1
	if err := AppendTrigraphByteByKey(&out, &c, &key, &i); err == nil || i != 1 {
		t.Fatalf("err %v index %d", err, i)
	}
}
'''
