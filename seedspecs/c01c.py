ID="c01-zero-written-on-error"; PROPERTY="C01"; PKG="diana"
EDITS=[("diana/diana.go","func ZeroKeyByte(writeTo *byte, character *byte) error {\n	return TrigraphByte(writeTo, character, character)","func ZeroKeyByte(writeTo *byte, character *byte) error {\n	if character != nil && *character > 'Z' && writeTo != nil {\n		*writeTo = 0\n	}\n	return TrigraphByte(writeTo, character, character)")]
NEEDS="a character above Z passed to ZeroKeyByte and a caller that looks at the output after the error"
BREAKS="the output is overwritten although an error is returned"
DEMO='''package diana
import "testing"
func TestDemo(t *testing.T) {
	w, c := byte('Q'), byte('a')
	if err := ZeroKeyByte(&w, &c); err == nil || w != 'Q' {
		t.Fatalf("err %v wrote %d", err, w)
	}
}
'''
