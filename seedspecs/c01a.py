ID="c01-rune-range-truncated"; PROPERTY="C01"; PKG="diana"
EDITS=[("diana/diana.go","	if (*x < 'A' || *x > 'Z') || (*y < 'A' || *y > 'Z') {\n		return fmt.Errorf(\"trigraph: %w\", ErrOutOfRange)\n	}\n	// DIANA algorithm: (25 - x - y) % 26 = third letter, i.e trigraph.\n	// A rune is","	outside := func(c byte) bool { return c < 'A' || c > 'Z' }\n	if outside(byte(*x)) || outside(byte(*y)) {\n		return fmt.Errorf(\"trigraph: %w\", ErrOutOfRange)\n	}\n	// DIANA algorithm: (25 - x - y) % 26 = third letter, i.e trigraph.\n	// A rune is")]
NEEDS="a rune above 255 whose low byte is an upper case letter"
BREAKS="TrigraphRune accepts characters outside A-Z"
DEMO='''package diana
import "testing"
func TestDemo(t *testing.T) {
	w, x, y := rune('q'), rune(0x141), rune('B')
	if err := TrigraphRune(&w, &x, &y); err == nil || w != 'q' {
		t.Fatalf("TrigraphRune accepted U+0141: wrote %q err %v", w, err)
	}
}
'''
