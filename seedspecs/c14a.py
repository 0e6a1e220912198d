ID="c14-salt-decoded-in-place"; PROPERTY="C14"; PKG="."
EDITS=[("persistence.go","	byteSalt, err := hex.DecodeString(salt)\n	if err != nil {\n		return err\n	}\n	if len(byteSalt) < MinimumSaltLength {","	if k.salt != nil && len(*k.salt) >= MinimumSaltLength && hex.DecodedLen(len(salt)) == len(*k.salt) {\n		// Same length as the current salt, reuse its memory.\n		_, err := hex.Decode(*k.salt, []byte(salt))\n		return err\n	}\n	byteSalt, err := hex.DecodeString(salt)\n	if err != nil {\n		return err\n	}\n	if len(byteSalt) < MinimumSaltLength {")]
NEEDS="an instance with a salt, and a hex string of the same length with an invalid digit after the first bytes"
BREAKS="a refused salt string changes the salt already set"
DEMO='''package krypto431
import ("testing";"strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	before := k.GetSaltString()
	if err := k.SetSaltFromString(strings.Repeat("ab", 31) + "zz"); err == nil {
		t.Fatal("accepted")
	}
	if k.GetSaltString() != before {
		t.Fatalf("salt changed to %s", k.GetSaltString())
	}
}
'''
