ID="c14-password-trimmed"; PROPERTY="C14"; PKG="."
EDITS=[("persistence.go","	err := passwordvalidator.Validate(string(*password), MinimumPasswordEntropyBits)\n	if err != nil {\n		return err\n	}\n	dk := pbkdf2.Key(*password, *k.salt,","	err := passwordvalidator.Validate(string(*password), MinimumPasswordEntropyBits)\n	if err != nil {\n		return err\n	}\n	secret := *password\n	if n := len(secret); n > 0 && secret[n-1] == '\\n' {\n		secret = secret[:n-1]\n	}\n	dk := pbkdf2.Key(secret, *k.salt,")]
NEEDS="a password that ends in a newline, set with validation"
BREAKS="the key set with validation is not the one derived without"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	a, b := []byte("q8!Zr#vT0pLw%Ks7-Mx&\\n"), []byte("q8!Zr#vT0pLw%Ks7-Mx&\\n")
	if err := k.DerivePFKFromPassword(&a); err != nil {
		t.Fatal(err)
	}
	want := k.GetPFKString()
	if err := k.DerivePFKFromPasswordWithValidation(&b); err != nil {
		t.Fatal(err)
	}
	if k.GetPFKString() != want {
		t.Fatalf("%s, want %s", k.GetPFKString(), want)
	}
}
'''
