ID="c14-password-kept-without-salt"; PROPERTY="C14"; PKG="."
EDITS=[("persistence.go","	defer WipeBytes(password)\n	if k.salt == nil {\n		return ErrNoSalt\n	}\n	if len(*k.salt) < MinimumSaltLength {\n		return ErrTooShortSalt\n	}\n	err := passwordvalidator","	if k.salt == nil {\n		return ErrNoSalt\n	}\n	if len(*k.salt) < MinimumSaltLength {\n		return ErrTooShortSalt\n	}\n	defer WipeBytes(password)\n	err := passwordvalidator")]
NEEDS="an instance without a usable salt"
BREAKS="the password is not wiped when the salt is refused"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	short := []byte("short")
	k := New(WithCallSign("ME"), WithSalt(&short))
	a := []byte("q8!Zr#vT0pLw%Ks7-Mx&")
	if err := k.DerivePFKFromPasswordWithValidation(&a); err == nil {
		t.Fatal("accepted")
	}
	if string(a) != "" {
		t.Fatalf("password left: %q", a)
	}
}
'''
