// Persistence file keys and salts (persistence.go, krypto431.go).
smt keyblk {{
; pbk pw pwoff pwlen salt saltoff saltlen iter keylen hash i: byte i of the PBKDF2 key
(declare-fun pbk ((Array Int Int) Int Int (Array Int Int) Int Int Int Int Int Int) Int)
}}
smt hexblk {{
(declare-fun hexok (Str) Bool)
(declare-fun hexlen (Str) Int)
(declare-fun hexb (Str Int) Int)
}}
smt bstrblk {{
(declare-fun bstr ((Array Int Int) Int Int) Str)
}}
trusted func golang.org/x/crypto/pbkdf2.Key {
  ensures fresh(result) && len(result) == keyLen
  ensures forall i :: 0 <= i && i < keyLen ==> result[i] == pbk(cont(password), off(password), len(password), cont(salt), off(salt), len(salt), iter, keyLen, h, i)
}
trusted func encoding/hex.DecodeString {
  ensures (result1 == nil) == hexok(s)
  ensures hexok(s) ==> 2 * hexlen(s) == blen(s)
  ensures result0 == nil || fresh(result0)
  ensures result1 == nil ==> len(result0) == hexlen(s) && forall i :: 0 <= i && i < len(result0) ==> result0[i] == hexb(s, i)
}

// the key k holds is the one PBKDF2 gives for the password and salt in the entry state
define saltset(k int) = k.salt != nil && len(*k.salt) >= 32
define apartfrom(k int, p int) = p == nil || p != k.salt && p != k.persistenceKey && (k.salt == nil || blk(*p) != blk(*k.salt) || blk(*p) == 0) && (k.persistenceKey == nil || blk(*p) != blk(*k.persistenceKey) || blk(*p) == 0)
define strong(p int) = ext("github.com/wagslane/go-password-validator.Validate", bstr(cont(*p), off(*p), len(*p)), MinimumPasswordEntropyBits) == nil

func (*krypto431.Krypto431).DerivePFKFromPassword {
  safety [C14]
  requires k != nil
  requires apartfrom(k, password)
  modifies *password, (*password)[:], k.persistenceKey, rnd
  ensures rnd >= old(rnd)
  ensures wiped: password != nil ==> *password == nil && scrambled(old(*password), old(rnd))
  ensures accepted: err == nil <==> password != nil && old(saltset(k))
  ensures refused: err != nil ==> k.persistenceKey == old(k.persistenceKey)
  ensures key: err == nil ==> fresh(k.persistenceKey) && fresh(*k.persistenceKey) && len(*k.persistenceKey) == 32
  ensures derived: err == nil ==> forall i :: 0 <= i && i < 32 ==> (*k.persistenceKey)[i] == old(pbk(cont(*password), off(*password), len(*password), cont(*k.salt), off(*k.salt), len(*k.salt), 310000, 32, fn("crypto/sha256.New"), i))
}
func (*krypto431.Krypto431).DerivePFKFromPasswordWithValidation {
  safety [C14]
  requires k != nil
  requires apartfrom(k, password)
  modifies *password, (*password)[:], k.persistenceKey, rnd
  ensures rnd >= old(rnd)
  ensures wiped: password != nil ==> *password == nil && scrambled(old(*password), old(rnd))
  ensures accepted: err == nil <==> password != nil && old(saltset(k) && strong(password))
  ensures refused: err != nil ==> k.persistenceKey == old(k.persistenceKey)
  ensures key: err == nil ==> fresh(k.persistenceKey) && fresh(*k.persistenceKey) && len(*k.persistenceKey) == 32
  ensures derived: err == nil ==> forall i :: 0 <= i && i < 32 ==> (*k.persistenceKey)[i] == old(pbk(cont(*password), off(*password), len(*password), cont(*k.salt), off(*k.salt), len(*k.salt), 310000, 32, fn("crypto/sha256.New"), i))
}
func (*krypto431.Krypto431).SetPFKFromPassword {
  safety [C14]
  requires k != nil
  use valid(k.salt) && valid(k.persistenceKey) && (k.salt == nil || valid(*k.salt)) && (k.persistenceKey == nil || valid(*k.persistenceKey))
  modifies k.persistenceKey, rnd
  ensures accepted: err == nil <==> old(saltset(k))
  ensures refused: err != nil ==> k.persistenceKey == old(k.persistenceKey)
  ensures key: err == nil ==> fresh(k.persistenceKey) && fresh(*k.persistenceKey) && len(*k.persistenceKey) == 32
  ensures derived: err == nil ==> forall i :: 0 <= i && i < 32 ==> (*k.persistenceKey)[i] == old(pbk(bytes(password), 0, blen(password), cont(*k.salt), off(*k.salt), len(*k.salt), 310000, 32, fn("crypto/sha256.New"), i))
}
func (*krypto431.Krypto431).SetSaltFromString {
  safety [C14]
  requires k != nil
  modifies k.salt, rnd
  ensures accepted: err == nil <==> hexok(salt) && hexlen(salt) >= 32
  ensures refused: err != nil ==> k.salt == old(k.salt)
  ensures taken: err == nil ==> fresh(k.salt) && fresh(*k.salt) && len(*k.salt) == hexlen(salt) && forall i :: 0 <= i && i < hexlen(salt) ==> (*k.salt)[i] == hexb(salt, i)
}
func (*krypto431.Krypto431).SetPFKFromString {
  safety [C14]
  requires k != nil
  modifies k.persistenceKey, rnd
  ensures accepted: err == nil <==> hexok(key) && hexlen(key) == 32
  ensures refused: err != nil ==> k.persistenceKey == old(k.persistenceKey)
  ensures taken: err == nil ==> fresh(k.persistenceKey) && fresh(*k.persistenceKey) && len(*k.persistenceKey) == 32 && forall i :: 0 <= i && i < 32 ==> (*k.persistenceKey)[i] == hexb(key, i)
}
// the options cannot return an error: what they refuse clears the setting
func krypto431.verifWithPFK {
  safety [C14]
  requires k != nil
  modifies k.persistenceKey
  ensures accepted: key != nil && len(*key) == 32 ==> k.persistenceKey == key
  ensures refused: key == nil || len(*key) != 32 ==> k.persistenceKey == nil
}
func krypto431.verifWithSalt {
  safety [C14]
  requires k != nil
  modifies k.salt
  ensures accepted: salt != nil && len(*salt) >= 32 ==> k.salt == salt
  ensures refused: salt == nil || len(*salt) < 32 ==> k.salt == nil
}
func krypto431.verifWithPFKString {
  safety [C14]
  requires k != nil
  modifies k.persistenceKey
  ensures refused: !hexok(key) || blen(key) != 64 ==> k.persistenceKey == nil
  ensures accepted: hexok(key) && blen(key) == 64 ==> fresh(k.persistenceKey) && fresh(*k.persistenceKey) && len(*k.persistenceKey) == 32 && forall i :: 0 <= i && i < 32 ==> (*k.persistenceKey)[i] == hexb(key, i)
}
func krypto431.verifWithSaltString {
  safety [C14]
  requires k != nil
  modifies k.salt
  ensures refused: !hexok(salt) || hexlen(salt) < 32 ==> k.salt == nil
  ensures accepted: hexok(salt) && hexlen(salt) >= 32 ==> fresh(k.salt) && fresh(*k.salt) && len(*k.salt) == hexlen(salt) && forall i :: 0 <= i && i < hexlen(salt) ==> (*k.salt)[i] == hexb(salt, i)
}
property C14 {
  root (*krypto431.Krypto431).DerivePFKFromPassword
  root (*krypto431.Krypto431).DerivePFKFromPasswordWithValidation
  root (*krypto431.Krypto431).SetPFKFromPassword
  root (*krypto431.Krypto431).SetSaltFromString
  root (*krypto431.Krypto431).SetPFKFromString
  root krypto431.verifWithPFK
  root krypto431.verifWithSalt
  root krypto431.verifWithPFKString
  root krypto431.verifWithSaltString
}
