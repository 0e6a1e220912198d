// Wiping (krypto431.go, crand).  rnd: position in the stream of the operating system's generator.
ghost rnd Int

smt junkblk {{
; rndval p: the value the generator yields at position p
(declare-fun rndval (Int) Int)
; junk v p: v is zero or was drawn from the generator at position p or later
(declare-fun junk (Int Int) Bool)
(assert (forall ((p Int)) (! (junk 0 p) :pattern ((junk 0 p)))))
(assert (forall ((q Int) (p Int)) (! (=> (<= p q) (junk (rndval q) p)) :pattern ((junk (rndval q) p)))))
(assert (forall ((v Int) (q Int) (p Int)) (! (=> (and (<= p q) (junk v q)) (junk v p)) :pattern ((junk v q) (junk v p)))))
}}

trusted func encoding/binary.Read@*[]rune {
  modifies (*box)[:], rnd
  ensures rnd >= old(rnd)
  ensures err == nil ==> forall i :: 0 <= i && i < len(*box) ==> (*box)[i] == rndval(old(rnd) + i)
}
trusted func encoding/binary.Read@*[]byte {
  modifies (*box)[:], rnd
  ensures rnd >= old(rnd)
  ensures err == nil ==> forall i :: 0 <= i && i < len(*box) ==> (*box)[i] == rndval(old(rnd) + i)
}

define scrambled(s int, p int) = forall i :: 0 <= i && i < len(s) ==> junk(s[i], p)

// element j of s lies in the part of c, from y on, that is about to be zeroed
define pending(s int, j int, c int, y int) = blk(s) == blk(c) && off(c) + y <= off(s) + j && off(s) + j < off(c) + len(c)
define nearly(s int, p int, c int, y int) = forall j :: 0 <= j && j < len(s) ==> junk(s[j], p) || pending(s, j, c, y)

func crand.ReadRunes {
  safety [C13]
  modifies p[:], rnd
  ensures rnd >= old(rnd)
  ensures count: n == len(p)
  ensures filled: err == nil ==> scrambled(p, old(rnd))
}
func crand.Read {
  safety [C13]
  modifies p[:], rnd
  ensures rnd >= old(rnd)
  ensures count: n == len(p)
  ensures filled: err == nil ==> scrambled(p, old(rnd))
}

func krypto431.Wipe {
  safety [C13]
  modifies *b, (*b)[:], rnd
  ensures nil_error: b == nil ==> err != nil
  ensures rnd >= old(rnd)
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> scrambled(old(*b), old(rnd))
}
func krypto431.RandomWipe {
  safety [C13]
  modifies *b, (*b)[:], rnd
  ensures nil_error: b == nil ==> err != nil
  ensures rnd >= old(rnd)
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> scrambled(old(*b), old(rnd))
}
func krypto431.ZeroWipe {
  safety [C13]
  modifies *b, (*b)[:]
  ensures nil_error: b == nil <==> err != nil
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> forall i :: 0 <= i && i < old(len(*b)) ==> old(*b)[i] == 0
  loop 1
    invariant unchanged(*b)
    invariant forall i :: 0 <= i && i < $n ==> (*b)[i] == 0
}
func krypto431.WipeBytes {
  safety [C13]
  modifies *b, (*b)[:], rnd
  ensures nil_error: b == nil ==> err != nil
  ensures rnd >= old(rnd)
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> scrambled(old(*b), old(rnd))
}
func krypto431.RandomWipeBytes {
  safety [C13]
  modifies *b, (*b)[:], rnd
  ensures nil_error: b == nil ==> err != nil
  ensures rnd >= old(rnd)
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> scrambled(old(*b), old(rnd))
}
func krypto431.ZeroWipeBytes {
  safety [C13]
  modifies *b, (*b)[:]
  ensures nil_error: b == nil <==> err != nil
  ensures dropped: b != nil ==> *b == nil
  ensures overwritten: b != nil ==> forall i :: 0 <= i && i < old(len(*b)) ==> old(*b)[i] == 0
  loop 1
    invariant unchanged(*b)
    invariant forall i :: 0 <= i && i < $n ==> (*b)[i] == 0
}

property C13 {
  root crand.ReadRunes
  root crand.Read
  root krypto431.Wipe
  root krypto431.RandomWipe
  root krypto431.ZeroWipe
  root krypto431.WipeBytes
  root krypto431.RandomWipeBytes
  root krypto431.ZeroWipeBytes
}

// Keys.  drop-list: letters, id, comment and every keeper.
func (*krypto431.Key).RandomWipe {
  safety [C13]
  requires k != nil
  modifies k.Runes, k.Id, k.Comment, k.Keepers, k.Runes[:], k.Id[:], k.Comment[:], k.Keepers[:], k.Keepers[:][:], rnd
  ensures rnd >= old(rnd)
  ensures no_error: err == nil
  ensures dropped: k.Runes == nil && k.Id == nil && k.Comment == nil
  ensures keepers_dropped: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> old(k.Keepers)[i] == nil
  ensures letters: scrambled(old(k.Runes), old(rnd))
  ensures id: scrambled(old(k.Id), old(rnd))
  ensures comment: scrambled(old(k.Comment), old(rnd))
  ensures keepers: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> scrambled(old(k.Keepers[i]), old(rnd))
  loop 1
    invariant fresh(runeSlices) && len(runeSlices) == 3 + $n
    invariant runeSlices[0] == &k.Runes && runeSlices[1] == &k.Comment && runeSlices[2] == &k.Id
    invariant forall i :: 0 <= i && i < $n ==> runeSlices[3 + i] == &k.Keepers[i]
  loop 2
    invariant rnd >= old(rnd) && unchanged(k.Keepers)
    invariant ($n > 0 ==> k.Runes == nil) && ($n <= 0 ==> unchanged(k.Runes))
    invariant ($n > 1 ==> k.Comment == nil) && ($n <= 1 ==> unchanged(k.Comment))
    invariant ($n > 2 ==> k.Id == nil) && ($n <= 2 ==> unchanged(k.Id))
    invariant forall i :: 0 <= i && i < len(k.Keepers) ==> (i + 3 < $n ==> k.Keepers[i] == nil) && (i + 3 >= $n ==> k.Keepers[i] == old(k.Keepers[i]))
    invariant $n > 0 ==> scrambled(old(k.Runes), old(rnd))
    invariant $n > 1 ==> scrambled(old(k.Comment), old(rnd))
    invariant $n > 2 ==> scrambled(old(k.Id), old(rnd))
    invariant forall i :: 0 <= i && i + 3 < $n && i < len(k.Keepers) ==> scrambled(old(k.Keepers[i]), old(rnd))
  loop 3
    invariant 0 <= y && forall j :: 0 <= j && j < y ==> (*runeSlices[i])[j] == 0
    invariant i > 0 ==> nearly(old(k.Runes), old(rnd), *runeSlices[i], y)
    invariant i > 1 ==> nearly(old(k.Comment), old(rnd), *runeSlices[i], y)
    invariant i > 2 ==> nearly(old(k.Id), old(rnd), *runeSlices[i], y)
    invariant forall q :: 0 <= q && q + 3 < i && q < len(k.Keepers) ==> nearly(old(k.Keepers[q]), old(rnd), *runeSlices[i], y)
}
func (*krypto431.Key).ZeroWipe {
  safety [C13]
  requires k != nil
  modifies k.Runes, k.Id, k.Comment, k.Keepers, k.Runes[:], k.Id[:], k.Comment[:], k.Keepers[:], k.Keepers[:][:]
  ensures no_error: err == nil
  ensures dropped: k.Runes == nil && k.Id == nil && k.Comment == nil
  ensures keepers_dropped: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> old(k.Keepers)[i] == nil
  ensures letters: scrambled(old(k.Runes), old(rnd))
  ensures id: scrambled(old(k.Id), old(rnd))
  ensures comment: scrambled(old(k.Comment), old(rnd))
  ensures keepers: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> scrambled(old(k.Keepers[i]), old(rnd))
  loop 1
    invariant 0 <= i && forall j :: 0 <= j && j < i ==> k.Runes[j] == 0
  loop 2
    invariant unchanged(k.Keepers)
    invariant scrambled(old(k.Runes), old(rnd))
    invariant forall i :: 0 <= i && i < len(k.Keepers) ==> (i < $n ==> k.Keepers[i] == nil) && (i >= $n ==> k.Keepers[i] == old(k.Keepers[i]))
    invariant forall i :: 0 <= i && i < $n ==> scrambled(old(k.Keepers[i]), old(rnd))
  loop 3
    invariant 0 <= i && forall j :: 0 <= j && j < i ==> k.Keepers[x][j] == 0
    invariant scrambled(old(k.Runes), old(rnd))
    invariant forall q :: 0 <= q && q < x ==> scrambled(old(k.Keepers[q]), old(rnd))
  loop 4
    invariant 0 <= i && forall j :: 0 <= j && j < i ==> k.Comment[j] == 0
    invariant scrambled(old(k.Runes), old(rnd))
    invariant forall q :: 0 <= q && q < old(len(k.Keepers)) ==> scrambled(old(k.Keepers[q]), old(rnd))
  loop 5
    invariant 0 <= i && forall j :: 0 <= j && j < i ==> k.Id[j] == 0
    invariant scrambled(old(k.Runes), old(rnd))
    invariant scrambled(old(k.Comment), old(rnd))
    invariant forall q :: 0 <= q && q < old(len(k.Keepers)) ==> scrambled(old(k.Keepers[q]), old(rnd))
}
property C13 {
  root (*krypto431.Key).RandomWipe
  root (*krypto431.Key).ZeroWipe
}

func (*krypto431.Key).Wipe {
  safety [C13]
  requires k != nil
  modifies k.Runes, k.Id, k.Comment, k.Keepers, k.Runes[:], k.Id[:], k.Comment[:], k.Keepers[:], k.Keepers[:][:], rnd
  ensures rnd >= old(rnd)
  ensures dropped: k.Runes == nil && k.Id == nil && k.Comment == nil
  ensures keepers_dropped: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> old(k.Keepers)[i] == nil
  ensures letters: scrambled(old(k.Runes), old(rnd))
  ensures id: scrambled(old(k.Id), old(rnd))
  ensures comment: scrambled(old(k.Comment), old(rnd))
  ensures keepers: forall i :: 0 <= i && i < old(len(k.Keepers)) ==> scrambled(old(k.Keepers[i]), old(rnd))
}

func (*krypto431.Message).RandomWipe {
  safety [C13]
  requires m != nil
  modifies m.PlainText, m.Binary, m.CipherText, m.Radiogram, m.KeyId, m.PlainText[:], m.Binary[:], m.CipherText[:], m.Radiogram[:], m.KeyId[:], rnd
  ensures rnd >= old(rnd)
  ensures dropped: m.PlainText == nil && m.Binary == nil && m.CipherText == nil && m.Radiogram == nil && m.KeyId == nil
  ensures plaintext: scrambled(old(m.PlainText), old(rnd))
  ensures binary: scrambled(old(m.Binary), old(rnd))
  ensures ciphertext: scrambled(old(m.CipherText), old(rnd))
  ensures radiogram: scrambled(old(m.Radiogram), old(rnd))
  ensures keyid: scrambled(old(m.KeyId), old(rnd))
  loop *
    invariant 0 <= i
  loop 1
    invariant forall j :: 0 <= j && j < i ==> m.PlainText[j] == 0
  loop 2
    invariant forall j :: 0 <= j && j < i ==> m.Binary[j] == 0
    invariant scrambled(old(m.PlainText), old(rnd))
  loop 3
    invariant forall j :: 0 <= j && j < i ==> m.CipherText[j] == 0
    invariant nearly(old(m.PlainText), old(rnd), m.CipherText, i)
    invariant scrambled(old(m.Binary), old(rnd))
  loop 4
    invariant forall j :: 0 <= j && j < i ==> m.Radiogram[j] == 0
    invariant nearly(old(m.PlainText), old(rnd), m.Radiogram, i)
    invariant scrambled(old(m.Binary), old(rnd))
    invariant nearly(old(m.CipherText), old(rnd), m.Radiogram, i)
  loop 5
    invariant forall j :: 0 <= j && j < i ==> m.KeyId[j] == 0
    invariant nearly(old(m.PlainText), old(rnd), m.KeyId, i)
    invariant scrambled(old(m.Binary), old(rnd))
    invariant nearly(old(m.CipherText), old(rnd), m.KeyId, i)
    invariant nearly(old(m.Radiogram), old(rnd), m.KeyId, i)
}
func (*krypto431.Message).ZeroWipe {
  safety [C13]
  requires m != nil
  modifies m.PlainText, m.Binary, m.CipherText, m.Radiogram, m.KeyId, m.PlainText[:], m.Binary[:], m.CipherText[:], m.Radiogram[:], m.KeyId[:]
  ensures dropped: m.PlainText == nil && m.Binary == nil && m.CipherText == nil && m.Radiogram == nil && m.KeyId == nil
  ensures plaintext: scrambled(old(m.PlainText), old(rnd))
  ensures binary: scrambled(old(m.Binary), old(rnd))
  ensures ciphertext: scrambled(old(m.CipherText), old(rnd))
  ensures radiogram: scrambled(old(m.Radiogram), old(rnd))
  ensures keyid: scrambled(old(m.KeyId), old(rnd))
  loop *
    invariant 0 <= i
  loop 1
    invariant forall j :: 0 <= j && j < i ==> m.PlainText[j] == 0
  loop 2
    invariant forall j :: 0 <= j && j < i ==> m.Binary[j] == 0
    invariant scrambled(old(m.PlainText), old(rnd))
  loop 3
    invariant forall j :: 0 <= j && j < i ==> m.CipherText[j] == 0
    invariant scrambled(old(m.PlainText), old(rnd))
    invariant scrambled(old(m.Binary), old(rnd))
  loop 4
    invariant forall j :: 0 <= j && j < i ==> m.Radiogram[j] == 0
    invariant scrambled(old(m.PlainText), old(rnd))
    invariant scrambled(old(m.Binary), old(rnd))
    invariant scrambled(old(m.CipherText), old(rnd))
  loop 5
    invariant forall j :: 0 <= j && j < i ==> m.KeyId[j] == 0
    invariant scrambled(old(m.PlainText), old(rnd))
    invariant scrambled(old(m.Binary), old(rnd))
    invariant scrambled(old(m.CipherText), old(rnd))
    invariant scrambled(old(m.Radiogram), old(rnd))
}
func (*krypto431.Message).Wipe {
  safety [C13]
  requires m != nil
  modifies m.PlainText, m.Binary, m.CipherText, m.Radiogram, m.KeyId, m.PlainText[:], m.Binary[:], m.CipherText[:], m.Radiogram[:], m.KeyId[:], rnd
  ensures rnd >= old(rnd)
  ensures dropped: m.PlainText == nil && m.Binary == nil && m.CipherText == nil && m.Radiogram == nil && m.KeyId == nil
  ensures plaintext: scrambled(old(m.PlainText), old(rnd))
  ensures binary: scrambled(old(m.Binary), old(rnd))
  ensures ciphertext: scrambled(old(m.CipherText), old(rnd))
  ensures radiogram: scrambled(old(m.Radiogram), old(rnd))
  ensures keyid: scrambled(old(m.KeyId), old(rnd))
}

func (*krypto431.chunk).RandomWipe {
  safety [C13]
  requires c != nil
  modifies c.key, c.encodedText, c.encodedText[:], rnd
  ensures rnd >= old(rnd)
  ensures dropped: c.encodedText == nil && c.key == nil
  ensures text: scrambled(old(c.encodedText), old(rnd))
  loop 1
    unroll 1
  loop 2
    invariant 0 <= y && forall j :: 0 <= j && j < y ==> c.encodedText[j] == 0
}
func (*krypto431.chunk).ZeroWipe {
  safety [C13]
  requires c != nil
  modifies c.key, c.encodedText, c.encodedText[:]
  ensures dropped: c.encodedText == nil && c.key == nil
  ensures text: scrambled(old(c.encodedText), old(rnd))
  loop 1
    invariant 0 <= i && forall j :: 0 <= j && j < i ==> c.encodedText[j] == 0
}
func (*krypto431.chunk).Wipe {
  safety [C13]
  requires c != nil
  modifies c.key, c.encodedText, c.encodedText[:], rnd
  ensures rnd >= old(rnd)
  ensures dropped: c.encodedText == nil && c.key == nil
  ensures text: scrambled(old(c.encodedText), old(rnd))
}

property C13 {
  root (*krypto431.Key).Wipe
  root (*krypto431.Message).RandomWipe
  root (*krypto431.Message).ZeroWipe
  root (*krypto431.Message).Wipe
  root (*krypto431.chunk).RandomWipe
  root (*krypto431.chunk).ZeroWipe
  root (*krypto431.chunk).Wipe
}

// The whole instance.  Keys and messages may share letters or keeper lists; whatever is wiped first
// stays wiped.
func (*krypto431.Krypto431).Wipe {
  safety [C13]
  requires k != nil
  use forall x :: 0 <= x && x < len(k.Keys) ==> valid(k.Keys[x].Runes) && valid(k.Keys[x].Id) && valid(k.Keys[x].Comment) && valid(k.Keys[x].Keepers)
  use forall x :: 0 <= x && x < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[x].Keepers) ==> valid(k.Keys[x].Keepers[j])
  use forall x :: 0 <= x && x < len(k.Messages) ==> valid(k.Messages[x].PlainText) && valid(k.Messages[x].CipherText) && valid(k.Messages[x].Radiogram) && valid(k.Messages[x].KeyId) && valid(k.Messages[x].Binary)
  modifies k.Keys, k.Messages, all("int32"), all("uint8"), all("slc:int32"), all("slc:uint8"), all("slc:[]rune"), rnd
  ensures rnd >= old(rnd)
  ensures dropped: k.Keys == nil && k.Messages == nil
  ensures key_letters: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Runes), old(rnd))
  ensures key_ids: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Id), old(rnd))
  ensures key_comments: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Comment), old(rnd))
  ensures key_keepers: forall x :: 0 <= x && x < old(len(k.Keys)) ==> forall j :: 0 <= j && j < old(len(k.Keys[x].Keepers)) ==> scrambled(old(k.Keys[x].Keepers[j]), old(rnd))
  ensures key_headers0: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Runes == nil
  ensures key_headers1: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Id == nil
  ensures key_headers2: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Comment == nil
  ensures msg_plaintext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].PlainText), old(rnd))
  ensures msg_ciphertext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].CipherText), old(rnd))
  ensures msg_radiogram: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].Radiogram), old(rnd))
  ensures msg_keyid: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].KeyId), old(rnd))
  ensures msg_binary: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].Binary), old(rnd))
  ensures msg_header_plaintext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].PlainText == nil
  ensures msg_header_ciphertext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].CipherText == nil
  ensures msg_header_radiogram: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].Radiogram == nil
  ensures msg_header_keyid: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].KeyId == nil
  ensures msg_header_binary: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].Binary == nil
  ensures persistence_key_dropped: k.persistenceKey != nil ==> *k.persistenceKey == nil
  ensures persistence_key: k.persistenceKey != nil ==> scrambled(old(*k.persistenceKey), old(rnd))
  ensures salt_dropped: k.salt != nil ==> *k.salt == nil
  ensures salt: k.salt != nil ==> scrambled(old(*k.salt), old(rnd))
  loop 1
    invariant rnd >= old(rnd) && unchanged(k.Keys, k.Messages)
    invariant persistence_key_kept: k.persistenceKey != nil ==> *k.persistenceKey == old(*k.persistenceKey) || *k.persistenceKey == nil && scrambled(old(*k.persistenceKey), old(rnd))
    invariant salt_kept: k.salt != nil ==> *k.salt == old(*k.salt) || *k.salt == nil && scrambled(old(*k.salt), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Keys[x].Runes), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Keys[x].Id), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Keys[x].Comment), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> forall j :: 0 <= j && j < old(len(k.Keys[x].Keepers)) ==> scrambled(old(k.Keys[x].Keepers[j]), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> old(k.Keys)[x].Runes == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Keys)[x].Id == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Keys)[x].Comment == nil
    invariant forall x :: $n <= x && x < old(len(k.Keys)) ==> k.Keys[x].Runes == old(k.Keys[x].Runes)
    invariant forall x :: $n <= x && x < old(len(k.Keys)) ==> k.Keys[x].Id == old(k.Keys[x].Id)
    invariant forall x :: $n <= x && x < old(len(k.Keys)) ==> k.Keys[x].Comment == old(k.Keys[x].Comment)
    invariant forall x :: $n <= x && x < old(len(k.Keys)) ==> k.Keys[x].Keepers == old(k.Keys[x].Keepers)
    invariant forall x :: $n <= x && x < len(k.Keys) ==> forall j :: 0 <= j && j < old(len(k.Keys[x].Keepers)) ==>
    |  old(k.Keys[x].Keepers)[j] == old(k.Keys[x].Keepers[j]) || old(k.Keys[x].Keepers)[j] == nil && scrambled(old(k.Keys[x].Keepers[j]), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Messages)) ==> k.Messages[x].PlainText == old(k.Messages[x].PlainText)
    invariant forall x :: 0 <= x && x < old(len(k.Messages)) ==> k.Messages[x].CipherText == old(k.Messages[x].CipherText)
    invariant forall x :: 0 <= x && x < old(len(k.Messages)) ==> k.Messages[x].Radiogram == old(k.Messages[x].Radiogram)
    invariant forall x :: 0 <= x && x < old(len(k.Messages)) ==> k.Messages[x].KeyId == old(k.Messages[x].KeyId)
    invariant forall x :: 0 <= x && x < old(len(k.Messages)) ==> k.Messages[x].Binary == old(k.Messages[x].Binary)
  loop 2
    invariant rnd >= old(rnd) && unchanged(k.Messages)
    invariant persistence_key_kept: k.persistenceKey != nil ==> *k.persistenceKey == old(*k.persistenceKey) || *k.persistenceKey == nil && scrambled(old(*k.persistenceKey), old(rnd))
    invariant salt_kept: k.salt != nil ==> *k.salt == old(*k.salt) || *k.salt == nil && scrambled(old(*k.salt), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Runes), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Id), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Comment), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> forall j :: 0 <= j && j < old(len(k.Keys[x].Keepers)) ==> scrambled(old(k.Keys[x].Keepers[j]), old(rnd))
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Runes == nil
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Id == nil
    invariant forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Comment == nil
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Messages[x].PlainText), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Messages[x].CipherText), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Messages[x].Radiogram), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Messages[x].KeyId), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> scrambled(old(k.Messages[x].Binary), old(rnd))
    invariant forall x :: 0 <= x && x < $n ==> old(k.Messages)[x].PlainText == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Messages)[x].CipherText == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Messages)[x].Radiogram == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Messages)[x].KeyId == nil
    invariant forall x :: 0 <= x && x < $n ==> old(k.Messages)[x].Binary == nil
    invariant forall x :: $n <= x && x < old(len(k.Messages)) ==> k.Messages[x].PlainText == old(k.Messages[x].PlainText)
    invariant forall x :: $n <= x && x < old(len(k.Messages)) ==> k.Messages[x].CipherText == old(k.Messages[x].CipherText)
    invariant forall x :: $n <= x && x < old(len(k.Messages)) ==> k.Messages[x].Radiogram == old(k.Messages[x].Radiogram)
    invariant forall x :: $n <= x && x < old(len(k.Messages)) ==> k.Messages[x].KeyId == old(k.Messages[x].KeyId)
    invariant forall x :: $n <= x && x < old(len(k.Messages)) ==> k.Messages[x].Binary == old(k.Messages[x].Binary)
}
func (*krypto431.Krypto431).Close {
  safety [C13]
  requires k != nil
  use forall x :: 0 <= x && x < len(k.Keys) ==> valid(k.Keys[x].Runes) && valid(k.Keys[x].Id) && valid(k.Keys[x].Comment) && valid(k.Keys[x].Keepers)
  use forall x :: 0 <= x && x < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[x].Keepers) ==> valid(k.Keys[x].Keepers[j])
  use forall x :: 0 <= x && x < len(k.Messages) ==> valid(k.Messages[x].PlainText) && valid(k.Messages[x].CipherText) && valid(k.Messages[x].Radiogram) && valid(k.Messages[x].KeyId) && valid(k.Messages[x].Binary)
  modifies k.Keys, k.Messages, all("int32"), all("uint8"), all("slc:int32"), all("slc:uint8"), all("slc:[]rune"), rnd
  ensures rnd >= old(rnd)
  ensures dropped: k.Keys == nil && k.Messages == nil
  ensures key_letters: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Runes), old(rnd))
  ensures key_ids: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Id), old(rnd))
  ensures key_comments: forall x :: 0 <= x && x < old(len(k.Keys)) ==> scrambled(old(k.Keys[x].Comment), old(rnd))
  ensures key_keepers: forall x :: 0 <= x && x < old(len(k.Keys)) ==> forall j :: 0 <= j && j < old(len(k.Keys[x].Keepers)) ==> scrambled(old(k.Keys[x].Keepers[j]), old(rnd))
  ensures key_headers0: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Runes == nil
  ensures key_headers1: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Id == nil
  ensures key_headers2: forall x :: 0 <= x && x < old(len(k.Keys)) ==> old(k.Keys)[x].Comment == nil
  ensures msg_plaintext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].PlainText), old(rnd))
  ensures msg_ciphertext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].CipherText), old(rnd))
  ensures msg_radiogram: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].Radiogram), old(rnd))
  ensures msg_keyid: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].KeyId), old(rnd))
  ensures msg_binary: forall x :: 0 <= x && x < old(len(k.Messages)) ==> scrambled(old(k.Messages[x].Binary), old(rnd))
  ensures msg_header_plaintext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].PlainText == nil
  ensures msg_header_ciphertext: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].CipherText == nil
  ensures msg_header_radiogram: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].Radiogram == nil
  ensures msg_header_keyid: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].KeyId == nil
  ensures msg_header_binary: forall x :: 0 <= x && x < old(len(k.Messages)) ==> old(k.Messages)[x].Binary == nil
  ensures persistence_key_dropped: k.persistenceKey != nil ==> *k.persistenceKey == nil
  ensures persistence_key: k.persistenceKey != nil ==> scrambled(old(*k.persistenceKey), old(rnd))
  ensures salt_dropped: k.salt != nil ==> *k.salt == nil
  ensures salt: k.salt != nil ==> scrambled(old(*k.salt), old(rnd))
}
property C13 {
  root (*krypto431.Krypto431).Wipe
  root (*krypto431.Krypto431).Close
}
