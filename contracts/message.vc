// Whole messages: choosing keys, enciphering, deciphering and filing (cipher.go, messages.go).

func krypto431.RandomAlnumRunes {
  safety [C20]
  requires n >= 0
  modifies rnd
  ensures rnd >= old(rnd)
  ensures own_storage: fresh(result) && off(result) == 0 && len(result) == n
  ensures alphanumeric: forall i :: 0 <= i && i < n ==> alnum(result[i])
  loop 1
    invariant rnd >= old(rnd) && fresh(id) && len(id) == n
    invariant forall i :: 0 <= i && i < $n ==> alnum(id[i])
}
define alnum(c int) = 48 <= c && c <= 57 || 65 <= c && c <= 90 || 97 <= c && c <= 122
func (*krypto431.Krypto431).ContainsMessageId {
  safety [C20]
  requires k != nil
  ensures exact: result <==> msgId != nil && exists i :: 0 <= i && i < len(k.Messages) && req(k.Messages[i].Id, *msgId)
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !req(k.Messages[i].Id, *msgId)
}
func (*krypto431.Krypto431).NewUniqueMessageId {
  safety [C20]
  requires k != nil
  modifies rnd
  ensures rnd >= old(rnd)
  ensures own_storage: fresh(result) && off(result) == 0 && len(result) == 4
  ensures alphanumeric: forall i :: 0 <= i && i < 4 ==> alnum(result[i])
  ensures unique: forall i :: 0 <= i && i < len(k.Messages) ==> !req(k.Messages[i].Id, result)
  loop 1
    invariant rnd >= old(rnd)
}

// ks j: the index of the j-th key in use by a message; kpos i: the first position of key i there, or -1
ghost ks (Array Int Int)
ghost kpos (Array Int Int)
ghost kn Int
smt noneblk {{
(declare-const nonearr (Array Int Int))
(assert (forall ((i Int)) (! (= (select nonearr i) (- 1)) :pattern ((select nonearr i)))))
}}
// the text t shares no storage with the keys of m's store, nor with another text of m
define offkeys(k int, t int) = t == nil || (forall i :: 0 <= i && i < len(k.Keys) ==> blk(k.Keys[i].Id) != blk(t) && blk(k.Keys[i].Runes) != blk(t))
func (*krypto431.Message).Decipher {
  merge all
  safety [C08]
  requires m != nil && m.instance != nil && m.instance.GroupSize > 0
  requires offkeys(m.instance, m.PlainText)
  requires m.PlainText == nil || blk(m.PlainText) != blk(m.CipherText) && blk(m.PlainText) != blk(m.KeyId)
  use forall i :: 0 <= i && i < len(m.instance.Keys) ==> valid(m.instance.Keys[i].Id) && valid(m.instance.Keys[i].Runes)
  modifies m.Id, m.PlainText, m.PlainText[:], m.instance.Keys[:].Used, rnd, ks, kpos, kn
  init kn = 0
  init kpos = nonearr
  ensures rnd >= old(rnd)
  ensures [C20] keepsid: old(len(m.Id)) > 0 ==> unchanged(m.Id)
  ensures failed_marks_nothing: err != nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  ensures marks_exactly: err == nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == (old(m.instance.Keys[i].Used) || kpos[i] >= 0)
  ensures stack: err == nil ==> kn > 0 && forall j :: 0 <= j && j < kn ==> 0 <= ks[j] && ks[j] < len(m.instance.Keys) && 0 <= kpos[ks[j]] && kpos[ks[j]] <= j
  ensures positions: err == nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] < kn && (kpos[i] >= 0 ==> ks[kpos[i]] == i)
  ensures first: err == nil ==> idnamed(m.instance.Keys[ks[0]].Id, idtext(m.KeyId))
  ensures text: m.PlainText == nil || blk(m.PlainText) == old(blk(m.PlainText)) || fresh(m.PlainText)
  loop 1
    init ks = upd(ks, 0, pushed(m.instance, keyPtr))
    init kpos = upd(kpos, pushed(m.instance, keyPtr), 0)
    invariant rnd >= old(rnd) && okstate(state) && fresh(state) && fresh(keyStack) && off(keyStack) == 0
    invariant [C20] keepsid: old(len(m.Id)) > 0 ==> unchanged(m.Id)
    invariant textown: m.PlainText == nil || fresh(m.PlainText)
    invariant nextown: nextKey == nil || blk(nextKey) == entry(blk(nextKey)) || freshloop(nextKey)
    invariant apart: m.PlainText == nil || blk(nextKey) != blk(m.PlainText)
    invariant current: 0 <= pushed(m.instance, keyPtr) && pushed(m.instance, keyPtr) < len(m.instance.Keys) && keyPtr == &m.instance.Keys[pushed(m.instance, keyPtr)] && 0 <= keyIndexCounter
    invariant notyet: !markKeysUsed
    invariant stack_range: len(keyStack) > 0 && forall j :: 0 <= j && j < len(keyStack) ==> 0 <= ks[j] && ks[j] < len(m.instance.Keys) && 0 <= kpos[ks[j]] && kpos[ks[j]] <= j
    invariant stack_is: forall j :: 0 <= j && j < len(keyStack) ==> keyStack[j] == &m.instance.Keys[ks[j]]
    invariant stack_positions: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] < len(keyStack) && (kpos[i] >= 0 ==> ks[kpos[i]] == i)
    invariant first: idnamed(m.instance.Keys[ks[0]].Id, idtext(m.KeyId))
    step ks = ite(len(keyStack) > head(len(keyStack)), upd(ks, len(keyStack)-1, pushed(m.instance, keyPtr)), ks)
    step kpos = ite(len(keyStack) > head(len(keyStack)) && kpos[pushed(m.instance, keyPtr)] < 0, upd(kpos, pushed(m.instance, keyPtr), len(keyStack)-1), kpos)
    exit kn = len(keyStack)
}
func (*krypto431.Message).Decipher@func() {
  inline
  loop 1
    invariant forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == (old(m.instance.Keys[i].Used) || 0 <= kpos[i] && kpos[i] < $n)
}
// the store's flags and the message's texts are as before the call
func (*krypto431.Message).TryDecipherPlainText {
  merge all
  safety [C08]
  requires m != nil && m.instance != nil && m.instance.GroupSize > 0
  requires offkeys(m.instance, m.PlainText)
  use valid(m.PlainText) && valid(m.CipherText) && valid(m.KeyId)
  use forall i :: 0 <= i && i < len(m.instance.Keys) ==> valid(m.instance.Keys[i].Id) && valid(m.instance.Keys[i].Runes)
  modifies m.Id, m.PlainText, m.CipherText, m.KeyId, m.PlainText[:], m.instance.Keys[:].Used, rnd, ks, kpos, kn
  let dry = len(dryrun) > 0 && dryrun[0]
  ensures rnd >= old(rnd)
  ensures [C20] keepsid: old(len(m.Id)) > 0 ==> unchanged(m.Id)
  ensures failed_marks_nothing: err != nil || dry ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  ensures failed_keeps_text: err != nil || dry ==> eqr(cont(m.PlainText), off(m.PlainText), len(m.PlainText), old(cont(m.PlainText)), old(off(m.PlainText)), old(len(m.PlainText)))
  ensures failed_keeps_ciphertext: err != nil || dry ==> eqr(cont(m.CipherText), off(m.CipherText), len(m.CipherText), old(cont(m.CipherText)), old(off(m.CipherText)), old(len(m.CipherText)))
  ensures failed_keeps_keyid: err != nil || dry ==> len(m.KeyId) == old(len(m.KeyId)) && (old(len(m.KeyId)) > 0 ==> unchanged(m.KeyId))
  ensures only_without_key: err == nil ==> old(len(m.KeyId)) == 0
  ensures marks_exactly: err == nil && !dry ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == (old(m.instance.Keys[i].Used) || kpos[i] >= 0)
  ensures stack: err == nil && !dry ==> kn > 0 && forall j :: 0 <= j && j < kn ==> 0 <= ks[j] && ks[j] < len(m.instance.Keys) && 0 <= kpos[ks[j]] && kpos[ks[j]] <= j
  ensures positions: err == nil && !dry ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] < kn && (kpos[i] >= 0 ==> ks[kpos[i]] == i)
  ensures first: err == nil && !dry ==> idnamed(m.instance.Keys[ks[0]].Id, idtext(m.KeyId))
  ensures text_storage: m.PlainText == nil || blk(m.PlainText) == old(blk(m.PlainText)) || fresh(m.PlainText)
  ensures cipher_storage: m.CipherText == nil || blk(m.CipherText) == old(blk(m.CipherText)) || fresh(m.CipherText)
  ensures keyid_storage: m.KeyId == nil || blk(m.KeyId) == old(blk(m.KeyId)) || fresh(m.KeyId)
  loop 1
    invariant filteredText == nil || fresh(filteredText)
}

// idat t: the index of the key with id text t.  canonical: ids are unique and in their canonical form
smt idatblk {{
(declare-fun idat (Str) Int)
}}
smt textof {{
; equal letters make equal text
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (d (Array Int Int)) (p Int) (m Int)) (! (=> (eqr c o n d p m) (= (mkstr c o n) (mkstr d p m))) :pattern ((eqr c o n d p m)))))
}}
define keyof(m int) = idat(idtext(m.KeyId))
define canonical(k int) = forall i :: 0 <= i && i < len(k.Keys) ==> idat(idtext(k.Keys[i].Id)) == i && upper(idtext(k.Keys[i].Id)) == idtext(k.Keys[i].Id)
func (*krypto431.Message).EnrichWithKey {
  merge all
  safety [C07]
  requires m != nil && m.instance != nil && m.instance.GroupSize > 0
  requires canonical(m.instance)
  requires apart: blk(m.Recipients) != blk(m) && forall i :: 0 <= i && i < len(m.instance.Keys) ==> blk(m.instance.Keys[i].Keepers) != blk(m)
  use forall i :: 0 <= i && i < len(m.instance.Keys) ==> valid(m.instance.Keys[i].Id)
  modifies m.Id, m.KeyId, m.instance.Keys[:].Used, rnd
  ensures rnd >= old(rnd)
  ensures [C20] keepsid: old(len(m.Id)) > 0 ==> unchanged(m.Id)
  ensures failed: err != nil ==> unchanged(m.KeyId) && forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  ensures key_exists: err == nil ==> 0 <= keyof(m) && keyof(m) < len(m.instance.Keys) && req(m.KeyId, m.instance.Keys[keyof(m)].Id)
  ensures key_unused: err == nil ==> !old(m.instance.Keys[now(keyof(m))].Used) && !m.instance.Keys[keyof(m)].Compromised
  ensures given: err == nil && old(len(m.KeyId)) > 0 ==> unchanged(m.KeyId)
  ensures others_kept: err == nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> i == keyof(m) || m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  ensures size: err == nil ==> len(m.KeyId) == m.instance.GroupSize
  ensures [C20] given_text: err == nil && old(len(m.KeyId)) > 0 ==> samecontent(m.KeyId)
  ensures chosen: err == nil && old(len(m.KeyId)) == 0 ==> fresh(m.KeyId) && old(suits(m.instance, now(keyof(m)), m.Recipients))
  ensures chosen_first: err == nil && old(len(m.KeyId)) == 0 ==> forall i :: 0 <= i && i < keyof(m) ==> !old(suits(m.instance, i, m.Recipients))
  ensures needs_text: err == nil ==> len(m.PlainText) > 0
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !req(m.instance.Keys[i].Id, m.KeyId)
}
property C20 {
  root (*krypto431.Krypto431).NewUniqueMessageId
  root (*krypto431.Krypto431).ContainsMessageId
  root krypto431.RandomAlnumRunes
}
property C08 {
  root (*krypto431.Message).Decipher
  root (*krypto431.Message).TryDecipherPlainText
}
property C03 {
  root (*krypto431.Message).EnrichWithKey
}
define inkeys(k int, p ptr_Key) = 0 <= pushed(k, p) && pushed(k, p) < len(k.Keys) && p == &k.Keys[pushed(k, p)]
ghost c0 Int
func (*krypto431.Message).Encipher {
  safety [C07]
  init c0 = oldcnt()
  init kpos = nonearr
  requires separate: m.CipherText == nil || blk(m.CipherText) != blk(m.KeyId) && forall i :: 0 <= i && i < len(m.instance.Keys) ==> blk(m.instance.Keys[i].Id) != blk(m.CipherText)
  requires m != nil && m.instance != nil && m.instance.GroupSize > 0
  requires canonical(m.instance)
  requires apart: blk(m.Recipients) != blk(m) && forall i :: 0 <= i && i < len(m.instance.Keys) ==> blk(m.instance.Keys[i].Keepers) != blk(m)
  use valid(m.PlainText) && valid(m.CipherText) && valid(m.KeyId) && valid(m.Recipients) && forall i :: 0 <= i && i < len(m.instance.Keys) ==> valid(m.instance.Keys[i].Id) && valid(m.instance.Keys[i].Runes) && valid(m.instance.Keys[i].Keepers)
  modifies m.Id, m.KeyId, m.CipherText, m.KeyId[:], m.CipherText[:], m.instance.Keys[:].Used, rnd, c0, kpos, ks
  ensures rnd >= old(rnd)
  ensures [C20] keepsid: old(len(m.Id)) > 0 ==> unchanged(m.Id)
  ensures given: err == nil && old(len(m.KeyId)) > 0 ==> unchanged(m.KeyId)
  ensures size: err == nil ==> len(m.KeyId) == m.instance.GroupSize
  ensures [C20] given_text: err == nil && old(len(m.KeyId)) > 0 ==> samecontent(m.KeyId)
  ensures keyid_storage: m.KeyId == nil || blk(m.KeyId) == old(blk(m.KeyId)) || fresh(m.KeyId)
  ensures text_storage: m.CipherText == nil || blk(m.CipherText) == old(blk(m.CipherText)) || fresh(m.CipherText)
  ensures needs_text: err == nil ==> len(m.PlainText) > 0
  ensures [C06] letters: err == nil ==> forall i :: 0 <= i && i < len(m.CipherText) ==> letter(m.CipherText[i])
  ensures failed_text: err != nil ==> m.CipherText == nil || unchanged(m.CipherText)
  ensures failed_flags: err != nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  ensures marks: err == nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == (old(m.instance.Keys[i].Used) || kpos[i] >= 0)
  ensures unused: err == nil ==> forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] >= 0 ==> !old(m.instance.Keys[i].Used) && !old(m.instance.Keys[i].Compromised)
  loop 1
    init kpos = upd(kpos, pushed(m.instance, keyPtr), 0)
    step kpos = ite(len(chunks) > head(len(chunks)), upd(kpos, pushed(m.instance, chunk.key), len(chunks)), kpos)
    invariant [C20] giventext: old(len(m.KeyId)) > 0 ==> samecontent(m.KeyId)
    invariant canon: canonical(m.instance)
    invariant named: 0 <= keyof(m) && keyof(m) < len(m.instance.Keys) && kpos[keyof(m)] >= 0 && upper(idtext(m.KeyId)) == idtext(m.KeyId)
    invariant marks: forall i :: 0 <= i && i < len(m.instance.Keys) ==> m.instance.Keys[i].Used == (old(m.instance.Keys[i].Used) || kpos[i] >= 0)
    invariant unused: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] >= 0 ==> !old(m.instance.Keys[i].Used) && !old(m.instance.Keys[i].Compromised)
    init ks = upd(ks, 0, pushed(m.instance, keyPtr))
    step ks = ite(len(chunks) > head(len(chunks)), upd(ks, len(chunks), pushed(m.instance, chunk.key)), ks)
    invariant stackis: forall j :: 0 <= j && j < len(chunks) ==> pushed(m.instance, chunks[j].key) == ks[j]
    invariant stacktop: pushed(m.instance, chunk.key) == ks[len(chunks)]
    invariant stackof: forall j :: 0 <= j && j <= len(chunks) ==> 0 <= ks[j] && ks[j] < len(m.instance.Keys) && kpos[ks[j]] == j
    invariant stackin: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] <= len(chunks) && (kpos[i] >= 0 ==> ks[kpos[i]] == i)
    invariant rnd >= old(rnd) && okstate(state) && fresh(state) && fresh(chunks) && releaseKeys && m.CipherText == nil
    invariant listown: blk(chunks) == entry(blk(chunks)) || freshloop(chunks)
    invariant mine: inkeys(m.instance, chunk.key)
    invariant own: fresh(chunk.encodedText)
    invariant all_mine: forall j :: 0 <= j && j < len(chunks) ==> inkeys(m.instance, chunks[j].key)
    invariant all_own: forall j :: 0 <= j && j < len(chunks) ==> fresh(chunks[j].encodedText)
  loop 2
    invariant true
  loop 3
    invariant [C06] letters: forall i :: 0 <= i && i < len(m.CipherText) ==> letter(m.CipherText[i])
    invariant [C20] giventext: old(len(m.KeyId)) > 0 ==> samecontent(m.KeyId)
    invariant canon: canonical(m.instance)
    invariant named: 0 <= keyof(m) && keyof(m) < len(m.instance.Keys) && kpos[keyof(m)] >= 0 && upper(idtext(m.KeyId)) == idtext(m.KeyId)
    invariant rnd >= old(rnd) && releaseKeys && (m.CipherText == nil || fresh(m.CipherText))
  loop 4
    invariant [C06] letters: forall i :: 0 <= i && i < len(m.CipherText) ==> letter(m.CipherText[i])
    invariant [C20] giventext: old(len(m.KeyId)) > 0 ==> samecontent(m.KeyId)
    invariant canon: canonical(m.instance)
    invariant named: 0 <= keyof(m) && keyof(m) < len(m.instance.Keys) && kpos[keyof(m)] >= 0 && upper(idtext(m.KeyId)) == idtext(m.KeyId)
    invariant rnd >= old(rnd) && releaseKeys && (m.CipherText == nil || fresh(m.CipherText))
}
func (*krypto431.Message).Encipher@func() {
  inline
  assert MarkKeyUsed :: canonical(m.instance)
  assert MarkKeyUsed :: 0 <= keyof(m) && keyof(m) < len(m.instance.Keys) && kpos[keyof(m)] >= 0 && upper(idtext(m.KeyId)) == idtext(m.KeyId)
  assert krypto431.Wipe :: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] < 0 ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
  loop 1
    invariant rnd >= old(rnd)
    invariant released_done: forall i :: 0 <= i && i < len(m.instance.Keys) ==> 0 <= kpos[i] && kpos[i] < $n ==> !m.instance.Keys[i].Used
    invariant released_last: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] >= len(chunks) ==> !m.instance.Keys[i].Used
    invariant released_current: !chunk.key.Used
    invariant released_others: forall i :: 0 <= i && i < len(m.instance.Keys) ==> kpos[i] < 0 && i != pushed(m.instance, chunk.key) ==> m.instance.Keys[i].Used == old(m.instance.Keys[i].Used)
    invariant stackis: forall j :: $n <= j && j < len(chunks) ==> pushed(m.instance, chunks[j].key) == ks[j]
    invariant rest_keys: forall j :: $n <= j && j < len(chunks) ==> inkeys(m.instance, chunks[j].key)
    invariant rest_own: forall j :: $n <= j && j < len(chunks) ==> blk(chunks[j].encodedText) >= c0
    invariant rest_last: inkeys(m.instance, chunk.key) && blk(chunk.encodedText) >= c0
}
property C03 {
  root (*krypto431.Message).Encipher
}
property C04 {
  root (*krypto431.Message).Encipher
}
property C07 {
  root (*krypto431.Message).Encipher
  root (*krypto431.Message).EnrichWithKey
}
property C06 {
  root (*krypto431.Message).Encipher
}
