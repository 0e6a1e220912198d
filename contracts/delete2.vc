// Deletion by text: lists of ids separated by commas or spaces.
smt spellfoldblk {{
(declare-fun spellf ((Array Int Int) Int Int Str) Bool)
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (w Str))
  (! (= (spellf c o n w) (and (= n (rlen w)) (forall ((k Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (x_unicode.ToUpper (select c k)) (x_unicode.ToUpper (select (runes w) (- k o))))) :pattern ((select c k))))))
     :pattern ((spellf c o n w)))))
}}
define spellsf(a int, w str) = spellf(cont(a), off(a), len(a), w)

func krypto431.VettedKeys {
  safety [C10]
  ensures only_words: forall x :: 0 <= x && x < len(result) ==> len(result[x]) > 0 &&
  |  (exists p, q :: pieces(keys, p, q) && spells(result[x], upper(piece(keys, p, q))))
  ensures all_words: forall p, q :: pieces(keys, p, q) && rlen(upper(piece(keys, p, q))) > 0 ==>
  |  (exists x :: 0 <= x && x < len(result) && spells(result[x], upper(piece(keys, p, q))))
  ensures [C10] own_storage: (result == nil || fresh(result)) && forall x :: 0 <= x && x < len(result) ==> fresh(result[x])
}

func (*krypto431.Krypto431).DeleteKeyByString {
  safety [C10]
  requires k != nil
  requires keysapart(k)
  requires own(blk(k.Keys)) == 0-1 && own(blk(k)) == 0-1 && forall b :: oldcnt() <= b ==> own(b) == 0-1
  use forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id) && valid(k.Keys[i].Runes) && valid(k.Keys[i].Comment) && valid(k.Keys[i].Keepers)
  use forall i :: 0 <= i && i < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[i].Keepers) ==> valid(k.Keys[i].Keepers[j])
  modifies k.Keys, k.Keys[:], blocks("int32", b, own(b) >= 0), blocks("slc:int32", b, own(b) >= 0), rnd, perm, place, gone, hit, olab, oinv
  let n0 = len(k.Keys)
  ensures rnd >= old(rnd) && blk(k.Keys) == old(blk(k.Keys))
  ensures no_error: err == nil
  ensures apart: keysapart(k)
  ensures count: len(k.Keys) == n0 - result0 && 0 <= result0
  ensures perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Keys) ==> 0 <= perm[j] && perm[j] < n0
  ensures survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Keys) ==> place[perm[j]] == j
  ensures places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Keys) && (place[i] >= 0 ==> perm[place[i]] == i)
  ensures kept_id: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Id == old(k.Keys[now(perm)[j]].Id)
  ensures kept_runes: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Runes == old(k.Keys[now(perm)[j]].Runes)
  ensures kept_keepers: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Keepers == old(k.Keys[now(perm)[j]].Keepers)
  ensures kept_comment: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Comment == old(k.Keys[now(perm)[j]].Comment)
  ensures kept_created: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Created == old(k.Keys[now(perm)[j]].Created)
  ensures kept_expires: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Expires == old(k.Keys[now(perm)[j]].Expires)
  ensures kept_used: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Used == old(k.Keys[now(perm)[j]].Used)
  ensures kept_compromised: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Compromised == old(k.Keys[now(perm)[j]].Compromised)
  ensures kept_instance: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].instance == old(k.Keys[now(perm)[j]].instance)
  ensures same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Id))
  ensures same_runes: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Runes))
  ensures same_comment: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Comment))
  ensures same_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Keepers))
  ensures same_elements_of_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> samecontent(old(k.Keys[i].Keepers[j]))
  ensures wiped_id: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Id), old(rnd))
  ensures wiped_runes: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Runes), old(rnd))
  ensures wiped_comment: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Comment), old(rnd))
  ensures wiped_keepers: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> scrambled(old(k.Keys[i].Keepers[j]), old(rnd))
}

func (*krypto431.Krypto431).DeleteMessageByString {
  safety [C10]
  requires k != nil
  requires messagesapart(k)
  requires own(blk(k.Messages)) == 0-1 && own(blk(k)) == 0-1 && forall b :: oldcnt() <= b ==> own(b) == 0-1
  requires forall i :: 0 <= i && i < len(k.Messages) ==> own(blk(k.Messages[i].Id)) == 0-1 && own(blk(k.Messages[i].From)) == 0-1
  use forall i :: 0 <= i && i < len(k.Messages) ==> valid(k.Messages[i].KeyId) && valid(k.Messages[i].PlainText) && valid(k.Messages[i].Binary) && valid(k.Messages[i].CipherText) && valid(k.Messages[i].Radiogram) && valid(k.Messages[i].Id) && valid(k.Messages[i].From)
  modifies k.Messages, k.Messages[:], blocks("int32", b, own(b) >= 0), blocks("uint8", b, own(b) >= 0), rnd, perm, place, gone, hit, olab, oinv
  let n0 = len(k.Messages)
  ensures rnd >= old(rnd) && blk(k.Messages) == old(blk(k.Messages))
  ensures no_error: err == nil
  ensures apart: messagesapart(k)
  ensures count: len(k.Messages) == n0 - result0 && 0 <= result0
  ensures perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Messages) ==> 0 <= perm[j] && perm[j] < n0
  ensures survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Messages) ==> place[perm[j]] == j
  ensures places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Messages) && (place[i] >= 0 ==> perm[place[i]] == i)
  ensures kept_id: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Id == old(k.Messages[now(perm)[j]].Id)
  ensures kept_recipients: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Recipients == old(k.Messages[now(perm)[j]].Recipients)
  ensures kept_from: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].From == old(k.Messages[now(perm)[j]].From)
  ensures kept_dtg: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].DTG == old(k.Messages[now(perm)[j]].DTG)
  ensures kept_keyid: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].KeyId == old(k.Messages[now(perm)[j]].KeyId)
  ensures kept_plaintext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].PlainText == old(k.Messages[now(perm)[j]].PlainText)
  ensures kept_binary: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Binary == old(k.Messages[now(perm)[j]].Binary)
  ensures kept_ciphertext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].CipherText == old(k.Messages[now(perm)[j]].CipherText)
  ensures kept_radiogram: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Radiogram == old(k.Messages[now(perm)[j]].Radiogram)
  ensures kept_instance: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].instance == old(k.Messages[now(perm)[j]].instance)
  ensures same_keyid: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].KeyId))
  ensures same_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].PlainText))
  ensures same_binary: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Binary))
  ensures same_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].CipherText))
  ensures same_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Radiogram))
  ensures same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Id))
  ensures same_from: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].From))
  ensures wiped_keyid: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].KeyId), old(rnd))
  ensures wiped_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].PlainText), old(rnd))
  ensures wiped_binary: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Binary), old(rnd))
  ensures wiped_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].CipherText), old(rnd))
  ensures wiped_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Radiogram), old(rnd))
}
property C10 {
  root (*krypto431.Krypto431).DeleteKeyByString
  root (*krypto431.Krypto431).DeleteMessageByString
}
