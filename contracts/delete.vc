// Deleting keys and messages (keys.go, messages.go).
// perm j: the old index of the item now at j.  place i: where old item i is now, or -1-x if it was removed
// for the x-th id.  gone x: the old index of the item removed for the x-th id, or -1.  hit: position found.
// olab j: the owner name of item j in the ownership map own; oinv: its inverse.
ghost perm (Array Int Int)
ghost place (Array Int Int)
ghost gone (Array Int Int)
ghost hit Int
ghost olab (Array Int Int)
ghost oinv (Array Int Int)

smt idarr {{
(declare-const idarr (Array Int Int))
(assert (forall ((i Int)) (! (= (select idarr i) i) :pattern ((select idarr i)))))
}}
smt ownership {{
; own b: the item whose storage block b is, for some assignment of blocks to items; -1: no item
(declare-fun own (Int) Int)
(assert (= (own 0) (- 1)))
}}

// no two items share storage
define keysapart(k int) = (forall i :: 0 <= i && i < len(k.Keys) ==> olab[i] >= 0 && oinv[olab[i]] == i) &&
  (forall i :: 0 <= i && i < len(k.Keys) ==> (k.Keys[i].Id == nil || own(blk(k.Keys[i].Id)) == olab[i]) && (k.Keys[i].Runes == nil || own(blk(k.Keys[i].Runes)) == olab[i]) && (k.Keys[i].Comment == nil || own(blk(k.Keys[i].Comment)) == olab[i]) && (k.Keys[i].Keepers == nil || own(blk(k.Keys[i].Keepers)) == olab[i])) &&
  (forall i :: 0 <= i && i < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[i].Keepers) ==> k.Keys[i].Keepers[j] == nil || own(blk(k.Keys[i].Keepers[j])) == olab[i])
define messagesapart(k int) = (forall i :: 0 <= i && i < len(k.Messages) ==> olab[i] >= 0 && oinv[olab[i]] == i) &&
  (forall i :: 0 <= i && i < len(k.Messages) ==> (k.Messages[i].KeyId == nil || own(blk(k.Messages[i].KeyId)) == olab[i]) && (k.Messages[i].PlainText == nil || own(blk(k.Messages[i].PlainText)) == olab[i]) && (k.Messages[i].Binary == nil || own(blk(k.Messages[i].Binary)) == olab[i]) && (k.Messages[i].CipherText == nil || own(blk(k.Messages[i].CipherText)) == olab[i]) && (k.Messages[i].Radiogram == nil || own(blk(k.Messages[i].Radiogram)) == olab[i]))

func (*krypto431.Krypto431).DeleteKey {
  slow 90
  safety [C10]
  requires k != nil
  requires keysapart(k)
  requires own(blk(k.Keys)) == 0-1 && own(blk(keyIds)) == 0-1 && own(blk(k)) == 0-1
  requires forall x :: 0 <= x && x < len(keyIds) ==> own(blk(keyIds[x])) == 0-1
  use forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id) && valid(k.Keys[i].Runes) && valid(k.Keys[i].Comment) && valid(k.Keys[i].Keepers)
  use forall i :: 0 <= i && i < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[i].Keepers) ==> valid(k.Keys[i].Keepers[j])
  use forall x :: 0 <= x && x < len(keyIds) ==> valid(keyIds[x])
  modifies k.Keys, k.Keys[:], blocks("int32", b, own(b) >= 0), blocks("slc:int32", b, own(b) >= 0), rnd, perm, place, gone, hit, olab, oinv
  init perm = idarr
  init place = idarr
  let n0 = len(k.Keys)
  ensures rnd >= old(rnd) && blk(k.Keys) == old(blk(k.Keys))
  ensures no_error: err == nil
  ensures apart: keysapart(k)
  ensures count: len(k.Keys) == n0 - result0 && 0 <= result0
  ensures perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Keys) ==> 0 <= perm[j] && perm[j] < n0
  ensures survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Keys) ==> place[perm[j]] == j
  ensures places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Keys) && (place[i] >= 0 ==> perm[place[i]] == i)
  ensures removed_once: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> 0-1-place[i] < len(keyIds) && gone[0-1-place[i]] == i && old(ref(k.Keys[i].Id, keyIds[0-1-now(place)[i]]))
  ensures ids_served: forall x :: 0 <= x && x < len(keyIds) ==> gone[x] >= 0 && gone[x] < n0 && place[gone[x]] == 0-1-x || gone[x] == 0-1
  ensures not_found: forall x :: 0 <= x && x < len(keyIds) ==> gone[x] == 0-1 ==> forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> !old(ref(k.Keys[i].Id, keyIds[x]))
  ensures kept_id: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Id == old(k.Keys[now(perm)[j]].Id)
  ensures kept_runes: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Runes == old(k.Keys[now(perm)[j]].Runes)
  ensures kept_keepers: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Keepers == old(k.Keys[now(perm)[j]].Keepers)
  ensures kept_comment: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Comment == old(k.Keys[now(perm)[j]].Comment)
  ensures kept_created: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Created == old(k.Keys[now(perm)[j]].Created)
  ensures kept_expires: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Expires == old(k.Keys[now(perm)[j]].Expires)
  ensures kept_used: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Used == old(k.Keys[now(perm)[j]].Used)
  ensures kept_compromised: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Compromised == old(k.Keys[now(perm)[j]].Compromised)
  ensures kept_instance: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].instance == old(k.Keys[now(perm)[j]].instance)
  ensures same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Id))
  ensures same_runes: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Runes))
  ensures same_comment: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Comment))
  ensures same_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Keepers))
  ensures same_elements_of_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> samecontent(old(k.Keys[i].Keepers[j]))
  ensures wiped_id: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Id), old(rnd))
  ensures wiped_runes: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Runes), old(rnd))
  ensures wiped_comment: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Comment), old(rnd))
  ensures wiped_keepers: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> scrambled(old(k.Keys[i].Keepers[j]), old(rnd))
  loop 1
    invariant blk(k.Keys) == old(blk(k.Keys)) && off(k.Keys) == old(off(k.Keys)) && cap(k.Keys) == old(cap(k.Keys)) && rnd >= old(rnd)
    invariant apart: keysapart(k)
    invariant count: len(k.Keys) == n0 - deleted && 0 <= deleted
    invariant perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Keys) ==> 0 <= perm[j] && perm[j] < n0
    invariant survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Keys) ==> place[perm[j]] == j
    invariant places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Keys) && (place[i] >= 0 ==> perm[place[i]] == i)
    invariant removed_once: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> 0-1-place[i] < $n && gone[0-1-place[i]] == i && old(ref(k.Keys[i].Id, keyIds[0-1-now(place)[i]]))
    invariant ids_served: forall x :: 0 <= x && x < $n ==> gone[x] >= 0 && gone[x] < n0 && place[gone[x]] == 0-1-x || gone[x] == 0-1
    invariant not_found: forall x :: 0 <= x && x < $n ==> gone[x] == 0-1 ==> forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> !old(ref(k.Keys[i].Id, keyIds[x]))
    invariant kept_id: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Id == old(k.Keys[now(perm)[j]].Id)
    invariant kept_runes: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Runes == old(k.Keys[now(perm)[j]].Runes)
    invariant kept_keepers: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Keepers == old(k.Keys[now(perm)[j]].Keepers)
    invariant kept_comment: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Comment == old(k.Keys[now(perm)[j]].Comment)
    invariant kept_created: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Created == old(k.Keys[now(perm)[j]].Created)
    invariant kept_expires: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Expires == old(k.Keys[now(perm)[j]].Expires)
    invariant kept_used: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Used == old(k.Keys[now(perm)[j]].Used)
    invariant kept_compromised: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].Compromised == old(k.Keys[now(perm)[j]].Compromised)
    invariant kept_instance: forall j :: 0 <= j && j < len(k.Keys) ==> k.Keys[j].instance == old(k.Keys[now(perm)[j]].instance)
    invariant same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Id))
    invariant same_runes: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Runes))
    invariant same_comment: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Comment))
    invariant same_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Keys[i].Keepers))
    invariant same_elements_of_keepers: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> samecontent(old(k.Keys[i].Keepers[j]))
    invariant wiped_id: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Id), old(rnd))
    invariant wiped_runes: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Runes), old(rnd))
    invariant wiped_comment: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Keys[i].Comment), old(rnd))
    invariant wiped_keepers: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> forall j :: 0 <= j && j < old(len(k.Keys[i].Keepers)) ==> scrambled(old(k.Keys[i].Keepers[j]), old(rnd))
    step perm = ite(hit >= 0, upd(perm, hit, perm[len(k.Keys)]), perm)
    step place = ite(hit >= 0, upd(upd(place, perm[len(k.Keys)], hit), perm[hit], 0-1-$n), place)
    step gone = upd(gone, $n, ite(hit >= 0, perm[hit], 0-1))
    step olab = ite(hit >= 0, upd(olab, hit, olab[len(k.Keys)]), olab)
    step oinv = ite(hit >= 0, upd(oinv, olab[len(k.Keys)], hit), oinv)
  loop 2
    invariant forall i :: 0 <= i && i < $n ==> !ref(k.Keys[i].Id, keyIds[x])
    invariant forall i :: 0 <= i && i < $n ==> !old(ref(k.Keys[now(perm)[i]].Id, now(keyIds[x])))
    exit hit = ite($n < len(k.Keys), $n, 0-1)
}

func (*krypto431.Krypto431).DeleteMessage {
  slow 90
  safety [C10]
  requires k != nil
  requires messagesapart(k)
  requires forall i :: 0 <= i && i < len(k.Messages) ==> own(blk(k.Messages[i].Id)) == 0-1 && own(blk(k.Messages[i].From)) == 0-1
  requires own(blk(k.Messages)) == 0-1 && own(blk(messageIds)) == 0-1 && own(blk(k)) == 0-1
  requires forall x :: 0 <= x && x < len(messageIds) ==> own(blk(messageIds[x])) == 0-1
  use forall i :: 0 <= i && i < len(k.Messages) ==> valid(k.Messages[i].KeyId) && valid(k.Messages[i].PlainText) && valid(k.Messages[i].Binary) && valid(k.Messages[i].CipherText) && valid(k.Messages[i].Radiogram) && valid(k.Messages[i].Id) && valid(k.Messages[i].From)
  use forall x :: 0 <= x && x < len(messageIds) ==> valid(messageIds[x])
  modifies k.Messages, k.Messages[:], blocks("int32", b, own(b) >= 0), blocks("uint8", b, own(b) >= 0), rnd, perm, place, gone, hit, olab, oinv
  init perm = idarr
  init place = idarr
  let n0 = len(k.Messages)
  ensures rnd >= old(rnd) && blk(k.Messages) == old(blk(k.Messages))
  ensures no_error: err == nil
  ensures apart: messagesapart(k)
  ensures count: len(k.Messages) == n0 - result0 && 0 <= result0
  ensures perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Messages) ==> 0 <= perm[j] && perm[j] < n0
  ensures survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Messages) ==> place[perm[j]] == j
  ensures places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Messages) && (place[i] >= 0 ==> perm[place[i]] == i)
  ensures removed_once: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> 0-1-place[i] < len(messageIds) && gone[0-1-place[i]] == i && old(req(k.Messages[i].Id, messageIds[0-1-now(place)[i]]))
  ensures ids_served: forall x :: 0 <= x && x < len(messageIds) ==> gone[x] >= 0 && gone[x] < n0 && place[gone[x]] == 0-1-x || gone[x] == 0-1
  ensures not_found: forall x :: 0 <= x && x < len(messageIds) ==> gone[x] == 0-1 ==> forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> !old(req(k.Messages[i].Id, messageIds[x]))
  ensures kept_id: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Id == old(k.Messages[now(perm)[j]].Id)
  ensures kept_recipients: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Recipients == old(k.Messages[now(perm)[j]].Recipients)
  ensures kept_from: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].From == old(k.Messages[now(perm)[j]].From)
  ensures kept_dtg: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].DTG == old(k.Messages[now(perm)[j]].DTG)
  ensures kept_keyid: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].KeyId == old(k.Messages[now(perm)[j]].KeyId)
  ensures kept_plaintext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].PlainText == old(k.Messages[now(perm)[j]].PlainText)
  ensures kept_binary: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Binary == old(k.Messages[now(perm)[j]].Binary)
  ensures kept_ciphertext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].CipherText == old(k.Messages[now(perm)[j]].CipherText)
  ensures kept_radiogram: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Radiogram == old(k.Messages[now(perm)[j]].Radiogram)
  ensures kept_instance: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].instance == old(k.Messages[now(perm)[j]].instance)
  ensures same_keyid: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].KeyId))
  ensures same_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].PlainText))
  ensures same_binary: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Binary))
  ensures same_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].CipherText))
  ensures same_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Radiogram))
  ensures same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Id))
  ensures same_from: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].From))
  ensures wiped_keyid: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].KeyId), old(rnd))
  ensures wiped_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].PlainText), old(rnd))
  ensures wiped_binary: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Binary), old(rnd))
  ensures wiped_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].CipherText), old(rnd))
  ensures wiped_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Radiogram), old(rnd))
  loop 1
    invariant blk(k.Messages) == old(blk(k.Messages)) && off(k.Messages) == old(off(k.Messages)) && cap(k.Messages) == old(cap(k.Messages)) && rnd >= old(rnd)
    invariant apart: messagesapart(k)
    invariant count: len(k.Messages) == n0 - deleted && 0 <= deleted
    invariant perm_range: forall j {perm[j]} :: 0 <= j && j < len(k.Messages) ==> 0 <= perm[j] && perm[j] < n0
    invariant survivors: forall j {place[perm[j]]} :: 0 <= j && j < len(k.Messages) ==> place[perm[j]] == j
    invariant places: forall i :: 0 <= i && i < n0 ==> place[i] < len(k.Messages) && (place[i] >= 0 ==> perm[place[i]] == i)
    invariant removed_once: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> 0-1-place[i] < $n && gone[0-1-place[i]] == i && old(req(k.Messages[i].Id, messageIds[0-1-now(place)[i]]))
    invariant ids_served: forall x :: 0 <= x && x < $n ==> gone[x] >= 0 && gone[x] < n0 && place[gone[x]] == 0-1-x || gone[x] == 0-1
    invariant not_found: forall x :: 0 <= x && x < $n ==> gone[x] == 0-1 ==> forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> !old(req(k.Messages[i].Id, messageIds[x]))
    invariant kept_id: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Id == old(k.Messages[now(perm)[j]].Id)
    invariant kept_recipients: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Recipients == old(k.Messages[now(perm)[j]].Recipients)
    invariant kept_from: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].From == old(k.Messages[now(perm)[j]].From)
    invariant kept_dtg: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].DTG == old(k.Messages[now(perm)[j]].DTG)
    invariant kept_keyid: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].KeyId == old(k.Messages[now(perm)[j]].KeyId)
    invariant kept_plaintext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].PlainText == old(k.Messages[now(perm)[j]].PlainText)
    invariant kept_binary: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Binary == old(k.Messages[now(perm)[j]].Binary)
    invariant kept_ciphertext: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].CipherText == old(k.Messages[now(perm)[j]].CipherText)
    invariant kept_radiogram: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].Radiogram == old(k.Messages[now(perm)[j]].Radiogram)
    invariant kept_instance: forall j :: 0 <= j && j < len(k.Messages) ==> k.Messages[j].instance == old(k.Messages[now(perm)[j]].instance)
    invariant same_keyid: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].KeyId))
    invariant same_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].PlainText))
    invariant same_binary: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Binary))
    invariant same_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].CipherText))
    invariant same_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Radiogram))
    invariant same_id: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].Id))
    invariant same_from: forall i :: 0 <= i && i < n0 ==> place[i] >= 0 ==> samecontent(old(k.Messages[i].From))
    invariant wiped_keyid: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].KeyId), old(rnd))
    invariant wiped_plaintext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].PlainText), old(rnd))
    invariant wiped_binary: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Binary), old(rnd))
    invariant wiped_ciphertext: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].CipherText), old(rnd))
    invariant wiped_radiogram: forall i :: 0 <= i && i < n0 ==> place[i] < 0 ==> scrambled(old(k.Messages[i].Radiogram), old(rnd))
    step perm = ite(hit >= 0, upd(perm, hit, perm[len(k.Messages)]), perm)
    step place = ite(hit >= 0, upd(upd(place, perm[len(k.Messages)], hit), perm[hit], 0-1-$n), place)
    step gone = upd(gone, $n, ite(hit >= 0, perm[hit], 0-1))
    step olab = ite(hit >= 0, upd(olab, hit, olab[len(k.Messages)]), olab)
    step oinv = ite(hit >= 0, upd(oinv, olab[len(k.Messages)], hit), oinv)
  loop 2
    invariant forall i :: 0 <= i && i < $n ==> !req(k.Messages[i].Id, messageIds[x])
    exit hit = ite($n < len(k.Messages), $n, 0-1)
}

// GetKey and MarkKeyUsed compare the id as text, in upper case and trimmed
define idtext(s int) = mkstr(cont(s), off(s), len(s))
define idnamed(s int, w str) = idtext(s) == upper(w)
func (*krypto431.Krypto431).MarkKeyUsed {
  safety [C10]
  requires r != nil
  modifies r.Keys[:].Used
  ensures unknown: err != nil ==> forall i :: 0 <= i && i < len(r.Keys) ==> r.Keys[i].Used == old(r.Keys[i].Used) && !idnamed(r.Keys[i].Id, idtext(keyId))
  ensures marked: err == nil ==> exists j :: 0 <= j && j < len(r.Keys) && idnamed(r.Keys[j].Id, idtext(keyId)) && r.Keys[j].Used == used &&
  |  (forall i :: 0 <= i && i < len(r.Keys) ==> i == j || r.Keys[i].Used == old(r.Keys[i].Used)) && (forall i :: 0 <= i && i < j ==> !idnamed(r.Keys[i].Id, idtext(keyId)))
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !idnamed(r.Keys[i].Id, idtext(keyId))
}
func (*krypto431.Krypto431).GetKey {
  safety [C10]
  requires r != nil
  ensures unknown: err != nil ==> result0 == nil && forall i :: 0 <= i && i < len(r.Keys) ==> !idnamed(r.Keys[i].Id, idtext(keyId))
  ensures found: err == nil ==> 0 <= pushed(r, result0) && pushed(r, result0) < len(r.Keys) && result0 == &r.Keys[pushed(r, result0)] && idnamed(r.Keys[pushed(r, result0)].Id, idtext(keyId))
  ensures first: err == nil ==> forall i :: 0 <= i && i < pushed(r, result0) ==> !idnamed(r.Keys[i].Id, idtext(keyId))
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !idnamed(r.Keys[i].Id, idtext(keyId))
}
property C10 {
  root (*krypto431.Krypto431).DeleteKey
  root (*krypto431.Krypto431).DeleteMessage
  root (*krypto431.Krypto431).MarkKeyUsed
  root (*krypto431.Krypto431).GetKey
}
