// Filing messages (messages.go): reading a radiogram and NewTextMessage.

// what the patterns match is not specified; the submatches come in storage of their own
trusted func (*regexp.Regexp).FindAllStringSubmatch {
  ensures fresh(result) || result == nil
}
func krypto431.TrimRightRuneFunc {
  inline
  loop 1
    invariant s == nil || blk(s) == entry(blk(s))
    invariant i == len(s)
}
func krypto431.VettedRecipients {
  inline
}
func (*krypto431.Krypto431).ParseRadiogram {
  merge all
  safety [C20]
  use forall i :: 0 <= i && i < len(k.Messages) ==> valid(k.Messages[i].Id)
  requires k != nil
  modifies rnd
  ensures rnd >= old(rnd)
  ensures failed: err != nil ==> result == nil
  ensures read: err == nil ==> fresh(result) && result.instance == k
  ensures open: err == nil ==> result.KeyId == nil && result.CipherText == nil && result.Binary == nil
  ensures id: err == nil ==> fresh(result.Id) && len(result.Id) == 4 && forall i :: 0 <= i && i < len(k.Messages) ==> !req(k.Messages[i].Id, result.Id)
  ensures own_storage: err == nil ==> (result.PlainText == nil || fresh(result.PlainText)) && (result.Recipients == nil || fresh(result.Recipients)) && (result.Radiogram == nil || fresh(result.Radiogram)) && (result.From == nil || fresh(result.From))
  ensures apart: err == nil ==> result.PlainText == nil || blk(result.PlainText) != blk(result.Id) && blk(result.PlainText) != blk(result.From) && blk(result.PlainText) != blk(result.Radiogram)
  loop 1
    unroll 4
}
property C20 {
  root (*krypto431.Krypto431).ParseRadiogram
}
func (*krypto431.Message).IsMyCall {
  inline
}
func (*krypto431.Krypto431).GetCallSign {
  inline
}
func (*krypto431.Message).ContainsRecipient {
  inline
}
func (*krypto431.Message).AddRecipient {
  inline
  loop 1
    unroll 1
}
func (*krypto431.Krypto431).NewTextMessage {
  safety [C20]
  requires k != nil && k.GroupSize > 0
  requires canonical(k)
  use valid(k.CallSign) && valid(k.Messages) && forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id) && valid(k.Keys[i].Runes) && valid(k.Keys[i].Keepers)
  use forall i :: 0 <= i && i < len(k.Messages) ==> valid(k.Messages[i].Id)
  modifies k.Messages, k.Messages[*], k.Keys[:].Used, rnd, c0, kn, kpos, ks
  ensures rnd >= old(rnd)
  ensures failed: err != nil ==> result == nil && len(k.Messages) == old(len(k.Messages)) && forall i :: 0 <= i && i < len(k.Keys) ==> k.Keys[i].Used == old(k.Keys[i].Used)
  ensures filed_once: err == nil ==> result != nil && len(k.Messages) == old(len(k.Messages)) + 1
  ensures kept: forall i :: 0 <= i && i < old(len(k.Messages)) ==> k.Messages[i] == old(k.Messages[i])
  ensures filed_it: err == nil ==> k.Messages[len(k.Messages) - 1] == *result
  ensures unique: err == nil ==> forall i :: 0 <= i && i < old(len(k.Messages)) ==> !req(k.Messages[i].Id, result.Id)
  ensures refused_size: err == nil && ref(result.From, k.CallSign) && len(msg) >= 2 ==> rlen(upper(msg[1])) == k.GroupSize
  ensures given_key: err == nil && ref(result.From, k.CallSign) && len(msg) >= 2 ==> spells(result.KeyId, upper(msg[1]))
  ensures enciphered: err == nil && ref(result.From, k.CallSign) ==> len(result.KeyId) == k.GroupSize && len(result.PlainText) > 0
  ensures addressed: err == nil && !ref(result.From, k.CallSign) ==> len(result.Recipients) > 0
  ensures traffic_or_text: err == nil && !ref(result.From, k.CallSign) ==>
  |  (forall i :: 0 <= i && i < len(k.Keys) ==> k.Keys[i].Used == old(k.Keys[i].Used)) ||
  |  (kn > 0 && idnamed(k.Keys[ks[0]].Id, idtext(result.KeyId)) && forall i :: 0 <= i && i < len(k.Keys) ==> k.Keys[i].Used == (old(k.Keys[i].Used) || kpos[i] >= 0))
}
property C20 {
  root (*krypto431.Krypto431).NewTextMessage
}
