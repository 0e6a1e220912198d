// Exporting keys (persistence.go).
// esrc j: the index in the store of exported key j.  edst i: where key i of the store went, or -1.
ghost esrc (Array Int Int)
ghost edst (Array Int Int)

// what an option may do: change settings, not keys or messages
func krypto431.Option {
  requires arg0 != nil
  modifies arg0.mx, arg0.persistence, arg0.persistenceKey, arg0.salt, arg0.overwritePersistenceIfExists, arg0.interactive, arg0.overwriteExistingKeysOnImport, arg0.GroupSize, arg0.KeyLength, arg0.Columns, arg0.KeyColumns, arg0.CallSign, rnd
  ensures rnd >= old(rnd)
}
define accepted(k int, f int, i int) = app(f, &k.Keys[i])
func (*krypto431.Krypto431).ExportKeys {
  merge all
  slow 60
  requires k != nil
  use valid(k.CallSign) && valid(k.persistenceKey) && valid(k.salt) && (k.persistenceKey == nil || valid(*k.persistenceKey)) && (k.salt == nil || valid(*k.salt))
  use forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id) && valid(k.Keys[i].Runes) && valid(k.Keys[i].Comment) && valid(k.Keys[i].Keepers)
  use forall i :: 0 <= i && i < len(k.Keys) ==> forall j :: 0 <= j && j < len(k.Keys[i].Keepers) ==> valid(k.Keys[i].Keepers[j])
  modifies rnd, esrc, edst
  ensures no_messages: len(result.Messages) == 0
  ensures count: len(result.Keys) <= len(k.Keys)
  ensures selected: forall j :: 0 <= j && j < len(result.Keys) ==> 0 <= esrc[j] && esrc[j] < len(k.Keys) && accepted(k, filterFunction, esrc[j]) && edst[esrc[j]] == j
  ensures complete: forall i :: 0 <= i && i < len(k.Keys) ==> accepted(k, filterFunction, i) ==> 0 <= edst[i] && edst[i] < len(result.Keys) && esrc[edst[i]] == i
  ensures order: forall j :: 0 <= j && j < len(result.Keys) ==> forall l :: 0 <= l && l < j ==> esrc[l] < esrc[j]
  ensures same_id: forall j :: 0 <= j && j < len(result.Keys) ==> req(result.Keys[j].Id, k.Keys[esrc[j]].Id)
  ensures same_letters: forall j :: 0 <= j && j < len(result.Keys) ==> req(result.Keys[j].Runes, k.Keys[esrc[j]].Runes)
  ensures same_comment: forall j :: 0 <= j && j < len(result.Keys) ==> req(result.Keys[j].Comment, k.Keys[esrc[j]].Comment)
  ensures same_keepercount: forall j :: 0 <= j && j < len(result.Keys) ==> len(result.Keys[j].Keepers) == len(k.Keys[esrc[j]].Keepers)
  ensures same_keepers: forall j :: 0 <= j && j < len(result.Keys) ==> forall x :: 0 <= x && x < len(result.Keys[j].Keepers) ==> req(result.Keys[j].Keepers[x], k.Keys[esrc[j]].Keepers[x])
  ensures same_flags: forall j :: 0 <= j && j < len(result.Keys) ==> result.Keys[j].Used == k.Keys[esrc[j]].Used && result.Keys[j].Compromised == k.Keys[esrc[j]].Compromised
  ensures same_dates: forall j :: 0 <= j && j < len(result.Keys) ==> result.Keys[j].Created == k.Keys[esrc[j]].Created && result.Keys[j].Expires == k.Keys[esrc[j]].Expires
  ensures own_keys: len(result.Keys) > 0 ==> fresh(result.Keys)
  ensures own_storage: forall j :: 0 <= j && j < len(result.Keys) ==> fresh(result.Keys[j].Id) && fresh(result.Keys[j].Runes) && fresh(result.Keys[j].Comment) && fresh(result.Keys[j].Keepers)
  ensures own_keepers: forall j :: 0 <= j && j < len(result.Keys) ==> forall x :: 0 <= x && x < len(result.Keys[j].Keepers) ==> fresh(result.Keys[j].Keepers[x])
  ensures settings: len(opts) == 0 ==> result.GroupSize == k.GroupSize && result.KeyLength == k.KeyLength && result.Columns == k.Columns && result.KeyColumns == k.KeyColumns && result.interactive == k.interactive
  ensures callsign: len(opts) == 0 ==> fresh(result.CallSign) && req(result.CallSign, k.CallSign)
  ensures no_permissions: len(opts) == 0 ==> !result.overwritePersistenceIfExists && !result.overwriteExistingKeysOnImport && blen(result.persistence) == 0
  ensures file_key: len(opts) == 0 ==> (k.persistenceKey == nil ==> result.persistenceKey == nil) && (k.persistenceKey != nil ==> fresh(result.persistenceKey) && fresh(*result.persistenceKey) && req(*result.persistenceKey, *k.persistenceKey))
  ensures file_salt_nil: len(opts) == 0 && k.salt == nil ==> result.salt == nil
  ensures file_salt_own: len(opts) == 0 && k.salt != nil ==> fresh(result.salt) && fresh(*result.salt)
  ensures file_salt: len(opts) == 0 && k.salt != nil ==> req(*result.salt, *k.salt)
  loop 1
    invariant fresh(n.Keys) && off(n.Keys) == 0 && len(n.Keys) == 0 && len(n.Messages) == 0 && rnd >= old(rnd)
    invariant $n == 0 ==> n.GroupSize == k.GroupSize && n.KeyLength == k.KeyLength && n.Columns == k.Columns && n.KeyColumns == k.KeyColumns && n.interactive == k.interactive
    invariant $n == 0 ==> fresh(n.CallSign) && req(n.CallSign, k.CallSign)
    invariant $n == 0 ==> !n.overwritePersistenceIfExists && !n.overwriteExistingKeysOnImport && blen(n.persistence) == 0
    invariant $n == 0 ==> (k.persistenceKey == nil ==> n.persistenceKey == nil) && (k.persistenceKey != nil ==> fresh(n.persistenceKey) && fresh(*n.persistenceKey) && req(*n.persistenceKey, *k.persistenceKey))
    invariant $n == 0 ==> (k.salt == nil ==> n.salt == nil) && (k.salt != nil ==> fresh(n.salt) && fresh(*n.salt) && req(*n.salt, *k.salt))
  loop 2
    invariant fresh(n.Keys) && off(n.Keys) == 0 && len(n.Keys) <= $n && rnd >= old(rnd)
    invariant selected: forall j :: 0 <= j && j < len(n.Keys) ==> 0 <= esrc[j] && esrc[j] < $n && accepted(k, filterFunction, esrc[j]) && edst[esrc[j]] == j
    invariant complete: forall i :: 0 <= i && i < $n ==> accepted(k, filterFunction, i) ==> 0 <= edst[i] && edst[i] < len(n.Keys) && esrc[edst[i]] == i
    invariant order: forall j :: 0 <= j && j < len(n.Keys) ==> forall l :: 0 <= l && l < j ==> esrc[l] < esrc[j]
    invariant same_id: forall j :: 0 <= j && j < len(n.Keys) ==> req(n.Keys[j].Id, k.Keys[esrc[j]].Id)
    invariant same_letters: forall j :: 0 <= j && j < len(n.Keys) ==> req(n.Keys[j].Runes, k.Keys[esrc[j]].Runes)
    invariant same_comment: forall j :: 0 <= j && j < len(n.Keys) ==> req(n.Keys[j].Comment, k.Keys[esrc[j]].Comment)
    invariant same_keepercount: forall j :: 0 <= j && j < len(n.Keys) ==> len(n.Keys[j].Keepers) == len(k.Keys[esrc[j]].Keepers)
    invariant same_keepers: forall j :: 0 <= j && j < len(n.Keys) ==> forall x :: 0 <= x && x < len(n.Keys[j].Keepers) ==> req(n.Keys[j].Keepers[x], k.Keys[esrc[j]].Keepers[x])
    invariant same_flags: forall j :: 0 <= j && j < len(n.Keys) ==> n.Keys[j].Used == k.Keys[esrc[j]].Used && n.Keys[j].Compromised == k.Keys[esrc[j]].Compromised
    invariant same_dates: forall j :: 0 <= j && j < len(n.Keys) ==> n.Keys[j].Created == k.Keys[esrc[j]].Created && n.Keys[j].Expires == k.Keys[esrc[j]].Expires
    invariant same_own: forall j :: 0 <= j && j < len(n.Keys) ==> fresh(n.Keys[j].Id) && fresh(n.Keys[j].Runes) && fresh(n.Keys[j].Comment) && fresh(n.Keys[j].Keepers)
    invariant same_valid: forall j :: 0 <= j && j < len(n.Keys) ==> valid(n.Keys[j].Id) && valid(n.Keys[j].Runes) && valid(n.Keys[j].Comment) && valid(n.Keys[j].Keepers)
    invariant same_ownkeepers: forall j :: 0 <= j && j < len(n.Keys) ==> forall x :: 0 <= x && x < len(n.Keys[j].Keepers) ==> fresh(n.Keys[j].Keepers[x]) && valid(n.Keys[j].Keepers[x])
    step esrc = ite(accepted(k, filterFunction, $n), upd(esrc, len(n.Keys)-1, $n), esrc)
    step edst = ite(accepted(k, filterFunction, $n), upd(edst, $n, len(n.Keys)-1), edst)
  loop 3
    invariant forall j :: 0 <= j && j < $n ==> fresh(newKey.Keepers[j]) && valid(newKey.Keepers[j]) && req(newKey.Keepers[j], k.Keys[i].Keepers[j])
}
property C11 {
  root (*krypto431.Krypto431).ExportKeys
}
