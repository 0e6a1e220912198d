// Files written by the program (persistence.go, print.go): C16.
// A file mode gives group and others nothing: the low six bits are clear.
define ownerOnly(m int) = m % 64 == 0
trusted func os.OpenFile {
  requires [C16] mode: (flag / 64) % 2 == 1 ==> ownerOnly(perm)
  modifies opened, lastf, path, shut
  ensures err == nil ==> shut == upd(old(shut), iface(result0), false)
  ensures err != nil ==> shut == old(shut)
  let creates = (flag / 64) % 2 == 1
  ensures err == nil ==> result0 != nil && fresh(result0)
  ensures creates ==> opened == old(opened) + 1
  ensures creates && err == nil ==> lastf == iface(result0) && path == upd(old(path), iface(result0), name)
  ensures !creates || err != nil ==> lastf == old(lastf) && path == old(path)
  ensures !creates ==> opened == old(opened)
}
trusted func os.Create {
  requires [C16] mode: false
}
trusted func os.WriteFile {
  requires [C16] mode: ownerOnly(perm)
}
trusted func io/ioutil.WriteFile {
  requires [C16] mode: ownerOnly(perm)
}
trusted func os.Chmod {
  requires [C16] mode: ownerOnly(mode)
}
trusted func (*os.File).Chmod {
  requires [C16] mode: ownerOnly(mode)
}
trusted func (*github.com/jung-kurt/gofpdf.Fpdf).OutputFileAndClose {
  requires [C16] mode: false
}
trusted func syscall.Open {
  requires [C16] mode: (mode / 64) % 2 == 1 ==> ownerOnly(perm)
}
trusted func syscall.Creat {
  requires [C16] mode: ownerOnly(mode)
}
trusted func syscall.Chmod {
  requires [C16] mode: ownerOnly(mode)
}
trusted func syscall.Mknod {
  requires [C16] mode: false
}
trusted func os.CopyFS {
  requires [C16] mode: false
}
trusted func (*os.Root).Create {
  requires [C16] mode: false
}
trusted func (*os.Root).OpenFile {
  requires [C16] mode: (flag / 64) % 2 == 1 ==> ownerOnly(perm)
}
trusted func os.StartProcess {
  requires [C16] mode: false
}
trusted func os/exec.Command {
  requires [C16] mode: false
}
property C16 {
  sensitive os.OpenFile
  sensitive os.Create
  sensitive os.WriteFile
  sensitive io/ioutil.WriteFile
  sensitive os.Chmod
  sensitive (*os.File).Chmod
  sensitive (*github.com/jung-kurt/gofpdf.Fpdf).OutputFileAndClose
  sensitive syscall.Open
  sensitive syscall.Creat
  sensitive syscall.Chmod
  sensitive syscall.Mknod
  sensitive os.CopyFS
  sensitive (*os.Root).Create
  sensitive (*os.Root).OpenFile
  sensitive os.StartProcess
  sensitive os/exec.Command
}

// Saving (persistence.go): C15. The ghosts follow the value through the layers it is written through.
ghost on (Array Int Int)       // what a layer writes to
ghost holds (Array Int Int)    // the value that has been written completely into a layer
ghost final (Array Int Int)    // the value in a file that was closed without error
ghost shut (Array Int Bool)    // layers closed without error
ghost ckblk (Array Int Int)    // storage of a cipher's key
ghost ckoff (Array Int Int)
ghost skblk (Array Int Int)    // storage of the key a file is encrypted with
ghost skoff (Array Int Int)
ghost path (Array Int Str)     // the path of a file
ghost opened Int               // attempts to open a file for writing
ghost lastf Int                // the last file opened for writing
ghost accepted Int             // questions answered yes
ghost declined Int             // questions answered no

trusted func github.com/AlecAivazis/survey/v2.AskOne@*bool {
  modifies *box, accepted, declined
  ensures result == nil && *box ==> accepted == old(accepted) + 1 && declined == old(declined)
  ensures result == nil && !*box ==> declined == old(declined) + 1 && accepted == old(accepted)
  ensures result != nil ==> accepted == old(accepted) && declined == old(declined)
}
trusted func github.com/nknorg/encrypted-stream.NewXSalsa20Poly1305Cipher {
  requires key != nil
  modifies ckblk, ckoff
  ensures fresh(result)
  ensures ckblk == upd(old(ckblk), iface(result), blk(key)) && ckoff == upd(old(ckoff), iface(result), off(key))
}
trusted func github.com/nknorg/encrypted-stream.NewEncryptedStream {
  requires [C15] random_nonce: config != nil && !config.SequentialNonce && config.Cipher != nil
  modifies on, skblk, skoff
  ensures err == nil ==> result0 != nil && fresh(result0) && on == upd(old(on), iface(result0), stream)
  ensures err == nil ==> skblk == upd(old(skblk), stream, ckblk[config.Cipher]) && skoff == upd(old(skoff), stream, ckoff[config.Cipher])
  ensures err != nil ==> on == old(on) && skblk == old(skblk) && skoff == old(skoff)
}
trusted func compress/gzip.NewWriter {
  modifies on, shut
  ensures fresh(result) && on == upd(old(on), iface(result), w) && shut == upd(old(shut), iface(result), false)
}
trusted func encoding/gob.NewEncoder {
  modifies on
  ensures fresh(result) && on == upd(old(on), iface(result), w)
}
trusted func (*encoding/gob.Encoder).Encode {
  modifies holds
  ensures result == nil ==> holds == upd(old(holds), on[iface(enc)], e)
  ensures result != nil ==> holds == upd(old(holds), on[iface(enc)], 0)
}
// what was written into the compressor is complete in the stream below it, and in the file below that
trusted func (*compress/gzip.Writer).Close {
  modifies holds, shut
  let lay = on[iface(z)]
  let done = shut[iface(z)]
  ensures done ==> holds == old(holds) && shut == old(shut)
  ensures result == nil ==> shut == upd(old(shut), iface(z), true)
  ensures result != nil ==> shut == old(shut)
  ensures !done && result == nil ==> holds == upd(upd(old(holds), lay, old(holds)[iface(z)]), on[lay], old(holds)[iface(z)])
  ensures !done && result != nil ==> holds == upd(upd(old(holds), lay, 0), on[lay], 0)
}
trusted func (*github.com/nknorg/encrypted-stream.EncryptedStream).Close {
  modifies final, shut
  let file = on[iface(es)]
  ensures result == nil && !old(shut)[file] ==> final == upd(old(final), file, holds[file])
  ensures result != nil || old(shut)[file] ==> final == old(final)
  ensures result == nil ==> shut == upd(old(shut), file, true)
  ensures result != nil ==> shut == old(shut)
}
trusted func (*os.File).Close {
  modifies final, shut
  ensures result == nil && !old(shut)[iface(f)] ==> final == upd(old(final), iface(f), holds[iface(f)])
  ensures result != nil || old(shut)[iface(f)] ==> final == old(final)
  ensures result == nil ==> shut == upd(old(shut), iface(f), true)
  ensures result != nil ==> shut == old(shut)
}

trusted func golang.org/x/term.ReadPassword {
  ensures result0 == nil || fresh(result0)
}
func krypto431.AskAndConfirmPassword {
  only [C15]
  modifies rnd
  ensures err == nil ==> result0 != nil && fresh(result0) && (fresh(*result0) || *result0 == nil)
  ensures rnd >= old(rnd)
  loop 1
    invariant rnd >= old(rnd)
}
func (*krypto431.Krypto431).Save {
  only [C15]
  safety [C15]
  requires k != nil
  use valid(k.salt) && valid(k.persistenceKey) && (k.salt == nil || valid(*k.salt)) && (k.persistenceKey == nil || valid(*k.persistenceKey))
  modifies k.persistence, k.persistenceKey, rnd
  modifies on, holds, final, shut, ckblk, ckoff, skblk, skoff, path, opened, lastf, accepted, declined
  let allowed = k.overwritePersistenceIfExists
  ensures complete: err == nil && declined == old(declined) ==> final[lastf] == iface(k) && path[lastf] == k.persistence
  ensures encrypted: err == nil && declined == old(declined) ==> k.persistenceKey != nil && len(*k.persistenceKey) == 32 && skblk[lastf] == blk(*k.persistenceKey) && skoff[lastf] == off(*k.persistenceKey)
  ensures overwriting: ext("os.Stat_1", k.persistence) == nil && !allowed && accepted == old(accepted) ==> opened == old(opened)
  ensures unasked: ext("os.Stat_1", k.persistence) == nil && !allowed && !old(k.interactive) ==> err != nil
  ensures declining: declined > old(declined) ==> opened == old(opened)
  ensures nokey: old(k.persistenceKey == nil) && !old(k.interactive) ==> err != nil && opened == old(opened)
  ensures badkey: old(k.persistenceKey != nil && len(*k.persistenceKey) != 32) ==> opened == old(opened) && (err != nil || declined > old(declined))
  ensures once: opened <= old(opened) + 1
}

// Loading
ghost verified (Array Int Bool)   // layers read to their end without error
ghost decfrom Int                 // the layer the last value was decoded from
ghost dKeys Slc                   // and the value
ghost dMessages Slc
ghost dCallSign Slc
ghost dG Int
ghost dL Int
ghost dC Int
ghost dK Int
trusted func os.Open {
  modifies path, shut
  ensures err == nil ==> result0 != nil && fresh(result0) && path == upd(old(path), iface(result0), name) && shut == upd(old(shut), iface(result0), false)
  ensures err != nil ==> path == old(path) && shut == old(shut)
}
trusted func compress/gzip.NewReader {
  modifies on, verified
  ensures err == nil ==> result0 != nil && fresh(result0) && on == upd(old(on), iface(result0), r) && verified == upd(old(verified), iface(result0), false)
  ensures err != nil ==> on == old(on) && verified == old(verified)
}
trusted func (*compress/gzip.Reader).Close {
}
trusted func encoding/gob.NewDecoder {
  modifies on
  ensures fresh(result) && on == upd(old(on), iface(result), r)
}
// gob leaves fields with zero values out: what is decoded is what was encoded only if the target is empty
trusted func (*encoding/gob.Decoder).Decode@*krypto431.Krypto431 {
  requires [C15] empty_target: box.GroupSize == 0 && box.KeyLength == 0 && box.Columns == 0 && box.KeyColumns == 0 && box.Keys == nil && box.Messages == nil && box.CallSign == nil
  modifies box.GroupSize, box.KeyLength, box.Columns, box.KeyColumns, box.Keys, box.Messages, box.CallSign
  modifies decfrom, dKeys, dMessages, dCallSign, dG, dL, dC, dK
  ensures decfrom == on[iface(dec)]
  ensures (box.Keys == nil || fresh(box.Keys)) && (box.Messages == nil || fresh(box.Messages)) && (box.CallSign == nil || fresh(box.CallSign))
  ensures dKeys == box.Keys && dMessages == box.Messages && dCallSign == box.CallSign
  ensures dG == box.GroupSize && dL == box.KeyLength && dC == box.Columns && dK == box.KeyColumns
}
trusted func io.Copy {
  modifies verified
  ensures err == nil ==> verified == upd(old(verified), src, true)
  ensures err != nil ==> verified == old(verified)
}
func krypto431.AskForPassword {
  only [C15]
  ensures result == nil || fresh(result) && (*result == nil || fresh(*result))
}
func (*krypto431.Krypto431).Load {
  only [C15]
  safety [C15]
  requires k != nil
  use valid(k.salt) && valid(k.persistenceKey) && (k.salt == nil || valid(*k.salt)) && (k.persistenceKey == nil || valid(*k.persistenceKey))
  modifies k.persistence, k.persistenceKey, k.overwritePersistenceIfExists, k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, k.Keys, k.Messages, k.CallSign, rnd
  modifies on, final, ckblk, ckoff, skblk, skoff, path, shut, verified, decfrom, dKeys, dMessages, dCallSign, dG, dL, dC, dK
  ensures nokey: old(k.persistenceKey == nil) && !old(k.interactive) ==> err != nil
  ensures badkey: old(k.persistenceKey != nil && len(*k.persistenceKey) != 32) ==> err != nil
  ensures untouched: err != nil ==> unchanged(k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, k.Keys, k.Messages, k.CallSign, k.overwritePersistenceIfExists)
  ensures source: err == nil ==> verified[decfrom] && path[on[on[decfrom]]] == k.persistence
  ensures decrypted: err == nil ==> k.persistenceKey != nil && len(*k.persistenceKey) == 32 && skblk[on[on[decfrom]]] == blk(*k.persistenceKey) && skoff[on[on[decfrom]]] == off(*k.persistenceKey)
  ensures restored: err == nil ==> k.Keys == dKeys && k.Messages == dMessages && k.CallSign == dCallSign && k.GroupSize == dG && k.KeyLength == dL && k.Columns == dC && k.KeyColumns == dK
  ensures keys_owned: err == nil ==> forall i :: 0 <= i && i < len(k.Keys) ==> k.Keys[i].instance == k
  ensures messages_owned: err == nil ==> forall i :: 0 <= i && i < len(k.Messages) ==> k.Messages[i].instance == k
  ensures saving: err == nil ==> k.overwritePersistenceIfExists
  loop 1
    invariant forall j :: 0 <= j && j < $n ==> k.Keys[j].instance == k
  loop 2
    invariant forall j :: 0 <= j && j < $n ==> k.Messages[j].instance == k
}
property C15 {
  root (*krypto431.Krypto431).Load
  root (*krypto431.Krypto431).Save
}
