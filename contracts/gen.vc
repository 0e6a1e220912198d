// Generating keys (keys.go, crand).
// draw p n: the number below n that math/rand makes from the source's numbers from stream position p on.
smt drawblk {{
(declare-fun draw (Int Int) Int)
(declare-fun rndword (Int) Int)
; the generator (a *rand.Rand) at block b takes its numbers from the operating system's generator
(declare-fun cryptographic (Int) Bool)
}}
trusted func math/rand.New@crand.cryptoRandSource {
  note a rand.Rand made from crand's source draws from that source only
  ensures result != nil && cryptographic(blk(result))
}
trusted func (*math/rand.Rand).Intn {
  requires generator: arg0 != nil && cryptographic(blk(arg0))
  requires positive: n > 0
  modifies rnd
  ensures rnd > old(rnd)
  ensures result == draw(old(rnd), n) && 0 <= result && result < n
}
trusted func encoding/binary.Read@*uint64 {
  requires [C09] source: arg0 == global("crypto/rand", "Reader")
  modifies *box, rnd
  ensures rnd > old(rnd)
  ensures err == nil ==> *box == rndword(old(rnd))
}
func (crand.cryptoRandSource).Uint64 {
  modifies rnd
  ensures fresh_word: rnd > old(rnd) && result == rndword(old(rnd))
}
func (crand.cryptoRandSource).Int63 {
  modifies rnd
  ensures rnd > old(rnd)
  ensures sixtythree_bits: result == rndword(old(rnd)) % 9223372036854775808
}
func crand.Intn {
  safety [C09]
  requires n > 0
  modifies rnd
  ensures rnd > old(rnd)
  ensures drawn: result == draw(old(rnd), n) && 0 <= result && result < n
}
func (*krypto431.Krypto431).ContainsKeyId {
  safety [C09]
  requires k != nil
  ensures exact: result <==> keyId != nil && exists i :: 0 <= i && i < len(k.Keys) && ref(k.Keys[i].Id, *keyId)
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !ref(k.Keys[i].Id, *keyId)
}

// kperm j: the old index of the keeper now at j; kplace i: where old keeper i is now, or -1-x if it was
// removed for the x-th call-sign
ghost kperm (Array Int Int)
ghost kplace (Array Int Int)
ghost kcur Int
func (*krypto431.Key).RemoveKeeper {
  safety [C09]
  requires k != nil
  requires blk(keepers) != blk(k.Keepers) || keepers == nil
  use valid(k.Keepers) && forall j :: 0 <= j && j < len(k.Keepers) ==> valid(k.Keepers[j])
  modifies k.Keepers, k.Keepers[*], kperm, kplace, kcur
  init kperm = idarr
  init kplace = idarr
  let n0 = len(k.Keepers)
  ensures chained: result == k
  ensures same_storage: blk(k.Keepers) == old(blk(k.Keepers)) && off(k.Keepers) == old(off(k.Keepers)) && len(k.Keepers) <= n0
  ensures rm_none: forall j :: 0 <= j && j < len(k.Keepers) ==> forall x :: 0 <= x && x < len(keepers) ==> !ref(keepers[x], k.Keepers[j])
  ensures rm_from: forall j :: 0 <= j && j < len(k.Keepers) ==> 0 <= kperm[j] && kperm[j] < n0 && kplace[kperm[j]] == j
  ensures rm_value: forall j :: 0 <= j && j < len(k.Keepers) ==> k.Keepers[j] == old(k.Keepers[now(kperm)[j]])
  ensures rm_places: forall i :: 0 <= i && i < n0 ==> kplace[i] < len(k.Keepers) && (kplace[i] >= 0 ==> kperm[kplace[i]] == i)
  ensures rm_removed: forall i :: 0 <= i && i < n0 ==> kplace[i] < 0 ==> 0-1-kplace[i] < len(keepers) && old(ref(keepers[0-1-now(kplace)[i]], k.Keepers[i]))
  loop 1
    init kcur = 0
    step kcur = kcur + 1
    invariant kcur == $n && blk(k.Keepers) == old(blk(k.Keepers)) && off(k.Keepers) == old(off(k.Keepers)) && len(k.Keepers) <= n0
    invariant headers: forall x :: 0 <= x && x < len(keepers) ==> keepers[x] == old(keepers[x])
    invariant none_left: forall x :: 0 <= x && x < $n ==> forall i :: 0 <= i && i < n0 ==> kplace[i] >= 0 ==> !old(ref(keepers[x], k.Keepers[i]))
    invariant kept_from: forall j :: 0 <= j && j < len(k.Keepers) ==> 0 <= kperm[j] && kperm[j] < n0 && kplace[kperm[j]] == j
    invariant kept_value: forall j :: 0 <= j && j < len(k.Keepers) ==> k.Keepers[j] == old(k.Keepers[now(kperm)[j]])
    invariant places: forall i :: 0 <= i && i < n0 ==> kplace[i] < len(k.Keepers) && (kplace[i] >= 0 ==> kperm[kplace[i]] == i)
    invariant removed: forall i :: 0 <= i && i < n0 ==> kplace[i] < 0 ==> 0-1-kplace[i] < $n && old(ref(keepers[0-1-now(kplace)[i]], k.Keepers[i]))
  loop 2
    invariant blk(k.Keepers) == old(blk(k.Keepers)) && off(k.Keepers) == old(off(k.Keepers)) && len(k.Keepers) <= n0 && i < len(k.Keepers) && 0-1 <= i
    invariant headers: forall x :: 0 <= x && x < len(keepers) ==> keepers[x] == old(keepers[x])
    invariant none_left: forall x :: 0 <= x && x < kcur ==> forall i :: 0 <= i && i < n0 ==> kplace[i] >= 0 ==> !old(ref(keepers[x], k.Keepers[i]))
    invariant none_here: forall j :: i < j && j < len(k.Keepers) ==> !ref(keepers[kcur], k.Keepers[j])
    invariant none_there: forall y :: 0 <= y && y < n0 ==> kplace[y] > i ==> !old(ref(keepers[now(kcur)], k.Keepers[y]))
    invariant kept_from: forall j :: 0 <= j && j < len(k.Keepers) ==> 0 <= kperm[j] && kperm[j] < n0 && kplace[kperm[j]] == j
    invariant kept_value: forall j :: 0 <= j && j < len(k.Keepers) ==> k.Keepers[j] == old(k.Keepers[now(kperm)[j]])
    invariant places: forall i :: 0 <= i && i < n0 ==> kplace[i] < len(k.Keepers) && (kplace[i] >= 0 ==> kperm[kplace[i]] == i)
    invariant removed: forall i :: 0 <= i && i < n0 ==> kplace[i] < 0 ==> 0-1-kplace[i] <= kcur && old(ref(keepers[0-1-now(kplace)[i]], k.Keepers[i]))
    step kperm = ite(len(k.Keepers) < head(len(k.Keepers)), upd(kperm, head(i), kperm[len(k.Keepers)]), kperm)
    step kplace = ite(len(k.Keepers) < head(len(k.Keepers)), upd(upd(kplace, kperm[len(k.Keepers)], head(i)), kperm[head(i)], 0-1-kcur), kplace)
}
// drawn c o n pos a b: each of the n elements of c from o is A-Z, made of the draw below 26 at stream position
// pos (of its place); the positions increase from a and stay below b.  drawnfrom: for some positions.
smt drawnblk {{
(declare-fun drawn ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(declare-fun drawnfrom ((Array Int Int) Int Int Int Int) Bool)
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (q (Array Int Int)) (a Int) (b Int))
  (! (= (drawn c o n q a b) (forall ((k Int)) (! (=> (and (<= o k) (< k (+ o n))) (and (= (select c k) (+ 65 (draw (select q k) 26))) (<= a (select q k)) (< (select q k) b) (=> (< o k) (< (select q (- k 1)) (select q k))))) :pattern ((select q k)) :pattern ((select c k)))))
     :pattern ((drawn c o n q a b)))))
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (q (Array Int Int)) (a Int) (b Int)) (! (=> (drawn c o n q a b) (drawnfrom c o n a b)) :pattern ((drawn c o n q a b)))))
}}
// n rounded up to whole groups of g letters, as the code computes it
smt roundup {{
(declare-fun product (Int Int) Int)
(declare-fun quotient (Real Real) Real)
(declare-fun truncated (Real) Int)
(declare-fun wholegroups (Int Int) Int)
(assert (forall ((n Int) (g Int)) (! (= (wholegroups n g) (product (truncated (x_math.Ceil (quotient (to_real n) (to_real g)))) g)) :pattern ((wholegroups n g)))))
}}
smt lem_roundup {{
(assert (forall ((n Int) (g Int)) (! (=> (and (<= 0 n) (< 0 g)) (and (<= n (wholegroups n g)) (< (wholegroups n g) (+ n g)) (= (mod (wholegroups n g) g) 0))) :pattern ((wholegroups n g)))))
}}
lemma [C09] roundup_bounds {{
(declare-fun n () Int) (declare-fun g () Int) (declare-fun c () Real)
; math.Ceil (standard library fact; floats treated as reals)
(assert (let ((x (/ (to_real n) (to_real g)))) (and (<= x c) (< c (+ x 1.0)) (is_int c))))
(assert (and (<= 0 n) (< 0 g)))
(assert (let ((w (* (ite (<= 0.0 c) (to_int c) (- (to_int (- c)))) g))) (not (and (<= n w) (< w (+ n g))))))
}}
lemma [C09] roundup_whole {{
; a product is divided without remainder: quotient d and remainder r of m*g by g
(declare-fun m () Int) (declare-fun g () Int) (declare-fun d () Int) (declare-fun r () Int)
(assert (and (< 0 g) (= (* m g) (+ (* g d) r)) (<= 0 r) (< r g) (not (= r 0))))
}}
ghost ipos (Array Int Int)
ghost lpos (Array Int Int)
ghost gmid Int
define drawnas(s int, q int, a int, b int) = drawn(cont(s), off(s), len(s), q, a, b)
define isdrawn(s int, a int, b int) = drawnfrom(cont(s), off(s), len(s), a, b)
func (*krypto431.Krypto431).NewKey {
  safety [C09]
  opaque
  requires k != nil && k.GroupSize > 0 && k.KeyLength >= 0
  use wholegroups(k.KeyLength, k.GroupSize) >= 0
  use valid(k.Keys) && valid(k.CallSign) && forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id)
  modifies k.Keys, k.Keys[*], rnd, ipos, lpos, gmid, kperm, kplace, kcur
  let n0 = len(k.Keys)
  ensures one_more: len(k.Keys) == n0 + 1
  ensures kept_id: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Id == old(k.Keys[i].Id)
  ensures kept_runes: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Runes == old(k.Keys[i].Runes)
  ensures kept_keepers: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Keepers == old(k.Keys[i].Keepers)
  ensures kept_comment: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Comment == old(k.Keys[i].Comment)
  ensures kept_dates: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Created == old(k.Keys[i].Created) && k.Keys[i].Expires == old(k.Keys[i].Expires)
  ensures kept_flags: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Used == old(k.Keys[i].Used) && k.Keys[i].Compromised == old(k.Keys[i].Compromised)
  ensures kept_instance: forall i :: 0 <= i && i < n0 ==> k.Keys[i].instance == old(k.Keys[i].instance)
  ensures id_size: len(k.Keys[n0].Id) == k.GroupSize
  ensures id_drawn: old(rnd) <= gmid && drawnas(k.Keys[n0].Id, ipos, old(rnd), gmid)
  ensures id_unique: forall i :: 0 <= i && i < n0 ==> !ref(k.Keys[i].Id, k.Keys[n0].Id)
  ensures letters_count: k.KeyLength <= len(k.Keys[n0].Runes) && len(k.Keys[n0].Runes) < k.KeyLength + k.GroupSize && len(k.Keys[n0].Runes) % k.GroupSize == 0
  ensures letters_drawn: gmid <= rnd && drawnas(k.Keys[n0].Runes, lpos, gmid, rnd)
  ensures own_storage: fresh(k.Keys[n0].Id) && fresh(k.Keys[n0].Runes) && (k.Keys[n0].Keepers == nil || fresh(k.Keys[n0].Keepers)) && len(k.Keys[n0].Comment) == 0
  ensures flags: !k.Keys[n0].Used && !k.Keys[n0].Compromised && k.Keys[n0].instance == k
  ensures expires: k.Keys[n0].Expires.Time == expire
  ensures keys_storage: blk(k.Keys) == old(blk(k.Keys)) || fresh(k.Keys)
  ensures keepers_notown: forall j :: 0 <= j && j < len(k.Keys[n0].Keepers) ==> !ref(k.CallSign, k.Keys[n0].Keepers[j])
  ensures keepers_only: forall j :: 0 <= j && j < len(k.Keys[n0].Keepers) ==> len(k.Keys[n0].Keepers[j]) > 0 &&
  |  (exists p, q :: pieces(keepers, p, q) && spells(k.Keys[n0].Keepers[j], upper(piece(keepers, p, q))))
  ensures keepers_all: forall p, q :: pieces(keepers, p, q) && rlen(upper(piece(keepers, p, q))) > 0 ==>
  |  spellsf(k.CallSign, upper(piece(keepers, p, q))) || (exists j :: 0 <= j && j < len(k.Keys[n0].Keepers) && spells(k.Keys[n0].Keepers[j], upper(piece(keepers, p, q))))
  ensures returned: result.Id == k.Keys[n0].Id && result.Runes == k.Keys[n0].Runes && result.Keepers == k.Keys[n0].Keepers && !result.Used && !result.Compromised && result.instance == k
  loop 1
    invariant rnd >= old(rnd) && valid(key.Keepers)
    invariant len(key.Id) == k.GroupSize && fresh(key.Id) && fresh(key.Runes)
    invariant apart: blk(key.Id) < blk(key.Runes) && forall j :: 0 <= j && j < len(key.Keepers) ==> blk(key.Runes) < blk(key.Keepers[j])
    invariant keepers_notown: forall j :: 0 <= j && j < len(key.Keepers) ==> !ref(k.CallSign, key.Keepers[j])
    invariant keepers_only: forall j :: 0 <= j && j < len(key.Keepers) ==> len(key.Keepers[j]) > 0 &&
    |  (exists p, q :: pieces(keepers, p, q) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    invariant keepers_all: forall p, q :: pieces(keepers, p, q) && rlen(upper(piece(keepers, p, q))) > 0 ==>
    |  spellsf(k.CallSign, upper(piece(keepers, p, q))) || (exists j :: 0 <= j && j < len(key.Keepers) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    exit gmid = rnd
  loop 2
    invariant apart: blk(key.Id) < blk(key.Runes) && forall j :: 0 <= j && j < len(key.Keepers) ==> blk(key.Runes) < blk(key.Keepers[j])
    invariant keepers_notown: forall j :: 0 <= j && j < len(key.Keepers) ==> !ref(k.CallSign, key.Keepers[j])
    invariant keepers_only: forall j :: 0 <= j && j < len(key.Keepers) ==> len(key.Keepers[j]) > 0 &&
    |  (exists p, q :: pieces(keepers, p, q) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    invariant keepers_all: forall p, q :: pieces(keepers, p, q) && rlen(upper(piece(keepers, p, q))) > 0 ==>
    |  spellsf(k.CallSign, upper(piece(keepers, p, q))) || (exists j :: 0 <= j && j < len(key.Keepers) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    invariant rnd >= old(rnd)
    invariant forall i :: 0 <= i && i < $n ==> key.Id[i] == 65 + draw(ipos[off(key.Id) + i], 26)
    invariant drawn(cont(key.Id), off(key.Id), $n, ipos, old(rnd), rnd)
    step ipos = upd(ipos, off(key.Id) + $n, head(rnd))
  loop 3
    invariant idnew: forall i :: 0 <= i && i < n0 ==> !ref(k.Keys[i].Id, key.Id)
    invariant apart: blk(key.Id) < blk(key.Runes) && forall j :: 0 <= j && j < len(key.Keepers) ==> blk(key.Runes) < blk(key.Keepers[j])
    invariant keepers_notown: forall j :: 0 <= j && j < len(key.Keepers) ==> !ref(k.CallSign, key.Keepers[j])
    invariant keepers_only: forall j :: 0 <= j && j < len(key.Keepers) ==> len(key.Keepers[j]) > 0 &&
    |  (exists p, q :: pieces(keepers, p, q) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    invariant keepers_all: forall p, q :: pieces(keepers, p, q) && rlen(upper(piece(keepers, p, q))) > 0 ==>
    |  spellsf(k.CallSign, upper(piece(keepers, p, q))) || (exists j :: 0 <= j && j < len(key.Keepers) && spells(key.Keepers[j], upper(piece(keepers, p, q))))
    invariant rnd >= gmid && drawnas(key.Id, ipos, old(rnd), gmid)
    invariant drawn(cont(key.Runes), off(key.Runes), $n, lpos, gmid, rnd)
    step lpos = upd(lpos, off(key.Runes) + $n, head(rnd))
}
// kstart j, kmid j: stream position before the id of key j was drawn, and before its letters were
ghost kstart (Array Int Int)
ghost kmid (Array Int Int)
func (*krypto431.Krypto431).GenerateKeys {
  safety [C09]
  requires k != nil && k.GroupSize > 0 && k.KeyLength >= 0
  use valid(k.Keys) && valid(k.CallSign) && forall i :: 0 <= i && i < len(k.Keys) ==> valid(k.Keys[i].Id)
  modifies k.Keys, k.Keys[*], rnd, ipos, lpos, gmid, kperm, kplace, kcur, kstart, kmid
  let n0 = len(k.Keys)
  ensures failed: err != nil ==> expire != nil && unchanged(k.Keys) && rnd == old(rnd)
  ensures one_per_request: err == nil ==> len(k.Keys) == n0 + ite(n > 0, n, 0)
  ensures kept_id: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Id == old(k.Keys[i].Id)
  ensures kept_runes: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Runes == old(k.Keys[i].Runes)
  ensures kept_keepers: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Keepers == old(k.Keys[i].Keepers)
  ensures kept_comment: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Comment == old(k.Keys[i].Comment)
  ensures kept_dates: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Created == old(k.Keys[i].Created) && k.Keys[i].Expires == old(k.Keys[i].Expires)
  ensures kept_flags: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Used == old(k.Keys[i].Used) && k.Keys[i].Compromised == old(k.Keys[i].Compromised)
  ensures kept_instance: forall i :: 0 <= i && i < n0 ==> k.Keys[i].instance == old(k.Keys[i].instance)
  ensures id_size: forall j :: n0 <= j && j < len(k.Keys) ==> len(k.Keys[j].Id) == k.GroupSize
  ensures id_unique: forall j :: n0 <= j && j < len(k.Keys) ==> forall i :: 0 <= i && i < j ==> !ref(k.Keys[i].Id, k.Keys[j].Id)
  ensures letters_count: forall j :: n0 <= j && j < len(k.Keys) ==> k.KeyLength <= len(k.Keys[j].Runes) && len(k.Keys[j].Runes) < k.KeyLength + k.GroupSize && len(k.Keys[j].Runes) % k.GroupSize == 0
  ensures id_drawn: forall j :: n0 <= j && j < len(k.Keys) ==> isdrawn(k.Keys[j].Id, kstart[j], kmid[j])
  ensures letters_drawn: forall j :: n0 <= j && j < len(k.Keys) ==> isdrawn(k.Keys[j].Runes, kmid[j], kstart[j+1])
  ensures draws_apart: forall j :: n0 <= j && j < len(k.Keys) ==> old(rnd) <= kstart[j] && kstart[j] <= kmid[j] && kmid[j] <= kstart[j+1]
  ensures flags: forall j :: n0 <= j && j < len(k.Keys) ==> !k.Keys[j].Used && !k.Keys[j].Compromised && k.Keys[j].instance == k
  ensures own_storage: forall j :: n0 <= j && j < len(k.Keys) ==> fresh(k.Keys[j].Id) && fresh(k.Keys[j].Runes) && (k.Keys[j].Keepers == nil || fresh(k.Keys[j].Keepers)) && len(k.Keys[j].Comment) == 0
  loop 1
    init kstart = upd(kstart, n0, rnd)
    invariant counted: 0 <= i && (i <= n || n < 0 && i == 0) && len(k.Keys) == n0 + i && valid(k.Keys)
    invariant keys_storage: blk(k.Keys) == old(blk(k.Keys)) || fresh(k.Keys)
    invariant rnd >= old(rnd) && kstart[n0 + i] == rnd
    invariant kept_id: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Id == old(k.Keys[i].Id)
    invariant kept_runes: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Runes == old(k.Keys[i].Runes)
    invariant kept_keepers: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Keepers == old(k.Keys[i].Keepers)
    invariant kept_comment: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Comment == old(k.Keys[i].Comment)
    invariant kept_dates: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Created == old(k.Keys[i].Created) && k.Keys[i].Expires == old(k.Keys[i].Expires)
    invariant kept_flags: forall i :: 0 <= i && i < n0 ==> k.Keys[i].Used == old(k.Keys[i].Used) && k.Keys[i].Compromised == old(k.Keys[i].Compromised)
    invariant kept_instance: forall i :: 0 <= i && i < n0 ==> k.Keys[i].instance == old(k.Keys[i].instance)
    invariant id_size: forall j :: n0 <= j && j < len(k.Keys) ==> len(k.Keys[j].Id) == k.GroupSize
    invariant id_unique: forall j :: n0 <= j && j < len(k.Keys) ==> forall i :: 0 <= i && i < j ==> !ref(k.Keys[i].Id, k.Keys[j].Id)
    invariant letters_count: forall j :: n0 <= j && j < len(k.Keys) ==> k.KeyLength <= len(k.Keys[j].Runes) && len(k.Keys[j].Runes) < k.KeyLength + k.GroupSize && len(k.Keys[j].Runes) % k.GroupSize == 0
    invariant id_drawn: forall j :: n0 <= j && j < len(k.Keys) ==> isdrawn(k.Keys[j].Id, kstart[j], kmid[j])
    invariant letters_drawn: forall j :: n0 <= j && j < len(k.Keys) ==> isdrawn(k.Keys[j].Runes, kmid[j], kstart[j+1])
    invariant draws_apart: forall j :: n0 <= j && j < len(k.Keys) ==> old(rnd) <= kstart[j] && kstart[j] <= kmid[j] && kmid[j] <= kstart[j+1]
    invariant flags: forall j :: n0 <= j && j < len(k.Keys) ==> !k.Keys[j].Used && !k.Keys[j].Compromised && k.Keys[j].instance == k
    invariant own_storage: forall j :: n0 <= j && j < len(k.Keys) ==> valid(k.Keys[j].Id) && valid(k.Keys[j].Runes) && fresh(k.Keys[j].Id) && fresh(k.Keys[j].Runes) && (k.Keys[j].Keepers == nil || fresh(k.Keys[j].Keepers)) && len(k.Keys[j].Comment) == 0
    step kstart = upd(kstart, n0 + i, rnd)
    step kmid = upd(kmid, n0 + head(i), gmid)
}
property C09 {
  root (*krypto431.Krypto431).GenerateKeys
  root crand.Intn
  root (crand.cryptoRandSource).Uint64
  root (crand.cryptoRandSource).Int63
  root (*krypto431.Krypto431).ContainsKeyId
  root (*krypto431.Key).RemoveKeeper
  root (*krypto431.Krypto431).NewKey
}
