// Selection on the command line (cmd/krypto431).  The clock does not advance during one call.

ghost clock Int

trusted func time.Now {
  ensures result == clock
}

smt timefacts {{
(declare-fun x__time.Time_.After (Int Int) Bool)
(declare-fun x__time.Time_.Before (Int Int) Bool)
(assert (forall ((a Int) (b Int)) (! (= (x__time.Time_.After a b) (x__time.Time_.Before b a)) :pattern ((x__time.Time_.After a b)))))
}}

define expired(k int) = ext("(time.Time).After", clock, k.Expires.Time)
define validfor(k int, d int) = ext("(time.Time).Before", ext("(time.Time).Add", clock, d), k.Expires.Time)

func (*krypto431.Key).IsExpired {
  safety [C18]
  requires k != nil
  ensures exact: result <==> expired(k)
}

func (*krypto431.Key).IsValid {
  safety [C18]
  requires k != nil
  ensures exact: result <==> validfor(k, d)
}

define isset(c int, s int) = ext("(*github.com/urfave/cli/v2.Context).IsSet", c, s)
// keeper or recipient condition: all named, or any of them with --or; no names means no condition
define named(o int, want int, have int) = len(want) == 0 || ((!o ==> len(have) > 0 && (forall i :: 0 <= i && i < len(want) ==> in(have, want[i]))) && (o ==> (exists i :: 0 <= i && i < len(want) && in(have, want[i]))))

func main.keys@func(*krypto431.Key)bool {
  safety [C18]
  requires key != nil && c != nil
  let byid = exists i :: 0 <= i && i < len(vettedKeys) && ref(key.Id, vettedKeys[i])
  let rest = named(o.or, vettedKeepers, key.Keepers)
  |  && (o.invalid ==> key.Compromised || expired(key)) && (o.compromised ==> key.Compromised)
  |  && (o.used ==> key.Used) && (o.unused ==> !key.Used) && (o.expired ==> expired(key))
  |  && (isset(c, "valid") ==> !key.Compromised && validfor(key, o.valid * 24 * 3600000000000))
  ensures all: o.all ==> result
  ensures by_id: !o.all && len(vettedKeys) > 0 ==> (result <==> byid)
  ensures by_options: !o.all && len(vettedKeys) == 0 ==> (result <==> rest)
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !ref(key.Id, vettedKeys[i])
}

func main.messages@func(*krypto431.Message)bool {
  safety [C18]
  requires msg != nil
  let byid = exists i :: 0 <= i && i < len(vettedMessageIds) && req(msg.Id, vettedMessageIds[i])
  let rest = named(o.or, vettedAddressees, msg.Recipients) && (len(vettedSenders) == 0 || len(msg.From) > 0 && in(vettedSenders, msg.From))
  ensures all: o.all ==> result
  ensures by_id: !o.all && len(vettedMessageIds) > 0 ==> (result <==> byid)
  ensures by_options: !o.all && len(vettedMessageIds) == 0 ==> (result <==> rest)
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !req(msg.Id, vettedMessageIds[i])
}

property C18 {
  root (*krypto431.Key).IsExpired
  root (*krypto431.Key).IsValid
  root main.keys@func(*krypto431.Key)bool
  root main.messages@func(*krypto431.Message)bool
}

// Named call-signs and ids: options are split at commas and spaces.  nfields/field: the pieces
// strings.FieldsFunc gives for that separator test (which is proved to accept exactly these two).
smt fields {{
(declare-fun nfields (Str) Int)
(declare-fun field (Str Int) Str)
(assert (forall ((s Str)) (! (>= (nfields s) 0) :pattern ((nfields s)))))
}}

trusted func strings.FieldsFunc {
  ensures fresh(result) && off(result) == 0
  ensures len(result) == nfields(s)
  ensures forall i :: 0 <= i && i < len(result) ==> result[i] == field(s, i)
}

smt spell {{
; spell c o n w: the n elements of c from o are the characters of w
(declare-fun spell ((Array Int Int) Int Int Str) Bool)
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (w Str))
  (! (= (spell c o n w) (and (= n (rlen w)) (forall ((k Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (select c k) (select (runes w) (- k o)))) :pattern ((select c k))))))
     :pattern ((spell c o n w)))))
}}
define spells(a int, w str) = spell(cont(a), off(a), len(a), w)

func krypto431.VettedKeepers@func(rune)bool {
  safety [C18]
  ensures separators: result <==> c == ',' || c == ' '
}

func krypto431.VettedMessageIds@func(rune)bool {
  safety [C18]
  ensures separators: result <==> c == ',' || c == ' '
}

// option p (absolute index in the argument list), piece q
smt stratblk {{
(declare-fun strat ((Array Int Str) Int) Str)
(assert (forall ((a (Array Int Str)) (p Int)) (! (= (strat a p) (select a p)) :pattern ((select a p)) :pattern ((strat a p)))))
}}
define piece(opts int, p int, q int) = field(strat(cont(opts), p), q)
define upper(w str) = ext("strings.ToUpper", ext("strings.TrimSpace", w))
define trimmed(w str) = ext("strings.TrimSpace", w)
define pieces(opts int, p int, q int) = off(opts) <= p && p < off(opts) + len(opts) && 0 <= q && q < nfields(strat(cont(opts), p))
// before(i, n): pieces of options before i, and the first n pieces of option i
define before(opts int, p int, q int, i int, n int) = pieces(opts, p, q) && p <= off(opts) + i && (p == off(opts) + i ==> q < n)

func krypto431.VettedKeepers {
  safety [C18]
  ensures only_words: forall x :: 0 <= x && x < len(result) ==> len(result[x]) > 0 &&
  |  (exists p, q :: pieces(keepers, p, q) && spells(result[x], upper(piece(keepers, p, q))))
  ensures all_words: forall p, q :: pieces(keepers, p, q) && rlen(upper(piece(keepers, p, q))) > 0 ==>
  |  (exists x :: 0 <= x && x < len(result) && spells(result[x], upper(piece(keepers, p, q))))
  ensures [C10,C09,C20] own_storage: (result == nil || fresh(result)) && forall x :: 0 <= x && x < len(result) ==> fresh(result[x])
  loop 1
    invariant forall x :: 0 <= x && x < len(vettedKeepers) ==> valid(vettedKeepers[x])
    invariant [C10,C09,C20] (vettedKeepers == nil || fresh(vettedKeepers)) && forall x :: 0 <= x && x < len(vettedKeepers) ==> fresh(vettedKeepers[x])
    invariant forall x :: 0 <= x && x < len(vettedKeepers) ==> len(vettedKeepers[x]) > 0 &&
    |  (exists p, q :: before(keepers, p, q, $n, 0) && spells(vettedKeepers[x], upper(piece(keepers, p, q))))
    invariant forall p, q :: before(keepers, p, q, $n, 0) && rlen(upper(piece(keepers, p, q))) > 0 ==>
    |  (exists x :: 0 <= x && x < len(vettedKeepers) && spells(vettedKeepers[x], upper(piece(keepers, p, q))))
  loop 2
    invariant forall x :: 0 <= x && x < len(vettedKeepers) ==> valid(vettedKeepers[x])
    invariant [C10,C09,C20] (vettedKeepers == nil || fresh(vettedKeepers)) && forall x :: 0 <= x && x < len(vettedKeepers) ==> fresh(vettedKeepers[x])
    invariant forall x :: 0 <= x && x < len(vettedKeepers) ==> len(vettedKeepers[x]) > 0 &&
    |  (exists p, q :: before(keepers, p, q, i, $n) && spells(vettedKeepers[x], upper(piece(keepers, p, q))))
    invariant forall p, q :: before(keepers, p, q, i, $n) && rlen(upper(piece(keepers, p, q))) > 0 ==>
    |  (exists x :: 0 <= x && x < len(vettedKeepers) && spells(vettedKeepers[x], upper(piece(keepers, p, q))))
}

func krypto431.VettedMessageIds {
  safety [C18]
  ensures only_words: forall x :: 0 <= x && x < len(result) ==> len(result[x]) > 0 &&
  |  (exists p, q :: pieces(ids, p, q) && spells(result[x], trimmed(piece(ids, p, q))))
  ensures all_words: forall p, q :: pieces(ids, p, q) && rlen(trimmed(piece(ids, p, q))) > 0 ==>
  |  (exists x :: 0 <= x && x < len(result) && spells(result[x], trimmed(piece(ids, p, q))))
  ensures [C10,C09,C20] own_storage: (result == nil || fresh(result)) && forall x :: 0 <= x && x < len(result) ==> fresh(result[x])
  loop 1
    invariant forall x :: 0 <= x && x < len(vettedMessageIds) ==> valid(vettedMessageIds[x])
    invariant [C10] (vettedMessageIds == nil || fresh(vettedMessageIds)) && forall x :: 0 <= x && x < len(vettedMessageIds) ==> fresh(vettedMessageIds[x])
    invariant forall x :: 0 <= x && x < len(vettedMessageIds) ==> len(vettedMessageIds[x]) > 0 &&
    |  (exists p, q :: before(ids, p, q, $n, 0) && spells(vettedMessageIds[x], trimmed(piece(ids, p, q))))
    invariant forall p, q :: before(ids, p, q, $n, 0) && rlen(trimmed(piece(ids, p, q))) > 0 ==>
    |  (exists x :: 0 <= x && x < len(vettedMessageIds) && spells(vettedMessageIds[x], trimmed(piece(ids, p, q))))
  loop 2
    invariant forall x :: 0 <= x && x < len(vettedMessageIds) ==> valid(vettedMessageIds[x])
    invariant [C10] (vettedMessageIds == nil || fresh(vettedMessageIds)) && forall x :: 0 <= x && x < len(vettedMessageIds) ==> fresh(vettedMessageIds[x])
    invariant forall x :: 0 <= x && x < len(vettedMessageIds) ==> len(vettedMessageIds[x]) > 0 &&
    |  (exists p, q :: before(ids, p, q, i, $n) && spells(vettedMessageIds[x], trimmed(piece(ids, p, q))))
    invariant forall p, q :: before(ids, p, q, i, $n) && rlen(trimmed(piece(ids, p, q))) > 0 ==>
    |  (exists x :: 0 <= x && x < len(vettedMessageIds) && spells(vettedMessageIds[x], trimmed(piece(ids, p, q))))
}

property C18 {
  root krypto431.VettedKeepers@func(rune)bool
  root krypto431.VettedMessageIds@func(rune)bool
  root krypto431.VettedKeepers
  root krypto431.VettedMessageIds
}

define flagbool(c int, s int) = ext("(*github.com/urfave/cli/v2.Context).Bool", c, s)
define flagint(c int, s int) = ext("(*github.com/urfave/cli/v2.Context).Int", c, s)
func main.getOptions {
  safety [C18]
  requires c != nil
  ensures or: result.or <==> flagbool(c, "or")
  ensures all: result.all <==> flagbool(c, "all")
  ensures valid: result.valid == flagint(c, "valid")
  ensures invalid: result.invalid <==> flagbool(c, "invalid")
  ensures expired: result.expired <==> flagbool(c, "expired")
  ensures compromised: result.compromised <==> flagbool(c, "compromised")
  ensures used: result.used <==> flagbool(c, "used")
  ensures unused: result.unused <==> flagbool(c, "unused")
}
property C18 {
  root main.getOptions
}
