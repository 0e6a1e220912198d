// Choosing keys, coding, enciphering and deciphering (cipher.go).

// suits(k, i): key i may be chosen for a message to these recipients
define suits(k int, i int, rec int) = !k.Keys[i].Used && !k.Keys[i].Compromised && len(k.Keys[i].Id) == k.GroupSize &&
  (len(rec) == 0 ==> len(k.Keys[i].Keepers) == 0) && (len(rec) > 0 ==> keepsall(k.Keys[i].Keepers, rec))
define keepsall(keepers int, rec int) = len(keepers) > 0 && forall x :: 0 <= x && x < len(rec) ==> mkin(false, keepers, rec[x])

// pushed(k, p): the index in k's keys of the key p points to
define pushed(k int, p ptr_Key) = off(p) - off(k.Keys)
func (*krypto431.Krypto431).FindKey {
  safety [C05]
  requires r != nil
  ensures found: result != nil ==> 0 <= pushed(r, result) && pushed(r, result) < len(r.Keys) && result == &r.Keys[pushed(r, result)] && suits(r, pushed(r, result), recipients)
  ensures first: result != nil ==> forall i :: 0 <= i && i < pushed(r, result) ==> !suits(r, i, recipients)
  ensures none: result == nil ==> forall i :: 0 <= i && i < len(r.Keys) ==> !suits(r, i, recipients)
  ensures nothing_changed: r.Keys == old(r.Keys)
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> !suits(r, i, recipients)
}
property C05 {
  root (*krypto431.Krypto431).FindKey
}

// ---- the codec's state machine ----
define okstate(s int) = s.numberOfTables == 2 && 0 <= s.table && s.table < 2
define az(s int, from int) = forall i :: from <= i && i < len(s) ==> letter(s[i])
define kept(s int, n int, so int) = len(s) >= n && forall i :: 0 <= i && i < n ==> s[i] == so[i]

func krypto431.newState {
  inline
}
func krypto431.newChunk {
  inline
}
func (*krypto431.codecState).reset {
  inline
}
func (*krypto431.codecState).nextTable {
  safety [C07,C08]
  requires state != nil && okstate(state)
  modifies state.table, state.charCounter, *output, (*output)[*]
  ensures table: state.table == 1 - old(state.table)
  ensures silent: output == nil ==> state.charCounter == old(state.charCounter)
  ensures count: output != nil ==> len(*output) == old(len(*output)) + 1 && state.charCounter == old(state.charCounter) + 1 && (*output)[old(len(*output))] == 90
  ensures prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
}
func (*krypto431.codecState).gotoTable {
  safety [C07,C08]
  requires state != nil && okstate(state)
  modifies state.table, state.charCounter, *output, (*output)[*]
  let more = ite(state.table == table, 0, 1)
  ensures range: (err == nil) == (table == 0 || table == 1)
  ensures refused: err != nil ==> state.table == old(state.table) && (output != nil ==> unchanged(*output) && samecontent(*output))
  ensures table: err == nil ==> state.table == table
  ensures count: err == nil && output != nil ==> len(*output) == old(len(*output)) + more && state.charCounter == old(state.charCounter) + more && (more == 1 ==> (*output)[old(len(*output))] == 90)
  ensures silent: output == nil || err != nil ==> state.charCounter == old(state.charCounter)
  ensures prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
  loop 1
    invariant okstate(state) && (state.table == table || state.table == old(state.table))
    invariant count: output != nil ==> len(*output) == old(len(*output)) + ite(state.table == old(state.table), 0, 1) && state.charCounter == old(state.charCounter) + ite(state.table == old(state.table), 0, 1) && (state.table != old(state.table) ==> (*output)[old(len(*output))] == 90)
    invariant silent: output == nil ==> state.charCounter == old(state.charCounter)
    invariant prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
    invariant storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
}
func (*krypto431.codecState).toggleCase {
  safety [C07,C08]
  requires state != nil && okstate(state)
  modifies state.table, state.charCounter, state.shift, *output, (*output)[*]
  let more = ite(state.table == 1, 0, 1)
  ensures ok: err == nil && state.shift == !old(state.shift)
  ensures silent: output == nil ==> state.charCounter == old(state.charCounter) && state.table == old(state.table)
  ensures count: output != nil ==> state.table == 1 && len(*output) == old(len(*output)) + more + 1 && state.charCounter == old(state.charCounter) + more + 1 && (more == 1 ==> (*output)[old(len(*output))] == 90) && (*output)[old(len(*output)) + more] == 88
  ensures prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
}
func (*krypto431.codecState).toggleBinary {
  safety [C08]
  requires state != nil && okstate(state)
  modifies state.table, state.charCounter, state.binary, *output, (*output)[*]
  ensures ok: err == nil && state.binary == !old(state.binary)
  ensures silent: output == nil ==> state.charCounter == old(state.charCounter) && state.table == old(state.table)
}
func (*krypto431.codecState).changeKey {
  safety [C07]
  requires state != nil && okstate(state)
  requires output != nil && key != nil ==> blk(key.Id) != blk(*output)
  modifies state.table, state.charCounter, *output, (*output)[*]
  let more = ite(state.table == 1, 0, 1)
  ensures nil_args: (err != nil) == (output == nil || key == nil)
  ensures announces: err == nil ==> len(*output) == old(len(*output)) + more + 1 + len(key.Id) && (*output)[old(len(*output)) + more] == 89 && (more == 1 ==> (*output)[old(len(*output))] == 90)
  ensures id: err == nil ==> forall i :: 0 <= i && i < len(key.Id) ==> (*output)[old(len(*output)) + more + 1 + i] == key.Id[i]
  ensures counter: err == nil ==> state.charCounter == old(state.charCounter) + more + 1 + len(key.Id)
  ensures prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
}
func (*krypto431.codecState).pad {
  safety [C07]
  requires state != nil
  modifies state.charCounter, *output, (*output)[*]
  let n = ite(numberOfCharacters > 0, numberOfCharacters, 0)
  ensures nil_args: (err != nil) == (output == nil)
  ensures count: err == nil ==> len(*output) == old(len(*output)) + n && state.charCounter == old(state.charCounter) + n
  ensures padding: err == nil ==> forall i :: old(len(*output)) <= i && i < len(*output) ==> (*output)[i] == 90
  ensures prefix: output != nil ==> forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: output != nil ==> blk(*output) == old(blk(*output)) || fresh(*output)
  loop 1
    invariant 0 <= i && i <= n && len(*output) == old(len(*output)) + i && state.charCounter == old(state.charCounter) + i
    invariant padding: forall j :: old(len(*output)) <= j && j < len(*output) ==> (*output)[j] == 90
    invariant prefix: forall j :: 0 <= j && j < old(len(*output)) ==> (*output)[j] == old((*output)[j])
    invariant storage: blk(*output) == old(blk(*output)) || fresh(*output)
}

smt alphabet {{
; coltab c: 0 or 1 if upper case character c is in the primary or secondary table, else -1; colno c: its column
(define-fun coltab ((c Int)) Int (ite (and (<= 65 c) (<= c 89) (not (= c 81))) 0 (ite (= c 32) 0 (ite (or (and (<= 48 c) (<= c 57)) (= c 63) (= c 45) (= c 197) (= c 196) (= c 214) (= c 46) (= c 81) (= c 44) (= c 90) (= c 58) (= c 43) (= c 47)) 1 (- 1)))))
(define-fun colno ((c Int)) Int (ite (= c 32) 16 (ite (= c 81) 16 (ite (= c 90) 18 (ite (and (<= 65 c) (<= c 89)) (- c 65)
  (ite (and (<= 48 c) (<= c 57)) (- c 48) (ite (= c 63) 10 (ite (= c 45) 11 (ite (= c 197) 12 (ite (= c 196) 13 (ite (= c 214) 14 (ite (= c 46) 15 (ite (= c 44) 17 (ite (= c 58) 19 (ite (= c 43) 20 (ite (= c 47) 21 (- 1)))))))))))))))))
}}
define up(c int) = ext("unicode.ToUpper", c)
define low(c int) = ext("unicode.ToLower", c)
define isup(c int) = ext("unicode.IsUpper", c)
define islow(c int) = ext("unicode.IsLower", c)
// c can be coded: its upper case form is in a table, and lower case c is the lower case form of it
define codable(c int) = coltab(up(c)) >= 0 && (up(c) != c ==> low(up(c)) == c)

func (*krypto431.codecState).encodeCharacter {
  safety [C07]
  requires state != nil && okstate(state) && input != nil && output != nil
  requires blk(input) != blk(*output)
  modifies state.table, state.charCounter, state.shift, *output, (*output)[*]
  let turn = isup(*input) && state.shift || islow(*input) && !state.shift
  let d1 = ite(turn, ite(state.table == 1, 1, 2), 0)
  let t1 = ite(turn, 1, state.table)
  let d2 = ite(t1 == coltab(up(*input)), 0, 1)
  ensures refused: err != nil ==> state.binary || !codable(old(*input))
  ensures coded: err == nil ==> !state.binary && codable(old(*input))
  ensures shift: err == nil ==> state.shift == ite(turn, !old(state.shift), old(state.shift))
  ensures table: okstate(state) && (err == nil ==> state.table == coltab(up(old(*input))))
  ensures count: err == nil ==> len(*output) == old(len(*output)) + d1 + d2 + 1 && state.charCounter == old(state.charCounter) + d1 + d2 + 1
  ensures code: err == nil ==> (*output)[old(len(*output)) + d1 + d2] == 65 + colno(up(old(*input)))
  ensures switch: err == nil && d2 == 1 ==> (*output)[old(len(*output)) + d1] == 90
  ensures case1: err == nil && d1 == 1 ==> (*output)[old(len(*output))] == 88
  ensures case2: err == nil && d1 == 2 ==> (*output)[old(len(*output))] == 90 && (*output)[old(len(*output)) + 1] == 88
  ensures prefix: forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures letters: err == nil ==> forall i :: old(len(*output)) <= i && i < len(*output) ==> letter((*output)[i])
  ensures storage: blk(*output) == old(blk(*output)) || fresh(*output)
  loop 1
    invariant same: !foundIt && okstate(state) && state.table == entry(state.table) && state.charCounter == entry(state.charCounter) && state.shift == entry(state.shift) && *output == entry(*output)
    invariant same_text: forall i :: 0 <= i && i < len(*output) ==> (*output)[i] == entry((*output)[i])
    invariant searched: ($n > 0 ==> coltab(c) != 0) && ($n > 1 ==> coltab(c) != 1)
  loop 2
    invariant same: !foundIt && okstate(state) && state.table == entry(state.table) && state.charCounter == entry(state.charCounter) && state.shift == entry(state.shift) && *output == entry(*output)
    invariant same_text: forall i :: 0 <= i && i < len(*output) ==> (*output)[i] == entry((*output)[i])
    invariant searched: coltab(c) == t ==> colno(c) >= $n
}
property C07 {
  root (*krypto431.codecState).encodeCharacter
  root (*krypto431.codecState).changeKey
  root (*krypto431.codecState).pad
}

smt decoding {{
; tabch t i: the character in column i (0..25) of table t, 164 for a control code
(define-fun tabch ((t Int) (i Int)) Int (ite (= t 0)
  (ite (= i 16) 32 (ite (= i 25) 164 (+ 65 i)))
  (ite (<= i 9) (+ 48 i) (ite (= i 10) 63 (ite (= i 11) 45 (ite (= i 12) 197 (ite (= i 13) 196 (ite (= i 14) 214 (ite (= i 15) 46 (ite (= i 16) 81
  (ite (= i 17) 44 (ite (= i 18) 90 (ite (= i 19) 58 (ite (= i 20) 43 (ite (= i 21) 47 164)))))))))))))))
}}
// the state before decoding a letter: literal reading applies when no key change is under way
define reading(s int) = !s.binary && !s.gotChangeKeyChar && !s.keyChange
define sameflags(s int, t int) = s.binary == t.binary && s.gotChangeKeyChar == t.gotChangeKeyChar && s.keyChange == t.keyChange
func (*krypto431.codecState).decodeCharacter {
  safety [C08]
  requires state != nil && okstate(state) && input != nil && output != nil
  modifies state.table, state.charCounter, state.shift, state.binary, state.gotChangeKeyChar, state.keyChange, *output, (*output)[*]
  let x = *input
  let lit = letter(*input) && reading(state) && tabch(state.table, *input - 65) != 164
  let ctl = letter(*input) && reading(state) && tabch(state.table, *input - 65) == 164
  ensures state: okstate(state)
  ensures refused: (err != nil) == (!letter(x) || old(state.binary))
  ensures quiet: !lit ==> len(*output) == old(len(*output)) && blk(*output) == old(blk(*output)) && off(*output) == old(off(*output))
  ensures unmoved: err != nil ==> state.table == old(state.table) && state.shift == old(state.shift) && sameflags(state, old(state))
  ensures key_letters: err == nil && (old(state.gotChangeKeyChar) || old(state.keyChange)) ==> state.keyChange && !state.gotChangeKeyChar && !state.binary && state.table == old(state.table) && state.shift == old(state.shift)
  ensures literal: lit ==> reading(state) && state.table == old(state.table) && state.shift == old(state.shift) && len(*output) == old(len(*output)) + 1 &&
  |  (*output)[old(len(*output))] == ite(old(state.shift) && tabch(old(state.table), x - 65) != 32, low(tabch(old(state.table), x - 65)), tabch(old(state.table), x - 65))
  ensures next_table: ctl && x == 90 ==> reading(state) && state.table == 1 - old(state.table) && state.shift == old(state.shift)
  ensures toggle_case: ctl && x == 88 ==> reading(state) && state.table == old(state.table) && state.shift == !old(state.shift)
  ensures change_key: ctl && x == 89 ==> state.gotChangeKeyChar && !state.keyChange && !state.binary && state.table == old(state.table) && state.shift == old(state.shift)
  ensures binary: ctl && x == 87 ==> state.binary && !state.gotChangeKeyChar && !state.keyChange
  ensures prefix: forall i :: 0 <= i && i < old(len(*output)) ==> (*output)[i] == old((*output)[i])
  ensures storage: blk(*output) == old(blk(*output)) || fresh(*output)
}
property C08 {
  root (*krypto431.codecState).decodeCharacter
}

// Decoding what encodeCharacter writes (its contract) by the steps decodeCharacter takes (its contract)
// gives back the character and leaves the decoder in the encoder's state.  Facts about package unicode
// used here are checked exhaustively by the directed search of C02.
lemma [C02] one_character {{
(declare-fun upf (Int) Int) (declare-fun lowf (Int) Int) (declare-fun isup (Int) Bool) (declare-fun islow (Int) Bool)
(define-fun alpha ((c Int)) Bool (or (and (<= 65 c) (<= c 90)) (= c 197) (= c 196) (= c 214)))
(declare-fun c () Int) (declare-fun T () Int) (declare-fun S () Bool)
; package unicode (instances of: an upper case character is its own upper case form; table characters have
; the expected case and lower case form)
(assert (=> (isup c) (= (upf c) c)))
(define-fun intable ((x Int)) Bool (=> (>= (coltab x) 0) (and (= (upf x) x) (not (islow x)) (= (isup x) (alpha x)) (= (lowf x) (ite (alpha x) (+ x 32) x)))))
(define-fun letters ((x Int)) Bool (=> (alpha x) (and (islow (+ x 32)) (not (isup (+ x 32))) (= (upf (+ x 32)) x))))
(assert (and (intable c) (intable (upf c)) (letters c) (letters (upf c))))
; a character the encoder accepts, in table T with shift S
(assert (and (<= 0 T 1) (>= (coltab (upf c)) 0) (=> (not (= (upf c) c)) (= (lowf (upf c)) c))))
; what the encoder writes
(define-fun turn () Bool (or (and (isup c) S) (and (islow c) (not S))))
(define-fun d1 () Int (ite turn (ite (= T 1) 1 2) 0))
(define-fun t1 () Int (ite turn 1 T))
(define-fun d2 () Int (ite (= t1 (coltab (upf c))) 0 1))
(define-fun code ((p Int)) Int (ite (and (= d1 2) (= p 0)) 90 (ite (and (> d1 0) (= p (- d1 1))) 88 (ite (and (= d2 1) (= p d1)) 90 (ite (= p (+ d1 d2)) (+ 65 (colno (upf c))) 0)))))
; the decoder's table and shift before letter p, and what it emits (0 for nothing)
(declare-fun dt (Int) Int) (declare-fun ds (Int) Bool)
(define-fun lit ((p Int)) Bool (not (= (tabch (dt p) (- (code p) 65)) 164)))
(define-fun emit ((p Int)) Int (ite (lit p) (ite (and (ds p) (not (= (tabch (dt p) (- (code p) 65)) 32))) (lowf (tabch (dt p) (- (code p) 65))) (tabch (dt p) (- (code p) 65))) 0))
(assert (and (= (dt 0) T) (= (ds 0) S)))
(define-fun next ((p Int)) Bool (and (= (dt (+ p 1)) (ite (and (not (lit p)) (= (code p) 90)) (- 1 (dt p)) (dt p))) (= (ds (+ p 1)) (ite (and (not (lit p)) (= (code p) 88)) (not (ds p)) (ds p)))))
(assert (and (next 0) (next 1) (next 2) (next 3)))
(define-fun n () Int (+ d1 d2))
(assert (not (and (<= 0 n 3) (= (dt n) (coltab (upf c))) (lit n) (= (emit n) c) (= (dt (+ n 1)) (coltab (upf c))) (= (ds (+ n 1)) (ite turn (not S) S))
  (=> (> n 0) (= (emit 0) 0)) (=> (> n 1) (= (emit 1) 0)) (=> (> n 2) (= (emit 2) 0)))))
}}
property C02 {
  root (*krypto431.codecState).encodeCharacter
  root (*krypto431.codecState).decodeCharacter
  root (*krypto431.codecState).changeKey
  root diana.TrigraphRune
  lemma one_character
  lemma tri_range
}
property C06 {
  root (*krypto431.codecState).encodeCharacter
  root (*krypto431.codecState).changeKey
  root (*krypto431.codecState).pad
  root diana.TrigraphRune
}
property C03 {
  root (*krypto431.Krypto431).FindKey
  root (*krypto431.Krypto431).GetKey
}
property C04 {
  root (*krypto431.Krypto431).MarkKeyUsed
  root (*krypto431.Krypto431).GetKey
}
