// diana: trigraph cipher letters.  tri(x, y) is stated independently of the code, from the package
// documentation: third letter = position (25 - row - column) mod 26, over mathematical integers.

define letter(c int) = 'A' <= c && c <= 'Z'
define tri(x int, y int) = 'A' + (25 - (x - 'A') - (y - 'A')) % 26

func diana.TrigraphByte {
  safety [C01]
  modifies *writeTo
  ensures nil_args_fail: writeTo == nil || x == nil || y == nil ==> err != nil
  ensures outside_fails: writeTo != nil && x != nil && y != nil && !(letter(old(*x)) && letter(old(*y))) ==> err != nil
  ensures succeeds: writeTo != nil && x != nil && y != nil && letter(old(*x)) && letter(old(*y)) ==> err == nil
  ensures exact: err == nil ==> *writeTo == tri(old(*x), old(*y))
  ensures failure_writes_nothing: err != nil && writeTo != nil ==> *writeTo == old(*writeTo)
}

func diana.TrigraphRune {
  safety [C01]
  modifies *writeTo
  ensures nil_args_fail: writeTo == nil || x == nil || y == nil ==> err != nil
  ensures outside_fails: writeTo != nil && x != nil && y != nil && !(letter(old(*x)) && letter(old(*y))) ==> err != nil
  ensures succeeds: writeTo != nil && x != nil && y != nil && letter(old(*x)) && letter(old(*y)) ==> err == nil
  ensures exact: err == nil ==> *writeTo == tri(old(*x), old(*y))
  ensures failure_writes_nothing: err != nil && writeTo != nil ==> *writeTo == old(*writeTo)
}

func diana.ZeroKeyByte {
  safety [C01]
  modifies *writeTo
  ensures nil_args_fail: writeTo == nil || character == nil ==> err != nil
  ensures outside_fails: writeTo != nil && character != nil && !letter(old(*character)) ==> err != nil
  ensures succeeds: writeTo != nil && character != nil && letter(old(*character)) ==> err == nil
  ensures self_trigraph: err == nil ==> *writeTo == tri(old(*character), old(*character))
  ensures failure_writes_nothing: err != nil && writeTo != nil ==> *writeTo == old(*writeTo)
}

func diana.ZeroKeyRune {
  safety [C01]
  modifies *writeTo
  ensures nil_args_fail: writeTo == nil || character == nil ==> err != nil
  ensures outside_fails: writeTo != nil && character != nil && !letter(old(*character)) ==> err != nil
  ensures succeeds: writeTo != nil && character != nil && letter(old(*character)) ==> err == nil
  ensures self_trigraph: err == nil ==> *writeTo == tri(old(*character), old(*character))
  ensures failure_writes_nothing: err != nil && writeTo != nil ==> *writeTo == old(*writeTo)
}

// The output slice variable, the key slice variable and the index variable are distinct variables.
// The output's spare capacity does not hold the key letters being used, nor the character or index.
func diana.AppendTrigraphByteByKey {
  safety [C01]
  requires writeTo != nil && key != nil ==> writeTo != key
  let haveAll = writeTo != nil && character != nil && key != nil && keyIndex != nil
  modifies *writeTo, (*writeTo)[*], *keyIndex
  ensures nil_args_fail: !haveAll ==> err != nil
  ensures negative_fails: haveAll && old(*keyIndex) < 0 ==> err != nil
  ensures beyond_key_fails: haveAll && old(*keyIndex) >= old(len(*key)) ==> err != nil
  ensures bad_letter_fails: haveAll && !letter(old(*character)) ==> err != nil
  ensures appends_one: err == nil ==> len(*writeTo) == old(len(*writeTo)) + 1
  ensures appends_letter: err == nil ==> (*writeTo)[old(len(*writeTo))] == tri(old(*character), old((*key)[*keyIndex]))
  ensures keeps_output: err == nil ==> forall i :: 0 <= i < old(len(*writeTo)) ==> (*writeTo)[i] == old((*writeTo)[i])
  ensures advances: err == nil ==> *keyIndex == old(*keyIndex) + 1
  ensures fail_output: err != nil && writeTo != nil ==> unchanged(*writeTo) && samecontent(*writeTo)
  ensures fail_index: err != nil && keyIndex != nil ==> unchanged(*keyIndex)
}

lemma [C01] tri_range {{
(declare-fun x () Int) (declare-fun y () Int)
(define-fun tri ((x Int) (y Int)) Int (+ 65 (mod (- 25 (- x 65) (- y 65)) 26)))
(assert (and (<= 65 x 90) (<= 65 y 90)))
(assert (not (and (<= 65 (tri x y) 90) (= (tri x y) (tri y x)) (= (tri (tri x y) y) x) (= (tri x (tri x y)) y))))
}}

property C01 {
  root diana.TrigraphByte
  root diana.TrigraphRune
  root diana.ZeroKeyByte
  root diana.ZeroKeyRune
  root diana.AppendTrigraphByteByKey
  lemma tri_range
}
