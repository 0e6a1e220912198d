// Rune slice comparison, copying and set containment (functions.go).

smt eqrunes {{
; eqr c o n d p m: the n elements of c from o equal the m elements of d from p
(declare-fun eqr ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (d (Array Int Int)) (p Int) (m Int))
  (! (= (eqr c o n d p m) (and (= n m) (forall ((k Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (select c k) (select d (+ p (- k o))))) :pattern ((select c k))))))
     :pattern ((eqr c o n d p m)))))
}}

smt upperfacts {{
; unicode.ToUpper on ASCII (standard library fact)
(declare-fun x_unicode.ToUpper (Int) Int)
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (x_unicode.ToUpper c) (ite (and (<= 97 c) (<= c 122)) (- c 32) c))) :pattern ((x_unicode.ToUpper c)))))
}}

smt eqfold {{
(declare-fun eqf ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(assert (forall ((c (Array Int Int)) (o Int) (n Int) (d (Array Int Int)) (p Int) (m Int))
  (! (= (eqf c o n d p m) (and (= n m) (forall ((k Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (x_unicode.ToUpper (select c k)) (x_unicode.ToUpper (select d (+ p (- k o)))))) :pattern ((select c k))))))
     :pattern ((eqf c o n d p m)))))
}}

define req(a int, b int) = eqr(cont(a), off(a), len(a), cont(b), off(b), len(b))
define ref(a int, b int) = eqf(cont(a), off(a), len(a), cont(b), off(b), len(b))
// in(h, s): some element of the list h equals s; inf: regardless of case
define in(h int, s int) = exists x :: 0 <= x && x < len(h) && req(h[x], s)
define inf(h int, s int) = exists x :: 0 <= x && x < len(h) && ref(h[x], s)
define mkin(ci bool, h int, s int) = (ci ==> inf(h, s)) && (!ci ==> in(h, s))

func krypto431.EqualRunes {
  safety [C18]
  ensures both_nil: a == nil && b == nil ==> result
  ensures one_nil: (a == nil) != (b == nil) ==> !result
  ensures exact: a != nil && b != nil ==> (result <==> req(*a, *b))
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> (*a)[i] == (*b)[i]
}

func krypto431.EqualRunesFold {
  safety [C18]
  ensures both_nil: a == nil && b == nil ==> result
  ensures one_nil: (a == nil) != (b == nil) ==> !result
  ensures exact: a != nil && b != nil ==> (result <==> ref(*a, *b))
  loop 1
    invariant forall i :: 0 <= i && i < $n ==> ext("unicode.ToUpper", (*a)[i]) == ext("unicode.ToUpper", (*b)[i])
}

func krypto431.AllNeedlesInHaystack {
  safety [C18]
  let ci = len(caseInsensitive) > 0 && caseInsensitive[0]
  ensures nil_args: needles == nil || haystack == nil ==> !result
  ensures empty: needles != nil && haystack != nil && (len(*needles) == 0 || len(*haystack) == 0) ==> !result
  ensures all_found: result ==> forall i :: 0 <= i && i < len(*needles) ==> mkin(ci, *haystack, (*needles)[i])
  ensures none_missed: needles != nil && haystack != nil && len(*needles) > 0 && len(*haystack) > 0 && !result ==>
  |  exists i :: 0 <= i && i < len(*needles) && !mkin(ci, *haystack, (*needles)[i])
  loop 1
    invariant forall j :: 0 <= j && j < $n ==> mkin(ci, *haystack, (*needles)[j])
  loop 2
    invariant forall x :: 0 <= x && x < $n ==> (ci ==> !ref((*haystack)[x], (*needles)[i])) && (!ci ==> !req((*haystack)[x], (*needles)[i]))
}

func krypto431.AnyNeedleInHaystack {
  safety [C18]
  ensures nil_args: needles == nil || haystack == nil ==> !result
  ensures found: result ==> exists i :: 0 <= i && i < len(*needles) && in(*haystack, (*needles)[i])
  ensures none_missed: needles != nil && haystack != nil && !result ==> forall i :: 0 <= i && i < len(*needles) ==> !in(*haystack, (*needles)[i])
  loop 1
    invariant forall j :: 0 <= j && j < $n ==> !in(*haystack, (*needles)[j])
  loop 2
    invariant forall x :: 0 <= x && x < $n ==> !req((*haystack)[x], (*needles)[i])
}

func krypto431.AnyOfThem {
  safety [C18]
  ensures nil_args: needle == nil || haystack == nil ==> !result
  ensures empty_needle: needle != nil && len(*needle) == 0 ==> !result
  ensures exact: needle != nil && haystack != nil && len(*needle) > 0 ==> (result <==> in(*haystack, *needle))
  loop 1
    invariant forall x :: 0 <= x && x < $n ==> !req((*haystack)[x], *needle)
}

func krypto431.RuneCopy {
  safety [C18]
  ensures copy: src != nil ==> req(result, *src) && len(result) == len(*src)
  ensures nil_src: src == nil ==> len(result) == 0
  ensures own_storage: fresh(result) && off(result) == 0
}

func krypto431.ByteCopy {
  safety [C11]
  ensures copy: src != nil ==> req(result, *src) && len(result) == len(*src)
  ensures nil_src: src == nil ==> len(result) == 0
  ensures own_storage: fresh(result) && off(result) == 0
}
property C18 {
  root krypto431.EqualRunes
  root krypto431.EqualRunesFold
  root krypto431.AllNeedlesInHaystack
  root krypto431.AnyNeedleInHaystack
  root krypto431.AnyOfThem
}
