// Grouping letters (functions.go).
// brk p: the place of a line break in the window of columns+1 elements from p
ghost brk (Array Int Int)
smt groupsdiv {{
; facts of integer division, g > 0:  grp i g = i / g, inside i g = i mod g
(declare-fun grp (Int Int) Int)
(declare-fun inside (Int Int) Int)
(assert (forall ((i Int) (g Int)) (! (=> (and (<= 0 i) (< 0 g)) (and (= i (+ (* g (grp i g)) (inside i g))) (<= 0 (inside i g)) (< (inside i g) g) (<= 0 (grp i g)) (<= (grp i g) i))) :pattern ((grp i g)))))
(assert (forall ((i Int) (g Int)) (! (=> (and (<= 0 i) (< 0 g)) (and (= (inside 0 g) 0) (= (grp 0 g) 0)
  (= (inside (+ i 1) g) (ite (= (inside i g) (- g 1)) 0 (+ (inside i g) 1))) (= (grp (+ i 1) g) (ite (= (inside i g) (- g 1)) (+ (grp i g) 1) (grp i g))))) :pattern ((grp i g)))))
}}
smt ceilfacts {{
; math.Ceil (standard library fact; floats treated as reals)
(declare-fun x_math.Ceil (Real) Real)
(assert (forall ((x Real)) (! (and (<= x (x_math.Ceil x)) (< (x_math.Ceil x) (+ x 1.0)) (is_int (x_math.Ceil x))) :pattern ((x_math.Ceil x)))))
}}
define place_of(i int, g int) = i + grp(i, g)

func krypto431.groups {
  safety [C17]
  use input != nil ==> valid(*input)
  modifies brk
  ensures refused: input == nil || groupsize <= 0 ==> err != nil && result0 == nil
  ensures accepted: input != nil && groupsize > 0 ==> err == nil && result0 != nil && fresh(result0) && fresh(*result0)
  ensures [C17] nothing_changed: input != nil ==> unchanged(*input) && samecontent(*input)
  ensures total: err == nil ==> len(*result0) == ite(len(*input) == 0, 0, place_of(len(*input) - 1, groupsize) + 1)
  ensures letters: err == nil ==> forall i :: 0 <= i && i < len(*input) ==> (*result0)[place_of(i, groupsize)] == (*input)[i]
  ensures separators: err == nil ==> forall i :: 0 <= i && i + 1 < len(*input) ==> inside(i, groupsize) == groupsize - 1 ==> (*result0)[place_of(i, groupsize) + 1] == 32 || columns > 0 && (*result0)[place_of(i, groupsize) + 1] == 10
  ensures block: err == nil && groupsize <= columns ==> forall p :: 0 <= p && p + columns < len(*result0) ==> p <= brk[p] && brk[p] <= p + columns && (*result0)[brk[p]] == 10
  loop 1
    invariant 0 <= i && i <= len(*input) && runeCount == inside(i, groupsize) && 0 <= outCount
    invariant length: len(output) == ite(i == len(*input) && i > 0, place_of(i - 1, groupsize) + 1, place_of(i, groupsize))
    invariant earlier: forall j :: 0 <= j && j < i ==> place_of(j, groupsize) < len(output) && grp(j, groupsize) <= grp(i, groupsize) && (inside(j, groupsize) == groupsize - 1 ==> grp(j, groupsize) < grp(i, groupsize))
    invariant letters: forall j :: 0 <= j && j < i ==> output[place_of(j, groupsize)] == (*input)[j]
    invariant separators: forall j :: 0 <= j && j < i && j + 1 < len(*input) ==> inside(j, groupsize) == groupsize - 1 ==> output[place_of(j, groupsize) + 1] == 32 || columns > 0 && output[place_of(j, groupsize) + 1] == 10
    invariant line: groupsize <= columns ==> outCount <= columns && outCount <= len(output) && (i < len(*input) ==> outCount <= ite(columns - groupsize - 1 > 0, columns - groupsize - 1, 0) + runeCount)
    invariant broken: groupsize <= columns ==> outCount < len(output) ==> output[len(output) - outCount - 1] == 10
    invariant block: groupsize <= columns ==> forall p :: 0 <= p && p + columns < len(output) ==> p <= brk[p] && brk[p] <= p + columns && output[brk[p]] == 10
    step brk = upd(upd(brk, len(output) - 2 - columns, head(len(output)) - head(outCount) - 1), len(output) - 1 - columns, ite(outCount == 0, len(output) - 1, head(len(output)) - head(outCount) - 1))
}
func (*krypto431.Key).Groups {
  safety [C17]
  requires k != nil && k.instance != nil
  use valid(k.Runes)
  modifies brk
  ensures refused: k.instance.GroupSize <= 0 ==> err != nil && result0 == nil
  ensures accepted: k.instance.GroupSize > 0 ==> err == nil && result0 != nil && fresh(result0) && fresh(*result0)
  ensures nothing_changed: unchanged(k.Runes) && samecontent(k.Runes)
  ensures total: err == nil ==> len(*result0) == ite(len(k.Runes) == 0, 0, place_of(len(k.Runes) - 1, k.instance.GroupSize) + 1)
  ensures letters: err == nil ==> forall i :: 0 <= i && i < len(k.Runes) ==> (*result0)[place_of(i, k.instance.GroupSize)] == k.Runes[i]
  ensures separators: err == nil ==> forall i :: 0 <= i && i + 1 < len(k.Runes) ==> inside(i, k.instance.GroupSize) == k.instance.GroupSize - 1 ==> (*result0)[place_of(i, k.instance.GroupSize) + 1] == 32
}

func (*krypto431.Key).GroupsBlock {
  safety [C17]
  requires k != nil && k.instance != nil
  use valid(k.Runes)
  modifies brk
  ensures refused: k.instance.GroupSize <= 0 ==> err != nil && result0 == nil
  ensures accepted: k.instance.GroupSize > 0 ==> err == nil && result0 != nil && fresh(result0) && fresh(*result0)
  ensures nothing_changed: unchanged(k.Runes) && samecontent(k.Runes)
  ensures total: err == nil ==> len(*result0) == ite(len(k.Runes) == 0, 0, place_of(len(k.Runes) - 1, k.instance.GroupSize) + 1)
  ensures letters: err == nil ==> forall i :: 0 <= i && i < len(k.Runes) ==> (*result0)[place_of(i, k.instance.GroupSize)] == k.Runes[i]
  ensures separators: err == nil ==> forall i :: 0 <= i && i + 1 < len(k.Runes) ==> inside(i, k.instance.GroupSize) == k.instance.GroupSize - 1 ==> (*result0)[place_of(i, k.instance.GroupSize) + 1] == 32 || k.instance.KeyColumns > 0 && (*result0)[place_of(i, k.instance.GroupSize) + 1] == 10
  ensures block: err == nil && k.instance.GroupSize <= k.instance.KeyColumns ==> forall p :: 0 <= p && p + k.instance.KeyColumns < len(*result0) ==> p <= brk[p] && brk[p] <= p + k.instance.KeyColumns && (*result0)[brk[p]] == 10
}

func (*krypto431.Message).Groups {
  safety [C17]
  requires m != nil && m.instance != nil
  use valid(m.CipherText)
  modifies brk
  ensures refused: m.instance.GroupSize <= 0 ==> err != nil && result0 == nil
  ensures accepted: m.instance.GroupSize > 0 ==> err == nil && result0 != nil && fresh(result0) && fresh(*result0)
  ensures nothing_changed: unchanged(m.CipherText) && samecontent(m.CipherText)
  ensures total: err == nil ==> len(*result0) == ite(len(m.CipherText) == 0, 0, place_of(len(m.CipherText) - 1, m.instance.GroupSize) + 1)
  ensures letters: err == nil ==> forall i :: 0 <= i && i < len(m.CipherText) ==> (*result0)[place_of(i, m.instance.GroupSize)] == m.CipherText[i]
  ensures separators: err == nil ==> forall i :: 0 <= i && i + 1 < len(m.CipherText) ==> inside(i, m.instance.GroupSize) == m.instance.GroupSize - 1 ==> (*result0)[place_of(i, m.instance.GroupSize) + 1] == 32
}

func (*krypto431.Message).GroupsBlock {
  safety [C17]
  requires m != nil && m.instance != nil
  use valid(m.CipherText)
  modifies brk
  ensures refused: m.instance.GroupSize <= 0 ==> err != nil && result0 == nil
  ensures accepted: m.instance.GroupSize > 0 ==> err == nil && result0 != nil && fresh(result0) && fresh(*result0)
  ensures nothing_changed: unchanged(m.CipherText) && samecontent(m.CipherText)
  ensures total: err == nil ==> len(*result0) == ite(len(m.CipherText) == 0, 0, place_of(len(m.CipherText) - 1, m.instance.GroupSize) + 1)
  ensures letters: err == nil ==> forall i :: 0 <= i && i < len(m.CipherText) ==> (*result0)[place_of(i, m.instance.GroupSize)] == m.CipherText[i]
  ensures separators: err == nil ==> forall i :: 0 <= i && i + 1 < len(m.CipherText) ==> inside(i, m.instance.GroupSize) == m.instance.GroupSize - 1 ==> (*result0)[place_of(i, m.instance.GroupSize) + 1] == 32 || m.instance.Columns > 0 && (*result0)[place_of(i, m.instance.GroupSize) + 1] == 10
  ensures block: err == nil && m.instance.GroupSize <= m.instance.Columns ==> forall p :: 0 <= p && p + m.instance.Columns < len(*result0) ==> p <= brk[p] && brk[p] <= p + m.instance.Columns && (*result0)[brk[p]] == 10
}

property C17 {
  root krypto431.groups
  root (*krypto431.Key).Groups
  root (*krypto431.Key).GroupsBlock
  root (*krypto431.Message).Groups
  root (*krypto431.Message).GroupsBlock
}
