// C11: wildcard patterns match exactly by their definition, or stop at the work limit.
prop C11 funcs=pattern.Match;pattern.processEscapes
bounded C11 that the filter operators % and !% hand the text and the pattern to the matcher unchanged: random texts of up to 12 and patterns of up to 8 characters, checked end to end through Get on each run
assume C11 runesOf(s) is what Go's conversion of s to []rune gives

uninterp runesOf(s string) Seq[rune]
// the symbols of a pattern, and which of them a backslash made literal
rec litsA(a Seq[rune], p Seq[rune], i int) Seq[rune] == i >= len(p) ? a : p[i] == 92 && i+1 < len(p) ? litsA(a + unit(p[i+1], rune), p, i+2) : litsA(a + unit(p[i], rune), p, i+1)
rec escsA(a Seq[bool], p Seq[rune], i int) Seq[bool] == i >= len(p) ? a : p[i] == 92 && i+1 < len(p) ? escsA(a + unit(true, bool), p, i+2) : escsA(a + unit(false, bool), p, i+1)
macro lits(p Seq[rune], i int) Seq[rune] == nu(litsA(emptyseq(rune), p, i))
macro escs(p Seq[rune], i int) Seq[bool] == nu(escsA(emptyseq(bool), p, i))
// the first i characters of s can be derived from the first j symbols
rec der(s Seq[rune], q Seq[rune], e Seq[bool], i int, j int) bool ==
  j <= 0 ? i <= 0
  : q[j-1] == 42 && !e[j-1] ? der(s, q, e, i, j-1) || (i > 0 && der(s, q, e, i-1, j))
  : i > 0 && ((q[j-1] == 63 && !e[j-1]) || q[j-1] == s[i-1]) && der(s, q, e, i-1, j-1)
macro patMatch(s Seq[rune], p Seq[rune]) bool == der(s, lits(p, 0), escs(p, 0), len(s), len(lits(p, 0)))
rec mul(a int, b int) int == a * b
lemma [C11] mulZero(b int) {mul(0, b)} : un(mul(0, b)) == 0
lemma [C11] mulStep(a int, b int, c int) {mul(a, b), mul(c, b)} : c == a + 1 ==> un(mul(c, b)) == un(mul(a, b)) + b
lemma [C11] mulMono(a int, b int, c int) {mul(a, b), mul(c, b)} : a < c && b >= 0 ==> un(mul(a, b)) + b <= un(mul(c, b))
contract pattern.processEscapes
  invariant [C11] for r var []rune, n var int :: litsA(seq(r), old(seq(pattern)), n) == lits(old(seq(pattern)), 0)
  invariant [C11] for b var []bool, n var int :: escsA(seq(b), old(seq(pattern)), n) == escs(old(seq(pattern)), 0)
  ensures [C11] seq(result0) == lits(old(seq(pattern)), 0) && seq(result1) == escs(old(seq(pattern)), 0)
macro D(str string, pattern string, i int, j int) bool == der(runesOf(str), lits(runesOf(pattern), 0), escs(runesOf(pattern), 0), i, j)
macro PL(pattern string) int == len(lits(runesOf(pattern), 0))
contract pattern.Match
  invariant [C11] for r []rune :: seq(r) == runesOf(str)
  invariant [C11] for r []rune :: seq(r) == lits(runesOf(pattern), 0)
  invariant [C11] for e []bool :: seq(e) == escs(runesOf(pattern), 0)
  invariant [C11] for t [][]bool :: forall a int, b int :: {t[a], t[b]} 0 <= a && a < b && b < iter && b < len(t) ==> ref(t[a]) != ref(t[b])
  invariant [C11] for t [][]bool :: forall k int :: {t[k]} 0 <= k && k < iter && k < len(t) ==> ref(t[k]) < alloc()
  invariant [C11] for t [][]bool :: forall a int, b int :: {t[a], t[b]} 0 <= a && a < b && b < len(t) ==> ref(t[a]) != ref(t[b])
  invariant [C11] for t [][]bool, e []bool :: forall k int :: {t[k]} 0 <= k && k < iter && k < len(t) ==> ref(t[k]) != ref(e)
  invariant [C11] for t [][]bool, e []bool :: forall k int :: {t[k]} 0 <= k && k < len(t) ==> ref(t[k]) != ref(e)
  invariant [C11] for t [][]bool :: forall a int, b int :: {t[a][b]} 0 <= a && a < iter && a < len(t) && 0 <= b && b <= PL(pattern) ==> !t[a][b]
  invariant [C11] for t [][]bool :: forall a int, b int :: {t[a][b]} 1 <= a && a < len(t) && 0 <= b && b <= PL(pattern) ==> !t[a][b]
  // first row: filled up to the loop counter; later rows: those before row i are complete, row i up to the counter, and the rest is still false
  invariant [C11] folded for t [][]bool, j var int :: forall b int :: {t[0][b]} 0 <= b && b <= PL(pattern) ==> (t[0][b] <==> (b < j && D(str, pattern, 0, b)))
  invariant [C11] folded for t [][]bool, i var int :: forall a int, b int :: {t[a][b]} 0 <= a && a < len(t) && 0 <= b && b <= PL(pattern) ==> (t[a][b] <==> (a < i && D(str, pattern, a, b)))
  invariant [C11] folded for t [][]bool, i var int, j var int :: forall a int, b int :: {t[a][b]} 0 <= a && a < len(t) && 0 <= b && b <= PL(pattern) ==> (t[a][b] <==> ((a < i || a == i && b < j) && D(str, pattern, a, b)))
  invariant [C11] for n var int, i var int :: n == nu(mul(i-1, PL(pattern)))
  invariant [C11] for n var int, i var int, j var int :: n == nu(mul(i-1, PL(pattern))) + j - 1
  invariant [C11] for n var int :: maxIterations >= 0 ==> n <= maxIterations
  ensures [C11] maxIterations >= 0 ==> (result1 <==> nu(mul(len(runesOf(str)), len(lits(runesOf(pattern), 0)))) > maxIterations)
  ensures [C11] result1 ==> !result0
  ensures [C11] !result1 ==> (result0 <==> patMatch(runesOf(str), runesOf(pattern)))
