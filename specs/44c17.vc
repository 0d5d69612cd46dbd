// C17: Result accessors.
prop C17 uses==FQ kinds=none funcs=(Result).Exists;(Result).IsArray;(Result).Array;(Result).ForEach;(Result).String;(Result).Int;(Result).Float;(Result).Bool;(Result).Value;parseInt64;parseFloat64
assume C17 String is a function of the result (resText); the Results of a result are not changed while it is read
assume C17 runeat, runew and runestr are Go's decoding and encoding of runes, numOf/numOK and intOf/intOK strconv's parsers
uninterp intOK(s string) bool
uninterp intOf(s string) int
contract parseInt64
  ensures [C17] result1 == nil <==> intOK(s)
  ensures [C17] result1 == nil ==> result0 == intOf(s)
contract parseFloat64
  ensures [C17] result1 == nil <==> numOK(s)
  ensures [C17] result1 == nil ==> result0 == numOf(s)
extern strconv.ParseInt
  ensures [C17] base == 10 && bitSize == 64 ==> (result1 == nil <==> intOK(s)) && (result1 == nil ==> result0 == intOf(s))
extern strconv.ParseFloat
  ensures [C17] result1 == nil <==> numOK(s)
  ensures [C17] result1 == nil ==> result0 == numOf(s)
macro textual(r Result) bool == r.Type == String || r.Type == Element || r.Type == Attribute
contract (Result).Exists
  ensures [C17] result <==> r.Type != Null
contract (Result).IsArray
  ensures [C17] result <==> r.Type == Array
contract (Result).Array
  ensures [C17] r.Type == Array ==> result == r.Results
  ensures [C17] r.Type == Null ==> len(result) == 0
  ensures [C17] r.Type != Array && r.Type != Null ==> len(result) == 1 && result[0] == r
contract (Result).Int
  ensures [C17] textual(r) ==> result == (intOK(r.Str) ? intOf(r.Str) : 0)
  ensures [C17] r.Type == True ==> result == 1
  ensures [C17] r.Type == Number ==> result == int64(r.Num)
  ensures [C17] !textual(r) && r.Type != True && r.Type != Number ==> result == 0
contract (Result).Float
  ensures [C17] textual(r) && numOK(r.Str) ==> result == numOf(r.Str)
  ensures [C17] r.Type == Number ==> result == r.Num
  ensures [C17] r.Type == True ==> result == float(1)
  ensures [C17] textual(r) && !numOK(r.Str) || !textual(r) && r.Type != Number && r.Type != True ==> result == zero(float64)
contract (Result).Bool
  ensures [C17] result <==> r.Type == True || r.Type == Number && !feq(r.Num, zero(float64)) || textual(r) && (r.Str == "true" || r.Str == "1" || r.Str == "yes" || r.Str == "True" || r.Str == "YES" || r.Str == "t" || r.Str == "T")
contract (Result).Value
  ensures [C17] r.Type == Null ==> result == nil
  ensures [C17] r.Type == True || r.Type == False ==> result == box(r.Type == True)
  ensures [C17] r.Type == Number ==> result == box(r.Num)
  ensures [C17] textual(r) ==> result == box(r.Str)
  ensures [C17] r.Type == Array ==> result == box(r.Results)
// text of an item between the quotes
rec escQ(s string, i int) string == i < 0 || i >= len(s) || runew(s, i) < 1 ? "" : (runeat(s, i) == 34 ? "\\\"" : runeat(s, i) == 92 ? "\\\\" : runestr(runeat(s, i))) + escQ(s, i + runew(s, i))
rec joinQ(q Seq[Result], k int) string == k <= 0 ? "" : joinQ(q, k - 1) + (k > 1 ? "," : "") + "\"" + escQ(resText(q[k - 1]), 0) + "\""
contract (Result).String
  ensures [C17] r.Type == Null ==> result == ""
  ensures [C17] r.Type != Null && r.Type != Array ==> result == r.Str
  ensures [C17] r.Type == Array && len(r.Results) == 0 ==> result == "[]"
  ensures [C17] r.Type == Array && len(r.Results) > 0 ==> result == "[" + joinQ(seq(r.Results), len(r.Results)) + "]"
  invariant [C17] text(sb) == "[" + joinQ(seq(r.Results), iter)
  invariant [C17] text(sb) + escQ(itemStr, iter) == atloop(text(sb)) + escQ(itemStr, 0)
rec upTo(k int) Seq[int] == k <= 0 ? emptyseq(int) : upTo(k - 1) + unit(k - 1, int)
rec preR(q Seq[Result], k int) Seq[Result] == k <= 0 ? emptyseq(Result) : preR(q, k - 1) + unit(q[k - 1])
contract (Result).ForEach
  ensures [C17] r.Type == Null ==> args(iterator, 0) == old(args(iterator, 0)) && args(iterator, 1) == old(args(iterator, 1))
  ensures [C17] r.Type != Null && r.Type != Array ==> args(iterator, 0) == old(args(iterator, 0)) + unit(0, int) && args(iterator, 1) == old(args(iterator, 1)) + unit(r)
  ensures [C17] r.Type == Array ==> (let k := len(rets(iterator)) - old(len(rets(iterator))) in 0 <= k && k <= len(r.Results) && args(iterator, 1) == old(args(iterator, 1)) + preR(seq(r.Results), k) && args(iterator, 0) == old(args(iterator, 0)) + upTo(k) && (k == len(r.Results) || k > 0 && !rets(iterator)[len(rets(iterator)) - 1]))
  ensures [C17] r.Type == Array ==> forall j int :: {rets(iterator)[j]} old(len(rets(iterator))) <= j && j < len(rets(iterator)) - 1 ==> rets(iterator)[j]
  invariant [C17] args(iterator, 1) == old(args(iterator, 1)) + preR(seq(r.Results), iter) && args(iterator, 0) == old(args(iterator, 0)) + upTo(iter) && len(rets(iterator)) == old(len(rets(iterator))) + iter
  invariant [C17] forall j int :: {rets(iterator)[j]} old(len(rets(iterator))) <= j && j < len(rets(iterator)) ==> rets(iterator)[j]
