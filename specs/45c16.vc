// C16: built-in modifiers.
prop C16 uses==FQ,=MOD kinds=frame funcs=(*reverseModifier).Apply;(*sortModifier).Apply;(*sortModifier).Apply$1;(*sortModifier).Apply$2;parseFloat64;(*firstModifier).Apply;(*lastModifier).Apply;(*flattenModifier).Apply;(*prettyModifier).Apply;(*uglyModifier).Apply;applyModifiers;RegisterModifier;UnregisterModifier;isBuiltinModifier;compactXML;deduplicateXmlnsAttrs
bounded C16 the chain of a path is applied to the result of its query, and the built-in modifiers are registered at start
assume C16 a registered modifier is a function of its input (modApply) and the registry does not change while a chain is applied (modOf); clauses tagged MOD
assume C16 String is a function of the result (resText); numOf/numOK are strconv's parser; a comparison with NaN is never true
uninterp modOf(name string) Modifier
uninterp modApply(m Modifier, r Result) Result
rec revR(q Seq[Result], k int) Seq[Result] == k <= 0 ? emptyseq(Result) : unit(q[k - 1]) + revR(q, k - 1)
contract (*reverseModifier).Apply
  ensures [C16] r.Type != Array || len(r.Results) == 0 ==> result == r
  ensures [C16] r.Type == Array ==> result.Type == Array && len(result.Results) == len(r.Results) && (forall k int :: {result.Results[k]} 0 <= k && k < len(r.Results) ==> result.Results[k] == old(r.Results[len(r.Results) - 1 - k]))
  invariant [C16] for x []Result, i var int :: forall k int :: {x[k]} len(x) - i <= k && 0 <= k && k < len(x) && len(x) == len(r.Results) ==> x[k] == old(r.Results[len(r.Results) - 1 - k])
  invariant [C16] for x []Result, i var int :: forall k int :: {x[k]} 0 <= k && k < len(x) - 1 - i && k < len(x) && len(x) == len(r.Results) ==> x[k] == old(r.Results[len(r.Results) - 1 - k])
  invariant [C16] for x []Result, i var int :: len(x) == len(r.Results) && (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k] == (k < i || k >= len(x) - i ? old(r.Results[len(r.Results) - 1 - k]) : old(r.Results[k])))
contract (*firstModifier).Apply
  ensures [C16] r.Type != Array || len(r.Results) == 0 ==> result == r
  ensures [C16] r.Type == Array && len(r.Results) > 0 ==> result == r.Results[0]
contract (*lastModifier).Apply
  ensures [C16] r.Type != Array || len(r.Results) == 0 ==> result == r
  ensures [C16] r.Type == Array && len(r.Results) > 0 ==> result == r.Results[len(r.Results) - 1]
// inner(x): the items of x; a list with one level removed
uninterp inner(x Result) Seq[Result]
rec flat(q Seq[Result], k int) Seq[Result] == k <= 0 ? emptyseq(Result) : flat(q, k - 1) + (q[k - 1].Type == Array ? inner(q[k - 1]) : unit(q[k - 1]))
macro inners(x []Result) bool == forall k int :: {x[k]} 0 <= k && k < len(x) ==> inner(x[k]) == seq(x[k].Results) && ref(x[k].Results) < alloc()
contract (*flattenModifier).Apply
  ensures [C16] r.Type != Array ==> result == r
  ensures [C16] r.Type == Array && old(inners(r.Results)) && len(nu(flat(old(seq(r.Results)), len(r.Results)))) > 0 ==> result.Type == Array && seq(result.Results) == flat(old(seq(r.Results)), len(r.Results))
  ensures [C16] r.Type == Array && old(inners(r.Results)) && len(nu(flat(old(seq(r.Results)), len(r.Results)))) == 0 ==> result == zero(Result)
  invariant [C16] for x var []Result :: old(inners(r.Results)) ==> seq(x) == flat(old(seq(r.Results)), iter)
contract (*prettyModifier).Apply
  ensures [C16] result.Type == r.Type && result.Str == r.Str && result.Num == r.Num && result.Index == r.Index && result.Results == r.Results
contract (*uglyModifier).Apply
  ensures [C16] result.Type == r.Type && result.Str == r.Str && result.Num == r.Num && result.Index == r.Index && result.Results == r.Results
// sorting
uninterp permuted(a Seq[Result], b Seq[Result]) bool
macro isNumR(r Result) bool == r.Type == Number || (r.Type == String || r.Type == Element || r.Type == Attribute) && numOK(r.Str)
macro numR(r Result) float64 == r.Type == Number ? r.Num : numOf(r.Str)
macro noNaN(x []Result) bool == forall k int :: {x[k]} 0 <= k && k < len(x) ==> feq(numR(x[k]), numR(x[k]))
macro allNum(x []Result) bool == forall k int :: {x[k]} 0 <= k && k < len(x) ==> isNumR(x[k])
contract (*sortModifier).Apply
  ensures [C16] r.Type != Array || len(r.Results) <= 1 ==> result == r
  ensures [C16] r.Type == Array && len(r.Results) > 1 ==> result.Type == Array && permuted(old(seq(r.Results)), seq(result.Results))
  ensures [C16] r.Type == Array && len(r.Results) > 1 && old(allNum(r.Results)) && old(noNaN(r.Results)) ==> forall i int, j int :: {result.Results[i], result.Results[j]} 0 <= i && i < j && j < len(result.Results) ==> !(numR(result.Results[j]) < numR(result.Results[i]))
  ensures [C16] r.Type == Array && len(r.Results) > 1 && !old(allNum(r.Results)) ==> forall i int, j int :: {result.Results[i], result.Results[j]} 0 <= i && i < j && j < len(result.Results) ==> !(resText(result.Results[j]) < resText(result.Results[i]))
  invariant [C16] for x []Result, i var int :: forall k int :: {x[k]} 0 <= k && k < i ==> isNumR(x[k])
contract (*sortModifier).Apply$1
  requires 0 <= i && i < len(sorted) && 0 <= j && j < len(sorted)
  ensures [C16] result == (numR(sorted[i]) < numR(sorted[j]))
contract (*sortModifier).Apply$2
  requires 0 <= i && i < len(sorted) && 0 <= j && j < len(sorted)
  ensures [C16] result == (resText(sorted[i]) < resText(sorted[j]))
contract parseFloat64
  ensures [C16] result1 == nil <==> numOK(s)
  ensures [C16] result0 == numOf(s)
extern strconv.ParseFloat
  ensures [C16] result1 == nil <==> numOK(s)
  ensures [C16] result0 == numOf(s)
// chains
extern (Modifier).Apply
  ensures [MOD] result == modApply(recv, r)
contract GetModifier
  ensures [MOD] result == modOf(name)
rec chainR(q Seq[string], i int, r Result) Result == i < 0 || i >= len(q) ? r : modOf(q[i]) == nil ? zero(Result) : modApply(modOf(q[i]), r).Type == Null ? modApply(modOf(q[i]), r) : chainR(q, i + 1, modApply(modOf(q[i]), r))
contract applyModifiers
  ensures [C16] len(modifierNames) <= MaxModifierChainDepth ==> result == chainR(seq(modifierNames), 0, r)
  invariant [C16] for x var Result :: chainR(seq(modifierNames), iter, x) == chainR(seq(modifierNames), 0, r)
// the registry
macro builtin(n string) bool == n == "reverse" || n == "sort" || n == "first" || n == "last" || n == "flatten" || n == "pretty" || n == "ugly"
macro inPlace() bool == has(modifierRegistry, "reverse") && isType(modifierRegistry["reverse"], *reverseModifier) && has(modifierRegistry, "sort") && isType(modifierRegistry["sort"], *sortModifier) && has(modifierRegistry, "first") && isType(modifierRegistry["first"], *firstModifier) && has(modifierRegistry, "last") && isType(modifierRegistry["last"], *lastModifier) && has(modifierRegistry, "flatten") && isType(modifierRegistry["flatten"], *flattenModifier) && has(modifierRegistry, "pretty") && isType(modifierRegistry["pretty"], *prettyModifier) && has(modifierRegistry, "ugly") && isType(modifierRegistry["ugly"], *uglyModifier)
moninv modifierRegistry [C16] inPlace()
contract isBuiltinModifier
  ensures [C16] builtin(name) ==> result
  invariant [C16] for x []string :: forall k int :: {x[k]} 0 <= k && k < iter ==> x[k] != name
contract RegisterModifier
  ensures [C16] builtin(name) ==> result != nil
contract UnregisterModifier
  ensures [C16] builtin(name) ==> result != nil
