// C10: documented resource limits.
prop C10 uses==VTX,=FLT,=LIM kinds=none funcs=*
assume C10 a registered modifier, given a list of at most 1000 results that are not lists themselves, returns no other kind of list (clause tagged LIM); proved here for every built-in modifier
bounded C10 that DeleteMany refuses a path over the limits, and that chains over the limit give nothing end to end
assume C10 valText(value) names the text valueToXML gives for a value (clause tagged VTX)
assume C10 filterBad(c), the conditions parseFilterCondition refuses (clause tagged FLT, proved by C12's check); it holds of every condition over 256 bytes by definition

macro noLists(x []Result) bool == forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].Type != Array && len(x[k].Results) == 0
// a list of results as queries give them
macro leafs(x []Result) bool == len(x) <= 1000 && noLists(x)
macro plainR(r Result) bool == leafs(r.Results) && (r.Type != Array ==> len(r.Results) == 0)
typeinv x []Result : noLists(x)
typeinv x []elementMatch : len(x) <= 1000
typeinv x []elementMatch : len(x) < 1000
typeinv x []Result : len(x) <= 1000
macro refusedP(p string) bool == nu(refused(nu(partsOf(p)), len(nu(partsOf(p)))))
// too many parts, or a filter that is too long or otherwise refused
rec overPath(p string) bool == len(nu(partsOf(p))) > 100 || nu(refused(nu(partsOf(p)), len(nu(partsOf(p)))))
lemma [C10] longFilter(q Seq[string], k int, n int) {q[k], refused(q, n)} uses(refusedAt0) hint(filterBad(condOf(nameOf(q[k])))) :
    0 <= k && k < n && n <= len(q) && yields(q[k]) && isFilt(nameOf(q[k])) && len(condOf(nameOf(q[k]))) > 256 ==> refused(q, n)
moninv pathCache [C10] forall p string :: {has(pathCache, p)} has(pathCache, p) ==> !nu(overPath(p))
contract parsePathInternal
  ensures [C10] overPath(path) ==> result == nil
contract parsePath
  ensures [C10] nu(overPath(path)) ==> len(result) == 0
contract parsePathWithOptions
  ensures [C10] nu(overPath(path)) ==> len(result) == 0
extern (Modifier).Apply
  ensures [LIM] old(plainR(r)) ==> plainR(result)
contract applyModifiers
  invariant [C10] for x var Result :: old(plainR(r)) ==> plainR(x)
  ensures [C10] len(modifierNames) > 20 ==> result == zero(Result)
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract collectFragmentRoots
  ensures [C10] len(result) <= 1000
contract appendResults
  ensures [C10] old(leafs(dst) && noLists(results)) ==> leafs(result)
contract recursiveSearchWithContext
  invariant [C10] old(leafs(*ctx.results)) ==> leafs(*ctx.results)
  ensures [C10] old(leafs(*ctx.results)) ==> leafs(*ctx.results)
contract recursiveSearchWithContextAndOptions
  invariant [C10] old(leafs(*ctx.results)) ==> leafs(*ctx.results)
  ensures [C10] old(leafs(*ctx.results)) ==> leafs(*ctx.results)
contract (*reverseModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*sortModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*firstModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*lastModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*flattenModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*prettyModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*uglyModifier).Apply
  ensures [C10] old(plainR(r)) ==> plainR(result)
contract (*reverseModifier).Apply
  invariant [C10] for x []Result, i var int :: old(plainR(r)) ==> forall k int :: {x[k]} len(x) - i <= k && 0 <= k && k < len(x) ==> x[k].Type != Array && len(x[k].Results) == 0
  invariant [C10] for x []Result, i var int :: old(plainR(r)) ==> forall k int :: {x[k]} 0 <= k && k < len(x) - 1 - i && k < len(x) ==> x[k].Type != Array && len(x[k].Results) == 0
  invariant [C10] for x []Result :: old(plainR(r)) ==> noLists(x)
contract (*flattenModifier).Apply
  invariant [C10] for x var []Result, i var int :: old(plainR(r)) ==> noLists(x) && len(x) == i
contract executeQuery
  ensures [C10] plainR(result)
contract executeQueryWithOptions
  ensures [C10] plainR(result)
contract handleFilterQuery
  ensures [C10] plainR(result)
contract handleFilterQueryWithOptions
  ensures [C10] plainR(result)
contract handleFilterQueryOnMatches
  ensures [C10] plainR(result)
contract handleFilterQueryOnMatchesWithOptions
  ensures [C10] plainR(result)
contract handleRecursiveWildcard
  ensures [C10] plainR(result)
contract handleRecursiveWildcardWithOptions
  ensures [C10] plainR(result)
contract handleWildcardMatches
  ensures [C10] plainR(result)
contract handleWildcardMatchesWithOptions
  ensures [C10] plainR(result)
contract processAllMatches
  ensures [C10] plainR(result)
contract processAllMatchesWithOptions
  ensures [C10] plainR(result)
contract processFirstMatch
  ensures [C10] plainR(result)
contract processFirstMatchWithOptions
  ensures [C10] plainR(result)
contract executeFieldExtraction
  ensures [C10] plainR(result)
contract executeFieldExtractionWithOptions
  ensures [C10] plainR(result)
contract handleFilterQueryOnMatches
  requires [C10] len(allMatches) <= 1000
contract handleFilterQueryOnMatchesWithOptions
  requires [C10] len(allMatches) <= 1000
contract handleWildcardMatches
  requires [C10] len(matches) <= 1000
contract handleWildcardMatchesWithOptions
  requires [C10] len(matches) <= 1000
contract processAllMatches
  requires [C10] len(matches) <= 1000
contract processAllMatchesWithOptions
  requires [C10] len(matches) <= 1000
contract executeFieldExtraction
  requires [C10] len(matches) <= 1000
contract executeFieldExtractionWithOptions
  requires [C10] len(matches) <= 1000
contract Get
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract GetString
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract GetBytes
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract GetWithOptions
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract GetStringWithOptions
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract GetBytesWithOptions
  ensures [C10] plainR(result)
  ensures [C10] len(xml) > 10485760 || nu(overPath(path)) ==> result == zero(Result)
contract executeQuery
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract executeQueryWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleFilterQuery
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleFilterQueryWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleFilterQueryOnMatches
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleFilterQueryOnMatchesWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleRecursiveWildcard
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleRecursiveWildcardWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleWildcardMatches
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleWildcardMatchesWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract processAllMatches
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract processAllMatchesWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract processFirstMatch
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract processFirstMatchWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract executeFieldExtraction
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract executeFieldExtractionWithOptions
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract handleFilterQueryOnMatches
  invariant [C10] for x var []elementMatch, i var int :: len(x) <= i
  invariant [C10] for x var []Result, i var int :: len(x) <= i
contract GetMany
  ensures [C10] forall k int :: {result[k]} 0 <= k && k < len(result) ==> len(result[k].Results) <= 1000
  ensures [C10] forall k int :: {result[k]} 0 <= k && k < len(result) && (len(xml) > 10485760 || nu(overPath(paths[k]))) ==> result[k] == zero(Result)
  invariant [C10] for x var []Result, i var int :: forall k int :: {x[k]} 0 <= k && k < i ==> len(x[k].Results) <= 1000
  invariant [C10] for x []Result, i var int :: forall k int :: {x[k]} 0 <= k && k < i && k < len(x) ==> len(x[k].Results) <= 1000 && (len(xml) > 10485760 || nu(overPath(paths[k])) ==> x[k] == zero(Result))
contract (Result).GetMany
  ensures [C10] forall k int :: {result[k]} 0 <= k && k < len(result) ==> len(result[k].Results) <= 1000
  invariant [C10] for x []Result, i var int :: forall k int :: {x[k]} 0 <= k && k < i && k < len(x) ==> len(x[k].Results) <= 1000
contract (Result).Get
  ensures [C10] plainR(result)
contract (Result).GetWithOptions
  ensures [C10] plainR(result)
contract Set
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
  ensures [C10] value != nil && len(valText(value)) > 5242880 ==> result1 != nil
contract SetBytes
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
  ensures [C10] value != nil && len(valText(value)) > 5242880 ==> result1 != nil
contract SetWithOptions
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
  ensures [C10] value != nil && len(valText(value)) > 5242880 ==> result1 != nil
contract SetBytesWithOptions
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
  ensures [C10] value != nil && len(valText(value)) > 5242880 ==> result1 != nil
contract SetRaw
  ensures [C10] len(xml) > 10485760 ==> result1 != nil
  ensures [C10] nu(overPath(path)) ==> result1 != nil
contract Delete
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
contract DeleteBytes
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
contract DeleteBytesWithOptions
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] nu(overPath(path)) ==> result1 != nil
contract SetMany
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] forall k int :: {paths[k]} 0 <= k && k < len(paths) && nu(overPath(paths[k])) ==> result1 != nil
  ensures [C10] forall k int :: {values[k]} 0 <= k && k < len(values) && values[k] != nil && len(valText(values[k])) > 5242880 ==> result1 != nil
contract SetManyBytes
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
  ensures [C10] forall k int :: {paths[k]} 0 <= k && k < len(paths) && nu(overPath(paths[k])) ==> result1 != nil
  ensures [C10] forall k int :: {values[k]} 0 <= k && k < len(values) && values[k] != nil && len(valText(values[k])) > 5242880 ==> result1 != nil
contract newValidatingParser
  ensures [C10] result.data == data
contract SetManyBytes
  invariant [C10] for i var int :: forall k int :: {values[k]} 0 <= k && k < i ==> (values[k] == nil || len(valText(values[k])) <= 5242880)
  invariant [C10] for i var int :: forall k int :: {paths[k]} 0 <= k && k < i ==> !nu(overPath(paths[k])) && (values[k] == nil || len(valText(values[k])) <= 5242880)
contract DeleteMany
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract DeleteManyBytes
  ensures [C10] len(xml) > 10485760 ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract (*validatingParser).validate
  ensures [C10] old(len(p.data)) > 10485760 ==> result != nil
contract (*xmlBuilder).setElement
  ensures [C10] len(valText(value)) > 5242880 ==> result != nil
contract Valid
  ensures [C10] len(xml) > 10485760 ==> !result
contract ValidBytes
  ensures [C10] len(xml) > 10485760 ==> !result
contract ValidateWithError
  ensures [C10] len(xml) > 10485760 ==> result != nil
contract ValidateBytesWithError
  ensures [C10] len(xml) > 10485760 ==> result != nil
