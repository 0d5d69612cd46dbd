macro below(ms []elementMatch, n int) bool == forall i int :: {ms[i]} 0 <= i && i < len(ms) ==> len(ms[i].content) < n

typeinv x []Result : len(x) <= MaxWildcardResults

typeinv c *searchContext : c.results != nil && len(*c.results) <= MaxWildcardResults
typeinv c *searchContext : ref(*c.results) == old(ref(*c.results)) || ref(*c.results) >= old(alloc()) || cap(*c.results) == 0

contract Get
contract GetString
contract GetBytes
contract GetMany
contract GetWithOptions
contract GetStringWithOptions
contract GetBytesWithOptions
contract appendResults
  requires len(dst) <= MaxWildcardResults
  modifies elems(dst)
  ensures len(result) <= MaxWildcardResults
  ensures ref(result) == ref(dst) && cap(result) == cap(dst) || ref(result) >= old(alloc()) || cap(result) == 0
contract attrsFold
contract collectFragmentRoots
  invariant below(matches, len(parser.data))
  requires okp(parser)
  modifies parser.pos, parser.depth, parser.contentEnd
  ensures okp(parser) && fresh(result)
  ensures below(result, len(parser.data))
contract executeQuery
  invariant below(matches, len(parser.data))
  invariant below(allMatches, len(parser.data))
  ghostarg handleWildcardMatches n := len(parser.data)
  ghostarg handleFilterQueryOnMatches n := len(parser.data)
  ghostarg processAllMatches n := len(parser.data)
  requires okp(parser) && segIndex >= 0
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 5
contract evaluateFilterWithDepth
  decreases len(content), 6
contract handleWildcardMatches
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && below(matches, n) && n >= 0
  requires len(matches) > 0
  decreases n, 3
contract handleRecursiveWildcard
  requires okp(parser) && segIndex >= 0
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 4
contract recursiveSearchWithContext
  requires okp(parser) && 0 <= segIndex && segIndex < len(segments) && ctx != nil && ctx.results != nil
  requires len(*ctx.results) <= MaxWildcardResults
  modifies parser.pos, parser.depth, parser.contentEnd, ctx.operations, *ctx.results, elems(*ctx.results)
  ensures len(*ctx.results) <= MaxWildcardResults
  ensures ref(*ctx.results) == old(ref(*ctx.results)) && cap(*ctx.results) == old(cap(*ctx.results)) || ref(*ctx.results) >= old(alloc()) || cap(*ctx.results) == 0
  invariant ref(*ctx.results) == old(ref(*ctx.results)) && cap(*ctx.results) == old(cap(*ctx.results)) || ref(*ctx.results) >= old(alloc()) || cap(*ctx.results) == 0
  decreases len(parser.data), 3
contract handleFilterQuery
  invariant below(matches, len(parser.data))
  invariant below(allMatches, len(parser.data))
  ghostarg handleWildcardMatches n := len(parser.data)
  ghostarg handleFilterQueryOnMatches n := len(parser.data)
  ghostarg processAllMatches n := len(parser.data)
  requires okp(parser) && 0 <= segIndex && segIndex < len(segments)
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 4
contract handleFilterQueryOnMatches
  invariant below(filteredMatches, n)
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && below(allMatches, n) && n >= 0
  decreases n, 4
contract processFirstMatch
  requires 0 <= segIndex && segIndex < len(segments) && isLastSegment == (segIndex == len(segments)-1)
  decreases len(match.content) + 1, 3
contract processAllMatches
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && isLastSegment == (segIndex == len(segments)-1)
  requires below(matches, n) && n >= 0
  decreases n, 3
contract executeFieldExtraction
contract executeFieldExtractionWithOptions

contract executeQueryWithOptions
  invariant below(matches, len(parser.data))
  invariant below(allMatches, len(parser.data))
  ghostarg handleWildcardMatchesWithOptions n := len(parser.data)
  ghostarg handleFilterQueryOnMatchesWithOptions n := len(parser.data)
  ghostarg processAllMatchesWithOptions n := len(parser.data)
  requires okp(parser) && segIndex >= 0 && opts != nil
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 5
contract handleWildcardMatchesWithOptions
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && below(matches, n) && n >= 0 && opts != nil
  requires len(matches) > 0
  decreases n, 3
contract handleRecursiveWildcardWithOptions
  requires okp(parser) && segIndex >= 0 && opts != nil
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 4
contract recursiveSearchWithContextAndOptions
  requires okp(parser) && 0 <= segIndex && segIndex < len(segments) && ctx != nil && ctx.results != nil && opts != nil
  requires len(*ctx.results) <= MaxWildcardResults
  modifies parser.pos, parser.depth, parser.contentEnd, ctx.operations, *ctx.results, elems(*ctx.results)
  ensures len(*ctx.results) <= MaxWildcardResults
  ensures ref(*ctx.results) == old(ref(*ctx.results)) && cap(*ctx.results) == old(cap(*ctx.results)) || ref(*ctx.results) >= old(alloc()) || cap(*ctx.results) == 0
  invariant ref(*ctx.results) == old(ref(*ctx.results)) && cap(*ctx.results) == old(cap(*ctx.results)) || ref(*ctx.results) >= old(alloc()) || cap(*ctx.results) == 0
  decreases len(parser.data), 3
contract handleFilterQueryWithOptions
  invariant below(matches, len(parser.data))
  invariant below(allMatches, len(parser.data))
  ghostarg handleWildcardMatchesWithOptions n := len(parser.data)
  ghostarg handleFilterQueryOnMatchesWithOptions n := len(parser.data)
  ghostarg processAllMatchesWithOptions n := len(parser.data)
  requires okp(parser) && 0 <= segIndex && segIndex < len(segments) && opts != nil
  modifies parser.pos, parser.depth, parser.contentEnd
  decreases len(parser.data), 4
contract handleFilterQueryOnMatchesWithOptions
  invariant below(filteredMatches, n)
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && below(allMatches, n) && n >= 0 && opts != nil
  decreases n, 4
contract processFirstMatchWithOptions
  requires 0 <= segIndex && segIndex < len(segments) && isLastSegment == (segIndex == len(segments)-1) && opts != nil
  decreases len(match.content) + 1, 3
contract processAllMatchesWithOptions
  ghost n int
  requires 0 <= segIndex && segIndex < len(segments) && isLastSegment == (segIndex == len(segments)-1)
  requires below(matches, n) && n >= 0 && opts != nil
  decreases n, 3

// Results
contract (Result).String
  noterm the Results of a library result are not cyclic
contract (Result).Get
  noterm the Results of a library result are not cyclic
contract (Result).GetWithOptions
  noterm the Results of a library result are not cyclic
contract (Result).Map
  noterm the Results of a library result are not cyclic
  ensures result != nil
contract (Result).MapWithOptions
  noterm the Results of a library result are not cyclic
  ensures result != nil
contract parseMapChildren
  invariant forall k string :: {result[k]} has(result, k) && result[k].Type == Array ==> fresh(result[k].Results)
  ensures result != nil
contract parseMapChildrenWithOptions
  invariant forall k string :: {result[k]} has(result, k) && result[k].Type == Array ==> fresh(result[k].Results)
  ensures result != nil
contract isMultiRootFragment

contract (Result).ForEach
  requires iterator != nil
