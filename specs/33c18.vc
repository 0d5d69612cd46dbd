// C18: equivalent entry points give identical answers.
prop C18 uses==DET funcs=Get;GetString;GetBytes;GetMany;GetWithOptions;GetStringWithOptions;GetBytesWithOptions;newXMLParser;Set;SetBytes;SetWithOptions;SetBytesWithOptions;Delete;DeleteBytes;DeleteBytesWithOptions;parsePathWithOptions;newXMLBuilderWithOptions;(*xmlBuilder).getResult;(Result).Get;(Result).GetMany;(Result).GetWithOptions
assume C18 executeQuery, parsePath, ValidBytes, setElement and deleteElement are functions of document, path, value and options (clauses tagged DET); their independence of history, cache and map order is what C08 is about

// queryRel(d, p, r): r is what running the parsed path p over d gives. Results
// hold slices, so this is a relation rather than an equation.
uninterp queryRel(d string, p string, r Result) bool
macro getRel(d string, p string, r Result) bool == (len(d) > MaxDocumentSize || pathEmpty(p)) ? r == zero(Result) : queryRel(d, p, r)
// the same for Result.Get on r
uninterp subRel(r Result, p string, x Result) bool
macro rgetRel(r Result, p string, x Result) bool == (r.Type != Element && r.Type != Array) ? x == zero(Result) : subRel(r, p, x)

contract executeQuery
  ensures [DET] forall p string :: {parsedRel(p, old(seq(segments)))} parsedRel(p, old(seq(segments))) && segIndex == 0 && old(parser.pos == 0 && parser.depth == 0 && parser.filterDepth == 0) ==> queryRel(old(str(parser.data)), p, result)
contract GetBytes
  ensures [C18] getRel(str(xml), path, result)
contract Get
  ensures [C18] getRel(xml, path, result)
contract GetString
  ensures [C18] getRel(xml, path, result)
contract GetMany
  invariant [C18] for rs []Result :: len(rs) == len(paths) && (forall k int :: {rs[k]} 0 <= k && k < iter ==> getRel(xml, paths[k], rs[k]))
  ensures [C18] len(result) == len(paths) && (forall k int :: {result[k]} 0 <= k && k < len(paths) ==> getRel(xml, paths[k], result[k]))
contract GetWithOptions
  ensures [C18] dflt(opts) ==> getRel(xml, path, result)
contract GetStringWithOptions
  ensures [C18] dflt(opts) ==> getRel(xml, path, result)
contract GetBytesWithOptions
  ensures [C18] dflt(opts) ==> getRel(str(xml), path, result)
contract SetWithOptions
  ensures [C18] dflt(opts) ==> isSet(xml, path, value, result0, result1)
contract (Result).Get
  ensures [DET] (r.Type == Element || r.Type == Array) ==> subRel(r, path, result)
  ensures [C18] r.Type != Element && r.Type != Array ==> result == zero(Result)
contract (Result).GetMany
  invariant [C18] for rs []Result :: len(rs) == len(paths) && (forall k int :: {rs[k]} 0 <= k && k < iter ==> rgetRel(r, paths[k], rs[k]))
  ensures [C18] len(result) == len(paths) && (forall k int :: {result[k]} 0 <= k && k < len(paths) ==> rgetRel(r, paths[k], result[k]))
contract (Result).GetWithOptions
  ensures [C18] dflt(opts) ==> rgetRel(r, path, result)
