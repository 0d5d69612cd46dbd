// C08: results do not depend on call history, the path cache or map order.
prop C08 uses==PPI kinds=frame,pub funcs=*
assume C08 parsedRel(p, q) names the relation "q is what parsePathInternal gives for p" (clauses tagged PPI); a segment's filter and modifiers are read through pointers that nobody writes to after parsing (the pub and frame obligations)
bounded C08 that no call shows the order of a map iteration, and that a call repeated after other calls, with cached and with evicted paths, gives the same result
moninv pathCache [C08] forall p string :: {has(pathCache, p)} has(pathCache, p) ==> parsedRel(p, seq(pathCache[p])) && (pathEmpty(p) <==> len(pathCache[p]) == 0) && allocated(pathCache[p])
axiom [C08] noPath() : pathEmpty("") && parsedRel("", emptyseq(PathSegment))
contract parsePathInternal
  ensures [PPI] parsedRel(path, seq(result)) && (pathEmpty(path) <==> len(result) == 0)
contract parsePath
  ensures [C08] parsedRel(path, seq(result)) && (pathEmpty(path) <==> len(result) == 0)
