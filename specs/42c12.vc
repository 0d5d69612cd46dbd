// C12: filter expressions and their evaluation.
prop C12 uses==DET,=FQ,=C11 funcs=parseFilterCondition;evaluateFilterWithDepth;evaluateFilterOnMatch;isNumericValue;(Result).Exists
assume C12 executeQuery, parsePath and Result.String are functions of document, path and nesting (clauses tagged DET and FQ); the matcher computes what C11's check proves; trim(s), anyOf(s, c), numOf(s) are what strings.TrimSpace, strings.ContainsAny and strconv.ParseFloat give
bounded C12 that queries keep exactly the elements the evaluator passes, and the value a child path addresses: random documents of up to 8 candidates with attributes and children that hold numbers, near-numbers and texts, filtered by every operator, checked end to end through Get on each run

rec inSet(c string, b int) bool == exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == b
rec anyOf(s string, c string) bool == exists i int :: {s[i]} 0 <= i && i < len(s) && inSet(c, s[i])
rec hasB(s string, b int) bool == exists i int :: {s[i]} 0 <= i && i < len(s) && s[i] == b
extern strings.ContainsAny
  ensures [C12] result <==> anyOf(s, chars)
extern strings.ContainsRune
  ensures [C12] 0 <= r && r < 128 ==> (result <==> hasB(s, r))
uninterp trimA(s string) int
uninterp trimB(s string) int
extern strings.TrimSpace
  ensures [C12] result == trim(s)
  ensures [C12] 0 <= trimA(s) && trimA(s) <= trimB(s) && trimB(s) <= len(s) && result == s[trimA(s):trimB(s)]
lemma [C12] hasSub(s string, a int, b int, c int) {hasB(s[a:b], c), hasB(s, c)} : 0 <= a && a <= b && b <= len(s) && hasB(s[a:b], c) ==> hasB(s, c)

// the leftmost operator of two characters, else of one
spec isTwo(s string, i int) bool == s[i:i+2] == "==" || s[i:i+2] == "<=" || s[i:i+2] == ">=" || s[i:i+2] == "!=" || s[i:i+2] == "!%"
spec isOne(c int) bool == c == '<' || c == '>' || c == '%'
rec two(s string, k int) int == k + 1 >= len(s) ? -1 : isTwo(s, k) ? k : two(s, k + 1)
rec one(s string, k int) int == k >= len(s) ? -1 : isOne(s[k]) ? k : one(s, k + 1)
spec opPos(s string) int == nu(two(s, 0)) >= 0 ? nu(two(s, 0)) : nu(one(s, 0))
spec opLen(s string) int == nu(two(s, 0)) >= 0 ? 2 : 1
spec opTwo(o string) int == o == "==" ? OpEqual : o == "<=" ? OpLessThanOrEqual : o == ">=" ? OpGreaterThanOrEqual : o == "!=" ? OpNotEqual : OpPatternNotMatch
spec opOne(c int) int == c == '<' ? OpLessThan : c == '>' ? OpGreaterThan : OpPatternMatch
spec opOf(s string) int == nu(two(s, 0)) >= 0 ? opTwo(s[nu(two(s, 0)):nu(two(s, 0))+2]) : opOne(s[nu(one(s, 0))])
spec left(s string) string == s[0:opPos(s)]
spec right(s string) string == trim(s[opPos(s)+opLen(s):len(s)])
spec unq(v string) string == len(v) >= 2 && (hasPrefix(v, "'") && hasSuffix(v, "'") || hasPrefix(v, "\"") && hasSuffix(v, "\"")) ? v[1:len(v)-1] : v
spec plain(e string) bool == !nu(anyOf(e, "=!<>%"))
spec badExpr(e string) bool == opPos(e) < 0 || nu(anyOf(left(e), "\x00\n\r\t")) || trim(left(e)) == "" || right(e) == "" || nu(anyOf(trim(left(e)), "=!<>%")) || nu(anyOf(unq(right(e)), "\x00\n\r\t"))
spec badF(c string) bool == len(c) > MaxFilterExpressionLength || nu(hasB(c, 0)) || trim(c) == "" || !plain(trim(c)) && badExpr(trim(c))
contract parseFilterCondition
  invariant [C12] for i var int :: two(trim(old(expr)), i) == two(trim(old(expr)), 0)
  invariant [C12] for i var int :: nu(two(trim(old(expr)), 0)) < 0 && one(trim(old(expr)), i) == one(trim(old(expr)), 0)
  ensures [C12] result1 != nil <==> badF(expr)
  ensures [C12] result1 == nil && plain(trim(expr)) ==> result0.Path == trim(expr) && result0.Op == OpExists && result0.Value == ""
  ensures [C12] result1 == nil && !plain(trim(expr)) ==> result0.Path == trim(left(trim(expr)))
  ensures [C12] result1 == nil && !plain(trim(expr)) ==> result0.Op == opOf(trim(expr))
  ensures [C12] result1 == nil && !plain(trim(expr)) ==> result0.Value == unq(right(trim(expr)))

// decimal notation: an optional sign, digits with at most one dot, anything after an exponent mark is left to the conversion
rec nsh(s string, i int, dg bool, dt bool) bool == i >= len(s) ? dg : '0' <= s[i] && s[i] <= '9' ? nsh(s, i + 1, true, dt) :
    s[i] == '.' ? !dt && nsh(s, i + 1, dg, true) : s[i] == '-' || s[i] == '+' ? i == 0 && nsh(s, i + 1, dg, dt) : s[i] == 'e' || s[i] == 'E' ? dg : false
rec decimal(s string) bool == nu(nsh(s, 0, false, false))
contract isNumericValue
  invariant [C12] for i var int, dg var bool, dt var bool :: nsh(s, i, dg, dt) == nsh(s, 0, false, false)
  ensures [C12] result <==> decimal(s)

uninterp numOf(s string) float64
uninterp numOK(s string) bool
uninterp isInf(f float64) bool
uninterp isNaN(f float64) bool
extern strconv.ParseFloat
  ensures [C12] bitSize == 64 ==> (result1 == nil <==> numOK(s)) && result0 == numOf(s)
extern math.IsInf
  ensures [C12] sign == 0 ==> (result <==> isInf(f))
extern math.IsNaN
  ensures [C12] result <==> isNaN(f)
spec finite(s string) bool == decimal(s) && numOK(s) && !isInf(numOf(s)) && !isNaN(numOf(s))
spec cmpF(op int, a float64, b float64) bool == op == OpLessThan ? a < b : op == OpGreaterThan ? a > b : op == OpLessThanOrEqual ? a <= b : a >= b
spec stops(a string, p string) bool == nu(mul(len(runesOf(a)), len(lits(runesOf(p), 0)))) > MaxPatternIterations
spec matchP(a string, p string) bool == nu(patMatch(runesOf(a), runesOf(p)))
spec wild(p string) bool == nu(anyOf(p, "*?\\"))
spec holds(op int, a string, v string) bool == op == OpEqual ? a == v : op == OpNotEqual ? a != v :
    op == OpLessThan || op == OpGreaterThan || op == OpLessThanOrEqual || op == OpGreaterThanOrEqual ? finite(a) && finite(v) && cmpF(op, numOf(a), numOf(v)) :
    op == OpPatternMatch ? (wild(v) ? !stops(a, v) && matchP(a, v) : a == v) :
    op == OpPatternNotMatch ? (wild(v) ? !stops(a, v) && !matchP(a, v) : a != v) : false
spec passes(op int, ex bool, a string, v string) bool == op == OpExists ? ex : ex && holds(op, a, v)
// existence and text of what a path addresses in the content of an element
uninterp qEx(d string, p string, k int) bool
uninterp qTx(d string, p string, k int) string
uninterp resText(r Result) string
contract (Result).Exists
  ensures [C12] result <==> r.Type != Null
contract (Result).String
  ensures [FQ] result == resText(r)
contract executeQuery
  ensures [FQ] forall p string :: {parsedRel(p, old(seq(segments)))} parsedRel(p, old(seq(segments))) && segIndex == 0 && old(parser.pos == 0 && parser.depth == 0) ==> (result.Type != Null <==> qEx(old(str(parser.data)), p, old(parser.filterDepth))) && resText(result) == qTx(old(str(parser.data)), p, old(parser.filterDepth))
macro attrName(p string) string == p[1:len(p)]
contract evaluateFilterWithDepth
  ensures [C12] filter == nil ==> result
  ensures [C12] filter != nil && depth >= MaxFilterDepth ==> !result
  ensures [C12] filter != nil && depth < MaxFilterDepth && hasPrefix(old(filter.Path), "@") ==> (result <==> passes(old(filter.Op), attrs != nil && old(has(attrs, attrName(filter.Path))), old(attrs[attrName(filter.Path)]), old(filter.Value)))
  ensures [C12] filter != nil && depth < MaxFilterDepth && !hasPrefix(old(filter.Path), "@") ==> (result <==> passes(old(filter.Op), qEx(content, old(filter.Path), depth + 1), qTx(content, old(filter.Path), depth + 1), old(filter.Value)))
contract evaluateFilterOnMatch
  decreases len(match.content), 7
  ensures [C12] filter == nil ==> result
  ensures [C12] filter != nil && hasPrefix(old(filter.Path), "@") ==> (result <==> passes(old(filter.Op), match.attrs != nil && old(has(match.attrs, attrName(filter.Path))), old(match.attrs[attrName(filter.Path)]), old(filter.Value)))
  ensures [C12] filter != nil && !hasPrefix(old(filter.Path), "@") ==> (result <==> passes(old(filter.Op), qEx(match.content, old(filter.Path), 1), qTx(match.content, old(filter.Path), 1), old(filter.Value)))
