// C13: the path grammar.
prop C13 uses==FLT funcs=splitPath;isNumeric;parseModifiers;isValidFieldName;isValidIdentifier;parsePathInternal
assume C13 filterBad(c), the conditions parseFilterCondition refuses (clause tagged FLT, proved by C12's check); atoi(s) is what strconv.Atoi gives and trim(s) what strings.TrimSpace gives
bounded C13 field extraction (a count followed by a valid field name) and that queries walk the parsed segments: random documents with dotted names and up to 14 repeated elements, read by paths written part by part with escapes, empty parts, markers, filters and modifiers, checked end to end through Get on each run

// the parts of a path: cut at every dot that is not escaped, a backslash makes the next byte literal
rec escd(p string, k int) bool == k > 0 && k <= len(p) && p[k-1] == 92 && !escd(p, k - 1)
rec curOf(p string, k int) string == k <= 0 || k > len(p) ? "" :
    escd(p, k - 1) ? curOf(p, k - 1) + p[k-1:k] :
    p[k-1] == 92 ? curOf(p, k - 1) :
    p[k-1] == '.' ? "" : curOf(p, k - 1) + p[k-1:k]
rec cutOf(p string, k int) Seq[string] == k <= 0 || k > len(p) ? emptyseq(string) :
    !escd(p, k - 1) && p[k-1] == '.' ? cutOf(p, k - 1) + unit(curOf(p, k - 1), string) : cutOf(p, k - 1)
rec partsOf(p string) Seq[string] == p == "" ? emptyseq(string) : cutOf(p, len(p)) + unit(curOf(p, len(p)), string)
contract splitPath
  invariant [C13,C10] for i var int, e var bool :: e == escd(path, i)
  invariant [C13,C10] for i var int :: text(current) == curOf(path, i)
  invariant [C13,C10] for i var int, ps var []string :: seq(ps) == cutOf(path, i)
  ensures [C13,C10] seq(result) == partsOf(path)

macro digit(c byte) bool == '0' <= c && c <= '9'
macro numeric(s string) bool == len(s) > 0 && (forall k int :: {s[k]} 0 <= k && k < len(s) ==> digit(s[k]) || s[k] == '-' && len(s) > 1)
rec isNum(s string) bool == numeric(s)
contract isNumeric
  invariant [C13] forall k int :: {s[k]} 0 <= k && k < iter && k < len(s) ==> digit(s[k]) || s[k] == '-' && len(s) > 1
  ensures [C13] result <==> isNum(s)

// modifiers
rec cutC(s string, c byte, k int) string == k <= 0 || k > len(s) || s[k-1] == c ? "" : cutC(s, c, k - 1) + s[k-1:k]
rec cutsC(s string, c byte, k int) Seq[string] == k <= 0 || k > len(s) ? emptyseq(string) : s[k-1] == c ? cutsC(s, c, k - 1) + unit(cutC(s, c, k - 1), string) : cutsC(s, c, k - 1)
rec splitC(s string, c byte) Seq[string] == cutsC(s, c, len(s)) + unit(cutC(s, c, len(s)), string)
extern strings.Split
  ensures [C13,C10] len(sep) == 1 ==> seq(result) == splitC(s, sep[0])
extern strings.TrimSpace
  ensures [C13,C10] result == trim(s)
rec modsOf(q Seq[string], k int) Seq[string] == k <= 1 || k > len(q) ? emptyseq(string) :
    len(trim(q[k-1])) > 0 && trim(q[k-1])[0] == '@' ? modsOf(q, k - 1) + unit(trim(q[k-1])[1:len(trim(q[k-1]))], string) : modsOf(q, k - 1)
contract parseModifiers
  invariant [C13,C10] for i var int, ms var []string :: seq(ms) == modsOf(nu(splitC(pathPart, '|')), i)
  invariant [C13,C10] for i var int, ms var []string :: seq(ms) == modsOf(nu(splitC(pathPart, '|')), i + 1)
  ensures [C13,C10] result0 == nu(splitC(pathPart, '|'))[0]
  ensures [C13,C10] seq(result1) == modsOf(nu(splitC(pathPart, '|')), len(nu(splitC(pathPart, '|'))))

macro letter(c byte) bool == 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
macro ident(s string) bool == len(s) > 0 && (letter(s[0]) || s[0] == '_') && (forall k int :: {s[k]} 1 <= k && k < len(s) ==> letter(s[k]) || digit(s[k]) || s[k] == '-' || s[k] == '_' || s[k] == ':')
contract isValidIdentifier
  invariant [C13] for i var int :: forall k int :: {s[k]} 1 <= k && k < i && k < len(s) ==> letter(s[k]) || digit(s[k]) || s[k] == '-' || s[k] == '_' || s[k] == ':'
  ensures [C13] result <==> ident(s)
rec fieldName(s string) bool == s == "%" || (len(s) > 0 && s[0] == '@' ? len(s) > 1 && ident(s[1:len(s)]) : ident(s))
contract isValidFieldName
  ensures [C13] result <==> fieldName(fieldName)

uninterp atoi(s string) int
extern strconv.Atoi
  ensures [C13] result0 == atoi(s)
spec nameOf(part string) string == nu(splitC(part, '|'))[0]
spec modsIn(part string) Seq[string] == nu(modsOf(nu(splitC(part, '|')), len(nu(splitC(part, '|')))))
// a filter is written #(...) or #(...)#; condEnd is where its condition ends
spec isFilt(e string) bool == len(e) >= 2 && e[0] == '#' && e[1] == '('
spec isAll(e string) bool == len(e) >= 2 && e[len(e)-1] == '#' && e[len(e)-2] == ')'
spec condEnd(e string) int == isAll(e) ? len(e) - 2 : len(e) >= 1 && e[len(e)-1] == ')' ? len(e) - 1 : -1
spec condOf(e string) string == e[2:condEnd(e)]
spec cls(e string) int == isFilt(e) ? SegmentFilter : len(e) > 0 && e[0] == '@' ? SegmentAttribute : e == "%" ? SegmentText : e == "#" ? SegmentCount :
    e == "*" || e == "**" ? SegmentWildcard : isNum(e) ? SegmentIndex : SegmentElement
// a condition that is not a filter expression
rec filterBad(c string) bool == badF(c)
contract parseFilterCondition
  ensures [C12,FLT] result1 != nil <==> filterBad(expr)
  ensures [C12,FLT] result1 == nil ==> result0 != nil
// parts that yield a segment, in order
spec yields(part string) bool == part != "" && !(isFilt(nameOf(part)) && condEnd(nameOf(part)) <= 2)
rec keptOf(q Seq[string], k int) Seq[string] == k <= 0 || k > len(q) ? emptyseq(string) : yields(q[k-1]) ? keptOf(q, k - 1) + unit(q[k-1], string) : keptOf(q, k - 1)
rec refused(q Seq[string], k int) bool == k > 0 && k <= len(q) && (refused(q, k - 1) || yields(q[k-1]) && isFilt(nameOf(q[k-1])) && filterBad(condOf(nameOf(q[k-1]))))
rec segOf(typ int, val string, idx int, wild bool, all bool, fil bool, mods Seq[string], part string) bool ==
    typ == cls(nameOf(part)) && mods == modsIn(part) &&
    (typ == SegmentElement ==> val == nameOf(part)) &&
    (typ == SegmentAttribute ==> val == nameOf(part)[1:len(nameOf(part))]) &&
    (typ == SegmentWildcard ==> wild == (nameOf(part) == "**")) &&
    (typ == SegmentIndex ==> idx == atoi(nameOf(part))) &&
    (typ == SegmentFilter ==> all == isAll(nameOf(part)) && fil)
macro segIs(g PathSegment, part string) bool == segOf(g.Type, g.Value, g.Index, g.Wildcard, g.FilterAll, g.Filter != nil, seq(g.Modifiers), part)
// paths without a count: every segment is the classification of its part. (Field extraction is checked by the bounded
// oracle: its loop is outside the range of the proof.)
rec noCount(q Seq[string]) bool == forall j int :: {q[j]} 0 <= j && j < len(q) ==> cls(nameOf(q[j])) != SegmentCount
lemma [C13] noCountAt(q Seq[string], j int, typ int, val string, idx int, wild bool, all bool, fil bool, mods Seq[string])
    {noCount(q), segOf(typ, val, idx, wild, all, fil, mods, q[j])} :
    noCount(q) && 0 <= j && j < len(q) && segOf(typ, val, idx, wild, all, fil, mods, q[j]) ==> typ != SegmentCount
lemma [C13,C10] refusedAt0(q Seq[string], k int, c string, n int) {q[k], filterBad(c), refused(q, n)} induct(n) manual :
    0 <= k && k < n && n <= len(q) && yields(q[k]) && isFilt(nameOf(q[k])) && c == condOf(nameOf(q[k])) && filterBad(c) ==> refused(q, n)
lemma [C13,C10] refusedAt(q Seq[string], k int, c string, n int) {refused(q, k), filterBad(c), refused(q, n)} uses(refusedAt0) :
    0 <= k && k < n && n <= len(q) && yields(q[k]) && isFilt(nameOf(q[k])) && c == condOf(nameOf(q[k])) && filterBad(c) ==> refused(q, n)
contract parsePathInternal
  invariant [C13,C10] !refused(nu(partsOf(path)), iter)
  invariant [C13] for g var []PathSegment :: len(g) == len(keptOf(nu(partsOf(path)), iter))
  invariant [C13] for g var []PathSegment :: forall j int :: {g[j]} 0 <= j && j < len(g) ==> segIs(g[j], keptOf(nu(partsOf(path)), iter)[j])
  invariant [C13] noiter for g []PathSegment, out var []PathSegment :: ref(out) != ref(g) && len(g) == len(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))
  invariant [C13] noiter for g []PathSegment :: forall j int :: {g[j]} 0 <= j && j < len(g) ==> nu(segIs(g[j], nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path)))))[j]))
  invariant [C13] noiter for i var int, out var []PathSegment :: nu(noCount(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))) ==> len(out) == i
  invariant [C13] noiter for out var []PathSegment :: nu(noCount(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))) ==> forall j int :: {out[j]} 0 <= j && j < len(out) ==> nu(segIs(out[j], nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path)))))[j]))
  invariant [C13] noiter for i var int :: 0 <= i && i <= len(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))
  ensures [C13,C10] len(nu(partsOf(path))) > MaxPathSegments || nu(refused(nu(partsOf(path)), len(nu(partsOf(path))))) ==> result == nil
  ensures [C13] len(nu(partsOf(path))) <= MaxPathSegments && !nu(refused(nu(partsOf(path)), len(nu(partsOf(path))))) && nu(noCount(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))) ==> len(result) == len(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))
  ensures [C13] len(nu(partsOf(path))) <= MaxPathSegments && !nu(refused(nu(partsOf(path)), len(nu(partsOf(path))))) && nu(noCount(nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path))))))) ==> forall j int :: {result[j]} 0 <= j && j < len(result) ==> nu(segIs(result[j], nu(keptOf(nu(partsOf(path)), len(nu(partsOf(path)))))[j]))
