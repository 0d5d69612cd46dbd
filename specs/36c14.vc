// C14: names match by one rule for namespaces and letter case.
prop C14 uses==DET funcs=(PathSegment).matches;(PathSegment).matchesWithOptions;splitNamespace;toLowerASCII;parsePathWithOptions
bounded C14 that every query and edit walker uses this rule (executeQuery, the WithOptions walkers, findElementLocation, recursive search): documents of up to 9 children with random prefixed names, checked end to end against the rule on each run
extern strings.IndexByte
  ensures [C14] result == findB(s, 0, c)

// the prefix is what precedes the first colon, unless it is too long or holds a control character
macro pfxOK(s string, c int) bool == c >= 0 && c <= MaxNamespacePrefixLength && (forall k int :: {s[k]} 0 <= k && k < c ==> s[k] >= 32 && s[k] != 127)
rec hasPfx(s string) bool == pfxOK(s, findB(s, 0, 58))
macro pfx(s string) string == hasPfx(s) ? s[:findB(s, 0, 58)] : ""
macro loc(s string) string == hasPfx(s) ? s[findB(s, 0, 58)+1:] : s
macro nameRule(p string, e string) bool == (pfx(p) != "" ==> pfx(p) == pfx(e)) && loc(p) == loc(e)

// ASCII folding of the first n bytes
macro low(c byte) byte == 65 <= c && c <= 90 ? c + 32 : c
rec lowerN(s string, n int) string == n <= 0 ? "" : lowerN(s, n-1) + unit(low(s[n-1]))
macro lower(s string) string == lowerN(s, len(s))
lemma [C14,C06] lowerLen(s string, n int) {lowerN(s, n)} induct(n) : n >= 0 ==> len(lowerN(s, n)) == n
lemma [C14,C06] lowerAt(s string, n int, k int) {lowerN(s, n)[k]} induct(n) : 0 <= k && k < n ==> lowerN(s, n)[k] == low(s[k])
macro foldRule(p string, e string) bool == (pfx(p) != "" ==> lower(pfx(p)) == lower(pfx(e))) && lower(loc(p)) == lower(loc(e))

contract splitNamespace
  invariant [C14] for n int :: forall k int :: {name[k]} 0 <= k && k < n ==> name[k] >= 32 && name[k] != 127
  ensures [C14] result0 == pfx(name) && result1 == loc(name)
contract toLowerASCII
  invariant [C14,C06] for n int :: forall k int :: {s[k]} 0 <= k && k < n ==> !(65 <= s[k] && s[k] <= 90)
  invariant [C14,C06] for b []byte, n int :: len(b) == len(s) && (forall k int :: {b[k]} 0 <= k && k < n ==> b[k] == low(s[k]))
  invariant [C14,C06] for b []byte, n int :: len(b) == len(s) && (forall k int :: {b[k]} 0 <= k && k < len(s) ==> b[k] == (k < n ? low(s[k]) : s[k]))
  ensures [C14,C06] result == lower(s)
contract (PathSegment).matches
  ensures [C14] seg.Type == SegmentElement ==> (result <==> nameRule(seg.Value, elementName))
  ensures [C14] seg.Type == SegmentWildcard ==> result
  ensures [C14] seg.Type != SegmentElement && seg.Type != SegmentWildcard ==> !result
contract (PathSegment).matchesWithOptions
  ensures [C14] seg.Type == SegmentElement ==> (result <==> ((opts == nil || opts.CaseSensitive) ? nameRule(seg.Value, elementName) : foldRule(seg.Value, elementName)))
  ensures [C14] seg.Type == SegmentWildcard ==> result
  ensures [C14] seg.Type != SegmentElement && seg.Type != SegmentWildcard ==> !result
// parsing with options folds element and attribute names and nothing else
macro sameSeg(a PathSegment, b PathSegment, fold bool) bool == a.Type == b.Type && a.Index == b.Index && a.Value == (fold && (b.Type == SegmentElement || b.Type == SegmentAttribute) ? lower(b.Value) : b.Value)
contract parsePathWithOptions
  invariant [C14] for s []PathSegment :: len(s) == atloop(len(s)) && (forall k int :: {s[k]} 0 <= k && k < len(s) ==> sameSeg(s[k], atloop(s[k]), k < iter))
  ensures [C14] exists q Seq[PathSegment] :: {parsedRel(path, q)} parsedRel(path, q) && len(q) == len(result) && (forall k int :: {result[k]} {q[k]} 0 <= k && k < len(q) ==> sameSeg(result[k], q[k], opts != nil && !opts.CaseSensitive))
