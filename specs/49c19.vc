// C19: Set then Get returns what was written.
prop C19 uses==SCN,=DET,=VTX kinds=none funcs=(*xmlBuilder).setElement;(*xmlBuilder).replaceElement;(*xmlBuilder).createElement;(*xmlBuilder).createElementForAttribute;(*xmlBuilder).appendElement;(*xmlBuilder).deleteElement;GetBytes;Get;(PathSegment).matches;(PathSegment).matchesWithOptions;collectFragmentRoots;executeQuery;executeQueryWithOptions;(*xmlBuilder).findElementLocation;(*xmlParser).parseElementContent
assume C19 the names of C20 for the scanner's three steps (clauses tagged SCN)
bounded C19 that reading the edited document gives the written string at the same path: random valid documents and fragments, one Set or Delete at a path to an existing or new element or attribute with and without indexes, read back, on each run

// r is the part of d from a to b
rec isSub(r string, d string, a int, b int) bool == 0 <= a && a <= b && b <= len(d) && r == d[a:b]
lemma [C19] subI(d string, a int, b int) {d[a:b]} : 0 <= a && a <= b && b <= len(d) ==> isSub(d[a:b], d, a, b)
lemma [C19] subE(r string, s string, d string, a int, b int) {isSub(r, d, a, b), isSub(s, d, a, b)} : isSub(r, d, a, b) && isSub(s, d, a, b) ==> r == s
lemma [C19] subW(d string, n int) {isSub(d, d, 0, n)} : n == len(d) ==> isSub(d, d, 0, n)
lemma [C19] subT(r string, d string, w string, a int, b int, o int, e int) {isSub(r, d, a, b), isSub(d, w, o, e)} : isSub(r, d, a, b) && isSub(d, w, o, e) ==> isSub(r, w, o + a, o + b)
lemma [C19] subN(r string, d string, a int, b int) {isSub(r, d, a, b)} : isSub(r, d, a, b) && a == b ==> r == ""
lemma [C19] subZ(d string, a int) {isSub("", d, a, a)} : 0 <= a && a <= len(d) ==> isSub("", d, a, a)
contract (*xmlParser).parseElementContent
  ensures [C19] old(p.depth) == 0 ==> isSub(result, str(p.data), old(p.pos), p.contentEnd)
// the element a path of element and index steps addresses: the first match of each step, or the indexed one
rec fEx(c bool, d string, p int, a Seq[PathSegment], i int) bool ==
  i < 0 || i >= len(a) || a[i].Type != SegmentElement ? false :
  i + 1 == len(a) ? 0 < mcnt(c, d, p, a[i].Value) :
  a[i+1].Type == SegmentIndex ? 0 <= a[i+1].Index && a[i+1].Index < mcnt(c, d, p, a[i].Value) && (i + 2 == len(a) || fEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, i + 2)) :
  0 < mcnt(c, d, p, a[i].Value) && fEx(c, mat(c, d, p, a[i].Value, 0), 0, a, i + 1)
rec fIt(c bool, d string, p int, a Seq[PathSegment], i int) string ==
  i < 0 || i >= len(a) ? "" :
  i + 1 == len(a) ? mat(c, d, p, a[i].Value, 0) :
  a[i+1].Type == SegmentIndex ? (i + 2 == len(a) ? mat(c, d, p, a[i].Value, a[i+1].Index) : fIt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, i + 2)) :
  fIt(c, mat(c, d, p, a[i].Value, 0), 0, a, i + 1)
macro stepSeg(s PathSegment) bool == s.Type == SegmentElement || (s.Type == SegmentIndex && s.Index < 1000)
rec steps(a Seq[PathSegment]) bool == len(a) >= 1 && len(a[len(a)-1].Modifiers) == 0 && (forall k int :: {a[k]} 0 <= k && k < len(a) ==> stepSeg(a[k]) && a[k].Filter == nil)
lemma [C19] stepsEnd(a Seq[PathSegment]) {steps(a)} : steps(a) ==> len(a) >= 1 && len(a[len(a)-1].Modifiers) == 0
lemma [C19] stepsAt(a Seq[PathSegment], k int) {steps(a), a[k]} : steps(a) && 0 <= k && k < len(a) ==> stepSeg(a[k]) && a[k].Filter == nil
lemma [C19] stepsIn(a Seq[PathSegment], c bool, d string, p int, i int) {steps(a), fEx(c, d, p, a, i)} uses(stepsAt) : steps(a) && 0 <= i && i + 2 < len(a) ==> stepSeg(a[i+2])
contract (PathSegment).matchesWithOptions
  ensures [C19] seg.Type == SegmentIndex ==> !result
contract (PathSegment).matches
  ensures [C19] seg.Type == SegmentIndex ==> !result
contract executeQuery
  invariant [C19] old(parser.depth == 0) ==> parser.depth == 0
  invariant [C19] 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !(segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex)) && nu(steps(old(seq(segments)))) && fEx(true, str(parser.data), old(parser.pos), old(seq(segments)), segIndex) ==> mcnt(true, str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value)) && mat(true, str(parser.data), parser.pos, old(segments[segIndex].Value), 0) == mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), 0)
  invariant [C19] for x []elementMatch :: 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> len(x) <= 1000 && len(x) + mcnt(true, str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value))
  invariant [C19] for x []elementMatch :: 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].content == mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  invariant [C19] for x []elementMatch :: 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> (forall k int :: {mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k)} k >= len(x) ==> mat(true, str(parser.data), parser.pos, old(segments[segIndex].Value), k - len(x)) == mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  ensures [C19] old(parser.depth == 0) && nu(steps(old(seq(segments)))) && fEx(true, old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex) ==> result.Type == Element && result.Raw == fIt(true, old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex)
contract executeQueryWithOptions
  invariant [C19] old(parser.depth == 0) ==> parser.depth == 0
  invariant [C19] 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !(segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex)) && nu(steps(old(seq(segments)))) && fEx(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(seq(segments)), segIndex) ==> mcnt(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value)) && mat(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value), 0) == mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), 0)
  invariant [C19] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> len(x) <= 1000 && len(x) + mcnt(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value))
  invariant [C19] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].content == mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  invariant [C19] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && segIndex + 1 < len(segments) && old(segments[segIndex+1].Type == SegmentIndex) && nu(steps(old(seq(segments)))) ==> (forall k int :: {mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k)} k >= len(x) ==> mat(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value), k - len(x)) == mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  ensures [C19] old(parser.depth == 0) && nu(steps(old(seq(segments)))) && fEx(old(opts.CaseSensitive), old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex) ==> result.Type == Element && result.Raw == fIt(old(opts.CaseSensitive), old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex)
contract (*xmlBuilder).findElementLocation
  requires [C19] parser.depth == 0
  invariant [C19] parser.depth == 0
  requires [C19] forall k int :: {parser.data[k]} 0 <= k && k < len(parser.data) ==> parser.data[k] == b.data[baseOffset + k]
  requires [C19] isSub(str(parser.data), str(b.data), baseOffset, baseOffset + len(parser.data))
  invariant [C19] b.opts == old(b.opts) && (b.opts == nil || b.opts.CaseSensitive) == old((b.opts == nil || b.opts.CaseSensitive))
  invariant [C19] 0 <= segIndex && segIndex < len(segments) && old(segments[segIndex].Type == SegmentElement) && !old(segIndex + 1 < len(segments) && segments[segIndex+1].Type == SegmentIndex) ==> mcnt((b.opts == nil || b.opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt((b.opts == nil || b.opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value)) && mat((b.opts == nil || b.opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value), 0) == mat((b.opts == nil || b.opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), 0)
  invariant [C19] for n var int :: 0 <= segIndex && segIndex < len(segments) && old(segments[segIndex].Type == SegmentElement) && old(segIndex + 1 < len(segments) && segments[segIndex+1].Type == SegmentIndex) ==> 0 <= n && n + mcnt((b.opts == nil || b.opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt((b.opts == nil || b.opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value)) && (old(segments[segIndex+1].Index) >= 0 ==> n <= old(segments[segIndex+1].Index) && mat((b.opts == nil || b.opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value), old(segments[segIndex+1].Index) - n) == mat((b.opts == nil || b.opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), old(segments[segIndex+1].Index)))
  ensures [C19] result1 && nu(steps(old(seq(segments)))) ==> fEx(old((b.opts == nil || b.opts.CaseSensitive)), old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex)
  ensures [C19] result1 && nu(steps(old(seq(segments)))) ==> isSub(fIt(old((b.opts == nil || b.opts.CaseSensitive)), old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex), str(b.data), result0.contentStart, result0.contentEnd)
  ensures [C19] result1 && result0.isSelfClosing ==> result0.contentStart == result0.contentEnd && result0.contentStart >= 2
  ensures [C19] !result1 && nu(steps(old(seq(segments)))) && baseOffset + len(parser.data) <= MaxPositionOffset ==> !fEx(old((b.opts == nil || b.opts.CaseSensitive)), old(str(parser.data)), old(parser.pos), old(seq(segments)), segIndex)
// t is d with the content f of one element replaced by v
rec putAt(d string, t string, v string, f string) bool ==
  (exists c int, e int :: isSub(f, d, c, e) && t == d[:c] + v + d[e:]) ||
  (f == "" && (exists c int, nm string :: 2 <= c && c <= len(d) && t == d[:c-2] + ">" + v + "</" + nm + ">" + d[c:]))
lemma [C19] putI(d string, v string, f string, c int, e int) {putAt(d, d[:c] + v + d[e:], v, f)} : isSub(f, d, c, e) ==> putAt(d, d[:c] + v + d[e:], v, f)
lemma [C19] putE(d string, v string, f string, c int, g int, nm string) {putAt(d, d[:g] + ">" + v + "</" + nm + ">" + d[c:], v, f)} : f == "" && g == c - 2 && 2 <= c && c <= len(d) ==> putAt(d, d[:g] + ">" + v + "</" + nm + ">" + d[c:], v, f)
contract (*xmlBuilder).replaceElement
  ensures [C19] result == nil && segment.Type == SegmentElement && !location.isSelfClosing ==> text(b.result) == str(b.data)[:location.contentStart] + xmlValue + str(b.data)[location.contentEnd:]
  ensures [C19] result == nil && segment.Type == SegmentElement && location.isSelfClosing ==> text(b.result) == str(b.data)[:location.contentStart-2] + ">" + xmlValue + "</" + location.elementName + ">" + str(b.data)[location.contentEnd:]
contract (*xmlBuilder).setElement
  invariant [C19] needsCopy ==> !old(forall k int :: {path[k]} 0 <= k && k < len(path) ==> path[k].Type == SegmentElement)
  ensures [C19] result == nil && old(text(b.result)) == "" && nu(steps(old(seq(path)))) && old(forall k int :: {path[k]} 0 <= k && k < len(path) ==> path[k].Type == SegmentElement) && fEx(old((b.opts == nil || b.opts.CaseSensitive)), old(str(b.data)), 0, old(seq(path)), 0) ==> nu(putAt(str(b.data), text(b.result), valText(value), fIt(old((b.opts == nil || b.opts.CaseSensitive)), old(str(b.data)), 0, old(seq(path)), 0)))
contract GetBytes
  ensures [C19] len(old(str(xml))) <= MaxDocumentSize ==> exists q Seq[PathSegment] :: {parsedRel(path, q)} parsedRel(path, q) && (nu(steps(q)) && fEx(true, old(str(xml)), 0, q, 0) ==> result.Type == Element && result.Raw == fIt(true, old(str(xml)), 0, q, 0))
contract Get
  ensures [C19] len(xml) <= MaxDocumentSize ==> exists q Seq[PathSegment] :: {parsedRel(path, q)} parsedRel(path, q) && (nu(steps(q)) && fEx(true, xml, 0, q, 0) ==> result.Type == Element && result.Raw == fIt(true, xml, 0, q, 0))
