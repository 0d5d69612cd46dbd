// C20: count and index agree.
prop C20 uses==SCN,=DET kinds=none funcs=executeQuery;executeQueryWithOptions;collectFragmentRoots;GetBytes;Get
assume C20 nxtOK/nxtPos, enName/enSelf/enPos and ecText/ecPos name what the scanner's three steps give at a position of a text (clauses tagged SCN): skipToNextElement, parseElementName and parseElementContent are functions of text and position; nmRule names the rule C14 is about
bounded C20 that the scanner's steps give the elements of the document in order, and that a path text ending in a count or an index parses to the steps written: random documents and fragments with runs of up to 1000 repeated elements between comments, CDATA and other elements, paths of up to 5 steps, counted and indexed end to end on each run

uninterp nxtOK(d string, p int) bool
uninterp nxtPos(d string, p int) int
uninterp enName(d string, p int) string
uninterp enSelf(d string, p int) bool
uninterp enPos(d string, p int) int
uninterp ecText(d string, p int, n string) string
uninterp ecPos(d string, p int, n string) int
contract (*xmlParser).skipToNextElement
  ensures [SCN] (result <==> nxtOK(str(p.data), old(p.pos))) && (result ==> p.pos == nxtPos(str(p.data), old(p.pos)))
contract (*xmlParser).parseElementName
  ensures [SCN] result0 == enName(str(p.data), old(p.pos)) && (result2 <==> enSelf(str(p.data), old(p.pos))) && p.pos == enPos(str(p.data), old(p.pos))
contract (*xmlParser).parseElementContent
  ensures [SCN] old(p.depth) == 0 ==> result == ecText(str(p.data), old(p.pos), elementName) && p.pos == ecPos(str(p.data), old(p.pos), elementName)

// the next element at or after p: its name, its content and where the scan goes on
macro elAt(d string, p int) int == nxtPos(d, p) + 1
macro elName(d string, p int) string == enName(d, elAt(d, p))
macro elCont(d string, p int) string == enSelf(d, elAt(d, p)) ? "" : ecText(d, enPos(d, elAt(d, p)), elName(d, p))
macro elEnd(d string, p int) int == enSelf(d, elAt(d, p)) ? enPos(d, elAt(d, p)) : ecPos(d, enPos(d, elAt(d, p)), elName(d, p))
macro more(d string, p int) bool == p < len(d) && nxtOK(d, p) && elEnd(d, p) > p && len(elCont(d, p)) < len(d) - p
uninterp nmRule(c bool, v string, n string) bool
contract (PathSegment).matches
  ensures [SCN] seg.Type == SegmentElement ==> (result <==> nmRule(true, seg.Value, elementName))
contract (PathSegment).matchesWithOptions
  ensures [SCN] seg.Type == SegmentElement ==> (result <==> nmRule(opts == nil || opts.CaseSensitive, seg.Value, elementName))
// the elements named v from p on, in document order: how many, and the content of the k-th
macro isEl(c bool, d string, p int, v string) bool == nmRule(c, v, elName(d, p))
rec mcnt(c bool, d string, p int, v string) int == !more(d, p) ? 0 : (isEl(c, d, p, v) ? 1 : 0) + mcnt(c, d, elEnd(d, p), v)
rec mat(c bool, d string, p int, v string, k int) string == !more(d, p) ? "" : (isEl(c, d, p, v) ? (k <= 0 ? elCont(d, p) : mat(c, d, elEnd(d, p), v, k - 1)) : mat(c, d, elEnd(d, p), v, k))
lemma [C20,C19] mPos(c bool, d string, p int, v string) {mcnt(c, d, p, v)} induct(len(d) - p) hint(mcnt(c, d, elEnd(d, p), v)) : mcnt(c, d, p, v) >= 0
lemma [C20,C19] mShort(c bool, d string, p int, v string, k int) {mat(c, d, p, v, k)} induct(len(d) - p) uses(mPos) hint(mcnt(c, d, elEnd(d, p), v)) hint(mat(c, d, elEnd(d, p), v, k)) hint(mat(c, d, elEnd(d, p), v, k - 1)) : 0 <= k && k < mcnt(c, d, p, v) ==> len(mat(c, d, p, v, k)) < len(d) - p
// what a path of m element and index steps selects: the elements of the first place that has any
macro lim(n int) int == n < 1000 ? n : 1000
macro ixOK(a Seq[PathSegment], i int, n int) bool == 0 <= a[i].Index && a[i].Index < lim(n)
rec pcnt(c bool, d string, p int, a Seq[PathSegment], m int, i int) int ==
  i >= m || a[i].Type != SegmentElement ? 0 :
  i + 1 == m ? mcnt(c, d, p, a[i].Value) :
  a[i+1].Type == SegmentIndex ? (ixOK(a, i + 1, mcnt(c, d, p, a[i].Value)) ? pcnt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2) : 0) :
  !more(d, p) ? 0 :
  nmRule(c, a[i].Value, elName(d, p)) && pcnt(c, elCont(d, p), 0, a, m, i + 1) > 0 ? pcnt(c, elCont(d, p), 0, a, m, i + 1) : pcnt(c, d, elEnd(d, p), a, m, i)
contract collectFragmentRoots
  invariant [C20,C19] for x []elementMatch :: old(parser.depth) == 0 ==> parser.depth == 0 && len(x) <= 1000 && len(x) + mcnt(true, str(parser.data), parser.pos, targetName) == mcnt(true, str(parser.data), old(parser.pos), targetName)
  invariant [C20,C19] for x []elementMatch :: old(parser.depth) == 0 ==> (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].content == mat(true, str(parser.data), old(parser.pos), targetName, k))
  invariant [C20,C19] for x []elementMatch :: old(parser.depth) == 0 ==> (forall k int :: {mat(true, str(parser.data), old(parser.pos), targetName, k)} k >= len(x) ==> mat(true, str(parser.data), parser.pos, targetName, k - len(x)) == mat(true, str(parser.data), old(parser.pos), targetName, k))
  ensures [C20,C19] old(parser.depth) == 0 ==> len(result) == lim(mcnt(true, old(str(parser.data)), old(parser.pos), targetName)) && (forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k].content == mat(true, old(str(parser.data)), old(parser.pos), targetName, k))
rec pEx(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) bool ==
  i >= m || a[i].Type != SegmentElement ? false :
  i + 1 == m ? 0 <= j && j < lim(mcnt(c, d, p, a[i].Value)) :
  a[i+1].Type == SegmentIndex ? (ixOK(a, i + 1, mcnt(c, d, p, a[i].Value)) ? pEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j) : false) :
  !more(d, p) ? false :
  nmRule(c, a[i].Value, elName(d, p)) && pEx(c, elCont(d, p), 0, a, m, i + 1, j) ? true : pEx(c, d, elEnd(d, p), a, m, i, j)
rec pIt(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) string ==
  i >= m || a[i].Type != SegmentElement ? "" :
  i + 1 == m ? mat(c, d, p, a[i].Value, j) :
  a[i+1].Type == SegmentIndex ? (ixOK(a, i + 1, mcnt(c, d, p, a[i].Value)) ? pIt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j) : "") :
  !more(d, p) ? "" :
  nmRule(c, a[i].Value, elName(d, p)) && pEx(c, elCont(d, p), 0, a, m, i + 1, j) ? pIt(c, elCont(d, p), 0, a, m, i + 1, j) : pIt(c, d, elEnd(d, p), a, m, i, j)
macro plainSeg(s PathSegment) bool == (s.Type == SegmentElement || s.Type == SegmentIndex) && s.Filter == nil
rec plainOp(a Seq[PathSegment], t int) bool == len(a) >= 1 && (forall k int :: {a[k]} 0 <= k && k + 1 < len(a) ==> plainSeg(a[k])) && a[len(a)-1].Type == t && a[len(a)-1].Filter == nil && len(a[len(a)-1].Modifiers) == 0
lemma [C20] plainAt(a Seq[PathSegment], t int, k int) {plainOp(a, t), a[k]} : plainOp(a, t) && 0 <= k && k + 1 < len(a) ==> plainSeg(a[k])
lemma [C20] plainEnd(a Seq[PathSegment], t int) {plainOp(a, t)} : plainOp(a, t) ==> len(a) >= 1 && a[len(a)-1].Type == t && a[len(a)-1].Filter == nil && len(a[len(a)-1].Modifiers) == 0
lemma [C20] plainIn(a Seq[PathSegment], t int, c bool, d string, p int, m int, i int) {plainOp(a, t), pcnt(c, d, p, a, m, i)} uses(plainAt, plainEnd) : plainOp(a, t) && 0 <= i && i + 2 < len(a) ==> a[i+2].Type == t || plainSeg(a[i+2])
macro cntIs(r Result, n int) bool == n <= 0 ? r.Type == Null : r.Type == Number && r.Num == i2f(lim(n))
macro idxIs(r Result, e bool, t string) bool == e ? r.Type == Element && r.Raw == t : r.Type == Null
lemma [C20] plainIx(a Seq[PathSegment], t int, c bool, d string, p int, m int, i int, j int) {plainOp(a, t), pEx(c, d, p, a, m, i, j)} uses(plainAt, plainEnd) : plainOp(a, t) && 0 <= i && i + 2 < len(a) ==> a[i+2].Type == t || plainSeg(a[i+2])
// the items that are counted, the steps that select one element, and why count and index agree
rec pItem(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) string ==
  i >= m || a[i].Type != SegmentElement ? "" :
  i + 1 == m ? mat(c, d, p, a[i].Value, j) :
  a[i+1].Type == SegmentIndex ? (ixOK(a, i + 1, mcnt(c, d, p, a[i].Value)) ? pItem(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j) : "") :
  !more(d, p) ? "" :
  nmRule(c, a[i].Value, elName(d, p)) && pcnt(c, elCont(d, p), 0, a, m, i + 1) > 0 ? pItem(c, elCont(d, p), 0, a, m, i + 1, j) : pItem(c, d, elEnd(d, p), a, m, i, j)
rec pOne(c bool, d string, p int, a Seq[PathSegment], m int, i int) bool ==
  i >= m || a[i].Type != SegmentElement ? true :
  i + 1 == m ? true :
  a[i+1].Type == SegmentIndex ? pOne(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2) :
  !more(d, p) ? true :
  nmRule(c, a[i].Value, elName(d, p)) ? mcnt(c, d, elEnd(d, p), a[i].Value) == 0 && pOne(c, elCont(d, p), 0, a, m, i + 1) : pOne(c, d, elEnd(d, p), a, m, i)
lemma [C20] cohZero(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) {pEx(c, d, p, a, m, i, j)} induct(len(d) - p) uses(mPos, mShort) hint(pcnt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2)) hint(pcnt(c, elCont(d, p), 0, a, m, i + 1)) hint(pcnt(c, d, elEnd(d, p), a, m, i)) hint(pEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pEx(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pEx(c, d, elEnd(d, p), a, m, i, j)) : 0 <= i && pcnt(c, d, p, a, m, i) <= 0 ==> !pEx(c, d, p, a, m, i, j)
lemma [C20] cohUp(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) {pEx(c, d, p, a, m, i, j)} induct(len(d) - p) uses(mPos, mShort, cohZero) hint(pcnt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2)) hint(pcnt(c, elCont(d, p), 0, a, m, i + 1)) hint(pcnt(c, d, elEnd(d, p), a, m, i)) hint(pEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pEx(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pEx(c, d, elEnd(d, p), a, m, i, j)) hint(pIt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pIt(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pIt(c, d, elEnd(d, p), a, m, i, j)) hint(pItem(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pItem(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pItem(c, d, elEnd(d, p), a, m, i, j)) : 0 <= i && 0 <= j && j < lim(pcnt(c, d, p, a, m, i)) ==> pEx(c, d, p, a, m, i, j) && pIt(c, d, p, a, m, i, j) == pItem(c, d, p, a, m, i, j)
lemma [C20] cohNone(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) {pEx(c, d, p, a, m, i, j)} induct(len(d) - p) uses(mPos) hint(mcnt(c, d, elEnd(d, p), a[i].Value)) hint(pEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pEx(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pEx(c, d, elEnd(d, p), a, m, i, j)) : 0 <= i && i + 1 < m && a[i+1].Type != SegmentIndex && mcnt(c, d, p, a[i].Value) == 0 ==> !pEx(c, d, p, a, m, i, j)
lemma [C20] cohDown(c bool, d string, p int, a Seq[PathSegment], m int, i int, j int) {pEx(c, d, p, a, m, i, j), pOne(c, d, p, a, m, i)} induct(len(d) - p) uses(mPos, mShort, cohZero, cohNone) hint(pcnt(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2)) hint(pcnt(c, elCont(d, p), 0, a, m, i + 1)) hint(pcnt(c, d, elEnd(d, p), a, m, i)) hint(pEx(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2, j)) hint(pEx(c, elCont(d, p), 0, a, m, i + 1, j)) hint(pEx(c, d, elEnd(d, p), a, m, i, j)) hint(pOne(c, mat(c, d, p, a[i].Value, a[i+1].Index), 0, a, m, i + 2)) hint(pOne(c, elCont(d, p), 0, a, m, i + 1)) hint(pOne(c, d, elEnd(d, p), a, m, i)) : 0 <= i && pOne(c, d, p, a, m, i) && pEx(c, d, p, a, m, i, j) ==> 0 <= j && j < lim(pcnt(c, d, p, a, m, i))
contract executeQuery
  invariant [C20] old(parser.depth == 0) ==> parser.depth == 0
  invariant [C20] 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) && nu(plainOp(old(seq(segments)), SegmentCount)) ==> pcnt(true, str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex) == pcnt(true, str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex)
  invariant [C20] 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) && nu(plainOp(old(seq(segments)), SegmentIndex)) ==> pEx(true, str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) == pEx(true, str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) && pIt(true, str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) == pIt(true, str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index))
  invariant [C20] for x []elementMatch :: 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> len(x) <= 1000 && len(x) + mcnt(true, str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value))
  invariant [C20] for x []elementMatch :: 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].content == mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  invariant [C20] for x []elementMatch :: 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> (forall k int :: {mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k)} k >= len(x) ==> mat(true, str(parser.data), parser.pos, old(segments[segIndex].Value), k - len(x)) == mat(true, str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  ensures [C20] old(parser.depth == 0) && nu(plainOp(old(seq(segments)), SegmentCount)) ==> cntIs(result, pcnt(true, old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex))
  ensures [C20] old(parser.depth == 0) && nu(plainOp(old(seq(segments)), SegmentIndex)) ==> idxIs(result, pEx(true, old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)), pIt(true, old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)))
contract executeQueryWithOptions
  invariant [C20] old(parser.depth == 0) ==> parser.depth == 0
  invariant [C20] 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) && nu(plainOp(old(seq(segments)), SegmentCount)) ==> pcnt(old(opts.CaseSensitive), str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex) == pcnt(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex)
  invariant [C20] 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && !old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) && nu(plainOp(old(seq(segments)), SegmentIndex)) ==> pEx(old(opts.CaseSensitive), str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) == pEx(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) && pIt(old(opts.CaseSensitive), str(parser.data), parser.pos, old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)) == pIt(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index))
  invariant [C20] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> len(x) <= 1000 && len(x) + mcnt(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value)) == mcnt(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value))
  invariant [C20] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> (forall k int :: {x[k]} 0 <= k && k < len(x) ==> x[k].content == mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  invariant [C20] for x []elementMatch :: (segIndex > 0 || !old(opts.CaseSensitive)) && 0 <= segIndex && segIndex + 1 < len(segments) && old(parser.depth == 0 && segments[segIndex].Type == SegmentElement && segments[segIndex].Filter == nil) && old(segments[segIndex+1].Type == SegmentCount || segments[segIndex+1].Type == SegmentIndex) ==> (forall k int :: {mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k)} k >= len(x) ==> mat(old(opts.CaseSensitive), str(parser.data), parser.pos, old(segments[segIndex].Value), k - len(x)) == mat(old(opts.CaseSensitive), str(parser.data), old(parser.pos), old(segments[segIndex].Value), k))
  ensures [C20] old(parser.depth == 0) && nu(plainOp(old(seq(segments)), SegmentCount)) ==> cntIs(result, pcnt(old(opts.CaseSensitive), old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex))
  ensures [C20] old(parser.depth == 0) && nu(plainOp(old(seq(segments)), SegmentIndex)) ==> idxIs(result, pEx(old(opts.CaseSensitive), old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)), pIt(old(opts.CaseSensitive), old(str(parser.data)), old(parser.pos), old(seq(segments)), len(segments) - 1, segIndex, old(segments[len(segments)-1].Index)))
contract GetBytes
  ensures [C20] len(old(str(xml))) <= MaxDocumentSize ==> exists q Seq[PathSegment] :: {parsedRel(path, q)} parsedRel(path, q) && (nu(plainOp(q, SegmentCount)) ==> cntIs(result, pcnt(true, old(str(xml)), 0, q, len(q) - 1, 0))) && (nu(plainOp(q, SegmentIndex)) ==> idxIs(result, pEx(true, old(str(xml)), 0, q, len(q) - 1, 0, q[len(q)-1].Index), pIt(true, old(str(xml)), 0, q, len(q) - 1, 0, q[len(q)-1].Index)))
contract Get
  ensures [C20] len(xml) <= MaxDocumentSize ==> exists q Seq[PathSegment] :: {parsedRel(path, q)} parsedRel(path, q) && (nu(plainOp(q, SegmentCount)) ==> cntIs(result, pcnt(true, xml, 0, q, len(q) - 1, 0))) && (nu(plainOp(q, SegmentIndex)) ==> idxIs(result, pEx(true, xml, 0, q, len(q) - 1, 0, q[len(q)-1].Index), pIt(true, xml, 0, q, len(q) - 1, 0, q[len(q)-1].Index)))
