// C03: edits are local.
prop C03 uses==VTX kinds=none funcs=*
assume C03 valText(value) names the text valueToXML gives for a value (clause tagged VTX): valueToXML is a function of its argument
bounded C03 which element a path addresses, and the names and values of the attributes an attribute edit keeps: random documents with comments, CDATA, quoting styles and nested same-name elements, one edit each, output compared byte by byte with the extents known from generating the document

// bytes of a document around an element
macro endTag(d string, e int) bool == e == len(d) || (d[e] == '<' && e + 1 < len(d) && d[e+1] == '/')
macro startEnd(d string, c int) bool == c >= 1 && (d[c-1] == '>' || c == len(d) || d[c] == '<')
macro emptyEnd(d string, c int) bool == c >= 2 && (d[c-1] == '>' && d[c-2] == '/' || d[c-1] == '/')

contract (*xmlParser).parseElementName
  ensures [C03] result2 ==> (p.data[p.pos-1] == '/' || p.data[p.pos-1] == '>' && p.data[p.pos-2] == '/')
contract (*xmlParser).readUntil
  ensures [C03] p.pos == p.dataLen || p.data[p.pos] == delim || p.pos - old(p.pos) > MaxTokenSize
contract (*xmlParser).parseElementContent
  ensures [C03] old(p.depth) == 0 ==> p.contentEnd == p.dataLen || (p.contentEnd + 1 < p.dataLen && p.data[p.contentEnd] == '<' && p.data[p.contentEnd+1] == '/')
  ensures [C03] old(p.depth) == 0 ==> p.pos == p.dataLen || (p.pos >= 1 && p.data[p.pos-1] == '>') || p.pos - p.contentEnd > MaxTokenSize

// where an element is: from its '<', past its opening tag, at its closing tag, past it
macro where(d string, l *elementLocation) bool == d[l.startPos] == '<' && l.startPos + 1 < len(d) && (l.isSelfClosing ? (emptyEnd(d, l.contentStart) && l.contentEnd == l.contentStart && l.endPos == l.contentStart) : (endTag(d, l.contentEnd) && (l.endPos == len(d) || d[l.endPos-1] == '>' || l.endPos - l.contentEnd > MaxTokenSize || endTag(d, l.endPos))))
contract (*xmlBuilder).findElementLocation
  requires [C03] parser.depth == 0
  requires [C03] forall k int :: {parser.data[k]} 0 <= k && k < len(parser.data) ==> parser.data[k] == b.data[baseOffset + k]
  requires [C03] len(parser.data) == 0 || endTag(str(b.data), baseOffset + len(parser.data))
  ensures [C03] result1 ==> where(str(b.data), result0)
  invariant [C03] parser.depth == 0

// chain of nested elements written after t
rec opA(t string, s Seq[PathSegment], n int) string == n <= 0 ? t : opA(t, s, n-1) + "<" + s[n-1].Value + ">"
rec clA(t string, s Seq[PathSegment], i int) string == i < 0 || i >= len(s) ? t : clA(t, s, i+1) + "</" + s[i].Value + ">"
macro chain(t string, s Seq[PathSegment], v string) string == clA(opA(t, s, len(s)) + v, s, 0)
macro elems(s Seq[PathSegment]) bool == forall k int :: {s[k]} 0 <= k && k < len(s) ==> s[k].Type == SegmentElement

contract (*xmlBuilder).buildElementPathWithDepth
  invariant [C03] b.opts.Indent == "" && elems(seq(path)) ==> text(b.result) == (iter < len(path) || len(path) == 0 ? opA(old(text(b.result)), seq(path), iter) : opA(old(text(b.result)), seq(path), iter) + xmlValue)
  invariant [C03] for i var int :: b.opts.Indent == "" && elems(seq(path)) && len(path) > 0 ==> i < len(path) && text(b.result) == clA(opA(old(text(b.result)), seq(path), len(path)) + xmlValue, seq(path), i+1)
  ensures [C03] b.opts.Indent == "" && elems(seq(path)) && len(path) > 0 ==> text(b.result) == chain(old(text(b.result)), seq(path), xmlValue)
contract checkCreatable
  invariant [C03] forall k int :: {path[k]} 0 <= k && k < iter ==> path[k].Type == SegmentElement
  ensures [C03] result == nil ==> elems(seq(path))

// the text of an element edit at a place l of document d
macro replText(d string, l *elementLocation, v string) string == l.isSelfClosing ? d[:l.contentStart-2] + ">" + v + "</" + l.elementName + ">" + d[l.contentEnd:] : d[:l.contentStart] + v + d[l.contentEnd:]
macro insText(d string, l *elementLocation, s Seq[PathSegment], v string) string == l.isSelfClosing ? chain(d[:l.contentStart-2] + ">", s, v) + "</" + l.elementName + ">" + d[l.contentEnd:] : chain(d[:l.contentEnd], s, v) + d[l.contentEnd:]
contract (*xmlBuilder).replaceElement
  requires [C03] where(str(b.data), location)
  ensures [C03] result == nil && segment.Type != SegmentAttribute ==> text(b.result) == replText(str(b.data), location, xmlValue)
  ensures [C03] result == nil && segment.Type != SegmentAttribute ==> nu(replAt(str(b.data), text(b.result), xmlValue))
contract (*xmlBuilder).createInParent
  requires [C03] where(str(b.data), parentLocation)
  ensures [C03] result == nil && b.opts.Indent == "" && len(remainingPath) > 0 && parentLocation.isSelfClosing ==> text(b.result) == insText(str(b.data), parentLocation, seq(remainingPath), xmlValue)
  ensures [C03] result == nil && b.opts.Indent == "" && len(remainingPath) > 0 && !parentLocation.isSelfClosing ==> text(b.result) == insText(str(b.data), parentLocation, seq(remainingPath), xmlValue)
  ensures [C03] result == nil && b.opts.Indent == "" && len(remainingPath) > 0 ==> nu(insAt(str(b.data), text(b.result), xmlValue))
contract (*xmlBuilder).createSiblingRoot
  ensures [C03] result == nil && b.opts.Indent == "" && len(path) > 0 ==> text(b.result) == chain(str(b.data), seq(path), xmlValue)
  ensures [C03] result == nil && b.opts.Indent == "" && len(path) > 0 ==> nu(insAt(str(b.data), text(b.result), xmlValue))

// prefixes and suffixes
rec pre(p string, t string) bool == len(p) <= len(t) && t[:len(p)] == p
lemma [C03] preSelf(t string) {pre(t, t)} : pre(t, t)
lemma [C03] preLen(p string, t string) {pre(p, t)} : pre(p, t) ==> len(p) <= len(t)
lemma [C03] preCat(p string, t string, x string) {pre(p, t + x)} : pre(p, t) ==> pre(p, t + x)
rec suf(z string, t string) bool == len(z) <= len(t) && t[len(t)-len(z):] == z
lemma [C03] sufCat(x string, z string, y string) {suf(z + y, x + z + y)} : suf(z + y, x + z + y)
// t is document d with the bytes from p to q rewritten to something that starts with <nm and ends with z
macro rewr(d string, t string, p int, q int, nm string, z string) bool == 0 <= p && p <= q && q <= len(d) && p + 1 + len(nm) + len(z) + len(d) - q <= len(t) && nu(pre(d[:p] + "<" + nm, t)) && nu(suf(z + d[q:], t))

macro tagText(d string, t string, l *elementLocation) bool == l.isSelfClosing ? rewr(d, t, l.startPos, l.contentStart, l.elementName, "/>") : rewr(d, t, l.startPos, l.contentStart, l.elementName, ">")
contract (*xmlBuilder).replaceAttribute
  requires [C03] where(str(b.data), location)
  invariant [C03] nu(pre(str(b.data)[:location.startPos] + "<" + location.elementName, text(b.result)))
  ensures [C03] result == nil ==> tagText(str(b.data), text(b.result), location)
  ensures [C03] result == nil ==> nu(tagAt(str(b.data), text(b.result)))
contract (*xmlBuilder).deleteAttribute
  requires [C03] where(str(b.data), location)
  invariant [C03] nu(pre(str(b.data)[:location.startPos] + "<" + location.elementName, text(b.result)))
  ensures [C03] result == nil ==> text(b.result) == str(b.data) || tagText(str(b.data), text(b.result), location)
  ensures [C03] result == nil ==> text(b.result) == str(b.data) || nu(tagAt(str(b.data), text(b.result)))

// the kinds of edit, at some place
macro insPos(d string, p int) bool == 0 <= p && p <= len(d) && (endTag(d, p) || p > 0 && (d[p-1] == '>' || d[p-1] == '/') || p > MaxTokenSize)
rec replAt(d string, t string, v string) bool ==
  (exists c int, e int :: 0 <= c && c <= e && e <= len(d) && endTag(d, e) && t == d[:c] + v + d[e:]) ||
  (exists c int, nm string :: 0 <= c && c <= len(d) && emptyEnd(d, c) && t == d[:c-2] + ">" + v + "</" + nm + ">" + d[c:])
lemma [C03] replI(d string, v string, c int, e int) {replAt(d, d[:c] + v + d[e:], v)} : 0 <= c && c <= e && e <= len(d) && endTag(d, e) ==> replAt(d, d[:c] + v + d[e:], v)
lemma [C03] replE(d string, v string, c int, f int, nm string) {replAt(d, d[:f] + ">" + v + "</" + nm + ">" + d[c:], v)} : f == c - 2 && 0 <= c && c <= len(d) && emptyEnd(d, c) ==> replAt(d, d[:f] + ">" + v + "</" + nm + ">" + d[c:], v)
rec insAt(d string, t string, v string) bool ==
  (len(d) == 0 && (exists e string :: t == "<" + e + ">" + v + "</" + e + ">")) ||
  (exists p int, s Seq[PathSegment] :: insPos(d, p) && t == chain(d[:p], s, v) + d[p:]) ||
  (exists c int, s Seq[PathSegment], nm string :: 0 <= c && c <= len(d) && emptyEnd(d, c) && t == chain(d[:c-2] + ">", s, v) + "</" + nm + ">" + d[c:]) ||
  (exists p int, e string :: insPos(d, p) && t == d[:p] + "<" + e + ">" + v + "</" + e + ">" + d[p:]) ||
  (exists c int, e string, nm string :: 0 <= c && c <= len(d) && emptyEnd(d, c) && t == d[:c-2] + ">" + "<" + e + ">" + v + "</" + e + ">" + "</" + nm + ">" + d[c:])
lemma [C03] insI(d string, v string, p int, s Seq[PathSegment]) {insAt(d, chain(d[:p], s, v) + d[p:], v)} : insPos(d, p) ==> insAt(d, chain(d[:p], s, v) + d[p:], v)
lemma [C03] insR(d string, v string, s Seq[PathSegment]) {insAt(d, chain(d, s, v), v)} : insAt(d, chain(d, s, v), v)
lemma [C03] insE(d string, v string, c int, f int, s Seq[PathSegment], nm string) {insAt(d, chain(d[:f] + ">", s, v) + "</" + nm + ">" + d[c:], v)} : f == c - 2 && 0 <= c && c <= len(d) && emptyEnd(d, c) ==> insAt(d, chain(d[:f] + ">", s, v) + "</" + nm + ">" + d[c:], v)
lemma [C03] insZ(d string, v string, e string) {insAt(d, "<" + e + ">" + v + "</" + e + ">", v)} : len(d) == 0 ==> insAt(d, "<" + e + ">" + v + "</" + e + ">", v)
lemma [C03] insO(d string, v string, p int, e string) {insAt(d, d[:p] + "<" + e + ">" + v + "</" + e + ">" + d[p:], v)} : insPos(d, p) ==> insAt(d, d[:p] + "<" + e + ">" + v + "</" + e + ">" + d[p:], v)
lemma [C03] insOE(d string, v string, c int, f int, e string, nm string) {insAt(d, d[:f] + ">" + "<" + e + ">" + v + "</" + e + ">" + "</" + nm + ">" + d[c:], v)} : f == c - 2 && 0 <= c && c <= len(d) && emptyEnd(d, c) ==> insAt(d, d[:f] + ">" + "<" + e + ">" + v + "</" + e + ">" + "</" + nm + ">" + d[c:], v)
rec tagAt(d string, t string) bool ==
  (exists p int, q int, nm string :: 0 <= p && p < len(d) && d[p] == '<' && rewr(d, t, p, q, nm, ">")) ||
  (exists p int, q int, nm string :: 0 <= p && p < len(d) && d[p] == '<' && emptyEnd(d, q) && rewr(d, t, p, q, nm, "/>"))
lemma [C03] tagI(d string, t string, p int, q int, nm string) {tagAt(d, t), pre(d[:p] + "<" + nm, t), suf(">" + d[q:], t)} : 0 <= p && p < len(d) && d[p] == '<' && rewr(d, t, p, q, nm, ">") ==> tagAt(d, t)
lemma [C03] tagE(d string, t string, p int, q int, nm string) {tagAt(d, t), pre(d[:p] + "<" + nm, t), suf("/>" + d[q:], t)} : 0 <= p && p < len(d) && d[p] == '<' && emptyEnd(d, q) && rewr(d, t, p, q, nm, "/>") ==> tagAt(d, t)
macro cutEnd(d string, p int, q int) bool == emptyEnd(d, q) || q == len(d) || d[q-1] == '>' || endTag(d, q) || q - p > MaxTokenSize
rec delAt(d string, t string) bool == exists p int, q int :: 0 <= p && p < q && q <= len(d) && d[p] == '<' && t == d[:p] + d[q:] && cutEnd(d, p, q)
lemma [C03] delI(d string, p int, q int) {delAt(d, d[:p] + d[q:])} : 0 <= p && p < q && q <= len(d) && d[p] == '<' && cutEnd(d, p, q) ==> delAt(d, d[:p] + d[q:])

contract (*xmlBuilder).createElement
  ensures [C03] result == nil && b.opts.Indent == "" && len(path) > 0 ==> text(b.result) == old(text(b.result)) || nu(insAt(str(b.data), text(b.result), xmlValue))
contract (*xmlBuilder).createInRoot
  ensures [C03] result == nil && b.opts.Indent == "" && len(path) > 0 ==> text(b.result) == old(text(b.result)) || nu(insAt(str(b.data), text(b.result), xmlValue))
contract (*xmlBuilder).appendRootElement
  invariant [C03] parser.depth == 0
  invariant [C03] for n var int :: insPos(str(b.data), n)
  ensures [C03] result == nil ==> nu(insAt(str(b.data), text(b.result), xmlValue))
uninterp valText(v any) string
contract valueToXML
  ensures [VTX] result2 == nil ==> result0 == valText(value)
contract (*xmlBuilder).appendElement
  ensures [C03] result == nil ==> len(path) >= 2 && path[len(path)-1].Type == SegmentIndex
  ensures [C03] result == nil && b.opts.Indent == "" ==> text(b.result) == old(text(b.result)) || nu(insAt(str(b.data), text(b.result), valText(value)))
contract (*xmlBuilder).findLastMatchPosition
  requires [C03] where(str(b.data), parent)
  invariant [C03] parser.depth == 0
  invariant [C03] for n var int :: insPos(str(b.data), n)
  ensures [C03] insPos(str(b.data), result)
contract (*xmlBuilder).createElementForAttribute
  ensures [C03] result == nil && b.opts.Indent == "" && old(text(b.result)) == "" ==> str(b.data) == old(str(b.data)) || nu(insAt(old(str(b.data)), str(b.data), ""))
  ensures [C03] result == nil ==> nu(tagAt(str(b.data), text(b.result)))
contract (*xmlBuilder).getResult
  ensures [C03] result == built(b)
macro lastAttr(s Seq[PathSegment]) bool == len(s) > 0 && s[len(s)-1].Type == SegmentAttribute
contract (*xmlBuilder).setElement
  invariant [C03] needsCopy ==> fresh(pathCopy)
  invariant [C03] forall k int :: {pathCopy[k]} needsCopy && 0 <= k && k < len(path) ==> pathCopy[k].Type == path[k].Type
  ensures [C03] result == nil && b.opts.Indent == "" && old(text(b.result)) == "" && !old(lastAttr(seq(path))) ==> str(b.data) == old(str(b.data))
  ensures [C03] result == nil && b.opts.Indent == "" && old(text(b.result)) == "" && !old(lastAttr(seq(path))) ==> text(b.result) == "" || nu(replAt(str(b.data), text(b.result), valText(value))) || nu(insAt(str(b.data), text(b.result), valText(value)))
  ensures [C03] result == nil && b.opts.Indent == "" && old(text(b.result)) == "" && old(lastAttr(seq(path))) ==> str(b.data) == old(str(b.data)) || nu(insAt(old(str(b.data)), str(b.data), ""))
  ensures [C03] result == nil && b.opts.Indent == "" && old(text(b.result)) == "" && old(lastAttr(seq(path))) ==> text(b.result) == "" || nu(tagAt(str(b.data), text(b.result)))
contract (*xmlBuilder).deleteElement
  ensures [C03] result == nil ==> text(b.result) == old(str(b.data)) || nu(tagAt(old(str(b.data)), text(b.result))) || nu(delAt(old(str(b.data)), text(b.result)))
  ensures [C03] result == nil && text(b.result) == "" ==> str(b.data) == old(str(b.data)) || str(b.data) == "" && nu(delAt(old(str(b.data)), ""))
contract newXMLBuilderWithOptions
  ensures [C03] text(result.result) == "" && (opts == nil || opts.Indent == "" ==> result.opts.Indent == "")

rec edited(d string, t string, v string) bool == t == d || replAt(d, t, v) || insAt(d, t, v) || tagAt(d, t) || (exists m string :: insAt(d, m, "") && (t == m || tagAt(m, t)))
lemma [C03] edSame(d string, v string) {edited(d, d, v)} : edited(d, d, v)
lemma [C03] edRepl(d string, t string, v string) {edited(d, t, v), replAt(d, t, v)} : replAt(d, t, v) ==> edited(d, t, v)
lemma [C03] edIns(d string, t string, v string) {edited(d, t, v), insAt(d, t, v)} : insAt(d, t, v) ==> edited(d, t, v)
lemma [C03] edTag(d string, t string, v string) {edited(d, t, v), tagAt(d, t)} : tagAt(d, t) ==> edited(d, t, v)
lemma [C03] edBoth(d string, m string, t string, v string) {edited(d, t, v), insAt(d, m, ""), tagAt(m, t)} : insAt(d, m, "") && tagAt(m, t) ==> edited(d, t, v)
lemma [C03] edMid(d string, m string, v string) {edited(d, m, v), insAt(d, m, "")} : insAt(d, m, "") ==> edited(d, m, v)
rec removed(d string, t string) bool == t == d || tagAt(d, t) || delAt(d, t)
lemma [C03] rmSame(d string) {removed(d, d)} : removed(d, d)
lemma [C03] rmTag(d string, t string) {removed(d, t), tagAt(d, t)} : tagAt(d, t) ==> removed(d, t)
lemma [C03] rmDel(d string, t string) {removed(d, t), delAt(d, t)} : delAt(d, t) ==> removed(d, t)

contract SetBytesWithOptions
  ensures [C03] result1 == nil && (opts == nil || opts.Indent == "") && xml != nil && value != nil ==> nu(edited(str(xml), str(result0), valText(value)))
contract DeleteBytesWithOptions
  ensures [C03] result1 == nil ==> nu(removed(str(xml), str(result0)))
contract SetBytes
  ensures [C03] result1 == nil && xml != nil && value != nil ==> nu(edited(str(xml), str(result0), valText(value)))
contract DeleteBytes
  ensures [C03] result1 == nil ==> nu(removed(str(xml), str(result0)))
contract SetWithOptions
  ensures [C03] result1 == nil && (opts == nil || opts.Indent == "") && value != nil ==> nu(edited(xml, result0, valText(value)))
contract Set
  ensures [C03] result1 == nil && value != nil ==> nu(edited(xml, result0, valText(value)))
contract Delete
  ensures [C03] result1 == nil ==> nu(removed(xml, result0))
