// C04: the validator accepts exactly the documented language.
prop C04 uses=IDX funcs=Valid;ValidBytes;ValidateWithError;ValidateBytesWithError;newValidatingParser;isWhitespace;validateName;(*validatingParser).advance;(*validatingParser).peekChar;(*validatingParser).skipWhitespaceTracked;(*validatingParser).readNameTracked;(*validatingParser).skipUntilTracked;(*validatingParser).skipComment;(*validatingParser).skipCDATA;(*validatingParser).skipDOCTYPE;(*validatingParser).parseAttributesValidating;(*validatingParser).parseOpeningTag;(*validatingParser).parseClosingTag;(*validatingParser).parseTag;(*validatingParser).validate

macro ws(c byte) bool == c == 32 || c == 9 || c == 10 || c == 13
macro nmStart(c byte) bool == (97 <= c && c <= 122) || (65 <= c && c <= 90) || c == 95 || c == 58
macro nmChar(c byte) bool == nmStart(c) || (48 <= c && c <= 57) || c == 46 || c == 45

// end of a run of white space, of name characters; first c at or after i (or -1)
rec wsEnd(d string, i int) int == i >= len(d) || !ws(d[i]) ? i : wsEnd(d, i+1)
rec nmEnd(d string, i int) int == i >= len(d) || !nmChar(d[i]) ? i : nmEnd(d, i+1)
rec findB(d string, i int, c byte) int == i >= len(d) ? -1 : (d[i] == c ? i : findB(d, i+1, c))
// end of a token closed by c (or -1): tokens are limited to MaxTokenSize
spec tokEnd(d string, i int, c byte) int == findB(d, i, c) >= 0 && findB(d, i, c) - i <= MaxTokenSize ? findB(d, i, c) + 1 : -1
// end of a comment whose text starts at i: the first "--" must be part of "-->"
rec cmtEnd(d string, i int) int == i + 2 >= len(d) ? -1 : (d[i] == 45 && d[i+1] == 45 ? (d[i+2] == 62 ? i + 3 : -1) : cmtEnd(d, i+1))
rec cdEnd(d string, i int) int == i + 2 >= len(d) ? -1 : (d[i] == 93 && d[i+1] == 93 && d[i+2] == 62 ? i + 3 : cdEnd(d, i+1))
// end of a document type declaration with n brackets open
rec dtEnd(d string, i int, n int) int == i >= len(d) ? -1 : (d[i] == 91 ? dtEnd(d, i+1, n+1) : (d[i] == 93 ? dtEnd(d, i+1, n-1) : (d[i] == 62 && n == 0 ? i + 1 : dtEnd(d, i+1, n))))
// a name [i, e): a name start character followed by name characters
macro nmOK(d string, i int, e int) bool == i < e && e - i <= MaxTokenSize && nmStart(d[i])
// the attributes of a tag from i on, n of them already read: the offset of the '>' or '/' after them, or -1
rec attEnd(d string, i int, n int) int == nu(let j := wsEnd(d, i) in (j >= len(d) ? -1 : (d[j] == 62 || d[j] == 47 ? j : (n >= MaxAttributes ? -1 : (let e := nmEnd(d, j) in (!nmOK(d, j, e) ? -1 : (let k := wsEnd(d, e) in (k >= len(d) || d[k] != 61 ? -1 : (let v := wsEnd(d, k+1) in (v >= len(d) || !(d[v] == 34 || d[v] == 39) ? -1 : (let f := tokEnd(d, v+1, d[v]) in (f < 0 ? -1 : attEnd(d, f, n+1)))))))))))))

macro is(d string, i int, s string) bool == i + len(s) <= len(d) && d[i:i+len(s)] == s
spec foldDoctype(s string) bool == len(s) == 7 && (s[0] == 68 || s[0] == 100) && (s[1] == 79 || s[1] == 111) && (s[2] == 67 || s[2] == 99) && (s[3] == 84 || s[3] == 116) && (s[4] == 89 || s[4] == 121) && (s[5] == 80 || s[5] == 112) && (s[6] == 69 || s[6] == 101)
extern strings.EqualFold
  ensures [C04] t == "DOCTYPE" ==> (result <==> foldDoctype(s))

// the document from i on is acceptable when the elements s are open and f says whether a root element has been seen
rec docOK(d string, i int, s Seq[string], f bool) bool == nu(let j := wsEnd(d, i) in (j >= len(d) ? (f && len(s) == 0) : (d[j] != 60 ? (len(s) > 0 && docOK(d, j+1, s, f)) : tagOK(d, j+1, s, f))))
// markup whose '<' is at i-1
rec tagOK(d string, i int, s Seq[string], f bool) bool == nu(i < len(d) && (d[i] == 63 ? andThen(d, tokEnd(d, i+1, 62), s, f) : (d[i] == 33 ? declOK(d, i+1, s, f) : (d[i] == 47 ? closeOK(d, i+1, s, f) : openOK(d, i, s, f)))))
macro andThen(d string, e int, s Seq[string], f bool) bool == e >= 0 && docOK(d, e, s, f)
macro declOK(d string, i int, s Seq[string], f bool) bool == i + 7 <= len(d) && foldDoctype(d[i:i+7]) ? andThen(d, dtEnd(d, i, 0), s, f) : (i + 1 < len(d) && d[i] == 45 && d[i+1] == 45 ? andThen(d, cmtEnd(d, i+2), s, f) : (i + 7 <= len(d) && d[i:i+7] == "[CDATA[" ? (len(s) > 0 && andThen(d, cdEnd(d, i+7), s, f)) : andThen(d, tokEnd(d, i, 62), s, f)))
rec closeOK(d string, i int, s Seq[string], f bool) bool == nu(let e := nmEnd(d, i) in (e > i && e - i <= MaxTokenSize && (let k := wsEnd(d, e) in (k < len(d) && d[k] == 62 && len(s) > 0 && s[len(s)-1] == d[i:e] && docOK(d, k+1, s[:len(s)-1], f)))))
rec openOK(d string, i int, s Seq[string], f bool) bool == nu(let e := nmEnd(d, i) in (nmOK(d, i, e) && len(s) < MaxNestingDepth && (let a := attEnd(d, e, 0) in (a >= 0 && (d[a] == 62 ? docOK(d, a+1, s + unit(d[i:e]), true) : (a + 1 < len(d) && d[a+1] == 62 && docOK(d, a+2, s, true)))))))
spec wf(d string) bool == 0 < len(d) && len(d) <= MaxDocumentSize && docOK(d, 0, emptyseq(string), false)

rec namesOf(s Seq[tagInfo], n int) Seq[string] == n <= 0 ? emptyseq(string) : namesOf(s, n-1) + unit(s[n-1].name)
lemma [C04] namesLen(s Seq[tagInfo], n int) {namesOf(s, n)} induct(n) : n >= 0 ==> len(namesOf(s, n)) == n
lemma [C04] namesCong(s Seq[tagInfo], t Seq[tagInfo], n int) {namesOf(s, n), namesOf(t, n)} induct(n) : (forall k int :: {s[k]} {t[k]} 0 <= k && k < n ==> s[k].name == t[k].name) ==> namesOf(s, n) == namesOf(t, n)
lemma [C04] findMono(d string, i int, c byte) {findB(d, i, c)} induct(len(d) - i) : i >= 0 ==> findB(d, i, c) == -1 || (findB(d, i, c) >= i && findB(d, i, c) < len(d))
macro open(p *validatingParser) Seq[string] == un(namesOf(seq(p.tagStack), len(p.tagStack)))
macro here(p *validatingParser) bool == docOK(str(p.data), p.pos, open(p), p.rootFound)
macro inRoot(p *validatingParser) bool == (len(p.tagStack) > 0 <==> p.rootFound && !p.rootClosed) && (p.rootClosed ==> p.rootFound)
lemma [C04] wsMono(d string, i int) {wsEnd(d, i)} induct(len(d) - i) : i >= 0 && i <= len(d) ==> i <= wsEnd(d, i) && wsEnd(d, i) <= len(d)
lemma [C04] wsStop(d string, i int) {wsEnd(d, i)} : i >= len(d) || !ws(d[i]) ==> wsEnd(d, i) == i
lemma [C04] wsNot(d string, i int) {wsEnd(d, i)} induct(len(d) - i) : i >= 0 && wsEnd(d, i) < len(d) ==> !ws(d[wsEnd(d, i)])
lemma [C04] nmMono(d string, i int) {nmEnd(d, i)} induct(len(d) - i) : i >= 0 && i <= len(d) ==> i <= nmEnd(d, i) && nmEnd(d, i) <= len(d)
lemma [C04] nmAll(d string, i int, k int) {nmEnd(d, i), d[k]} induct(len(d) - i) : i >= 0 && i <= k && k < nmEnd(d, i) ==> nmChar(d[k])

typeinv [C04] p *validatingParser : inRoot(p)
contract isWhitespace
  ensures [C04] result <==> ws(b)
contract validateName
  invariant [C04] for n int :: forall k int :: {name[k]} 1 <= k && k < n ==> nmChar(name[k])
  ensures [C04] result == nil <==> (len(name) > 0 && nmStart(name[0]) && (forall k int :: {name[k]} 1 <= k && k < len(name) ==> nmChar(name[k])))
contract newValidatingParser
  ensures [C04] result.data == data && result.pos == 0 && len(result.tagStack) == 0 && !result.rootFound && !result.rootClosed
contract (*validatingParser).skipWhitespaceTracked
  invariant [C04] wsEnd(str(p.data), p.pos) == wsEnd(str(p.data), old(p.pos))
  ensures [C04] nu(p.pos == wsEnd(str(p.data), old(p.pos)))
contract (*validatingParser).readNameTracked
  invariant [C04] nmEnd(str(p.data), p.pos) == nmEnd(str(p.data), old(p.pos))
  ensures [C04] nu(let e := nmEnd(str(p.data), old(p.pos)) in e - old(p.pos) <= MaxTokenSize ==> p.pos == e && result == str(p.data)[old(p.pos):e])
  ensures [C04] nu(let e := nmEnd(str(p.data), old(p.pos)) in e - old(p.pos) > MaxTokenSize ==> result == "" || p.pos == len(p.data))
contract (*validatingParser).skipUntilTracked
  invariant [C04] findB(str(p.data), p.pos, delim) == findB(str(p.data), old(p.pos), delim) && p.pos - old(p.pos) <= MaxTokenSize + 1
  ensures [C04] nu(result == nil <==> tokEnd(str(p.data), old(p.pos), delim) >= 0)
  ensures [C04] nu(result == nil ==> p.pos == tokEnd(str(p.data), old(p.pos), delim))
contract (*validatingParser).skipComment
  invariant [C04] cmtEnd(str(p.data), p.pos) == cmtEnd(str(p.data), old(p.pos))
  ensures [C04] nu(result == nil <==> cmtEnd(str(p.data), old(p.pos)) >= 0)
  ensures [C04] nu(result == nil ==> p.pos == cmtEnd(str(p.data), old(p.pos)))
contract (*validatingParser).skipCDATA
  invariant [C04] cdEnd(str(p.data), p.pos) == cdEnd(str(p.data), old(p.pos))
  ensures [C04] nu(result == nil <==> cdEnd(str(p.data), old(p.pos)) >= 0)
  ensures [C04] nu(result == nil ==> p.pos == cdEnd(str(p.data), old(p.pos)))
contract (*validatingParser).skipDOCTYPE
  invariant [C04] for n int :: dtEnd(str(p.data), p.pos, n) == dtEnd(str(p.data), old(p.pos), 0)
  ensures [C04] nu(result == nil <==> dtEnd(str(p.data), old(p.pos), 0) >= 0)
  ensures [C04] nu(result == nil ==> p.pos == dtEnd(str(p.data), old(p.pos), 0))
contract (*validatingParser).parseAttributesValidating
  invariant [C04] for n int :: attEnd(str(p.data), p.pos, n) == attEnd(str(p.data), old(p.pos), 0)
  ensures [C04] nu(result == nil <==> attEnd(str(p.data), old(p.pos), 0) >= 0)
  ensures [C04] nu(result == nil ==> p.pos == attEnd(str(p.data), old(p.pos), 0) && p.pos < len(p.data) && (p.data[p.pos] == 62 || p.data[p.pos] == 47))
contract (*validatingParser).parseOpeningTag
  requires [C04] inRoot(p)
  ensures [C04] inRoot(p)
  ensures [C04] result == nil ==> (here(p) <==> old(openOK(str(p.data), p.pos, open(p), p.rootFound)))
  ensures [C04] result != nil ==> old(!openOK(str(p.data), p.pos, open(p), p.rootFound))
contract (*validatingParser).parseClosingTag
  requires [C04] inRoot(p)
  ensures [C04] inRoot(p)
  ensures [C04] result == nil ==> (here(p) <==> old(closeOK(str(p.data), p.pos, open(p), p.rootFound)))
  ensures [C04] result != nil ==> old(!closeOK(str(p.data), p.pos, open(p), p.rootFound))
contract (*validatingParser).parseTag
  invariant [C04] p.pos == atloop(p.pos) + iter
  requires [C04] inRoot(p)
  ensures [C04] inRoot(p)
  ensures [C04] result == nil ==> (here(p) <==> old(tagOK(str(p.data), p.pos + 1, open(p), p.rootFound)))
  ensures [C04] result != nil ==> old(!tagOK(str(p.data), p.pos + 1, open(p), p.rootFound))
contract (*validatingParser).validate
  invariant [C04] here(p) <==> old(here(p))
  requires [C04] inRoot(p)
  ensures [C04,VERD] nu(result == nil <==> old(0 < len(p.data) && len(p.data) <= MaxDocumentSize && here(p)))
contract Valid
  ensures [C04] result <==> wf(xml)
contract ValidBytes
  ensures [C04] result <==> wf(str(xml))
contract ValidateWithError
  ensures [C04] result == nil <==> wf(xml)
contract ValidateBytesWithError
  ensures [C04] result == nil <==> wf(str(xml))
