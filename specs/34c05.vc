// C05: validation entry points agree, and errors point at a real position.
prop C05 uses==VERD funcs=Valid;ValidBytes;ValidateWithError;ValidateBytesWithError;newValidatingParser;(*validatingParser).advance;(*validatingParser).peekChar;(*validatingParser).skipWhitespaceTracked;(*validatingParser).readNameTracked;(*validatingParser).skipUntilTracked;(*validatingParser).skipComment;(*validatingParser).skipCDATA;(*validatingParser).skipDOCTYPE;(*validatingParser).parseAttributesValidating;(*validatingParser).parseOpeningTag;(*validatingParser).parseClosingTag;(*validatingParser).parseTag;(*validatingParser).validate

// the position of offset k: newlines before it, bytes since the last one
rec lineAt(d string, k int) int == k <= 0 ? 1 : (d[k-1] == 10 ? lineAt(d, k-1) + 1 : lineAt(d, k-1))
rec colAt(d string, k int) int == k <= 0 ? 0 : (d[k-1] == 10 ? 0 : colAt(d, k-1) + 1)
rec realPos(d string, l int, c int) bool == exists k int :: {lineAt(d, k)} {colAt(d, k)} 0 <= k && k <= len(d) && lineAt(d, k) == l && colAt(d, k) == c
lemma [C05] start(d string) {realPos(d, 1, 0)} hint(lineAt(d, 0)) hint(colAt(d, 0)) : realPos(d, 1, 0)
macro posOK(p *validatingParser) bool == p.line == lineAt(str(p.data), p.pos) && p.column == colAt(str(p.data), p.pos)
macro stackOK(p *validatingParser) bool == forall k int :: {p.tagStack[k]} 0 <= k && k < len(p.tagStack) ==> realPos(str(p.data), p.tagStack[k].line, p.tagStack[k].column)
macro errOK(p *validatingParser, e *ValidateError) bool == e != nil ==> realPos(str(p.data), e.Line, e.Column)

typeinv [C05] p *validatingParser : posOK(p)
typeinv [C05] p *validatingParser : stackOK(p)

contract newValidatingParser
  ensures [C05] result.data == data && result.pos == 0 && posOK(result) && len(result.tagStack) == 0 && !result.rootFound && !result.rootClosed
contract (*validatingParser).advance
  requires [C05] posOK(p)
  ensures [C05] posOK(p)
contract (*validatingParser).skipWhitespaceTracked
  requires [C05] posOK(p)
  ensures [C05] posOK(p)
contract (*validatingParser).readNameTracked
  requires [C05] posOK(p)
  ensures [C05] posOK(p)
contract (*validatingParser).skipUntilTracked
  requires [C05] posOK(p)
  ensures [C05] posOK(p) && errOK(p, result)
contract (*validatingParser).skipComment
  requires [C05] posOK(p)
  ensures [C05] posOK(p) && errOK(p, result)
contract (*validatingParser).skipCDATA
  requires [C05] posOK(p)
  ensures [C05] posOK(p) && errOK(p, result)
contract (*validatingParser).skipDOCTYPE
  requires [C05] posOK(p)
  ensures [C05] posOK(p) && errOK(p, result)
contract (*validatingParser).parseAttributesValidating
  requires [C05] posOK(p)
  ensures [C05] posOK(p) && errOK(p, result)
contract (*validatingParser).parseOpeningTag
  requires [C05] posOK(p) && stackOK(p) && realPos(str(p.data), tagLine, tagColumn)
  ensures [C05] posOK(p) && stackOK(p) && errOK(p, result)
contract (*validatingParser).parseClosingTag
  requires [C05] posOK(p) && stackOK(p) && realPos(str(p.data), tagLine, tagColumn)
  ensures [C05] posOK(p) && stackOK(p) && errOK(p, result)
contract (*validatingParser).parseTag
  requires [C05] posOK(p) && stackOK(p)
  ensures [C05] posOK(p) && stackOK(p) && errOK(p, result)
contract (*validatingParser).validate
  requires [C05] posOK(p) && stackOK(p)
  ensures [C05] errOK(p, result)
// the verdict is wf, the language of C04
contract Valid
  ensures [C05] result <==> nu(wf(xml))
contract ValidBytes
  ensures [C05] result <==> nu(wf(str(xml)))
  ensures [DET] result <==> docValid(str(xml))
contract ValidateWithError
  ensures [C05] result == nil <==> nu(wf(xml))
  ensures [C05] result != nil ==> realPos(xml, result.Line, result.Column)
contract ValidateBytesWithError
  ensures [C05] result == nil <==> nu(wf(str(xml)))
  ensures [C05] result != nil ==> realPos(str(xml), result.Line, result.Column)
