macro okv(p *validatingParser) bool == p != nil && okp(p.xmlParser) && len(p.tagStack) >= 0
typeinv p *validatingParser : okv(p)
typeinv p *validatingParser : p.pos >= atloop(p.pos)
typeinv p *validatingParser : ref(p.tagStack) == atloop(ref(p.tagStack)) || ref(p.tagStack) >= atloop(alloc())
typevariant p *validatingParser : p.dataLen - p.pos

contract newValidatingParser
  ensures okv(result) && fresh(result) && fresh(result.tagStack)
contract (*validatingParser).advance
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p)
  ensures p.pos == (old(p.pos) < p.dataLen ? old(p.pos) + 1 : old(p.pos))
contract (*validatingParser).peekChar
  requires okv(p)
  ensures result == (p.pos < p.dataLen ? p.data[p.pos] : 0)
contract (*validatingParser).skipWhitespaceTracked
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).readNameTracked
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
  ensures len(result) > 0 ==> p.pos > old(p.pos)
contract (*validatingParser).skipUntilTracked
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).skipComment
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).skipCDATA
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).skipDOCTYPE
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).parseAttributesValidating
  requires okv(p)
  modifies p.pos, p.line, p.column
  ensures okv(p) && p.pos >= old(p.pos)
contract (*validatingParser).parseOpeningTag
  requires okv(p)
  modifies p.pos, p.line, p.column, p.tagStack, p.rootFound, p.rootClosed, elems(p.tagStack)
  ensures okv(p) && p.pos >= old(p.pos)
  ensures ref(p.tagStack) == old(ref(p.tagStack)) || ref(p.tagStack) >= old(alloc())
contract (*validatingParser).parseClosingTag
  requires okv(p)
  modifies p.pos, p.line, p.column, p.tagStack, p.rootFound, p.rootClosed
  ensures okv(p) && p.pos >= old(p.pos)
  ensures ref(p.tagStack) == old(ref(p.tagStack)) || ref(p.tagStack) >= old(alloc())
contract (*validatingParser).parseTag
  requires okv(p)
  requires p.pos < p.dataLen
  modifies p.pos, p.line, p.column, p.tagStack, p.rootFound, p.rootClosed, elems(p.tagStack)
  ensures okv(p) && p.pos > old(p.pos)
  ensures ref(p.tagStack) == old(ref(p.tagStack)) || ref(p.tagStack) >= old(alloc())
contract (*validatingParser).validate
  requires okv(p)
  modifies p.pos, p.line, p.column, p.tagStack, p.rootFound, p.rootClosed, elems(p.tagStack)
  ensures okv(p)
  ensures ref(p.tagStack) == old(ref(p.tagStack)) || ref(p.tagStack) >= old(alloc())
contract validateName
contract Valid
contract ValidBytes
contract ValidateWithError
contract ValidateBytesWithError
contract (*ValidateError).Error
  requires e != nil
