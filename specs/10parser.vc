// Representation invariant of the scanner.
macro okp(p *xmlParser) bool == p != nil && p.dataLen == len(p.data) && 0 <= p.pos && p.pos <= p.dataLen

typeinv p *xmlParser : okp(p)
typeinv p *xmlParser : p.pos >= atloop(p.pos)
typevariant p *xmlParser : p.dataLen - p.pos

contract newXMLParser
  ensures result != nil && okp(result) && fresh(result)
  ensures result.data == data && result.pos == 0 && result.depth == 0 && result.filterDepth == 0

contract (*xmlParser).skipWhitespace
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)

contract (*xmlParser).peek
  requires okp(p)
  ensures result == (p.pos < p.dataLen ? p.data[p.pos] : 0)

contract (*xmlParser).next
  requires okp(p)
  modifies p.pos
  ensures okp(p)
  ensures p.pos == (old(p.pos) < p.dataLen ? old(p.pos) + 1 : old(p.pos))
  ensures result == (old(p.pos) < p.dataLen ? p.data[old(p.pos)] : 0)

contract (*xmlParser).readUntil
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures len(result) <= p.pos - old(p.pos)

contract (*xmlParser).readUntilAny
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures len(result) <= p.pos - old(p.pos)

contract (*xmlParser).parseAttributes
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures result != nil && fresh(result)

contract (*xmlParser).parseAttributeValues
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures result != nil && fresh(result)

contract (*xmlParser).parseElementName
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures result1 != nil && fresh(result1)
  ensures len(result0) <= p.pos - old(p.pos)
  ensures result2 ==> p.pos > old(p.pos)

contract (*xmlParser).parseElementContent
  requires okp(p)
  modifies p.pos, p.depth, p.contentEnd
  ensures okp(p) && p.pos >= old(p.pos)
  ensures p.depth == old(p.depth)
  ensures old(p.pos) <= p.contentEnd && p.contentEnd <= p.pos
  ensures len(result) <= p.contentEnd - old(p.pos)

contract (*xmlParser).skipToNextElement
  requires okp(p)
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos)
  ensures result ==> p.pos + 1 < p.dataLen && p.data[p.pos] == '<'

contract (*xmlParser).skipSpecial
  requires okp(p)
  requires p.pos + 1 < p.dataLen
  modifies p.pos
  ensures okp(p) && p.pos > old(p.pos)

contract (*xmlParser).skipPast
  requires okp(p)
  requires 0 <= offset && p.pos + offset <= p.dataLen
  modifies p.pos
  ensures okp(p) && p.pos >= old(p.pos) + offset

contract extractTextContent
contract extractDirectTextOnly
contract escapeXML
contract unescapeXML
