macro okb(b *xmlBuilder) bool == b != nil && b.opts != nil
macro okloc(b *xmlBuilder, l *elementLocation) bool == l != nil && 0 <= l.startPos && l.startPos + 1 + len(l.elementName) <= l.contentStart && l.contentStart <= l.contentEnd && l.contentEnd <= l.endPos && l.endPos <= len(b.data) && l.attrs != nil && (l.isSelfClosing ==> l.contentStart >= 2)

contract newXMLBuilder
  ensures okb(result) && fresh(result) && result.data == data
contract newXMLBuilderWithOptions
  ensures okb(result) && fresh(result) && result.data == data
contract valueToXML
contract validateRawXML
contract (*xmlBuilder).setElement
  invariant needsCopy ==> len(pathCopy) == len(path)
  requires okb(b)
  modifies b.data, b.pos, text(b.result)
  ensures okb(b)
contract (*xmlBuilder).findElementLocation
  requires okb(b) && okp(parser) && segIndex >= 0 && baseOffset >= 0
  requires baseOffset + len(parser.data) <= len(b.data)
  modifies parser.pos, parser.depth, parser.contentEnd
  ensures result1 ==> okloc(b, result0) && segIndex < len(segments)
  decreases len(parser.data)
contract (*xmlBuilder).replaceElement
  requires okb(b) && okloc(b, location)
  modifies text(b.result)
contract (*xmlBuilder).replaceAttribute
  requires okb(b) && okloc(b, location)
  modifies text(b.result)
contract (*xmlBuilder).deleteAttribute
  requires okb(b) && okloc(b, location)
  modifies text(b.result)
contract (*xmlBuilder).createElement
  requires okb(b)
  modifies text(b.result)
contract (*xmlBuilder).createInRoot
  requires okb(b)
  modifies text(b.result)
contract (*xmlBuilder).shouldCreateSiblingRoot
  requires okb(b)
contract (*xmlBuilder).createSiblingRoot
  requires okb(b)
  modifies text(b.result)
contract checkCreatable
contract (*xmlBuilder).createInParent
  requires okb(b) && okloc(b, parentLocation)
  modifies text(b.result)
contract (*xmlBuilder).createElementForAttribute
  requires okb(b)
  modifies b.data, b.pos, text(b.result)
  ensures okb(b)
contract (*xmlBuilder).appendElement
  requires okb(b)
  modifies text(b.result)
contract (*xmlBuilder).appendRootElement
  invariant 0 <= insertPos && insertPos <= len(b.data)
  requires okb(b)
  modifies text(b.result)
contract (*xmlBuilder).findLastMatchPosition
  invariant parent.contentStart <= lastMatchEnd && lastMatchEnd <= parent.contentEnd
  requires okb(b) && okloc(b, parent)
  ensures parent.contentStart <= result && result <= parent.contentEnd
contract (*xmlBuilder).buildElementPathWithDepth
  requires okb(b)
  modifies text(b.result)
contract (*xmlBuilder).deleteElement
  requires okb(b)
  modifies b.data, text(b.result)
contract (*xmlBuilder).getResult
  requires okb(b)
contract Set
contract SetBytes
contract SetRaw
contract SetMany
contract SetManyBytes
contract Delete
contract DeleteBytes
contract DeleteMany
contract DeleteManyBytes
contract SetWithOptions
contract SetBytesWithOptions
contract DeleteBytesWithOptions
