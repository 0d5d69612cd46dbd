// C02: failed edits change nothing, arguments are never written to, errors are one of the sentinels.
prop C02 kinds=frame funcs=*

macro sentinel(e error) bool == errIs(e, ErrInvalidPath) || errIs(e, ErrMalformedXML) || errIs(e, ErrInvalidValue)

contract valueToXML
  ensures [C02] result2 != nil ==> sentinel(result2)
contract validateRawXML
  ensures [C02] result != nil ==> sentinel(result)
contract resolveIndexIntent
  ensures [C02] result1 != nil && seg.Type == SegmentIndex ==> sentinel(result1)
contract checkCreatable
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).setElement
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).deleteElement
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).replaceElement
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).replaceAttribute
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).deleteAttribute
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).createElement
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).createInRoot
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).createSiblingRoot
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).createInParent
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).createElementForAttribute
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).appendElement
  ensures [C02] result != nil ==> sentinel(result)
contract (*xmlBuilder).appendRootElement
  ensures [C02] result != nil ==> sentinel(result)

contract Set
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract SetRaw
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract SetMany
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract Delete
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract DeleteMany
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract SetWithOptions
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
contract SetBytes
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0)
contract SetManyBytes
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0) || ref(result0) == ref(xml)
contract DeleteBytes
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0)
contract DeleteManyBytes
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0) || ref(result0) == ref(xml)
contract SetBytesWithOptions
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0)
contract DeleteBytesWithOptions
  ensures [C02] result1 != nil ==> result0 == xml && sentinel(result1)
  ensures [C02] result1 == nil ==> fresh(result0)
