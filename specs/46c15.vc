// C15: SetRaw inserts only well-formed content, byte for byte.
prop C15 uses==C03,=C04,=VTX,=PEC kinds=none funcs=validateRawXML;SetRaw;Set;SetBytes;SetWithOptions;SetBytesWithOptions;(*xmlBuilder).setElement;valueToXML
bounded C15 that no accepted fragment holds a declaration, and that the wrapped text being well-formed with the fragment as the scanner's content makes the fragment well-formed content
assume C15 valText(value) names the text valueToXML gives for a value (clause tagged VTX); C03's clauses, proved by its check, say where that text goes, C04's that ValidBytes decides wf
assume C15 inside(d, name) names what the scanner reads as the content of the first element of d (clause tagged PEC)

uninterp inside(d string, i int, n string) string
contract (*xmlParser).parseElementContent
  ensures [PEC] old(p.depth) == 0 ==> result == inside(str(p.data), old(p.pos), elementName)
macro wrap(s string) string == "<raw>" + s + "</raw>"
contract validateRawXML
  ensures [C15] result == nil ==> wf(wrap(rawxml)) && inside(wrap(rawxml), 5, "raw") == rawxml
  ensures [C15] result != nil ==> errIs(result, ErrInvalidValue)
contract SetRaw
  ensures [C15] result1 == nil ==> wf(wrap(rawxml)) && inside(wrap(rawxml), 5, "raw") == rawxml && nu(edited(xml, result0, rawxml))
  ensures [C15] !wf(wrap(rawxml)) || inside(wrap(rawxml), 5, "raw") != rawxml ==> result0 == xml && errIs(result1, ErrInvalidValue)
contract valueToXML
  ensures [C15] isType(value, "[]byte") ==> result2 == nil && result0 == str(unbox(value, "[]byte"))
contract (*xmlBuilder).setElement
  ensures [C15] result == nil && isType(value, "[]byte") ==> valText(value) == str(unbox(value, "[]byte"))
contract SetBytesWithOptions
  ensures [C15] result1 == nil && (opts == nil || opts.Indent == "") && isType(value, "[]byte") ==> nu(edited(str(xml), str(result0), str(unbox(value, "[]byte"))))
contract SetBytes
  ensures [C15] result1 == nil && isType(value, "[]byte") ==> nu(edited(str(xml), str(result0), str(unbox(value, "[]byte"))))
contract SetWithOptions
  ensures [C15] result1 == nil && (opts == nil || opts.Indent == "") && isType(value, "[]byte") ==> nu(edited(xml, result0, str(unbox(value, "[]byte"))))
contract Set
  ensures [C15] result1 == nil && isType(value, "[]byte") ==> nu(edited(xml, result0, str(unbox(value, "[]byte"))))
