// C06: the five markup characters are written as the predefined entities and read back once.
prop C06 uses==C03,=VTX kinds=none funcs=*
assume C06 valText(value) names the text valueToXML gives for a value (clause tagged VTX); C03's clauses, proved by its check, say where that text goes; trim(s) is what strings.TrimSpace gives
assume C06 strings.NewReplacer replaces at each position the first listed old string that matches, from left to right and without rescanning its output (its documentation)
bounded C06 that attribute values written are the escaped string, and that every reading path applies the decoding once: random strings of markup characters, entities and fragments of up to 10 pieces, written to 11 places and read back over 25 paths

scanspec [C06] esc unesc

rec esc(s string, i int) string ==
    i < 0 || i >= len(s) ? "" :
    s[i] == '&' ? "&amp;" + esc(s, i + 1) :
    s[i] == '<' ? "&lt;" + esc(s, i + 1) :
    s[i] == '>' ? "&gt;" + esc(s, i + 1) :
    s[i] == '"' ? "&quot;" + esc(s, i + 1) :
    s[i] == 39 ? "&apos;" + esc(s, i + 1) :
    s[i:i+1] + esc(s, i + 1)

spec isLt(s string, i int) bool == i + 4 <= len(s) && s[i] == '&' && s[i+1] == 'l' && s[i+2] == 't' && s[i+3] == ';'
spec isGt(s string, i int) bool == i + 4 <= len(s) && s[i] == '&' && s[i+1] == 'g' && s[i+2] == 't' && s[i+3] == ';'
spec isAmp(s string, i int) bool == i + 5 <= len(s) && s[i] == '&' && s[i+1] == 'a' && s[i+2] == 'm' && s[i+3] == 'p' && s[i+4] == ';'
spec isQuot(s string, i int) bool == i + 6 <= len(s) && s[i] == '&' && s[i+1] == 'q' && s[i+2] == 'u' && s[i+3] == 'o' && s[i+4] == 't' && s[i+5] == ';'
spec isApos(s string, i int) bool == i + 6 <= len(s) && s[i] == '&' && s[i+1] == 'a' && s[i+2] == 'p' && s[i+3] == 'o' && s[i+4] == 's' && s[i+5] == ';'
spec isEnt(s string, i int) bool == isLt(s, i) || isGt(s, i) || isAmp(s, i) || isQuot(s, i) || isApos(s, i)

rec unesc(s string, i int) string ==
    i < 0 || i >= len(s) ? "" :
    isLt(s, i) ? "<" + unesc(s, i + 4) :
    isGt(s, i) ? ">" + unesc(s, i + 4) :
    isAmp(s, i) ? "&" + unesc(s, i + 5) :
    isQuot(s, i) ? "\"" + unesc(s, i + 6) :
    isApos(s, i) ? "'" + unesc(s, i + 6) :
    s[i:i+1] + unesc(s, i + 1)

contract escapeXML
    ensures [C06] result == esc(s, 0)
contract unescapeXML
    ensures [C06] result == unesc(s, 0)

// what is read back from an escaped string is the string
lemma [C06] unescShift(a string, b string, k int) {unesc(a + b, k)} induct(len(a) + len(b) - k) manual:
    len(a) <= k ==> unesc(a + b, k) == unesc(b, k - len(a))
lemma [C06] unescEsc(s string, i int) {unesc(esc(s, i), 0)} induct(len(s) - i) manual uses(unescShift) case(0 <= i && i < len(s) && s[i] == '&')
    case(0 <= i && i < len(s) && s[i] == '<') case(0 <= i && i < len(s) && s[i] == '>') case(0 <= i && i < len(s) && s[i] == '"') case(0 <= i && i < len(s) && s[i] == 39):
    0 <= i && i <= len(s) ==> unesc(esc(s, i), 0) == s[i:len(s)]
// an escaped string holds no markup character but the ampersands of the five entities
lemma [C06] escPlain(s string, i int, k int) {esc(s, i)[k]} induct(len(s) - i) manual:
    0 <= i && 0 <= k && k < len(esc(s, i)) ==> esc(s, i)[k] != '<' && esc(s, i)[k] != '>' && esc(s, i)[k] != '"' && esc(s, i)[k] != 39
lemma [C06] entShift(a string, b string, k int) {isEnt(a + b, len(a) + k)} manual : 0 <= k ==> isEnt(a + b, len(a) + k) == isEnt(b, k)
lemma [C06] escAmps(s string, i int, k int) {esc(s, i)[k]} induct(len(s) - i) manual:
    0 <= i && 0 <= k && k < len(esc(s, i)) && esc(s, i)[k] == '&' ==> isEnt(esc(s, i), k)

// the value is what is written, for element text (C03's clauses name the place) and attribute values
contract valueToXML
  ensures [C06] isType(value, string) ==> result2 == nil && !result1 && result0 == nu(esc(unbox(value, string), 0))
contract (*xmlBuilder).setElement
  ensures [C06] result == nil && isType(value, string) ==> valText(value) == nu(esc(unbox(value, string), 0))
contract SetBytesWithOptions
  ensures [C06] result1 == nil && (opts == nil || opts.Indent == "") && isType(value, string) ==> nu(edited(str(xml), str(result0), nu(esc(unbox(value, string), 0))))
contract SetBytes
  ensures [C06] result1 == nil && isType(value, string) ==> nu(edited(str(xml), str(result0), nu(esc(unbox(value, string), 0))))
contract SetWithOptions
  ensures [C06] result1 == nil && (opts == nil || opts.Indent == "") && isType(value, string) ==> nu(edited(xml, result0, nu(esc(unbox(value, string), 0))))
contract Set
  ensures [C06] result1 == nil && isType(value, string) ==> nu(edited(xml, result0, nu(esc(unbox(value, string), 0))))

// reading: markup is dropped, what is left is trimmed
uninterp trim(s string) string
extern strings.TrimSpace
  ensures [C06] result == trim(s)
rec tagAtPos(s string, k int) bool == k > 0 && k <= len(s) && (s[k-1] == '<' || s[k-1] != '>' && tagAtPos(s, k - 1))
rec strip(s string, k int) string == k <= 0 || k > len(s) ? "" :
    s[k-1] == '<' || s[k-1] == '>' || tagAtPos(s, k - 1) ? strip(s, k - 1) : strip(s, k - 1) + s[k-1:k]
contract extractTextContent
  invariant [C06] for i var int, t var bool :: t == tagAtPos(content, i)
  invariant [C06] for i var int :: text(result) == strip(content, i)
  ensures [C06] result == trim(nu(strip(content, len(content))))
lemma [C06] plainTag(s string, k int) {tagAtPos(s, k)} induct(k) manual:
    0 <= k && k <= len(s) && (forall j int :: {s[j]} 0 <= j && j < len(s) ==> s[j] != '<' && s[j] != '>') ==> !tagAtPos(s, k)
lemma [C06] stripPlain(s string, k int) {strip(s, k)} induct(k) manual uses(plainTag) hint(s[0:k-1] + s[k-1:k]):
    0 <= k && k <= len(s) && (forall j int :: {s[j]} 0 <= j && j < len(s) ==> s[j] != '<' && s[j] != '>') ==> strip(s, k) == s[0:k]
lemma [C06] stripEsc(s string) {strip(esc(s, 0), len(esc(s, 0)))} manual uses(escPlain,stripPlain):
    strip(esc(s, 0), len(esc(s, 0))) == esc(s, 0)
