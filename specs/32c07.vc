// C07: SetMany and DeleteMany are their operations in order, or nothing.
prop C07 uses==DET funcs=SetMany;SetManyBytes;DeleteMany;DeleteManyBytes;Set;Delete;SetBytes;DeleteBytes;SetBytesWithOptions;DeleteBytesWithOptions;parsePathWithOptions;newXMLBuilderWithOptions;(*xmlBuilder).getResult
assume C07 parsePath, ValidBytes, setElement and deleteElement are functions of document, path, value and options (clauses tagged DET: pathEmpty, parsedRel, docValid, bSet*, bDel*); their independence of history, cache and map order is what C08 is about

// Determinism of the four workers: what they do depends on their arguments only.
// parsedRel(p, s): s is what parsing p gives. Segments hold pointers, so this is
// a relation on paths and segment lists rather than an equation.
uninterp pathEmpty(p string) bool
uninterp parsedRel(p string, s Seq[PathSegment]) bool
uninterp docValid(d string) bool
uninterp bSetOK(d string, p string, v any) bool
uninterp bSetDoc(d string, p string, v any) string
uninterp bSetErr(d string, p string, v any, t error) bool
uninterp bDelOK(d string, p string) bool
uninterp bDelDoc(d string, p string) string
uninterp bDelErr(d string, p string, t error) bool
macro dflt(o *Options) bool == o == nil || (o.CaseSensitive && o.Indent == "" && !o.PreserveWhitespace && o.Namespaces == nil)
macro built(b *xmlBuilder) string == text(b.result) == "" ? str(b.data) : text(b.result)

contract parsePath
  ensures [DET] pathEmpty(path) <==> len(result) == 0
  ensures [DET] parsedRel(path, seq(result))
contract parsePathWithOptions
  ensures [C07,C18] dflt(opts) ==> (pathEmpty(path) <==> len(result) == 0) && parsedRel(path, seq(result))
contract newXMLBuilderWithOptions
  ensures [C07,C18] dflt(opts) ==> result.opts != nil && dflt(result.opts)
  ensures [C07,C18] text(result.result) == "" && result.pos == 0
contract (*xmlBuilder).getResult
  ensures [C07,C18] result == built(b)
contract (*xmlBuilder).setElement
  ensures [DET] forall p string :: {parsedRel(p, old(seq(path)))} parsedRel(p, old(seq(path))) && old(dflt(b.opts) && text(b.result) == "" && b.pos == 0) ==> (let d := old(str(b.data)) in (result == nil <==> bSetOK(d, p, value)) && (result == nil ==> built(b) == bSetDoc(d, p, value)) && (result != nil ==> (forall t error :: {errIs(result, t)} {bSetErr(d, p, value, t)} errIs(result, t) <==> bSetErr(d, p, value, t))))
contract (*xmlBuilder).deleteElement
  ensures [DET] forall p string :: {parsedRel(p, old(seq(path)))} parsedRel(p, old(seq(path))) && old(dflt(b.opts) && text(b.result) == "" && b.pos == 0) ==> (let d := old(str(b.data)) in (result == nil <==> bDelOK(d, p)) && (result == nil ==> built(b) == bDelDoc(d, p)) && (result != nil ==> (forall t error :: {errIs(result, t)} {bDelErr(d, p, t)} errIs(result, t) <==> bDelErr(d, p, t))))

// what one Set or Delete does, as a function of its arguments
macro delSound(d string) bool == len(d) <= MaxDocumentSize && docValid(d)
macro setSound(d string) bool == len(d) <= MaxDocumentSize && (d == "" || docValid(d))
spec delOK(d string, p string) bool == delSound(d) && !pathEmpty(p) && bDelOK(d, p)
spec delDoc(d string, p string) string == bDelDoc(d, p)
spec delErrIs(d string, p string, t error) bool == !delSound(d) ? errIs(ErrMalformedXML, t) : (pathEmpty(p) ? errIs(ErrInvalidPath, t) : bDelErr(d, p, t))
spec setOK(d string, p string, v any) bool == setSound(d) && (v == nil ? delOK(d, p) : (!pathEmpty(p) && bSetOK(d, p, v)))
spec setDoc(d string, p string, v any) string == v == nil ? delDoc(d, p) : bSetDoc(d, p, v)
spec setErrIs(d string, p string, v any, t error) bool == !setSound(d) ? errIs(ErrMalformedXML, t) : (v == nil ? delErrIs(d, p, t) : (pathEmpty(p) ? errIs(ErrInvalidPath, t) : bSetErr(d, p, v, t)))
// the outcome (r, e) of a Set or Delete of document d
macro isSet(d string, p string, v any, r string, e error) bool == (e == nil <==> setOK(d, p, v)) && (e == nil ==> r == setDoc(d, p, v)) && (e != nil ==> (forall t error :: {errIs(e, t)} {setErrIs(d, p, v, t)} errIs(e, t) <==> setErrIs(d, p, v, t)))
macro isDel(d string, p string, r string, e error) bool == (e == nil <==> delOK(d, p)) && (e == nil ==> r == delDoc(d, p)) && (e != nil ==> (forall t error :: {errIs(e, t)} {delErrIs(d, p, t)} errIs(e, t) <==> delErrIs(d, p, t)))

contract SetBytesWithOptions
  ensures [C07,C18] dflt(opts) && xml != nil ==> isSet(str(xml), path, value, str(result0), result1)
  ensures [C07] result1 == nil ==> result0 != nil
  ensures [C07] len(xml) > MaxDocumentSize ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract DeleteBytesWithOptions
  ensures [C07,C18] dflt(opts) ==> isDel(str(xml), path, str(result0), result1)
  ensures [C07] result1 == nil ==> result0 != nil
  ensures [C07] len(xml) > MaxDocumentSize ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract SetBytes
  ensures [C07,C18] xml != nil ==> isSet(str(xml), path, value, str(result0), result1)
  ensures [C07] result1 == nil ==> result0 != nil
  ensures [C07] len(xml) > MaxDocumentSize ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract DeleteBytes
  ensures [C07,C18] isDel(str(xml), path, str(result0), result1)
  ensures [C07] result1 == nil ==> result0 != nil
  ensures [C07] len(xml) > MaxDocumentSize ==> result1 != nil && errIs(result1, ErrMalformedXML)
contract Set
  ensures [C07,C18] isSet(xml, path, value, result0, result1)
contract Delete
  ensures [C07,C18] isDel(xml, path, result0, result1)

// n operations in order
rec manyDoc(d string, ps Seq[string], vs Seq[any], n int) string == n <= 0 ? d : setDoc(manyDoc(d, ps, vs, n-1), ps[n-1], vs[n-1])
rec manyOK(d string, ps Seq[string], vs Seq[any], n int) bool == n <= 0 ? true : (manyOK(d, ps, vs, n-1) && setOK(manyDoc(d, ps, vs, n-1), ps[n-1], vs[n-1]))
// the position of the first failing step, counted from n
macro stepFails(d string, ps Seq[string], vs Seq[any], k int) bool == 0 <= k && k < len(ps) && manyOK(d, ps, vs, k) && !setOK(manyDoc(d, ps, vs, k), ps[k], vs[k])

contract SetManyBytes
  invariant [C07] for r []byte :: xml != nil ==> r != nil && str(r) == manyDoc(str(xml), seq(paths), seq(values), iter) && manyOK(str(xml), seq(paths), seq(values), iter)
  ensures [C07] len(paths) != len(values) ==> result1 != nil
  ensures [C07] len(paths) == 0 && len(values) == 0 && len(xml) <= MaxDocumentSize ==> result1 == nil && result0 == xml
  ensures [C07] xml != nil && result1 == nil ==> len(paths) == len(values) && manyOK(str(xml), seq(paths), seq(values), len(paths)) && str(result0) == manyDoc(str(xml), seq(paths), seq(values), len(paths))
  ensures [C07] result1 != nil ==> result0 == xml
  ensures [C07] xml != nil && result1 != nil && len(paths) == len(values) && len(xml) <= MaxDocumentSize ==> exists k int :: {manyDoc(str(xml), seq(paths), seq(values), k)} stepFails(str(xml), seq(paths), seq(values), k) && (forall t error :: {setErrIs(manyDoc(str(xml), seq(paths), seq(values), k), seq(paths)[k], seq(values)[k], t)} setErrIs(manyDoc(str(xml), seq(paths), seq(values), k), seq(paths)[k], seq(values)[k], t) ==> errIs(result1, t))
contract SetMany
  ensures [C07] len(paths) != len(values) ==> result1 != nil
  ensures [C07] len(paths) == 0 && len(values) == 0 && len(xml) <= MaxDocumentSize ==> result1 == nil && result0 == xml
  ensures [C07] result1 == nil ==> len(paths) == len(values) && manyOK(xml, seq(paths), seq(values), len(paths)) && result0 == manyDoc(xml, seq(paths), seq(values), len(paths))
  ensures [C07] result1 != nil ==> result0 == xml
  ensures [C07] result1 != nil && len(paths) == len(values) && len(xml) <= MaxDocumentSize ==> exists k int :: {manyDoc(xml, seq(paths), seq(values), k)} stepFails(xml, seq(paths), seq(values), k) && (forall t error :: {setErrIs(manyDoc(xml, seq(paths), seq(values), k), seq(paths)[k], seq(values)[k], t)} setErrIs(manyDoc(xml, seq(paths), seq(values), k), seq(paths)[k], seq(values)[k], t) ==> errIs(result1, t))

// distinct paths in order of first appearance
rec member(ps Seq[string], n int, s string) bool == n <= 0 ? false : (ps[n-1] == s || member(ps, n-1, s))
rec dedup(ps Seq[string], n int) Seq[string] == n <= 0 ? emptyseq(string) : (member(ps, n-1, ps[n-1]) ? dedup(ps, n-1) : dedup(ps, n-1) + unit(ps[n-1]))
rec delMany(d string, ps Seq[string], n int) string == n <= 0 ? d : delDoc(delMany(d, ps, n-1), ps[n-1])
rec delManyOK(d string, ps Seq[string], n int) bool == n <= 0 ? true : (delManyOK(d, ps, n-1) && delOK(delMany(d, ps, n-1), ps[n-1]))

contract DeleteManyBytes
  invariant [C07] for m map[string]bool :: forall s string :: {has(m, s)} (has(m, s) && m[s]) <==> member(seq(paths), iter, s)
  invariant [C07] for u []string :: seq(u) == dedup(seq(paths), iter)
  invariant [C07] for r []byte :: str(r) == delMany(str(xml), dedup(seq(paths), len(paths)), iter) && delManyOK(str(xml), dedup(seq(paths), len(paths)), iter)
  ensures [C07] len(paths) == 0 && len(xml) <= MaxDocumentSize ==> result1 == nil && result0 == xml
  ensures [C07] result1 == nil ==> (let u := dedup(seq(paths), len(paths)) in delManyOK(str(xml), u, len(u)) && str(result0) == delMany(str(xml), u, len(u)))
  ensures [C07] result1 != nil ==> result0 == xml
  ensures [C07] result1 != nil && len(xml) <= MaxDocumentSize ==> exists k int :: {delMany(str(xml), dedup(seq(paths), len(paths)), k)} 0 <= k && k < len(dedup(seq(paths), len(paths))) && delManyOK(str(xml), dedup(seq(paths), len(paths)), k) && !delOK(delMany(str(xml), dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k]) && (forall t error :: {delErrIs(delMany(str(xml), dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k], t)} delErrIs(delMany(str(xml), dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k], t) ==> errIs(result1, t))
contract DeleteMany
  ensures [C07] len(paths) == 0 && len(xml) <= MaxDocumentSize ==> result1 == nil && result0 == xml
  ensures [C07] result1 == nil ==> (let u := dedup(seq(paths), len(paths)) in delManyOK(xml, u, len(u)) && result0 == delMany(xml, u, len(u)))
  ensures [C07] result1 != nil ==> result0 == xml
  ensures [C07] result1 != nil && len(xml) <= MaxDocumentSize ==> exists k int :: {delMany(xml, dedup(seq(paths), len(paths)), k)} 0 <= k && k < len(dedup(seq(paths), len(paths))) && delManyOK(xml, dedup(seq(paths), len(paths)), k) && !delOK(delMany(xml, dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k]) && (forall t error :: {delErrIs(delMany(xml, dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k], t)} delErrIs(delMany(xml, dedup(seq(paths), len(paths)), k), dedup(seq(paths), len(paths))[k], t) ==> errIs(result1, t))
