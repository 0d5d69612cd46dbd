// Library functions used by the code, as specified by the Go standard library documentation (trusted).
extern strings.HasPrefix
  ensures result == hasPrefix(s, prefix)
extern strings.HasSuffix
  ensures result == hasSuffix(s, suffix)
extern strings.Index
  ensures -1 <= result && (result >= 0 ==> result + len(substr) <= len(s))
  ensures [IDX] result >= 0 ==> occursAt(s, substr, result) && (forall k int :: {occursAt(s, substr, k)} 0 <= k && k < result ==> !occursAt(s, substr, k))
  ensures [IDX] result < 0 ==> (forall k int :: {occursAt(s, substr, k)} 0 <= k && k + len(substr) <= len(s) ==> !occursAt(s, substr, k))
extern strings.IndexByte
  ensures -1 <= result && result < len(s)
  ensures result >= 0 ==> s[result] == c
  ensures result >= 0 ==> (forall k int :: {s[k]} 0 <= k && k < result ==> s[k] != c)
  ensures result < 0 ==> (forall k int :: {s[k]} 0 <= k && k < len(s) ==> s[k] != c)
extern strings.IndexAny
  ensures -1 <= result && result < len(s)
extern strings.LastIndex
  ensures -1 <= result && (result >= 0 ==> result + len(substr) <= len(s))
extern strings.Contains
  ensures len(substr) == 0 ==> result
extern strings.TrimSpace
  ensures len(result) <= len(s)
extern strings.ToLower
extern strings.EqualFold
extern strings.Split
  ensures len(result) >= 1 || len(sep) == 0
  ensures fresh(result)
extern bytes.HasPrefix
  ensures result == hasPrefix(str(s), str(prefix))
extern bytes.Index
  ensures -1 <= result && (result >= 0 ==> result + len(sep) <= len(s))
  ensures [IDX] result >= 0 ==> occursAt(str(s), str(sep), result) && (forall k int :: {occursAt(str(s), str(sep), k)} 0 <= k && k < result ==> !occursAt(str(s), str(sep), k))
  ensures [IDX] result < 0 ==> (forall k int :: {occursAt(str(s), str(sep), k)} 0 <= k && k + len(sep) <= len(s) ==> !occursAt(str(s), str(sep), k))
extern strconv.Itoa

spec hasPrefix(s string, p string) bool == len(p) <= len(s) && s[:len(p)] == p
spec hasSuffix(s string, p string) bool == len(p) <= len(s) && s[len(s)-len(p):] == p
spec occursAt(s string, p string, k int) bool == 0 <= k && k + len(p) <= len(s) && s[k:k+len(p)] == p

const ErrInvalidPath
const ErrMalformedXML
const ErrInvalidValue
const xmlEscaper
const xmlUnescaper

prop C01 kinds=base,bounds,slice,nil,assert,div,make,panic,mapnil,term,rec funcs=*

assume * int, int64 and lengths are mathematical integers: no length or position reaches 2^63
assume * memory allocation succeeds and the goroutine stack is large enough for the bounded recursion depth
assume C01 code supplied by the caller (registered modifiers, iterator callbacks) returns normally and does not modify library memory
assume C01 a Result passed back to the library is a finite tree, as every Result produced by the library is
