contract parsePath
  ensures [C02,C08,C09] fresh(result)
contract parsePathInternal
  ensures [C02,C08,C09] fresh(result)
contract parsePathWithOptions
  ensures [C02,C08,C09] fresh(result)
contract splitPath
  ensures fresh(result)
  ensures path != "" ==> len(result) >= 1
contract isNumeric
contract isValidFieldName
  ensures result ==> len(fieldName) > 0
contract isValidIdentifier
contract (PathSegment).matches
contract (PathSegment).matchesWithOptions
contract toLowerASCII
  ensures len(result) == len(s)
contract splitNamespace
contract resolveIndexIntent
contract parseModifiers
  ensures fresh(modifiers)
contract parseFilterCondition
contract parseFilter
contract isNumericValue
contract isBuiltinModifier
contract applyModifiers
contract GetModifier
contract RegisterModifier
contract UnregisterModifier
contract pattern.Match
  invariant len(p) == len(escapes)
  invariant forall k int :: {dp[k]} 0 <= k && k < iter ==> len(dp[k]) == pLen + 1 && ref(dp[k]) >= old(alloc())
  invariant forall k int :: {dp[k]} 0 <= k && k < len(dp) ==> len(dp[k]) == pLen + 1 && ref(dp[k]) >= old(alloc())
contract pattern.processEscapes
  ensures len(result0) == len(result1)
  invariant len(result) == len(escaped)
  ensures fresh(result0) && fresh(result1)
guard pathCache pathCacheMu
guard modifierRegistry modifierMu

extern (Modifier).Apply
  trusted registered modifiers return, do not panic, and leave the library's memory alone
contract (*prettyModifier).Apply
  loopterm encoding/xml's decoder returns finitely many tokens before an error
contract (*ModifierFunc).Apply
  requires m != nil && m.fn != nil
contract (*ModifierFunc).Name
  requires m != nil
