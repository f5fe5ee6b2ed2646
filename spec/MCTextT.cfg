SPECIFICATION Spec
CONSTANTS
  MaxLex = 4
  Starts = {"", "my:", "as:did:key:zA:"}
  MaxMore = 3
  MoreStarts = {"fs:/", "my:fs:/", "as:did:key:zA:fs:/", "mb:", "my:mb:", "as:did:key:zAb:mb:", "prf:", "my:prf:", "as:did:web:x:", "as:did:keys:z:", "as:did:key:", "as:did:", "as:key:zA:", "as:as:did:key:zA:", "fs:/a", "as:did:key:zA:fs:/a"}
  Lexemes = {"my:", "as:", "did:key:zA", "did:web:x", ":", "fs:", "/", "a", "*", "mb:", "foo:", "prf:", "07", "?q", "#f"}
INVARIANTS RoundTrip OneForm SameForm Emit
CHECK_DEADLOCK FALSE
