X="modsecurity/transforms/"; O="modsecurity/operators/"
prop("T01","urlDecode decodes every valid escape and touches nothing else",
 "urlDecode replaces every % followed by two hexadecimal digits by that byte and every + by a space and keeps every other byte, including malformed escapes and bytes that are not valid UTF-8; whatever was percent-encoded, in any hex case, decodes to the original.",
 ["inputs"],"all strings","Tests list a few strings; malformed escapes at the end and invalid UTF-8 are not among them.",
 [X+"urldecode.go"],["Trans @ "+X+"urldecode.go"],["HURLDecode","HURLRoundTrip","HTransLong","HDecodeHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","long texts: 2 (thorough 3) arbitrary bytes (for lowercase the first below 0x80) at several places in texts of up to 1700 bytes","all strings of up to 4 bytes (thorough 6) and round trips of arbitrary bytes with any choice of encoded bytes"],["longer arbitrary strings (long texts are tried with 3-4 arbitrary bytes in them)"])
prop("T02","urlDecodeUni also decodes %uHHHH escapes",
 "urlDecodeUni does what urlDecode does and also replaces every %u followed by four hexadecimal digits by that character in UTF-8, with the full-width forms FF01-FF5E mapped to their ASCII characters and surrogates to U+FFFD; malformed escapes and all other bytes are kept.",
 ["inputs"],"all strings","Tests list a few escapes.",
 [X+"urldecode_uni.go"],["Trans @ "+X+"urldecode_uni.go"],["HURLDecodeUni","HURLDecodeUniShort","HUniLong","HDecodeHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","long texts with one escape of any digits in them","all strings of up to 4 bytes, and %u escapes with arbitrary digits between arbitrary bytes"],["%uFF00, %uFF5F-%uFFFF"])
prop("T03","removeNulls and replaceNulls treat NUL bytes and nothing else",
 "removeNulls removes every NUL byte, replaceNulls replaces each by a space, and both keep every other byte, valid UTF-8 or not, in order.",
 ["inputs"],"all strings","Tests use ASCII text.",[X+"map_rune.go"],["Trans @ "+X+"map_rune.go"],["HNulls","HTransLong","HTransHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","long texts: 2 (thorough 3) arbitrary bytes (for lowercase the first below 0x80) at several places in texts of up to 1700 bytes","all strings of up to 4 bytes (thorough 6)"],["longer strings: bytes are treated one by one"])
prop("T04","Whitespace transformations treat ASCII whitespace and nothing else",
 "removeWhitespace removes every space, tab, newline, vertical tab, form feed and carriage return; compressWhitespace replaces each run of them by one space; both keep every other byte, valid UTF-8 or not, in order.",
 ["inputs"],"all strings","Tests use a few blanks in ASCII text.",[X+"compress_whitespace.go",X+"map_rune.go"],["Trans @ "+X+"compress_whitespace.go","Trans @ "+X+"map_rune.go"],["HWhitespace","HTransLong","HTransHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","long texts: 2 (thorough 3) arbitrary bytes (for lowercase the first below 0x80) at several places in texts of up to 1700 bytes","all strings of up to 4 bytes (thorough 6)"],["texts longer than that"])
prop("T05","lowercase folds letters and keeps everything else; none keeps everything",
 "lowercase maps every ASCII letter and every valid UTF-8 character to its lower case and keeps all other bytes; strings that differ only in ASCII case become equal and applying it twice changes nothing more. none returns its input.",
 ["inputs"],"all strings","Tests use one ASCII word.",[X+"lowercase.go",X+"none.go"],["Trans @ "+X+"lowercase.go","Trans @ "+X+"none.go"],["HLowercase","HLowercaseFold","HLowerLong","HNone","HTransLong","HTransHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","long texts: 2 (thorough 3) arbitrary bytes (for lowercase the first below 0x80) at several places in texts of up to 1700 bytes","one of 12 characters or bytes that are none and another byte among up to 10000 characters","all strings of up to 2 bytes (thorough 3)"],["other characters beyond the BMP"])
prop("O01","Numeric operators compare value and argument as integers",
 "eq, gt, ge, lt and le compare the value with the operator's argument as integers, for every value whose text, blanks around it trimmed, is a decimal integer, also beyond the 64-bit range, where it counts as the nearest limit; a value that is not a number counts as 0. An argument that is not a decimal integer is refused when the operator is made.",
 ["inputs"],"all values and arguments","Tests compare a few small numbers.",[O+"compare.go"],["Match @ "+O+"compare.go","NewOperatorEq @ "+O+"compare.go"],["HCompare","HCompareLimits","HCompareArg","HCompareLong","HCompareHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","all value texts of up to 3-4 bytes against arguments of up to 2-3 bytes","1-3 digits with up to 40 leading zeros, signs, blanks and trailers","arbitrary decimal digits around the limits of int64","all argument texts of up to 3 bytes"],["numbers longer than the bounds"])
prop("O02","rx matches exactly when the expression occurs in the value",
 "rx matches a value if and only if the expression matches somewhere in it, case-sensitively unless it says otherwise, whatever bytes the value holds. An invalid expression is refused when the operator is made.",
 ["inputs"],"all values, a family of expressions","Tests use one expression.",[O+"rx.go"],["Match @ "+O+"rx.go","NewOperatorRx @ "+O+"rx.go"],["HRx","HRxBad","HRxLong","HRxHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","a family of expressions with literals, anchors, alternatives, classes, repetition and flags against all values of up to 3 bytes","values of up to 270 bytes with 2 arbitrary bytes at several places"],["other expressions: the standard library's"])
