V="modsecurity/variables/"; T="modsecurity/transaction.go"

prop("V01","Selectors pick the members they name and no others",
 "A collection without selectors yields all its members; with inclusions it yields the members whose name equals one of the given names or matches one of the given /expressions/, whichever kinds are mixed; exclusions remove members in the same way and win over inclusions. This holds for the values and for the names of every collection.",
 ["inputs","configurations"],"all member names, all mixtures of inclusions and exclusions by name and expression",
 "Tests use one selector at a time; the failures are in mixtures.",
 [V+"filter.go","utils/slice.go"],["FetchWithNames @ "+V+"filter.go","Include @ "+V+"filter.go"],["HFilter","HFilterMany","HFilterHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","6 collections and their names, 2 members with arbitrary 1-2 letter names over abc, up to 2 selectors (thorough 3) from 4 (thorough 6) names and expressions, each included or excluded","up to 5 inclusions and 5 exclusions mixed over collections of 6-18 members"],["other regular expressions: O02","case of header names"])

prop("V02","Query arguments are exactly the decoded pairs of the query string",
 "Every non-empty &-separated piece of the query string is one argument: its name is what precedes the first =, its value what follows (empty without =), both with + and percent escapes decoded; a % that starts no valid escape stays as it is and every other byte, semicolons included, stands for itself. ARGS_GET yields every value and ARGS_GET_NAMES every name, each exactly once, and nothing else; no piece, however malformed, hides another.",
 ["inputs"],"all query strings",
 "Tests use a few fixed well-formed queries.",
 [V+"args_gets.go",V+"args_get_names.go"],["Fetch @ "+V+"args_gets.go","Fetch @ "+V+"args_get_names.go"],["HArgsGet","HQueryRaw","HArgsPostBad","HArgsGetMany","HQueryOthers","HArgsGetHuge","HQueryEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","every query string of up to 6 bytes (thorough 7)","up to 2 pairs (thorough 3) with arbitrary names and values of up to 1-2 bytes, each byte raw or encoded with either hex case","9 malformed pieces anywhere among up to 2 arbitrary pairs","up to 20 pairs with repeated names and long values"],["longer arbitrary queries"])

prop("V03","Urlencoded body arguments are exactly the decoded pairs of the body",
 "With body access on, ARGS_POST of an urlencoded POST, PUT or PATCH body yields the decoded value of every pair of it, each once, however the body arrived in pieces, ARGS_POST_NAMES the names, and REQUEST_BODY the body as received, all by the rules that hold for query strings; a malformed escape keeps its text, hides nothing, and is recorded as a request body error, which a body without one does not raise. Asking again gives the same answer.",
 ["inputs","histories"],"all bodies, all divisions into pieces, malformed escapes anywhere",
 "Tests use one well-formed body appended at once.",
 [V+"args_posts.go",V+"args_post_names.go",T],["Fetch @ "+V+"args_posts.go"],["HArgsPost","HBodyRaw","HArgsPostBad","HArgsPostMany","HBodyOthers","HArgsPostHuge","HBodyEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","every body of up to 5 bytes (thorough 6), appended in any 2 pieces","up to 2 pairs of arbitrary bytes, body appended in any 2 pieces, 6 spellings of the content type, 3 with damaged parameters","9 malformed pieces anywhere among up to 2 arbitrary pairs, fetched three times in any order","up to 20 pairs in many pieces"],["bodies beyond the memory limit: V09"])

prop("V04","Multipart form fields are exactly the fields of the body",
 "With body access on, ARGS_POST of a multipart/form-data POST, PUT or PATCH body yields the value of every form field, each once, and ARGS_POST_NAMES the field names, with the body in memory or in a file. A body that is damaged yields no fields, is recorded as a request body error, and answers the same every time.",
 ["inputs","histories"],"all field contents, body sizes around the memory limit, all single truncations and corruptions",
 "Tests use one well-formed body; damaged ones are where the parser state matters.",
 [V+"args_posts.go",V+"args_post_names.go"],["Fetch @ "+V+"args_posts.go"],["HMultipart","HMultipartBad","HMultipartMany","HMultipartFiles","HBodyOthers","HMultipartHuge","HBodyEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","1-2 fields with arbitrary 1-byte names and up to 2-byte values, CRLF line ends, in memory and in a file, 5 boundaries quoted or not","bodies cut at any position or with one arbitrary byte anywhere, or with no one boundary parameter","up to 3 parts (thorough 4), each a field or a file, with equal names","1, 5 and 11 fields of up to 300 bytes with repeated names, a file among them, one byte arbitrary, two boundaries"],["contents of file parts","nested multipart","boundaries other than the 6 tried"])

prop("V05","Cookies are exactly the name=value pairs of the Cookie headers",
 "Every non-empty ;-separated piece of every Cookie header line, blanks around it trimmed, is one cookie: its name is what precedes the first =, its value what follows, and a piece without = is a name with an empty value. REQUEST_COOKIES yields every value and REQUEST_COOKIES_NAMES every name, each once, whatever bytes they hold, and nothing else.",
 ["inputs"],"all Cookie header lines",
 "Tests use one or two plain cookies.",
 [V+"request_cookies.go",V+"request_cookies_names.go"],["Fetch @ "+V+"request_cookies.go"],["HCookies","HCookiesMany","HCookieOthers","HCookiesHuge","HCookieEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","up to 2 lines, the first of up to 4 and the second of up to 2 arbitrary ASCII bytes (thorough 5 and 3)","many cookies on up to several lines with one arbitrary byte"],["longer lines","bytes from 0x80 in cookie lines of more than 3 bytes"])

prop("V06","URI variables are the parts of the request target as sent",
 "REQUEST_FILENAME is the decoded path; REQUEST_BASENAME is its last component, where trailing slashes do not count, a backslash separates like a slash, and a path without any component gives /; QUERY_STRING is the raw query; REQUEST_URI is the request target with path and query as sent, escaped or not, without scheme, user and host.",
 ["inputs"],"all URLs with arbitrary paths and queries",
 "Tests use a handful of fixed URLs.",
 [V+"request_uri.go",V+"request_filename.go",V+"request_basename.go",V+"query_string.go"],
 ["Fetch @ "+V+"request_uri.go","Fetch @ "+V+"request_basename.go","Fetch @ "+V+"query_string.go"],["HURIParts","HRequestURI","HURILong","HURIOthers","HPartsHuge","HURIEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","paths of up to 4 bytes and queries of up to 2 arbitrary bytes; URLs parsed from text with and without scheme, user and host, and an arbitrary target of up to 3 bytes (thorough 4), escaped or not","paths of up to 9 segments and queries of up to 120 bytes with 1-2 arbitrary bytes"],["opaque URLs","targets with a fragment, which clients do not send"])

prop("V07","Each scalar variable is the part of the transaction it is named after",
 "REMOTE_ADDR, REQUEST_METHOD, REQUEST_PROTOCOL, RESPONSE_STATUS, RESPONSE_PROTOCOL, RESPONSE_CONTENT_LENGTH and RESPONSE_CONTENT_TYPE yield the corresponding part of the transaction, the content type lower-cased without parameters and application/octet-stream when there is none, the content length 0 when there is none; RESPONSE_BODY is the response body when response body access is on; REQUEST_HEADERS and RESPONSE_HEADERS yield every value of every header and their _NAMES every name.",
 ["inputs"],"all values of each part, all headers",
 "Tests check one value each; request and response are easily confused for one fixed value.",
 [V+"remote_addr.go",V+"request_method.go",V+"request_protocol.go",V+"response_status.go",V+"response_protocol.go",V+"response_content_length.go",V+"response_content_type.go",V+"response_body.go",V+"request_headers.go",V+"response_headers.go"],
 ["Fetch @ "+V+"response_content_type.go","Fetch @ "+V+"request_headers.go","Fetch @ "+V+"response_headers.go"],["HScalars","HContentType","HHeaders","HHeadersMany","HResponseBody","HScalarOthers","HHeadersHuge","HPartsHuge","HScalarEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body","arbitrary strings of up to 2 bytes, 8 status codes; content types with arbitrary type bytes and parameters, well-formed or not; up to 2 headers with arbitrary values under 3 names","many headers with many values"],["types that are no type/subtype"])

prop("V08","A count is the number of values its collection yields",
 "The count of a variable, with or without selectors, is the decimal number of the values the variable yields with the same selectors.",
 ["inputs","configurations"],"all collections and selectors",
 "Tests count one collection of fixed size.",
 [V+"count.go"],["Fetch @ "+V+"count.go"],["HCount","HFilterMany","HArgsGetHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","6 collections of 3 members with arbitrary names, some of them empty, one selector","collections of many members"],["counts above the bound"])

prop("V09","A body yields arguments only when it may, and is bounded",
 "Without request body access, for methods other than POST, PUT and PATCH, or for content types other than urlencoded and multipart forms, the body yields no arguments. An urlencoded body larger than the memory limit aborts the transaction with 413 instead of being parsed, and is never examined in part.",
 ["inputs","configurations"],"all methods, content types, access settings and sizes around the limit",
 "Tests exercise the accepted combination.",
 [V+"args_posts.go",T],["Fetch @ "+V+"args_posts.go","AbortWithStatus @ "+T],["HBodyGate","HBodyGateLong","HBodyTypes","HBufHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","all combinations of 8 methods, 4 content types, access on or off, memory limits 0-3 and body sizes 0-3","20 other types that read like one of the two and 14 other methods, with bodies of either kind","limits of 16, 100 and 1000 with bodies one byte below, at and above, in pieces, inspected first in any phase from the body's on"],["other content types with parameters"])

prop("V10","No variable depends on a part of the transaction it is not named after",
 "What a variable yields is determined by the part of the transaction it is named after, and by the method, content type and access settings for bodies; nothing else a client or server sends, no header, address, protocol or value however it reads, changes it, nor does asking for it or for another variable earlier, before that part was there.",
 ["inputs","configurations"],"all values of every part of a transaction",
 "A test holds everything else at one value; a dependence shows at one particular value of another part.",
 [V+"args.go",V+"request_body_parser.go",V+"request_cookies.go",V+"response_body.go",T],
 ["Fetch @ "+V+"args.go","requestBodyParse @ "+V+"request_body_parser.go"],["HOthers","HPairOthers","HPartsHuge","HEarly"],
 ["asked for, alone or with any other variable, at any steps in a row (thorough any steps) of a transaction before its part is there, or while another stands in its place","a header of the request or response, an argument or a cookie, its name an arbitrary text of any length up to 30 (thorough 48) and its value one of any length up to 10 (thorough 16)","one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","any one part of a transaction, or all at once, an arbitrary text of any length up to 40 (thorough 64): addresses, method, protocol, a header of any other name, path, argument, cookie, body"],["values that need several parts of particular lengths at once beyond the mixed ones tried","headers repeated with several values"])
