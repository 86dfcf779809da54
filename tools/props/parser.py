S="seclang/parser/scanner.go"; K="seclang/parser/seclang_token.go"
prop("P01","Parsing any text ends with directives or an error",
 "Parsing any text terminates, without a crash, and yields either directives or an error; a text with an error yields no directives.",
 ["inputs"],"all texts","The texts that loop or crash are the ones nobody tests.",[S],["AllDirective @ "+S,"SkipBlank @ "+S,"readString @ "+S],["HParseAny","HParseTail","HParseMid","HParseInside","HParseHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","all texts of up to 3 bytes (thorough 4), arbitrary text of up to 3 bytes (thorough 4) after each part of a valid configuration, 1-2 arbitrary bytes replacing any part of one, up to 2 (thorough 3) arbitrary bytes in each of 15 parts of a rule, with whatever loads then put to use; a loop that exceeds the step bound is reported and confirmed natively by a timeout"],["longer texts"])
prop("P02","Quoted text is read back exactly",
 "Any text written between quotes, with the quote character and backslashes escaped, is read back exactly; the usual escapes and line continuations have their usual meaning; an unquoted word ends at a blank or line end. A quoted string whose line ends before its closing quote is refused.",
 ["inputs"],"all texts and positions","Tests list a few strings.",[S],["readString @ "+S,"ReadString @ "+S],["HReadString","HReadWordString","HReadEscapes","HParseLong","HParseHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","all texts of up to 3 bytes (thorough 4) in either quotes, after any blanks and continuations","all unquoted words of up to 3 bytes; all texts of up to 4 (thorough 5) arbitrary bytes as they are between two quotes","strings of about 60, 4100 and 8200 bytes with an escape, continuation or arbitrary byte at any of 24 (thorough 32) places around a multiple of 4096"],["a backslash before a character that is no escape (pinned: dropped)","a continuation inside an unquoted word (pinned)","an escaped LF CR"])
prop("P03","A list of targets is read as written",
 "Every target of a rule's list, separated by | or ',', is read in order with its name, its selector exactly as written after ':' or '.', and its ! or & mark.",
 ["inputs"],"all lists of documented variables, marks and selectors of arbitrary bytes","Tests use two or three fixed lists.",[S,K],["ReadVariables @ "+S],["HParseVariables","HParseVariablesMany","HParseHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","a list of all 25 targets with every mark in turn, selectors of both kinds, one of them with an arbitrary byte","lists of up to 2 targets (thorough 3), first name any of the 25, selectors of up to 2 (thorough 3) arbitrary bytes except separators"],["selectors that contain separators"])
prop("P04","A list of actions is read as written",
 "The id, phase, chain flag, transformations and other actions of a list are each read once, in order, with their arguments exactly as written, whatever blanks surround them; a comma inside a quoted argument belongs to it. Numbers and severities outside their range are refused.",
 ["inputs"],"all lists of documented actions","Tests use two fixed lists.",[S,"seclang/parser/utils.go"],["ReadActions @ "+S,"processAction @ "+S],["HParseActions","HParseComma","HParseNumbers","HParseActionsMany","HParseHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","lists of 9 and 22 actions, one of them with an arbitrary byte in its argument, with any of 3 separators","lists of up to 2 actions (thorough 3) of every kind with arguments of up to 2 arbitrary bytes; arguments of up to 3 (thorough 4) arbitrary bytes in either kind of quotes; all texts of up to 3 (thorough 4) bytes, quotes included, as id, phase and severity"],["quotes inside quoted arguments"])
prop("P05","On, Off and DetectionOnly are read in any case and nothing else is",
 "SecRuleEngine takes On, Off and DetectionOnly, SecRequestBodyAccess and SecResponseBodyAccess take On and Off, in any case and quoted or not; any other value is refused. Directive names are read in any case.",
 ["inputs"],"all values","Tests use three spellings.",[S,K],["ReadValue @ "+S,"RegisterValue @ "+K],["HParseValues","HParseValueNear"],["each value with any one byte added or in place of any other, alone or with another value beside it, in quotes","all values of up to 4 printable bytes, and the long one with one letter's case flipped or a suffix"],[])
prop("P06","An operator is read with its negation and exact argument",
 "A leading ! negates; @name selects one of rx, eq, ge, gt, le, lt with everything after the first space as its argument, unchanged; anything else is an expression for rx.",
 ["inputs"],"all arguments","Tests use a few arguments.",[S],["ReadOperator @ "+S],["HParseOperator","HParseHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","every operator with arguments of up to 2 (thorough 3) arbitrary bytes"],[])
prop("P07","Directives come out in the order they stand in",
 "A configuration yields one directive for each one written, in order, whatever blanks, NUL bytes, blank lines, line ends and continuations separate them, and blanks and continuations their parts; a directive ends with its line unless the line end is escaped, and one that is incomplete there is refused.",
 ["inputs"],"all sequences of directives and separators","Tests use one layout.",[S],["ReadDirective @ "+S,"AllDirective @ "+S,"SkipBlank @ "+S],["HParseSequence","HParseCut","HParseBoundary","HParseHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","two directives with any of 4 separators at any of 40 (thorough 60) places around byte 4096","up to 3 directives of every kind with any of 8 separators and 8 gaps between any two parts","a rule cut by any of 8 line ends at any part"],[])
prop("P08","A configuration with a mistake anywhere is refused as a whole",
 "An unknown directive, variable, operator, action or transformation, an invalid value, number or expression, or an unfinished rule, wherever it stands in a configuration, makes loading fail with an error and without handing out any rules; when the text was to extend a loaded configuration, that one stays exactly as it was.",
 ["inputs","configurations"],"all positions and kinds of mistake","Tests load valid configurations.",[S,"seclang/rule_set.go","seclang/actions.go","seclang/operators.go"],["AddSecLangString @ seclang/rule_set.go","FromSecLang @ seclang/sec_rule.go"],["HParseUnknown","HSecReject"],
 ["unknown names that differ by an arbitrary byte from a known one","45 kinds of mistake among up to 3 directives before and after, loaded afresh and into one of 3 configurations"],["mistakes the parser tolerates: a selector on a scalar variable"])
prop("P09","The scanner's line number is the line it has reached",
 "After each directive LineNumber is the number of the line on which that directive ends, counting LF, CR LF and CR line ends, blank lines, continuations and line ends inside strings; at the end of the text it is that of the last line.",
 ["inputs"],"all layouts","No test looks at it.",["seclang/parser/scanner.go"],["incrementLineNumber @ seclang/parser/scanner.go"],["HParseLines","HParseHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","1-2 directives of either kind with up to 2 blank lines between, continuations between any parts and inside strings, each of 3 line ends, one byte arbitrary"],["LF CR line ends"])

prop("P10","A configuration is read the same however it arrives, and whole or not at all",
 "A text yields the same directives, or is refused, in whatever pieces its reader hands it out; when the reader fails before the end, reading it ends with an error, no directive is made of a part of one, and AllDirective hands out none.",
 ["inputs","fault_sequences"],"all readers, all points of failure","Tests read strings.",[S],["NewSecLangScanner @ "+S,"advance @ "+S,"AllDirective @ "+S],["HParseReader"],
 ["4 texts of up to 2 directives with one of 7 bytes at two places, well-formed or not; pieces of 1, 2, 3 (thorough also 100) bytes with empty reads between, the end reported with the last bytes or after them, failing at any byte or not at all; read at once or one by one"],["readers that recover from a failure"])
