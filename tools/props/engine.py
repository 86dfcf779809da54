M="modsecurity/sec_rule.go"; T="modsecurity/transaction.go"; A="modsecurity/actions/"

prop("E01","A rule fires exactly when one of its values satisfies its operator",
 "A rule fires if and only if at least one of the values its variables yield, after all of its transformations were applied in order, satisfies its operator (for a negated rule: fails it). It fires at most once per evaluation; a rule whose variables yield nothing does not fire.",
 ["inputs","configurations"],"all lists of variables and values, transformations, operands, negated or not",
 "Tests fix one variable, one value and one operator; the quantifier is over every value list and pipeline.",
 [M],["Match @ "+M,"FetchAllTransformedVariables @ "+M,"TransformString @ "+M],
 ["HRuleMatch","HRuleMatchMany","HRuleHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","up to 9 variables with up to 33 values, values of up to 42 bytes, one of which ends in 2 arbitrary bytes, through up to 6 transformations","up to 2 variables (thorough 3) with up to 2 values of 2 arbitrary bytes each, up to 2 of 3 transformations, an arbitrary 1-2 byte operand, negated or not"],
 ["longer values and more variables: the loop body is the same","operators and variables that change the transaction while they run"])

prop("E02","A chain runs its actions exactly when all its rules match",
 "The actions of a rule and of the rules chained to it run if and only if every rule of the chain matches. Then the actions of each rule of the chain run exactly once, the first rule's first.",
 ["inputs","configurations"],"all chain lengths and match patterns",
 "One test inspects the structure of a chain; none runs one with every pattern of matches.",
 [M],["Do @ "+M],["HChain","HChainMany","HChainHuge","HChainActions"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","chains of 4-17 rules of which any one or none does not match, with 0-2 actions each","0-2 chained rules (thorough 0-3), every pattern of matches, including a first rule without actions"],["chains of chains built by hand in Go"])

prop("E03","A rule's actions run once each: data, then logging, then decision, then flow",
 "When a rule fires, each of its actions runs exactly once, ordered by kind (metadata, data, non-disruptive, disruptive, flow) and within a kind in the order written.",
 ["configurations"],"all lists of actions of any kinds",
 "Tests fix one order; the rule must hold for every permutation of kinds.",
 [M],["ActionsExecute @ "+M],["HActionOrder","HActionMany","HActionHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","5, 8 and 13 actions of mixed kinds","up to 3 actions (thorough 4) of any of the 5 kinds"],["more actions per rule"])

prop("E04","Within a phase rules run in configuration order up to the first decision",
 "In a phase the rules run in the order they were added, each at most once, and none after a rule whose action denied. skip passes over exactly the next rule and skip:N over exactly the next N rules of the phase, or all that are left if there are fewer; a chain counts as one rule.",
 ["inputs","configurations"],"all rule lists, match patterns, skips and denials",
 "Order and skip interact across rules; tests use one or two rules.",
 [M,T,A+"skip.go"],["processPhase @ "+T,"JumpTo @ "+T,"Do @ "+A+"skip.go"],["HPhaseOrder","HSecFlow","HFlowMany","HFlowHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","Go rules: up to 4 (thorough 5) rules, each matching or not, that mark, deny, deny and pass, pass and log, or block","6, 9 and 18 rules in a phase, one of which skips 0 to all the others or more, one denies and one does not match, at any position","SecLang rules: up to 4 (thorough 5), with log, skip, skip:N (N 0, 1, 2, maximal int) or deny with a status"],
 ["negative skip arguments are refused when loaded (P08)"])

prop("E05","Each phase's rules run at most once, in their own phase, never backwards",
 "Whatever sequence of phase calls a caller makes, the rules of a phase run only when that phase is called, at most once, and never once a later phase has begun; repeating or reordering calls has no effect. A rule whose phase does not exist never runs.",
 ["histories","configurations"],"all sequences of phase calls, including repeated, omitted and out-of-order ones",
 "Tests call the phases once, in order.",
 [T,M],["ProcessPhase @ "+T,"JumpToPhase @ "+T,"AddRules @ "+M],["HPhases","HPhaseScope","HPhasesMany","HFlowHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","all sequences of 4 phase calls (thorough 5) over the 6 phases","phases of 0, 1 and 9 rules, each call of any sequence made three times","every declared phase from -2 to 9"],["phases changed by actions: E06"])

prop("E06","allow lets through exactly the phases it names",
 "After allow no further rule runs in the current or any later phase up to logging, after allow:phase none in the rest of the current phase, after allow:request none in the rest of the request phases; every rule of the phases beyond runs normally, once, whichever phase calls the caller makes or omits. An allowing rule never moves the transaction back to an earlier phase.",
 ["histories","configurations"],"all phases in which allow fires, all of its forms, all subsets of phases the caller runs",
 "The tests check one form in one phase; the failures are in the combinations.",
 [A+"allow.go",T],["Do @ "+A+"allow.go","processPhase @ "+T,"ProcessPhase @ "+T],["HAllow","HAllowTwo"],
 ["allow, allow:phase, allow:request in each of the 6 phases, 2 rules per phase, every subset of phase calls","3 rules per phase, two of which, anywhere, allow in any form, alone, with other actions or at the end of a chain"],["allow with another argument","allow combined with deny in one rule"])

prop("E07","deny decides with 403 or the status its own rule sets",
 "A firing deny makes the result disruptive with status 403, or with the status set by the last status action of the same rule when it lies in 100-599. A status set by another rule has no influence; a chain counts as one rule.",
 ["inputs","configurations"],"all status values, all combinations of rules with and without status",
 "Tests use one valid status; the range limits and leaking between rules need all of them.",
 [A+"deny.go",A+"status.go",M],["Do @ "+A+"deny.go","Do @ "+A+"status.go","Do @ "+M],["HDeny","HStatusScope"],
 ["an arbitrary 64-bit status; two rules, each with or without a status, in the same or different phases, matching or not"],["status set directly on the transaction by Go code","status of a later rule of the same chain"])

prop("E08","A decision stops evaluation until taken, an abort for good",
 "While a disruptive decision is pending no rule runs, in this phase or any later one. Once the transaction was aborted (status or error) no rule runs any more, the one being evaluated when it was aborted included, and every later result reports the same status as disruptive.",
 ["histories"],"all positions of the decision among phase calls and result queries",
 "Tests stop after the decision; the property is about everything after it.",
 [T],["processPhase @ "+T,"AbortWithStatus @ "+T,"AbortWithError @ "+T,"Result @ "+T],["HSticky"],
 ["a denial, abort with a status or abort with an error in any phase followed by any phase calls, with results taken or not between them, two rules per phase"],["aborts from other goroutines"])

prop("E09","Off evaluates no rule, DetectionOnly decides nothing, On does both",
 "With SecRuleEngine Off no rule is evaluated. With DetectionOnly rules are evaluated and log, but no disruptive action and no body error ever makes a result disruptive or changes its status or stops later rules; On restores normal operation.",
 ["histories","configurations"],"all sequences of mode settings, all decisions",
 "Tests only read back the flags of the engine.",
 ["modsecurity/engine.go",T,M],["Enable @ modsecurity/engine.go","processPhase @ "+T,"ActionsExecute @ "+M,"AbortWithError @ "+T],["HModes","HModesBody"],
 ["all sequences of up to 2 mode settings, deny, allow, pass, block and aborts by error; bodies over the limit and multipart bodies cut anywhere"],["modes changed while a transaction runs"])

prop("E10","Transactions over one engine do not influence each other",
 "However transactions over the same engine and rules are interleaved, each gets the decisions and log lines it would get alone. Processing a transaction writes nothing that another transaction or the rules could read.",
 ["schedules","inputs"],"all interleavings of the steps of two transactions with any input",
 "Tests run one transaction at a time; a write to shared state shows only under interleaving.",
 [T,M,"modsecurity/engine.go"],["NewTransaction @ "+T,"Do @ "+M,"filter.FetchWithNames @ modsecurity/variables/filter.go"],["HIsolation","HUntouched"],
 ["two transactions of five steps each, interleaved step by step; nine SecLang rules using every kind of state; inputs of the first arbitrary over small alphabets; every write to memory that existed before the transactions is flagged on every path","40 configurations (thorough 280) in which every variable, transformation, operator and action occurs, over one concrete transaction run twice"],
 ["interleaving inside a step: excluded by the absence of shared writes, not enumerated","rules added while transactions run","caches inside regexp and the standard library"],
 state=[("frozen heap","everything reachable before the transactions began","harness/props/isolation.go")])

prop("E11","Result hands over what happened since the last one and keeps it",
 "Result returns the status, disruptiveness and all log lines since the previous call, each line in exactly one result, in order; then status returns to 200. Once the transaction was aborted every further result repeats the decision and all lines since the last result before the abort. What was returned does not change afterwards.",
 ["histories"],"all interleavings of phase calls, logging and results",
 "Tests call Result once.",
 [T],["Result @ "+T,"Copy @ "+T,"Reset @ "+T],["HResult","HResultMany","HLogHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","up to 3 results (thorough 4) with 0-21 log lines before each","up to 4 steps (thorough 5), each a log line, a denial, a Result or an abort"],["changes a caller makes to a returned result"])

prop("E12","No rule on any request crashes the engine",
 "Whatever variables a rule inspects in whatever phase, whatever the request, however little of it the caller has supplied and in whatever encoding, evaluating it returns normally.",
 ["inputs","histories"],"all variables, phases and partial transactions, arbitrary bytes in the path, query, cookies, content type and body",
 "The inputs that crash are the ones nobody wrote a test for: no URL, no headers, broken encodings.",
 ["modsecurity/variables/args.go","modsecurity/variables/args_posts.go","modsecurity/variables/request_cookies.go","modsecurity/variables/request_headers.go","modsecurity/variables/response_body.go",T],
 ["Fetch @ modsecurity/variables/args.go","requestBodyParse @ modsecurity/variables/request_body_parser.go"],["HTotal"],
 ["every variable, plain or counted with an include and an exclude, evaluated in all 6 phases; eight kinds of transaction from empty to complete, also without a URL or headers and with headers without values; up to 2 arbitrary bytes (thorough 3) in each of path, query, cookie, content type and body; all panics of the executed code, including index, nil and conversion, are checked"],
 ["nil engine or rule fields","longer inputs"])

prop("E13","Decisions do not depend on the order a collection is visited in",
 "The result of a transaction is a function of its input: in whatever order the members of a collection are visited while a rule is evaluated, and the targets of a rule while it is loaded, the decisions and the log are the same.",
 ["inputs","schedules"],"all iteration orders of every map ranged over, all member values",
 "Map iteration order is random at run time; a test sees one order per run and cannot force the others.",
 ["modsecurity/variables/filter.go","seclang/variable.go",M],["filter.Fetch @ modsecurity/variables/filter.go","applyVariables @ seclang/variable.go"],["HMapOrder","HMapNames","HArgsGetHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","every iteration order of every map of up to 4 entries ranged over by the code, 2 arguments (thorough 3) with arbitrary digits, four SecLang rules with includes, excludes, counts and a chain"],["maps of more than 4 entries are visited in insertion order"])

prop("E14","Every log line names the client and phase, a denial its status",
 "Each log line begins with the client address and port and the phase in which it was written, lines stand in the order written, and the line of the log action ends with the phase and the number in it of the rule that logs, that of a denial names the status the transaction is denied with, and that of an error ends with the error's text as it is.",
 ["inputs","configurations"],"all addresses, phases and statuses",
 "Tests compare one line for one status.",
 [T,A+"deny.go",A+"log.go"],["Logf @ "+T,"Do @ "+A+"deny.go"],["HLog","HLogError","HLogHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","aborts by an error whose text ends in up to 3 arbitrary bytes, after up to 2 lines","arbitrary 2-byte addresses and ports, each phase, log and deny with and without a status"],["the wording of messages beyond the pinned ones"])

prop("E15","block does what the default actions of the rule set say",
 "A firing block runs the default actions of the rule set of its transaction, each once, in order, and without any it decides nothing.",
 ["configurations"],"all lists of default actions",
 "One test with one list.",
 [A+"block.go",M],["Do @ "+A+"block.go","ExecuteDefaultActions @ "+M],["HSecBlock","HBlockMany"],["0-8 default actions of mixed kinds and a denial, run by three blocks of two transactions","up to 2 default actions (thorough 3) of one kind, through a SecLang rule"],["block among the default actions themselves"])

prop("E16","What a transaction says about where it stands is where it stands",
 "While a rule's actions run, CurrentPhase, CurrentRule, CurrentSecRule, CurrentPhaseRules and NextRule name that rule, its phase and the rule after it; after JumpTo(i) rule i of the phase is the next to run, or none if there is no such rule, and which rule is running does not change. Before the first and between phases no rule is current; JumpToPhase keeps to the phases there are.",
 ["histories","inputs"],"all rules, phases and jump targets",
 "Tests look at the position in one phase of two rules.",
 [T],["CurrentSecRule @ "+T,"JumpTo @ "+T,"NextRule @ "+T,"JumpToPhase @ "+T],["HPosition"],
 ["4 rules (thorough 5) in one phase and 0-2 in the others, one phase omitted; one rule jumps to any other, itself or arbitrarily far beyond; an arbitrary 64-bit phase, from any phase"],["jumps to negative rules"])

prop("E17","Engines do not influence each other",
 "However many engines a program makes, with the same loaded configuration executed on several of them, with others, or with settings made in Go, each has the settings, rules and limits, and makes the decisions, it would have and make alone.",
 ["histories","configurations"],"all sequences of steps on two engines",
 "Tests use one engine.",
 ["modsecurity/engine.go","seclang/rule_set.go","seclang/rules.go",M],["NewEngine @ modsecurity/engine.go","Execute @ seclang/rule_set.go","NewDefaultLimits @ modsecurity/engine.go"],["HEngines"],
 ["3 steps (thorough 4) on two engines in any order, each one of: executing one of 4 configurations, switching on, adding a default action, changing limits, a transaction; then the same transaction on each and on an engine that saw only its own steps"],["engines used from several goroutines"])

prop("E18","A new transaction has decided, logged and stored nothing",
 "Whatever the engine, its settings and what other transactions did, a new transaction stands before its first phase with nothing decided, logged or stored, on the rule set it was made for; the directory for its files is made if there is none, and they are made in it. Without an engine, without rules or when that directory cannot be made there is an error instead.",
 ["histories","configurations"],"all settings, all earlier transactions",
 "Tests make one transaction on a new engine.",
 [T,"modsecurity/buffer.go"],["NewTransaction @ "+T,"makeBufferDir @ modsecurity/buffer.go"],["HFresh"],
 ["every mode, arbitrary limits and access settings, up to 2 earlier transactions that logged, denied or were aborted; a directory that is not there, below others that are not there, or below a file"],["other reasons why a directory cannot be made"])

prop("E19","Rules and rule sets made of the same parts do not influence each other",
 "A rule has the variables, transformations, actions and chained rules it was given, and a rule set the default actions and rules it was given, in however many calls, in that order and once each, whatever others are given and whatever becomes of the slice they were given in.",
 ["histories","configurations"],"all sequences of giving parts to two rules or rule sets",
 "Tests build each rule from parts of its own.",
 [M],["AppendVariables @ "+M,"AppendActions @ "+M,"AppendTrans @ "+M,"AppendSubRules @ "+M,"AddDefaultActions @ "+M,"AddRules @ "+M],["HParts"],
 ["each of the six kinds; two owners given the same slice with spare room, before or after a part of their own, then 3 steps (thorough 4) of giving one more part to either, adding to the slice or changing a member of it; each owner run twice"],["owners changed from several goroutines"])

prop("E20","Inspecting a transaction changes nothing that was there before",
 "Whatever rules run over a transaction, the URL, the headers and the bytes the caller handed over, the contents of the bodies, and the engine and its rules are afterwards what they were, and the same transaction made again gets the same decisions and log lines.",
 ["configurations","inputs"],"all rules over all variables, with all transformations, operators and actions",
 "Tests look at decisions, not at what became of what was inspected, and run a rule once.",
 [T,M,"modsecurity/variables/filter.go","modsecurity/variables/request_body_parser.go","modsecurity/transforms/urldecode_uni.go"],["processPhase @ "+T,"FetchWithNames @ modsecurity/variables/filter.go","UrlDecode @ utils/urlencode.go"],["HUntouched"],
 ["40 configurations (thorough 280) of 26 rules, in each of which every variable, transformation, operator and documented action occurs, in changing combinations; a request with escapes, repeated, empty and damaged parts, urlencoded or multipart, in memory or in a file; every write to memory that existed before the transaction is flagged"],
 ["a body limit reached (B02, V09)"],
 state=[("frozen heap","everything reachable before the transactions began","harness/props/isolation.go")])

prop("E21","What an action stores in a transaction stays there",
 "What an action stores in a transaction's Data is there, as it was stored, for every later action of the transaction, whatever rules run, decide, skip or allow in between and whatever results are taken, and never in another transaction; the status it sets is there for the rest of its rule.",
 ["histories","configurations"],"all phases, all actions run in the same rule or a later one, all results taken",
 "No test reads what an earlier rule stored.",
 [T,A+"allow.go",A+"pass.go",A+"deny.go",A+"status.go",M],["Do @ "+A+"allow.go","Do @ "+A+"pass.go","Do @ "+A+"status.go","Result @ "+T,"Match @ "+M],["HData"],
 ["arbitrary 2-byte values stored in any phase by a rule that also runs any of the built-in actions or none, another of which runs in every later phase or every other; results taken after every phase or every other; a second transaction over the same rules at the same time"],
 ["the status action's own entry (E07)"])
