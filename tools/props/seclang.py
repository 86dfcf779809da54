S="seclang/"
prop("S01","Rules linked by chain act as one rule in the first one's phase",
 "In a configuration every rule with chain and the rules after it, up to the first without chain, act as one rule of the phase of the first: its actions run if and only if all match. Rules outside the chain are not affected, wherever it stands and in however many pieces the configuration is loaded.",
 ["inputs","configurations"],"all arrangements of chains and match patterns","One test inspects one chain's structure.",[S+"rule_set.go"],["AddSecLangString @ "+S+"rule_set.go","Execute @ "+S+"sec_rule.go"],["HSecChain","HSecChainLong","HSecHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","up to 4 rules (thorough 6), each chained or not, each matching or not, loaded in one or two pieces, with a directive of another kind anywhere among them","a chain of 12 and of 40 rules, any one of which does not match"],["a chain left open at the end of the configuration"])
prop("S02","A SecLang rule is evaluated once, in the phase it names",
 "A rule with phase:N is evaluated in engine phase N, a rule with phase:request, phase:response or phase:logging in the request body, response body or logging phase, and a rule without a phase in phase 2; each exactly once per transaction, wherever the phase stands among its actions.",
 ["configurations"],"all phases and spellings","Tests use phase:2 only.",[S+"actions.go","seclang/parser/seclang_token.go"],["applyActions @ "+S+"actions.go","phaseAlias @ seclang/parser/seclang_token.go"],["HSecPhase"],
 ["each number, a quoted number, each alias and none, before or after the other actions"],["known finding: the three aliases name the wrong engine phase"])
prop("S03","A rule inspects what its target list names, less what it excludes",
 "What a rule inspects is the union of the collections and members its target list names, in whatever order, minus the members and collections it excludes with !; naming a collection whole includes all of it, whatever members are named besides. Each & target contributes its own count.",
 ["inputs","configurations"],"all target lists","Tests use single targets.",[S+"variable.go"],["applyVariables @ "+S+"variable.go"],["HSecTargets","HSecTargetsMany","HSecHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","member names of up to 301 bytes of which one begins with the other","lists of 6-14 targets of which some name a member each, some all or some of the collection, some exclude or count, in any of 3 orders","lists of up to 3 targets (thorough 4) over two collections and a scalar, whole, by name or by expression, plain, excluded or counted, in any order, with either separator; argument values arbitrary"],["exclusions from a collection that is not named"])
prop("S04","Every documented action does what it says",
 "Each action the documentation lists is accepted, and deny, allow, log, pass, block, skip and status decide, log and let run what they do in rules made in Go; pass keeps what was logged. msg, tag, rev, ver, logdata and severity are kept with the rule as written and decide nothing.",
 ["inputs","configurations"],"all documented actions and combinations of them with status and log","Tests use deny and log.",[S+"actions.go","modsecurity/actions/pass.go"],["actionFactorys @ "+S+"actions.go","applyActions @ "+S+"actions.go"],["HSecAct","HSecMeta","HSecHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","each action in a rule followed by a rule in every phase, with an arbitrary status; up to 2 (thorough 3) pieces of metadata with 1-2 arbitrary bytes"],["known findings: setvar and capture are documented but refused"])
prop("S05","Of several directives of a kind the last one holds",
 "SecRuleEngine, SecRequestBodyAccess and SecResponseBodyAccess each set their own switch to the value of the last such directive, in whatever order and number of pieces they are loaded, and change nothing else; every SecRule adds one rule.",
 ["configurations"],"all sequences of directives","Tests apply one directive.",[S+"rules.go",S+"rule_set.go"],["Execute @ "+S+"rules.go","Execute @ "+S+"rule_set.go"],["HSecEngine","HSecManyDirectives"],
 ["11 and 30 directives with any one of them replaced by any other, in one or two pieces","up to 3 directives (thorough 4) of any kind with any value, loaded in one or two pieces"],[])
prop("S06","A SecLang rule matches as the same rule made in Go",
 "A rule written in SecLang has the operator, argument, negation and transformations written, in order, and matches every value exactly as the same rule made in Go.",
 ["inputs","configurations"],"all documented operators and transformations, all values","Tests check the types of the parts of one rule.",[S+"operators.go",S+"trans.go"],["operatorFactorys @ "+S+"operators.go","transFactorys @ "+S+"trans.go"],["HSecMatch","HSecTrans","HSecHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","every operator, negated or not, up to 2 transformations of the 8, values of 2 (thorough 3) arbitrary bytes","lists of up to 4 transformations (thorough 5), any of them more than once, on values encoded more than once"],["what none does to earlier transformations"])
prop("S07","Every documented variable name stands for its variable",
 "Each variable name the documentation lists is accepted in a rule and yields the values of the variable of that name.",
 ["configurations","inputs"],"all documented names","Tests use three names.",[S+"variable.go","seclang/parser/seclang_token.go"],["variableFactorys @ "+S+"variable.go","variableMap @ seclang/parser/seclang_token.go"],["HSecVars"],
 ["every name, in a transaction in which every variable has a value of its own"],["known finding: XML is documented but refused"])
prop("X01","What a deny rule looks for is found wherever a request carries it",
 "With a rule that denies what matches one of several targets, exactly the requests that carry what it looks for in any of the parts of the request named, however it is encoded and in however many pieces the request arrives, are denied in the rule's phase with its status and logged; any other request passes and meets the next rule.",
 ["inputs","configurations","histories"],"all requests, parts and encodings","Tests put one plain payload into one part of one request.",
 [S+"rule_set.go","modsecurity/transaction.go","modsecurity/sec_rule.go","modsecurity/variables/args.go"],["AddSecLangString @ "+S+"rule_set.go","ProcessRequestBody @ modsecurity/transaction.go","FetchAllTransformedVariables @ modsecurity/sec_rule.go"],["HAttack"],
 ["one payload in any of 9 places of a request or in none, any one of its bytes or all of them percent-encoded with hex digits in either case, letters in either case, alone or between commas, quotes, NULs or line ends; 6 near misses, one byte arbitrary of 5, everywhere else; urlencoded and multipart bodies in two pieces"],["payloads split over several parts of a request"])

prop("S08","The parts of a rule report the names and arguments they were written with",
 "In a loaded rule every variable, operator, transformation and action reports the name it has in SecLang, operators and actions the argument written, the rule its id and whether its operator is negated, and there is one part for each one written, in order.",
 ["inputs","configurations"],"all documented names, all arguments","Tests look at one or two names.",
 [S+"actions.go",S+"operators.go",S+"trans.go",S+"variable.go","modsecurity/operators/compare.go"],["applyActions @ "+S+"actions.go","newOperatorCompare @ modsecurity/operators/compare.go","applyTrans @ "+S+"trans.go"],["HSecNames","HSecIds"],
 ["the ids of three chained rules, each given or not","any one of the parts of a rule varied: every variable, plain or counted; every operator, negated or not, with numbers of up to 4 digits, a sign and leading zeros and expressions of up to 5 (thorough 9) word characters; every transformation; every two actions"],["numbers with blanks around them"])
