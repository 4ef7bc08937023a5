#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (one JSON object per line)."""
import json, os
E = "MAPL_engine/"
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [f if "/" in f else E + f for f in files],
         "mechanism": [{"name": n, "where": E + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": E + w} for n, m, w in state]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

L = []
L.append(P("C01", "Most restrictive applicable rule decides, independent of rule order",
 "For any message and any list of rules, the decision is the most restrictive (block over alert over allow) among the rules that apply when checked one by one, and the 'block by default' outcome when none applies. The per-rule outcomes, the positions of the rules that applied, the deciding rule (the first one carrying the winning decision, or none), its description and the decision text all agree with checking every rule alone. Reordering the rules permutes the per-rule outcomes and leaves the decision unchanged, and adding a rule never makes the decision less restrictive.",
 ["inputs", "configurations"], "every message, every rule list (any length, any mixture of decisions, duplicates, spellings of the decision) and every permutation of it",
 "Existing tests check a few dozen fixed rule files with at most a handful of applicable rules and only compare the decision; they cannot quantify over permutations or ties.",
 ["check.go"], [("aggregation of per-rule results", "check.go:Check"), ("single rule evaluation", "check.go:CheckOneRule")],
 ["values returned by checking a rule list and by checking each rule alone"]))
L.append(P("C02", "Sender and receiver matching",
 "A rule applies only if one of its comma-separated sender names and one of its receiver names match the message under the declared type: workload names (sender/receiver service) and hostnames (request host, receiver only) must match the whole name case-sensitively with * standing for any run of characters, ? for exactly one, and every other name character for itself. Subnet entries match by address equality for a single IP and by containment for CIDR ranges, for IPv4 and IPv6; a bare * subnet matches every IPv4 address. A type other than the supported ones never matches, and a subnet entry that is neither IP nor CIDR makes the rule invalid.",
 ["inputs"], "every name list over letters, digits, '-', '/', '.', '_', '*', '?', every IP/CIDR, every supported and unsupported type, every message name/host/address",
 "Fixtures contain a handful of names; wildcard position, regex metacharacters in names, list positions, prefix-length boundaries and sender/receiver mix-ups are not swept.",
 ["check.go", "string_utils.go", "tools.go", "rules_load.go"],
 [("sender test", "check.go:TestSender"), ("receiver test", "check.go:TestReceiver"), ("name list expansion", "string_utils.go:ConvertStringToExpandedSenderReceiver"), ("IP/CIDR parsing", "tools.go:isIpCIDR")],
 ["decision of a rule whose other parts match everything"]))
L.append(P("C03", "Operation, protocol and resource matching",
 "A rule applies only if its operation matches the message's method ('*' any; 'read' exactly GET, HEAD, OPTIONS, TRACE, CONSUME, read, READ; 'write' exactly POST, PUT, DELETE, PRODUCE; otherwise a comma-separated list of whole-name patterns with * and ?), and its protocol and resource match. Protocol '*' ignores the resource; 'tcp' matches the resource name patterns against the message's destination port; any other protocol must equal the message's protocol ignoring case, with equal resource type (unless '*') and the request path matching one of the resource name patterns in full. All these tests are conjunctive with sender, receiver and conditions, and an unknown decision word never decides.",
 ["inputs"], "every operation/protocol/resource combination of a rule and every method/protocol/type/path/port of a message",
 "Tests have single examples per protocol; they never cross operations with methods, nor lists, nor anchoring of patterns, nor mixed-case protocols.",
 ["check.go", "string_utils.go", "rules_load.go"],
 [("protocol/resource comparison", "check.go:CheckOneRule"), ("operation verbs", "string_utils.go:ConvertOperationStringToRegex"), ("wildcard lists", "string_utils.go:ConvertStringToRegex")],
 ["decision of a rule whose other parts match everything"]))
L.append(P("C04", "Conditions tree is evaluated as Boolean logic",
 "For any nesting of AND, OR and NOT over conditions, the outcome equals the Boolean value computed from the outcomes of the individual conditions; operand order, double negation, De Morgan rewriting and single-operand groups never change it. Equivalent spellings of the same tree (with or without 'condition'/'conditionsTree' wrappers, a one-element list at the top, a lone map or a list as group operand) give the same outcome. A rule without conditions applies whenever its other parts match.",
 ["inputs", "programs"], "every conditions tree over AND/OR/NOT (including mixtures with ANY/ALL subtrees) and every message",
 "Tests cover a few shallow trees; nested combinations, short-circuit interaction and equivalent spellings are unbounded.",
 ["conditions_tree.go", "check.go"],
 [("AND", "conditions_tree.go:And.Eval"), ("OR", "conditions_tree.go:Or.Eval"), ("NOT", "conditions_tree.go:Not.Eval"), ("tree parsing", "conditions_tree.go:InterpretNode")],
 ["outcome of a rule's conditions on a message versus the outcomes of one-condition rules"]))
L.append(P("C05", "Conditions on message attributes",
 "A condition on payload size, user agent, hour of day, encryption type/version, domain, sender/receiver namespace/cluster or sender/receiver labels holds exactly when the attribute of the message it names relates to the value as the method says: EQ/NEQ (NE) compare numbers by value and strings as whole strings with * and ? wildcards, GT/GE/LT/LE compare numbers, for text attributes RE/NRE search a regular expression, IN/NIN test membership in a comma-separated list and EX/NEX test presence, and upper or lower case spelling of a method makes no difference. Comparing a label or namespace/cluster of the sender with one of the receiver is exact string comparison. A missing label fails every method except NEX, a missing encryption version fails every method, and every N-method is the exact negation of its positive form whenever the attribute is present.",
 ["inputs"], "every supported attribute, method (both cases), value and message",
 "Tests probe about twenty attribute/method pairs with one or two values each; the cross product and boundary values are never swept.",
 ["check.go", "rules_load.go", "string_utils.go"],
 [("attribute dispatch", "check.go:testOneCondition"), ("label tests", "check.go:testSenderLabelCondition"), ("comparators", "check.go:compareIntFunc"), ("value preparation", "rules_load.go:ConvertConditionStringToIntFloatRegex")],
 ["decision of a rule with one condition"]))
L.append(P("C06", "Conditions on the JSON document",
 "A condition on a path into the message's JSON document holds exactly when the value found there satisfies the method: EQ/NEQ (NE) compare by numeric value if both sides are numbers and by exact text otherwise, GT/GE/LT/LE need two numbers, RE/NRE search a regular expression in the text, IN/NIN test membership in the listed items, EX/NEX test presence, in either case spelling. When nothing (or null, an empty string, or an empty array) is found at the path every method fails except NEX, and without any document every method fails. Dotted, leading-dot, bracket-quoted and integer-indexed spellings of the same path are equivalent.",
 ["inputs"], "every JSON document (strings, numbers, booleans, nested objects and arrays), every supported path spelling, method and value",
 "Tests use a few Kubernetes documents and fixed paths; the product of value types, methods and path spellings, and missing intermediates, is not covered.",
 ["check.go", "rules_load.go", "string_utils.go"],
 [("document condition", "check.go:testJsonPathCondition"), ("decoded document condition", "check.go:testJsonPathConditionOnInterface"), ("path normalisation", "rules_load.go:handleJsonpathAttribute")],
 ["outcome of a rule with one document condition"]))
L.append(P("C07", "ANY and ALL quantify over exactly the selected elements",
 "ANY holds iff at least one element selected by its parent path satisfies the inner conditions, ALL iff every selected element does (true when nothing is selected), where the elements of an array are its items (the items of its items, one level down, when all of them are arrays) and the elements of an object are its key/value pairs. Inner $RELATIVE, $KEY and $VALUE paths refer to the element of the innermost enclosing ANY/ALL, absolute paths always to the whole document, also after a nested ANY/ALL finished; a comma-separated parent selects the union, and a recursive-descent parent selects the elements of every matching array. ALL(c) is equivalent to NOT ANY(NOT c) and ANY distributes over OR of its inner conditions.",
 ["inputs", "programs"], "every JSON document holding arrays of objects/strings/numbers/arrays or objects, and every nesting of ANY/ALL with AND/OR/NOT inside",
 "Fixtures hold a dozen documents; nested quantifiers, brackets in strings, scalar elements, empty and missing arrays and restoration of the enclosing element are not explored.",
 ["conditions_tree.go", "check.go"],
 [("ANY on text", "conditions_tree.go:evalAnyRawBytes"), ("ANY on decoded", "conditions_tree.go:evalAnyRawInterface"), ("ALL on text", "conditions_tree.go:evalAllRawBytes"), ("ALL on decoded", "conditions_tree.go:evalAllRawInterface"), ("element selection", "check.go:getArrayOfJsons"), ("element selection", "check.go:getArrayOfInterfaces")],
 ["outcome of a rule with ANY/ALL conditions"]))
L.append(P("C08", "Returned values are those of the elements that satisfied the rule",
 "When a rule with return-value paths applies, the returned data holds, for ANY, exactly one entry per satisfying element with the named values read from that element (the whole element for '$RELATIVE*'), and for a plain condition one entry with the values read from the document. OR concatenates the data of its true operands in order, AND yields the data of the last operand that produced any, and NOT and ALL yield none. A rule that does not apply returns no data.",
 ["inputs", "programs"], "every conditions tree with return-value paths and every document",
 "Tests pin the data for a few documents; counts, order, mixing between elements and leakage from failed operands are not quantified.",
 ["conditions_tree.go", "check.go", "definitions_rule.go"],
 [("ANY data collection", "conditions_tree.go:evalAnyRawInterface"), ("value extraction", "check.go:getExtraDataFromInterface"), ("value extraction", "check.go:getExtraDataFromByteArray"), ("OR merge", "conditions_tree.go:Or.Eval")],
 ["extra data returned by checking a rule"]))
L.append(P("C09", "Raw and decoded documents give identical outcomes",
 "For any rule and any JSON document, supplying the document as raw JSON text or as a decoded structure (or both) gives the same decision and the same returned values. Insignificant whitespace, key order and escaping in the JSON text never change the outcome.",
 ["inputs", "configurations"], "every rule accepted by validation and every JSON document in the supported value domain, in every textual layout",
 "Tests run a few documents through both representations; the two code paths use different JSON libraries and can drift apart on any document shape.",
 ["check.go", "conditions_tree.go"],
 [("text path", "check.go:testJsonPathCondition"), ("decoded path", "check.go:testJsonPathConditionOnInterface"), ("text elements", "check.go:getArrayOfJsons"), ("decoded elements", "check.go:getArrayOfInterfaces")],
 ["decision and data for both representations of one document"]))
L.append(P("C10", "Predefined strings and lists substitute exactly",
 "A rule that refers to a predefined string or list (as sender name, receiver name or condition value) behaves identically to the rule with the text written out: a string by its text, a list by its comma-joined items (alternatives for RE/NRE), list items that refer to predefined strings being resolved first and a list taking precedence over a string of the same name. A reference to an undefined name is reported as an error when the rule is prepared and such a rule never applies to any message, and definitions whose list items refer to undefined strings are rejected. The referring rule itself is left unchanged, so preparing it again with other definitions uses the new ones only; definitions given to a rule win over the global ones, which are used otherwise.",
 ["inputs", "configurations", "histories"], "every set of definitions, every reference position and every sequence of preparations",
 "Tests use two definition files; re-preparation, precedence, missing references, and the method dependence of list expansion are not enumerated.",
 ["rules_load.go", "predefined_lists_load.go"],
 [("rule substitution", "rules_load.go:ReplaceStringsAndListsInOneRule"), ("condition substitution", "rules_load.go:ReplaceStringsAndListsInCondition"), ("list resolution", "predefined_lists_load.go:validatePredefinedString"), ("preparation on a copy", "rules_load.go:SetPredefinedStringsAndLists")],
 ["decisions and errors"], [("global definitions", "process-wide defaults", "rules_load.go:GlobalPredefinedStringsAndLists")]))
L.append(P("C11", "Saving and reloading a rule preserves it",
 "A rule written as YAML or as the equivalent JSON, and a rule stored as JSON or BSON and read back any number of times, is the same rule: same identifier, fields, metadata and conditions, same hash, and the same decision and returned values on every message. This holds before and after the rule was prepared or used, and for any characters in condition values (quotes, backslashes, control characters, non-ASCII) and any scalar type of the value (number, boolean, string).",
 ["inputs", "histories"], "every rule, every chain of YAML/JSON/BSON conversions, before and after use",
 "Tests round-trip a few fixed rules without special characters and never evaluate the reloaded rule.",
 ["conditions_tree.go", "definitions_rule.go", "rules_load.go"],
 [("JSON form of a condition", "definitions_rule.go:Condition.MarshalJSON"), ("JSON form of ANY/ALL", "conditions_tree.go:Any.MarshalJSON"), ("BSON form", "conditions_tree.go:ConditionsTree.MarshalBSON"), ("parsing", "conditions_tree.go:ConditionsTree.UnmarshalJSON")],
 ["reloaded rules, their hashes and decisions"]))
L.append(P("C12", "Rule hash identifies the rule's meaning-bearing content",
 "The hash of a rule and of its conditions does not depend on the order of AND/OR operands at any depth, on single-operand groups, on the letter case of decision, protocol, operation and sender/receiver type, on rule identifier or metadata, nor on whether the rule was prepared or used. It changes when a sender, receiver, protocol, resource, operation, decision, or any condition's attribute, method, value, grouping, quantifier, parent path or quantifier return value changes. Two rules are reported as having equal conditions iff their condition hashes agree.",
 ["inputs", "histories"], "every rule, every permutation/rewriting of it and every single-field mutation",
 "Tests compare hashes of a few fixed rules.",
 ["rules_load.go", "conditions_tree.go", "definitions_rule.go"],
 [("canonical text", "conditions_tree.go:AndOrString"), ("rule text", "rules_load.go:RuleToString"), ("hashes", "rules_load.go:RuleMD5Hash"), ("comparison", "rules_load.go:ConditionsEqual")],
 ["hash strings and equality answers"]))
L.append(P("C13", "Checking is pure: outcomes do not depend on history",
 "Checking a message against rules changes neither the message nor the observable content of the rules (text, hash, stored form), and the same check gives the same answer regardless of how many other checks, hash computations, query translations, validations, saves or re-preparations with the same definitions happened before. The outcome for one rule or message never depends on which other rules or messages are processed with it.",
 ["histories"], "every sequence of API calls on shared rules and messages",
 "Tests build fresh rules for every assertion, so state carried between calls is never observed.",
 ["check.go", "conditions_tree.go", "rules_load.go"],
 [("prepared copy", "rules_load.go:SetPredefinedStringsAndLists"), ("restoring the enclosing element", "conditions_tree.go:evalAnyRawInterface")],
 ["answers and snapshots of rules/messages before and after"],
 [("prepared rule", "cached copy used for evaluation", "definitions_rule.go:Rule"), ("relative element", "current ANY/ALL element", "definitions_message.go:MessageAttributes")]))
L.append(P("C14", "Concurrent checking is race-free and equals sequential checking",
 "Any number of goroutines may check messages against shared rules (prepared in advance or not), share the same message, translate rules to queries, validate and load rules at the same time, and compute hashes of rules that were prepared in advance; each call returns exactly what it returns when run alone. No data race occurs.",
 ["schedules"], "every interleaving of concurrent evaluations over shared rules and shared messages",
 "The test suite is single threaded and runs without the race detector.",
 ["check.go", "conditions_tree.go", "rules_load.go", "rule_mongo_plugin.go"],
 [("on-demand preparation", "check.go:CheckOneRule"), ("element context during ANY/ALL", "conditions_tree.go:Any.Eval")],
 ["race detector reports and result comparison"],
 [("prepared rule", "lazily filled cache inside a rule", "definitions_rule.go:Rule"), ("relative element", "current ANY/ALL element", "definitions_message.go:MessageAttributes")]))
L.append(P("C15", "No input crashes the engine",
 "Loading any rule, message or definition text and checking, hashing, printing, validating, saving or translating any rule that loaded, against any message (missing attributes, missing, malformed or unexpectedly shaped documents), returns normally with a result or an error. A rule that cannot be prepared never applies to any message.",
 ["inputs", "fault_sequences"], "every text and every document, including malformed and mutated ones, for every public operation",
 "Tests feed well-formed fixtures; a crash in the policy engine takes the enforcement point down with it.",
 ["check.go", "conditions_tree.go", "definitions_rule.go", "rules_load.go", "validate_conditions.go", "mongo_plugin.go", "messages_load.go"],
 [("tree parsing", "conditions_tree.go:InterpretNode"), ("condition parsing", "definitions_rule.go:ReadCondition"), ("preparation failure", "rules_load.go:SetPredefinedStringsAndLists"), ("element selection", "check.go:getArrayOfInterfaces")],
 ["absence of panics, results"]))
L.append(P("C16", "Validation accepts exactly the supported conditions language",
 "Every rule built from supported attributes, methods, value types and node types is accepted by loading and validation. Rules with an unknown attribute or method, a number method with a non-number value or on a label or namespace/cluster, an unsupported encryption-version method, an invalid regular expression, an empty membership value, a malformed label name, a document path with a wrong prefix, a sub-path of $KEY, a slice, wildcard, negative, or non-integer index, an ANY/ALL without a valid parent path or without exactly one inner condition, a NOT without exactly one operand, an AND/OR without operands, an unknown node type, a condition with missing or unknown fields, a return value outside the element, several conditions without a grouping operator, an invalid subnet, or a condition value referring to an undefined name are rejected with an error by loading or by validation. Validation does not modify the rule and gives the same verdict every time, and a rules file with duplicate keys is rejected.",
 ["inputs"], "every rule in and just outside the supported language",
 "Tests list about thirty invalid examples; the grammar and its neighbourhood (e.g. the same defect nested deeper or in another node type or method case) are unbounded.",
 ["validate_conditions.go", "conditions_tree.go", "rules_load.go"],
 [("condition validation", "validate_conditions.go:ValidateOneCondition"), ("tree validation", "conditions_tree.go:InterpretNode"), ("rule validation", "rules_load.go:ValidateRule")],
 ["errors from loading and validating"]))
L.append(P("C17", "Mongo query selects exactly the documents the rule's conditions accept",
 "For every rule whose conditions can be translated, running the produced filter (or pipeline) over any collection of documents stored under the given field selects exactly the documents for which the engine reports the conditions as true. This includes negation, missing fields, nested quantifiers and key/value conditions; a rule without conditions selects everything. Field names contain no dots, document texts are not empty and do not read as numbers or quantities, and rule values carry no unit suffix.",
 ["inputs", "programs"], "every translatable conditions tree and every document in the supported value domain",
 "The database tests are excluded from the runnable suite (they need a database container) and cover a fixed list of documents.",
 ["mongo_plugin.go", "rule_mongo_plugin.go"],
 [("condition translation", "mongo_plugin.go:Condition.ToMongoQuery"), ("quantifier translation", "mongo_plugin.go:All.ToMongoQuery"), ("pipeline", "rule_mongo_plugin.go:ToMongoQuery")],
 ["selected documents under a reference query evaluator versus the engine's outcome"]))
L.append(P("C18", "Mongo translation refuses what it cannot express and is reproducible",
 "Translating a rule whose conditions use something the query language mapping cannot express (attributes other than document paths, recursive descent, multiple parents, key/value conditions inside arrays, under ALL or combined with other conditions inside the same ANY, references outside the current element inside ANY/ALL, paths that name no field) returns an error and no query, at any depth of the tree. Translating the same rule repeatedly, after reloading or after checking messages gives the same query, a value given by reference gives the query of the value written out, and translation never changes how the rule decides.",
 ["inputs", "programs", "histories"], "every conditions tree containing an unsupported construct at any depth, and every call history",
 "No runnable test calls the translation at all.",
 ["mongo_plugin.go", "rule_mongo_plugin.go"],
 [("refusals", "mongo_plugin.go:Any.ToMongoQuery"), ("refusals", "mongo_plugin.go:Condition.ToMongoQuery")],
 ["errors and query text"]))
L.append(P("C19", "Coverage report agrees with the individual checks",
 "For any messages and rules, the coverage report says for every message whether any rule applies, the decision, and the identifiers and decisions of exactly the rules that apply in rule order, and for every rule exactly the messages it applies to in message order, with rules that apply to nothing listed empty. The report never attributes a result to another message or rule.",
 ["inputs"], "every list of messages and rules with distinct identifiers",
 "One fixture of a few messages; the cross-indexing is not checked against individual decisions.",
 ["coverage.go", "check.go"], [("cross indexing", "coverage.go:Coverage"), ("applied decisions", "coverage.go:findNonDefaultDecisions")],
 ["coverage report versus checking each message with each rule alone"]))
L.append(P("C20", "Loading messages keeps every field and derives the right attributes",
 "Loading messages from text or file keeps every given field unchanged and in order, and derives: seconds, minutes and hours since midnight (including fractions) from the clock time of the timestamp; the resource type (path for http, port for tcp, in upper or lower case, the given one otherwise); parsed addresses for valid IPs only; and label maps with exactly the given key/value pairs. A list with a missing or malformed timestamp is rejected, and derived attributes of one message never depend on the other messages.",
 ["inputs"], "every message list with valid or invalid fields",
 "Tests load a few files and inspect a few fields.",
 ["messages_load.go", "definitions_message.go"],
 [("time", "messages_load.go:AddTimeInfoToMessage"), ("resource type", "messages_load.go:AddResourceType"), ("addresses", "messages_load.go:AddNetIpToMessage"), ("labels", "messages_load.go:parseLabelsJsonOfMessage")],
 ["loaded message fields"]))
L.append(P("C21", "Quantities compare by numeric value including unit suffixes",
 "When the document value and the rule value both read as numbers, optionally with one unit suffix (%, m, K M G T P E, Ki Mi Gi Ti Pi Ei, e3 to e18), GT, GE, LT, LE, EQ and NEQ compare the scaled values, so the result depends only on the two quantities and not on how they are written. Exactly one of LT, EQ, GT holds, GE/LE/NEQ are the negations of LT/GT/EQ, and comparison is transitive across units. A text that is not a number with at most one suffix is not comparable: the order methods and EQ fail against a number and NEQ holds.",
 ["inputs"], "every pair of numbers with every pair of unit suffixes, every method, document value written as string or number",
 "Tests contain a handful of unit examples; 21 x 21 suffix pairs and boundaries are not swept.",
 ["string_utils.go", "check.go", "rules_load.go", "validate_conditions.go"],
 [("unit table", "string_utils.go:convertStringWithUnits"), ("number comparison", "check.go:compareFloatFunc")],
 ["outcome of one document condition"]))
L.append(P("C22", "Reading from a file equals reading its text",
 "Rules, messages and predefined definitions read from a file are exactly those read from the file's text: complete, in the order and with the fields written, and with the same verdict on malformed text. Reading rules together with definitions gives the rules prepared with those definitions, or an error and no rules if any of them cannot be prepared. A file that does not exist or cannot be read is reported as an error with no data, reading a file as bytes returns all of it, and a single message read on its own has the fields written.",
 ["inputs"], "every text of rules, messages and definitions without duplicate keys, every file name and length",
 "Tests read a few small fixture files.",
 ["rules_load.go", "messages_load.go", "predefined_lists_load.go", "tools.go"],
 [("rules", "rules_load.go:YamlReadRulesFromFile"), ("rules with definitions", "rules_load.go:YamlReadRulesFromFileWithPredefinedStrings"), ("messages", "messages_load.go:YamlReadMessagesFromFile"), ("definitions", "predefined_lists_load.go:YamlReadStringListsFromFile"), ("bytes", "tools.go:ReadBinaryFile"), ("one message", "messages_load.go:YamlReadMessageAttributes")],
 ["loaded rules, messages, definitions, bytes and errors"]))
L.append(P("C23", "Rule descriptions and lower-casing show and change exactly the right fields",
 "The description of a rule shows its sender, receiver and resource as type and name, its protocol, operation and decision as written (a default where one is absent), and for a rule with conditions the attribute, method and value of every condition and every quantifier with its parent path. It is the same before and after the rule was prepared or used. Lower-casing a rule changes only the letter case of sender, receiver and resource type, protocol, operation and decision, and leaves names, identifier, metadata and conditions as they are.",
 ["inputs", "histories"], "every rule with any field absent or in any letter case and any conditions tree, before and after use",
 "No test looks at descriptions or lower-casing beyond one example.",
 ["tools.go", "definitions_rule.go", "rules_load.go"],
 [("description", "tools.go:GetRuleStrings"), ("sides", "definitions_rule.go:Sender.String"), ("lower-casing", "rules_load.go:Rule.ToLower")],
 ["description fields and rule fields"]))
L.append(P("C24", "Parts of a rule tested alone agree with the whole check",
 "Testing only the sender, only the receiver or only the conditions of a rule gives the outcome of the rule in which everything else is unrestricted, and a rule applies exactly when its sender, receiver, conditions and remaining parts each do. This holds whether the rule was loaded or built in code, prepared in place (a whole list or one rule, with or without definitions), prepared with definitions of its own or used for the first time, and for conditions parsed, prepared and joined with AND, OR and NOT in code. Preparing reports an error exactly when a rule refers to an undefined name, and the conditions of a rule which could not be prepared never hold.",
 ["inputs", "histories", "programs"], "every rule and rule list, written with or without references, every way to prepare it and every message",
 "Tests always go through the whole check; the separate entry points have one example each or none.",
 ["check.go", "rules_load.go", "conditions_tree.go"],
 [("sender test", "check.go:TestSender"), ("receiver test", "check.go:TestReceiver"), ("conditions test", "check.go:TestConditions"), ("preparation in place", "rules_load.go:PrepareRulesWithPredefinedStrings"), ("parsing conditions", "conditions_tree.go:ParseConditionsTree")],
 ["outcome of each part and of the whole rule"]))
L.append(P("C25", "Rules depend only on what they name",
 "Two messages which agree in every attribute, label and document part that the rules of a list name get the same decision, the same applied rules and the same returned data. Everything else may differ: other attributes and labels, other fields and array elements of the document (also ones with similar names or like values), and, when no condition reads the document, its absence or its being malformed. Unrestricted fields of a rule ('*' names, operation or protocol) read nothing.",
 ["inputs"], "every list of rules and every pair of messages which differ only in what the rules do not name",
 "Tests check each rule on one message made for it; none varies what the rule is not about.",
 ["check.go", "conditions_tree.go"],
 [("whole check", "check.go:CheckOneRule"), ("attribute conditions", "check.go:testOneCondition"), ("document conditions", "check.go:testJsonPathCondition")],
 ["decision, applied rules and returned data for both messages"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        if os.environ.get("ONLY") and p["id"] not in os.environ["ONLY"].split(","):
            continue
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
