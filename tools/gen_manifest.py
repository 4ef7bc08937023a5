#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
DIFF = "runtime monitoring: the real engine runs generated workloads while an independent reference model checks every answer"
N = {
 "C01": (DIFF + "; permutations and extensions of rule lists", "random rule lists; every list field returned is compared with the reference and with rule-by-rule checks"),
 "C02": (DIFF + "; exhaustive short patterns and prefix lengths", "all wildcard patterns up to 3 (thorough 4) characters over 4 symbols, all CIDR lengths with single-bit flips, plus random names and subnets"),
 "C03": (DIFF + "; product of documented words", "product of operations x methods and protocols x resources, plus random whole rules"),
 "C04": (DIFF + "; equivalent rewritings", "all AND/OR/NOT trees of height 2 over constants, random deeper trees with rewritings and operand-by-operand evaluation"),
 "C05": (DIFF + "; product of attributes, methods and values", "product over 22 attributes, all methods and fixed values, plus random messages; negation pairs checked on the engine"),
 "C06": (DIFF + "; product of value types, methods, spellings", "product over 34 document values, all methods and rule values in three document forms, plus random documents"),
 "C07": (DIFF + "; quantifier laws", "random documents and nested quantifiers up to depth 4, each also rewritten by the quantifier laws"),
 "C08": (DIFF + " including returned data", "random trees with return values; data compared as ordered lists where order is defined"),
 "C09": ("runtime monitoring: answers for several layouts and representations of one document are compared with each other and with the reference", "random rules and documents, six representations each; whole objects and arrays as values as well"),
 "C10": (DIFF + " with substitution done by the oracle; call histories", "random definitions, references and sequences of preparations"),
 "C11": ("runtime monitoring of save/reload histories: chains of YAML/JSON/BSON conversions with field, hash and decision comparison", "random rules with hostile texts, chains of up to 5 conversions before and after use"),
 "C12": ("runtime monitoring: hashes of rewritten (equal) and mutated (different) rules compared", "all trees up to two levels (and part of three) over four conditions, then random rules with random rewritings and every kind of single-field mutation"),
 "C13": ("runtime monitoring of call histories: snapshots of messages and rules and first answers re-checked after random API call sequences", "random histories of 10 to 40 calls on shared rules and messages"),
 "C14": ("race detector (-race) with concurrent workloads on shared rules and messages; results compared with sequential ones", "eight processes, many rounds of goroutines mixing all read operations; schedules are those the scheduler produced"),
 "C15": ("runtime monitoring with fuzzed and mutated inputs: panics, fatal errors and hangs are caught in child processes", "mutations of valid texts and documents through every public operation"),
 "C16": ("runtime monitoring: grammar-based valid rules must be accepted, rules with one planted defect must be rejected", "random valid rules and 21 kinds of defects, each with many variants, planted at random depth"),
 "C17": ("runtime monitoring: translated queries are run by an independent query evaluator and compared with the answers of the engine", "random translatable trees and document collections; the database itself is replaced by the evaluator"),
 "C18": ("runtime monitoring: trees with one untranslatable construct must be refused; translations compared over call histories", "random trees and depths for every unsupported construct"),
 "C19": ("runtime monitoring: the report is rebuilt from single checks and from the reference", "random message and rule lists"),
 "C20": ("runtime monitoring: loaded fields compared with the written ones and with independently derived attributes", "random message lists, valid and invalid"),
 "C21": (DIFF + " using exact rational arithmetic", "all 21 x 21 suffix pairs with equal and neighbouring quantities, all order methods, plus texts which are no numbers"),
 "C22": ("runtime monitoring: file loaders compared with text loaders and with the written content", "random rules, messages, definitions and bytes in files of up to several hundred kilobytes, whole or cut"),
 "C23": ("runtime monitoring: descriptions and lower-cased fields compared with the written rule", "random rules with absent fields and trees up to depth 4, before and after preparation and use"),
 "C24": ("runtime monitoring: parts of rules tested alone compared with rules in which only that part is restricted, across all ways to prepare them", "random lists of 1-4 rules with trees up to depth 4, with and without references"),
 "C25": ("runtime monitoring: answers for pairs of messages which agree in everything the rules name are compared with each other", "random lists of 1-3 rules; all other attributes, labels and document parts drawn anew, removed or damaged"),
}
ONLY = os.environ.get("ONLY")
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    tech, note = N[p]
    checks.append({"property": p, "quick_cmd": "bash run.sh " + p, "thorough_cmd": "bash run.sh " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none: the checks observe the engine through its public functions only", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Every check builds harness/cmd/monitor against /repo's working tree and runs it in eight child processes. Case lists are fixed by VERIF_SEED and VERIF_TIER; no verdict depends on time except a 240 s no-progress watchdog for endless loops. Fixed defects and open findings are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
