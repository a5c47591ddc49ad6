#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties whose check is quiet on the current tree."""
import json
T = {
 "C01": "exhaustive bounded enumeration of specifications and values on the real generated code against a reference model",
 "C02": "exhaustive bounded enumeration of specifications and values, generated encoder compared with an executable reference model",
 "C03": "exhaustive exploration of all byte strings up to a length plus all single mutations, generated decoder compared with the reference model",
 "C04": "enumeration of every truncation point and every read-failure point",
 "C05": "enumeration of every split of the input over reads, interruptions included",
 "C06": "enumeration of every short write and every write-failure point",
 "C07": "stateless exploration of all poll schedules (ready, pending, partial) of the generated futures",
 "C08": "exhaustive enumeration of conditions, presence patterns and values against the reference model",
 "C09": "exhaustive enumeration of calculated fields and values against the reference model",
 "C10": "exhaustive enumeration of all representation values (8 and 16 bit) and boundary values against the reference model",
 "C11": "exhaustive enumeration of expression trees up to a depth and their operand values against the reference model",
 "C12": "exhaustive enumeration of constant expressions up to a depth against the reference model",
 "C13": "exhaustive enumeration of transform stacks, values, read splits and short writes against the reference model",
 "C14": "exhaustive enumeration of delimiting rules and input byte strings against the reference model",
 "C15": "exhaustive enumeration of encodings and values of the prelude types against the reference model",
 "C16": "exhaustive enumeration of parameter lists, argument lists and nesting against the reference model",
 "C17": "exhaustive enumeration of tagged enum shapes, values and input byte strings against the reference model",
 "C18": "exhaustive enumeration of texts over a lexical alphabet, real tokenizer compared with a reference tokenizer",
 "C19": "exhaustive enumeration of token sequences and derivations, real parser compared with a reference parser",
 "C20": "exhaustive enumeration of texts, token sequences and single mutations of specifications on the real front end",
 "C21": "exhaustive enumeration of bounded programs, verdict compared with a reference checker",
 "C22": "exhaustive enumeration of import graphs, real resolution compared with a reference model",
 "C23": "exhaustive enumeration of specifications and option combinations, each compiled",
 "C24": "exhaustive enumeration of declaration orders, layouts and processes, outputs compared",
 "C25": "exhaustive exploration of call sequences with injected faults against a reference model of the output directory",
 "C26": "exhaustive enumeration of inconsistent values against the reference model",
 "C28": "exhaustive enumeration of faults, surroundings and layouts, reported position compared with the place of the fault",
 "C27": "exhaustive enumeration of the placements of declarations of one name and of its uses against the reference model",
}
NOTE = {
 "codec": "Every specification of the listed families within the bounds of DESIGN.md is compiled by the code under test, its generated Rust is compiled and run, and every execution within the bounds is compared with an independent reference model of the language. Trusted: rustc, the reference model (rt/src/sem.rs), the in-memory readers and writers. Says nothing about specifications outside the families or values outside the alphabets.",
 "front": "Every input of the enumerated space is given to the real front end in process and the answer compared with an independent reference. Trusted: the reference implementation in drv/src. Says nothing about inputs beyond the bounds in DESIGN.md.",
}
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28".split()
NA = {}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in props:
    if i not in CLAIMED: continue
    checks.append({"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i, "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "model_checking",
        "level_note": NOTE["front" if "C18" <= i <= "C25" or i == "C28" else "codec"]})
na = [{"property": i, "reason": NA.get(i, "The check of this property is still being built.")} for i in props if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public interface of protospec-build and the code it generates."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
