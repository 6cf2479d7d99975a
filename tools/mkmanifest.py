#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a module in tools/checks is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TV = ("Every observation of the generated programs, run on the real compiler and machine, is validated by TLC against the executable TLA+ machine TiroCore.tla. "
      "Assurance: nothing observable in the explored programs deviates from the specification; programs are sampled (seeded), not exhaustive. "
      "Trusted: the specification, the generator's rendering of syntax trees to source text, the host driver, gcc.")
T = {
 "C01": ("trace validation against TiroCore.tla under enumerated collection schedules", "The same sessions run without collections and with a collection at every n-th allocation; all logs must be behaviours of the same specification, which has no collector. " + TV),
 "C02": ("object graph specification Heap.tla: recorded histories of the real machine validated by TLC", "Finalizers seen during every operation of random histories (and of all short histories over a menu) are compared by TLC with reachability in the specified object graph; operations that create garbage have to succeed under a small heap limit."),
 "C03": ("TLA+ storage model (Blocks.tla): recorded allocation histories validated by TLC", "Recorded addresses, sizes, alignments and totals of every allocation of the real heap are validated by TLC against the storage specification."),
 "C04": ("TLC exploration of TiroMC.tla (all host command sequences over a small world) with replay of every transition, plus trace validation of generated host sessions against TiroCore.tla", "All host command sequences up to the depth bound are explored on the specification and every transition is replayed against the real machine. " + TV),
 "C05": ("TLC exploration of TiroMC.tla (all host command sequences over a small world) with replay of every transition, plus trace validation of generated host sessions against TiroCore.tla", "All host command sequences up to the depth bound are explored on the specification and every transition is replayed against the real machine. " + TV),
 "C06": ("TLC exploration of TiroMC.tla (all host command sequences over a small world) with replay of every transition, plus trace validation of generated host sessions against TiroCore.tla", "All host command sequences up to the depth bound are explored on the specification and every transition is replayed against the real machine. " + TV),
 "C07": ("trace validation of generated host sessions with native functions of every flavour against TiroCore.tla, plus TLC exploration of TiroMC.tla with replay", "Host command sequences over a small world are explored on the specification and replayed. " + TV),
 "C08": ("trace validation of generated programs against TiroCore.tla", TV),
 "C09": ("trace validation of generated programs against TiroCore.tla", TV),
 "C10": ("trace validation of generated programs against TiroCore.tla", TV),
 "C11": ("TLC exploration of HashIndex.tla with replay of its histories, plus trace validation against TiroCore.tla", "All table layouts reachable with 5 keys (6 in the thorough tier) are model checked against the abstract dictionary; histories reaching them are replayed into the real maps and sets. " + TV),
 "C12": ("trace validation of generated host and script histories against TiroCore.tla (Api section); bulk operations decided by Bulk.tla", "Histories over containers of up to 100000 elements are compared with the sequences Bulk.tla computes. " + TV),
 "C13": ("trace validation of generated histories against Text.tla / TiroCore.tla", TV),
 "C14": ("TLC exploration of TiroMC.tla (all host command sequences over worlds of three modules) with replay, plus trace validation of generated module worlds against TiroCore.tla", "All orders of loading and using the modules of each world are explored up to the depth bound and replayed. " + TV),
 "C15": ("static rules in Static.tla evaluated by TLC on generated programs, compared with the compiler's verdict", "The accept/reject verdict of the real compiler is compared with the TLA+ definition of the static rules on generated programs with injected violations. Sampled, not exhaustive."),
 "C16": ("exact integer arithmetic in Arith.tla evaluated by TLC on operand pairs run on the real code", "Results of the real operators on enumerated boundary operands and random ones are compared by TLC with the arithmetic defined in the specification."),
 "C17": ("Equality.tla evaluated by TLC on value lists run on the real code", TV),
 "C18": ("grammar table in Precedence.tla evaluated by TLC on operator sequences run on the real parser", "All sequences of up to 3 operators (4 thorough) are grouped by the specification and compared with the values computed by the real code."),
 "C19": ("modules compiled from generated sources and modifications of them are loaded by the real machine; the outcome is judged by the rules of Bytecode.tla evaluated by TLC", "Bytecode.tla decodes the code, decides whether the module is well-formed and follows all paths of compiled code (operand stack, registers written before they are read)."),
 "C20": ("several machines run interleaved (also nested in native functions and callbacks of each other, and on threads); each log is validated against the specification of one machine", "Sessions of other checks; the logs are separated by machine and judged with TiroCore.tla, Heap.tla and Blocks.tla. " + TV),
 "C21": ("trace validation of generated host interface calls, proper and improper, against the Api section of TiroCore.tla", "Error code, answer, result and all later observations of every call are compared with the specification of the interface. " + TV),
 "C22": ("TLA+ specification of the lexical structure (Lexer.tla) evaluated by TLC on generated texts, compared with the tokens and places of the real compiler", "All pairs of token spellings in several contexts, random and damaged token sequences with nested strings, comments and multi byte characters, and byte sequences that are not UTF-8; TLC decides every text with Lexer.tla."),
 "C23": ("TLA+ specification of the grammar (Grammar.tla on top of Lexer.tla) evaluated by TLC on generated texts, compared with acceptance and the tree of the real compiler", "Random sentences of every production, damaged sentences, all token sequences of length 2 (thorough: 3) in five contexts; TLC decides every text with Grammar.tla."),
 "C24": ("TLA+ specification of descriptions (Describe.tla) and of stack traces (TiroCore.tla with traces), checked by TLC against recorded executions", "Random values built and changed by scripts, described along the way, decided by Describe.tla; random programs, host sessions and modules on machines with stack traces validated against TiroCore.tla, where every exception carries the names of the active functions."),
 "C25": ("TLA+ specification of IEEE 754 arithmetic (Float.tla) evaluated by TLC on operations with their recorded results", "Random operands of every magnitude, as literals folded by the compiler, from variables and mixed; Float.tla computes exact results with arbitrary precision and their rounding, or characterises the nearest float (quotients, roots, texts)."),
 "C26": ("TLA+ specification of the C++ interface (Cpp.tla) evaluated by TLC on recorded lists of operations", "Random lists of operations on named handles of two machines, with refused memory requests and explicit collections; Cpp.tla states every result and every error, and which native objects and callbacks must, may or must not be destroyed by each operation."),
}
NA = {
 "C30": "Accuracy of transcendental functions: TLA+ has no real analysis, a specification of them could not be evaluated; the functions delegate to the C library.",
}
claimed = [p["id"] for p in PROPS if os.path.exists(os.path.join(HERE, "tools/checks", p["id"].lower() + ".py"))]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="TIRO_VERIF_HOOKS", enable="tools/tirobuild.py compiles /repo/src with -DTIRO_VERIF_HOOKS together with harness/host.cpp", source_commits=["cc43f3a", "b866a1d"]),
         checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py " + p, evidence_file="evidence/%s.json" % p,
                      technique=T[p][0], level="model_checking", level_note=T[p][1]) for p in claimed],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "Check not built yet.")) for p in PROPS if p["id"] not in claimed],
         notes="Specifications in specs/ (TLA+, TLC). See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed:", claimed)
