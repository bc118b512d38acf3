#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
T = {
"C01": ("property-based testing: generated and exhaustively enumerated small grammars with inputs, against an Earley recogniser", "languages are compared on the inputs drawn for each grammar, not proved equal"),
"C02": ("property-based testing: structural derivation predicate and reference tree on generated parses", "every node of every tree made is compared"),
"C03": ("property-based testing: generated conflicting grammars and enumerated small ones, against an independent LL(1) analysis", "unreachable ambiguous rules that contest no cell are outside the statement and skipped"),
"C04": ("property-based testing: LL(1) grammars by construction and by enumeration, against an independent LL(1) analysis", "as C03"),
"C05": ("property-based testing: whole-table comparison with textbook FIRST/FOLLOW on generated grammars", "all 256 columns of every row are compared"),
"C06": ("property-based testing with planted flaws, and enumeration of small malformed grammars; watchdog on CPU time and heap", "the kinds of flaw are those the property lists"),
"C07": ("property-based testing: print-and-read round trip of generated grammars, exhaustive short terminals", "grammars the notation can express"),
"C08": ("metamorphic property-based testing: drawn layouts of one grammar, against an independent BNF reader", "layouts the notation allows"),
"C09": ("grammar-aware fuzzing of BNF text, and enumeration of short token strings, against an independent BNF reader", "verdicts only; the grammars read are C07/C08/C23"),
"C10": ("fuzzing: generated parsers on arbitrary and near-miss byte strings, with span and result-shape invariants; watchdog on CPU time and heap", "a hang is a case using 20 CPU seconds or 1.5 GB"),
"C11": ("metamorphic property-based testing: the same bytes through fourteen kinds of source and drawn chunkings", "readers obey the io.Reader contract"),
"C12": ("stateful property-based testing: generated call histories over shared objects, against isolated calls", "arguments are watched including the spare capacity of their slices"),
"C13": ("generated concurrent call sequences on fresh shared objects under the Go race detector, results against sequential calls", "races are seen in the schedules that ran"),
"C14": ("property-based testing: errors of generated refused inputs against the viable prefix and continuations computed by Earley", "grammars without unproductive rules; the bytes and rule names are read from the three message forms the library has; a message in other words only has to show the byte"),
"C15": ("model-based property testing: generated trees and visitors, against the walk computed from the definition", "trees up to 100000 nodes"),
"C16": ("stateful property-based testing against arrays of booleans, and enumeration of all pairs of bytes", "-"),
"C17": ("property-based testing: name maps of generated parses with drawn caller maps", "-"),
"C18": ("metamorphic property-based testing: permuted and renamed grammars", "-"),
"C19": ("differential property-based testing: generated tables against a literal interpreter", "tables on which parsing needs more than 4000 steps are not run"),
"C20": ("metamorphic and differential property-based testing: permuted meta-grammars, drawn bindings and drawn notations against an independent reader and the grammar written", "the built-in grammar's documented rule names fix what the bindings mean"),
"C21": ("differential property-based testing and enumeration of token pairs: pipeline and built example program against an independent JSON recogniser", "one known finding (see known-findings.txt) is tolerated by the exact shape of the document"),
"C22": ("property-based testing of parameterised large grammars and inputs against reference parsers", "sizes up to those listed in the rule"),
"C23": ("end-to-end property-based testing: generated BNF text and inputs against independent reading, analysis and recognition", "inputs as drawn"),
"C24": ("fault injection: readers failing at drawn points in drawn chunkings, against the injected error and good parses", "readers obey the io.Reader contract"),
"C25": ("property-based testing of cost: generated grammars and inputs pumped to 1, 8 and 64 times their size, CPU time and allocation compared", "cost above five times the proportional one, in three attempts and beyond 0.6 s or 64 MB, counts; smaller excess does not"),
"C26": ("differential property-based testing: parsers of later generations of the built-in grammar against the first, on drawn layouts and texts", "up to three generations"),
"C27": ("metamorphic property-based testing: generated grammars and equivalent rewritings of them on the same (translated) inputs", "the four kinds of rewriting listed"),
"C28": ("metamorphic property-based testing: parts of generated sentences parsed alone and replaced by other sentences of their rules", "up to three parts of a sentence"),
"C30": ("stateful property-based testing: generated kinds of call repeated hundreds to thousands of times with varied arguments, live heap and goroutines compared", "growth below 128 KB (192 KB for long inputs) is not seen"),
"C29": ("property-based testing: generated webs of references under a watchdog on CPU time and heap, verdicts against an independent LL(1) analysis", "a hang is a case using 15 CPU seconds or 1.5 GB; the unchanged tree takes milliseconds"),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert ids == sorted(T), (ids, sorted(T))
checks = [dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
  evidence_file=f"evidence/{i}.json", technique=T[i][0], level="exploration",
  level_note="Held on every case explored; nothing is proved beyond them. " + ("" if T[i][1] == "-" else "Scope: " + T[i][1] + ". ") + "Trusts the reference models in harness/, which the selftest cross-validates.") for i in ids]
m = dict(version=1, setup_cmd="./check.sh selftest", checks=checks, not_applicable=[],
  notes="One Go harness (harness/) is built against /repo's working tree by check.sh; rapid draws and shrinks the cases; 8 worker processes. See DESIGN.md. No hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
