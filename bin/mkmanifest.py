#!/usr/bin/env python3
"""Regenerates MANIFEST.json; CLAIMED grows as checks are finished."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "generated programs of the language (500 of the core and 500 of much more of it in the quick tier, 40000 in the thorough one): weaves, nesting, labels, flows with parameters, threads, tunnels, references, recursion, lists, constants, alternatives, conditionals, tags, glue, escapes, and every spelling and layout of them; and every pair of 23 constructs in 9 places; compiled and played along every choice to a depth with a host variable of any value, against a reference interpreter of the statements: lines, tags, choices, variables, visit counts",
    "C20": "the CLI's play loop and its JSON output over scripted worlds: stories with any texts, tags and inputs, read and write failures; every output document parsed and compared with what the library said",
    "C02": "template stories (choices, text, tunnels/threads, lists, random, functions, flows, faults) x every save point x symbolic choices and globals; bounds in the evidence",
    "C03": "two plays with symbolic choices and host values under different hash-map orders, hash keys and story seeds; repeated-construction saves; release and debug flavours",
    "C13": "message kinds x handler arrangements x host histories: every delivery counted, errors stop until reset or redirect",
    "C18": "allocation balance of the real allocator calls over create-play-drop histories; growth over repeated resets and loads",
    "C05": "all 121 (source, reference) pairs in lockstep along every choice path to a depth (choices are solver decisions); lines, tags, choices, globals, external calls compared",
    "C08": "virtual clock with decided pauses: every single pause position and pause-everywhere schedule of bounded plays of ten stories, against blocking play; refused calls while paused",
    "C11": "observers added, removed and polled around every continue and host operation of bounded histories; every notification compared with before/after values",
    "C12": "recorded external calls (symbolic arguments and results; safe, unsafe, fallback, unbound) against the sequence the source prescribes",
    "C04": "64 fault statements over operands of every type and all ints, in knots, functions and flows, and bounded host-call histories with arbitrary arguments, in the overflow-checked build; reset afterwards against a fresh story; 32-bit wrap-around for all ints in both builds",
    "C07": "every operator and function over all ints, floats, bools, strings, lists and divert targets, pairs of operators with precedence, mixed types and literals, against an independent evaluator, under two hash-map orders",
    "C15": "stories and saves with any characters replaced, inserted or missing at any position, every node changed, and nesting up to 20000, under both loaders; reset after a refused save against a fresh story",
    "C09": "26 kinds of rejected call at every point of bounded histories of the templates, lockstep with an undisturbed twin incl. saves, flows and observers",
    "C10": "every interleaving of bounded host operations over up to three flows against solo runs, with saves and removals",
    "C16": "host function evaluation (symbolic arguments) at every point of bounded histories, lockstep with an undisturbed twin",
    "C06": "corpus and template sources, sources with any bytes in any place of a construct, token and statement sequences, moved lines, every use of every kind of name, nesting to 4000: no panic, named lines exist, the output loads, an independent resolver finds every reference, compiled twice under different hash-map orders is equal",
    "C14": "both loaders of one build on every corpus and template document (re-escaped, re-laid out, any characters, any numbers in any place): trees, lists and texts compared node by node, and play under both builds",
    "C19": "every object of every corpus and template story: path, text form, relative paths between pairs, hashes; all path texts and component sequences to a length; positions in saves and path strings",
    "C17": "reset after every bounded history (errors, flows, loads, jumps, evaluations) against a new story; call-stack reset jumps",
}
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"]
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup.sh",
         hooks=dict(guard="cfg(verif_hooks)", enable="RUSTFLAGS=--cfg verif_hooks (bin/check.py, for the flavours hook and hookstream; the others build without it)", source_commits=["4003757"]),
         checks=[dict(property=p, quick_cmd=f"python3 bin/check.py {p} --tier quick", thorough_cmd=f"python3 bin/check.py {p} --tier thorough",
                      technique="symbolic execution of the code's LLVM IR with Z3 deciding every branch and assertion; counterexamples replayed natively",
                      level="model_checking", level_note=NOTE[p]) for p in ids if p in CLAIMED],
         not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in ids if p not in CLAIMED],
         notes="engine/ = symbolic executor, harness/ = assertions over the real code, bin/spec.py = entries and bounds; see DESIGN.md")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
