#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (kept as a script so that the entries stay readable)."""
import json, os
T = {
"C01": ("stateful random generation of worlds; round-trip oracle plus independent reader of the text", "Worlds are built by generated operations and command lines over all characters the grammar can express; the text is also compared with what the world's getters say, so a loss on both sides is seen."),
"C02": ("model-based stateful testing of save/load/list against a map from name to world", "Directory contents outside the chosen one are compared before and after; trusts the file system of the sandbox."),
"C03": ("stateful testing with generated and enumerated storage faults (file-size limits at byte positions, failing or killed system calls)", "Each save runs in a child process with RLIMIT_FSIZE or a seccomp filter; crash means process stop, not power loss."),
"C04": ("model-based stateful testing against a reference forest", "After every operation the whole hierarchy is compared in both directions and through the text form."),
"C05": ("model-based stateful testing against a reference keyed store", "All attribute subsets, types and limits are drawn; every answer and the whole store are compared after every operation."),
"C06": ("model-based stateful testing against a reference relationship store", "Ids include the separator characters; ends are compared with the items after every operation."),
"C07": ("model-based testing of queries against definitions computed on a reference model", "All pairs of ids are queried in small worlds reached by generated histories."),
"C08": ("inverse oracle (snapshot equality) over generated command histories", "Undo is run on the executed command object; snapshots hold every attribute, parent and relationship."),
"C09": ("model-based stateful testing of sessions with undo/redo; replay-from-history oracle", "Undo and redo are reached through a build-tagged file in pkg/app; without it that part is skipped."),
"C10": ("generate-then-parse of structured commands with a reference reader; negative mutation", "The oracle is the drawn command itself; rejected lines are decided by an independent reference reader of the documented syntax."),
"C11": ("generate-then-parse of responses, worlds and trees; truncation and mutation", "The oracle is the drawn object."),
"C12": ("fuzzing of sessions with arbitrary, mutated and structured lines; totality and well-formedness oracle", "Every answer is read by the grammar and by a reader of its own; a time limit stands for termination."),
"C13": ("model-based stateful testing of command answers", "After every command the answer's code and objects and the whole world are compared with a reference model."),
"C14": ("round-trip and negative testing of generated items, relationships and trees", "Round trips are compared attribute by attribute, not through the code's own equality."),
"C15": ("metamorphic testing: permuted construction is equal, every drawn single-point difference is unequal", "Content is compared by getters, independently of the equality functions."),
"C16": ("metamorphic testing of interleavings: each object against its solo run; concurrent lanes under the race detector", "Concurrent lanes run under Go's race detector where a C compiler is present."),
"C17": ("model-based testing of branching builder chains; parse-back oracle", "Every earlier error of a chain is compared again after every derivation."),
"C18": ("model-based stateful testing mixing valid and refused operations", "After every refused operation a full snapshot is compared."),
"C19": ("mutation and truncation fuzzing of world texts; well-formedness and round-trip oracle", "Every cut position of each small generated text is tried; otherwise mutations and foreign texts."),
"C20": ("differential fuzzing: compiled web module under node against the native engine", "The module is rebuilt from cmd/wasm on each run; node stands for the browser."),
"C21": ("metamorphic testing: replay of the recorded history in a fresh session", "Recorded text is also compared with the lines that were sent."),
"C22": ("model-based stateful testing of a tree and its nodes against a reference hierarchy", "Operations are issued at every kind of node; all queries are compared after each."),
"C23": ("differential testing: the built console fed lines against the engine itself", "The terminal library is replaced by one reading a pipe; line editing and drawing are outside."),
"C24": ("metamorphic testing of console suggestions against the suggestions for nothing typed, between entered lines compared with the engine", "The terminal library is replaced as for C23; the words are those suggested with nothing typed, plus the documented first words of commands."),
}
LEVEL = {"C03": "fault_enumeration"}
checks = []
for i, (tech, note) in sorted(T.items()):
    checks.append(dict(property=i, quick_cmd="./check.sh "+i, thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,
        evidence_file="evidence/%s.json" % i, technique="property-based testing: "+tech,
        level=LEVEL.get(i, "exploration"),
        level_note=note+" Assurance is that of generated-input search: no counterexample among the cases counted in the evidence."))
m = dict(version=1, setup_cmd="./check.sh --setup",
    hooks=dict(guard="verif", enable="go build -tags verif", source_commits=["1cdf740"]),
    checks=checks, not_applicable=[],
    notes="Genuine defects found are repaired in /repo and listed in known_findings.txt. ./check.sh --replay FILE runs a replay file again.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
