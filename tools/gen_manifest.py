#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = {
 "T01": "content compared with a plain-string model after every call",
 "T02": "every read and bounds check judged against the content, exhaustively at chosen contents",
 "T03": "differential monitor: two differently produced buffers asked the same questions and edited alike",
 "T04": "text and cursor compared with a plain-string model around every edit, undo and redo",
 "M01": "Miri, AddressSanitizer with LeakSanitizer and valgrind memcheck over random histories; strings validated",
 "R01": "panic, hang and state monitor over calls with out-of-range arguments and stale cursors",
 "U01": "undo and redo compared with recorded texts of the history",
 "U02": "group-aware history model compared after every undo and redo",
 "U03": "modified flag judged from the text and history point last synchronised with the disk",
 "U04": "callback monitor: text before the earliest reported position compared before and after",
 "C01": "placement monitor against the positions that the text has",
 "C02": "movement monitor with a model of the desired column",
 "F01": "files compared byte for byte, with interposed short and interrupted reads and writes",
 "F02": "fault injection at every system call of load, save and reload; memory state compared",
 "F03": "replacement and reload monitor: text, cursor rule, kept attributes, undo",
 "F04": "folder tree (contents, modes, owners, inodes, link targets) compared around every file operation, with injected failures",
 "F05": "open descriptors, mappings, process state and leftover files looked at after every file operation, with injected failures",
 "E01": "errors compared with the injected system error, or with that of the same steps outside of the library",
 "M02": "allocator monitor: bytes held compared after geometrically growing numbers of repetitions",
 "Q01": "differential monitor: a recorded history repeated without and with many interleaved questions",
 "D01": "differential monitor: the same histories in processes with odd environments, compared observation by observation",
 "P01": "instructions counted (callgrind) per call at sizes n and 4n, and with short and long histories",
 "U05": "callback monitor that uses the shared store while a change is announced, compared with the text left behind",
 "I01": "differential monitor: recorded histories repeated while other buffers are in use, in turns and on threads",
 "W06": "state, set and disk compared after creating workspaces in many ways",
 "S01": "results compared with an independent search of the content",
 "K01": "tokens concatenated and read back from their positions",
 "K02": "scopes compared with an independent replay of the parser's events",
 "K03": "failing syntaxes at enumerated lines; errors and earlier tokens judged",
 "L01": "lines compared with an independent split of the text",
 "G01": "algebraic laws asserted on sampled values, distances against real insertions",
 "W01": "model of order and selection compared after every operation",
 "W02": "every buffer's full state compared whenever it is visited",
 "W03": "inode and canonical-path monitor over opens, with injected failures",
 "W04": "syntax of every buffer judged by an independent lookup",
 "W05": "paths compared with an independent computation",
 "F06": "system calls of single library calls intercepted (syscall user dispatch) and judged",
 "R02": "stack painted before each call and looked at after it, at sizes n and 4n, tail calls kept",
 "M03": "allocator monitor: peak per call at sizes n and 4n, and bytes held after N and 4N edits, compared",
 "A01": "allocator event monitor counting storage replacements",
}
FAULT = {"E01", "F02", "K03", "W03"}
GENERAL = ("Violations are sought by monitors on executions of the real code: no violation occurred in the random and directed "
           "histories run (counts and samples in the evidence). Trusts the harness's reference model, ")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    note = GENERAL + "unicode-segmentation and the standard library; what was not executed is not covered."
    if p == "M01":
        note = ("No report by Miri (small histories), AddressSanitizer/LeakSanitizer or memcheck (larger ones) on the paths executed. "
                "Trusts these tools; what was not executed is not covered.")
    if p in ("K01", "K02", "K03"):
        note = GENERAL + "the syntect parser (scopes are relative to it) and unicode-segmentation; what was not executed is not covered."
    if p in FAULT:
        note += " Within each history the failing calls are enumerated completely; the histories are sampled."
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "runtime monitoring: " + ORACLE[p] if p != "M01" else "sanitizers: " + ORACLE[p],
        "level": "fault_enumeration" if p in FAULT else "exploration",
        "level_note": note,
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo are needed. See DESIGN.md; findings in known-findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
