#!/usr/bin/env python3
"""Writes MANIFEST.json: every property which lib/checks*.py decides is
claimed; the rest are listed as not applicable, with the reason given here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

TECH = {
 "C01": "TLA+ pipeline machine (Pipeline.tla), TLC replays: results of real runs must be results of the machine",
 "C02": "TLA+ pipeline machine, TLC trace validation of recorded trace events; TLA+ history machine for trace functions",
 "C03": "TLA+ pipeline machine; TLC-enumerated words replayed into the code",
 "C04": "TLA+ pipeline machine; TLC-enumerated words replayed into the code",
 "C05": "TLA+ pipeline machine; TLC-enumerated words replayed into the code",
 "C06": "TLA+ pipeline machine; TLC-enumerated words replayed into the code",
 "C07": "TLA+ pipeline machine; TLC-enumerated words replayed into the code",
 "C08": "TLA+ jamo machine (Jamo.tla); TLC-enumerated sequences replayed into the code",
 "C09": "TLA+ HRE matcher (Hre.tla); TLC decides every match of real runs",
 "C10": "TLA+ HRE matcher (Hre.tla); TLC decides every replacement of real runs",
 "C11": "TLA+ HRE matcher (Hre.tla) with the veto invariant; TLC decides every match of real runs",
 "C12": "TLA+ HSL machine (Hsl.tla); TLC-enumerated documents and trace validation of generated ones",
 "C13": "TLA+ HSL machine with faulty readers (Hsl.tla); TLC-enumerated and mutated documents",
 "C14": "TLA+ HSL machine and spec loader (SpecFile.tla); TLC decides the loaded spec",
 "C15": "TLA+ pipeline machine on the bundled specs; TLC totality invariants on real runs",
 "C16": "TLA+ pipeline machine on the bundled specs; TLC replays every example",
 "C17": "TLA+ history machine: one answer per spec and word, over processes, loads and orders",
 "C18": "TLA+ linearizability machine (Conc.tla) over recorded concurrent histories; race detector builds",
 "C19": "TLA+ registry machine (Api.tla); TLC-generated histories replayed into the code",
 "C20": "TLA+ registry machine (Api.tla); TLC-generated histories replayed into the code",
 "C21": "TLA+ registry machine (Api.tla); TLC-generated histories replayed into the code",
 "C22": "TLA+ registry machine (Api.tla); TLC-generated histories replayed into the code",
 "C23": "TLA+ kana machine (Furigana.tla); TLC-enumerated texts replayed into the code",
 "C24": "TLA+ morpheme assembler (Furigana.tla); TLC validates recorded analyses and outputs",
 "C25": "TLA+ pinyin scanner (Pinyin.tla); TLC replays real outputs",
 "C26": "TLA+ longest-match scanner (Cyrillic.tla); TLC-enumerated texts replayed into the code",
 "C27": "TLA+ command machine (Cli.tla); TLC-generated sessions replayed into the real binary",
 "C28": "TLA+ test and coverage machine (Cover.tla); TLC validates sessions of the real binary",
 "C29": "TLA+ promise machine (Wasm.tla); TLC-generated sessions replayed into the wasm build under node",
 "C30": "TLA+ formatter machine (Tracefmt.tla); TLC replays real output",
 "C32": "TLA+ module machine (Modules.tla) over the transliterators' machines; TLC-generated sessions replayed into the real wasm builds under node",
 "C31": "TLA+ inventory machine (Inventory.tla); TLC validates the real programs' output",
}
NOTE_BASE = ("Bounded: the specification is checked and compared with the real code on every case the run enumerates or "
             "generates from VERIF_SEED, not on all. Trusted: TLC, the Python generators and renderers, Go's unicode tables (facts).")
NOTE = {}
try:
    NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
except OSError:
    pass
NA = {}

checksl, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if any(hasattr(m, p) for m in checks.MODS) and p not in NA:
        checksl.append({"property": p, "quick_cmd": "python3 check.py " + p,
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                        "evidence_file": "evidence/%s.json" % p, "technique": TECH[p],
                        "level": "model_checking",
                        "level_note": (NOTE.get(p, "") + " " + NOTE_BASE).strip()})
    else:
        na.append({"property": p, "reason": NA.get(p, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checksl, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; real code driven by driver/main.go (overlay build), "
              "the real command line and the real wasm build. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checksl), "claimed;", [x["property"] for x in na])
