#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
 "C08": "rule trees up to depth 4 and 10 keys per rule",
 "C11": "up to 4 extensions of up to ~8 kB per upload",
 "C16": "Token Metadata and the token programs are stubs that keep holder and delegate bookkeeping",
 "C17": "Token Metadata and the token programs are stubs that keep holder and delegate bookkeeping",
 "C19": "Rust client and interface crates; the JavaScript clients are C22",
 "C20": "Rust types and client crates; the JavaScript clients are C23",
 "C22": "the umi library the clients are built on is not installed here and is a stand-in (js/lib)",
 "C23": "the umi library the clients are built on is not installed here and is a stand-in (js/lib)",
}
checks = []
for r in rows:
    i = r["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection (seeded search over histories, schedules and faults, judged against a reference model)",
        "level": "exploration",
        "level_note": "Seeded random search, not exhaustive: holds on every simulated history that was run; real program code on a simulated ledger"
                      + ("; " + NOTE[i] if i in NOTE else ""),
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "cfg(nifty_dst)",
  "enable": "RUSTFLAGS='--cfg nifty_dst' (build.sh)",
  "source_commits": ["041d1d1"],
 },
 "checks": checks,
 "not_applicable": [],
 "notes": "All checks share one simulator binary (sim/); a failing run writes replays/<id>-*.json, replayed with target/release/nifty-dst replay <file>.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
