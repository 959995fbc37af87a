#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the simulator knows."""
import glob, json, subprocess
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
have = subprocess.run([glob.glob("/verif/build/amqpsim-*")[0], "props"], stdout=subprocess.PIPE).stdout.decode().split()
NOTE = ("Seeded search over schedules, network behaviour and faults: every run executes the real proxy (main, all threads, asio, OpenSSL) in a simulated "
        "operating system and is judged only by what the simulated clients, brokers, authentication service and control users observed, plus crashes found by AddressSanitizer. "
        "Not exhaustive; single simulated CPU (no hardware memory reordering).")
m = {"version": 1, "setup_cmd": "./build.py",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "deterministic simulation with fault injection (seeded schedule and fault search, history oracle)",
                 "level": "exploration", "level_note": NOTE} for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo are needed: the simulator replaces libc and pthread entry points at link time and takes /repo's sources as they are."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
