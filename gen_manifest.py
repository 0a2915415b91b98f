#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess
TECH = "deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real code, judged by an executable reference model"
NOTE = {
 "C02": "real broker and connection tasks, scripted peers, adversarial schedules; every message of every connection is matched against a reference model of call routing",
 "C03": "same simulation with an object/service heavy workload; reference model of the registry; internal maps compared through the read-only snapshot hook",
 "C04": "same simulation with an event/subscription heavy workload; exact delivery and subscription notifications per connection",
 "C05": "same simulation with a channel heavy workload incl. capacity corner cases; client level producer/consumer runs with the real Sender/Receiver",
 "C09": "faults (clean end, transport error at any operation, forced end, dropped task) at arbitrary points; statistics and internal maps compared with the model; idle and full shutdown must terminate",
 "C10": "same simulation with bus listener heavy workload; exact bus event streams incl. current/new boundaries",
 "C11": "hostile peers sending arbitrary messages of all kinds; well-behaved peers judged exactly",
 "C14": "real packetizer fed in seeded pieces through both interfaces; two real stream transports over a simulated byte pipe with short, pending, failing and ending I/O; exact frames, messages, flush guarantees, no stall",
 "C06": "several real clients with applications that use all of the public API, over unbounded, bounded and byte stream transports; futures and handles dropped anywhere; results, unexpected messages, panics and hangs judged against what the applications did and what an observer saw",
 "C15": "the same programs with transport errors and ends at any transport operation, dropped client tasks, forced and requested shutdowns; every job of a stopped client must resolve, later ones must fail",
 "C19": "the same programs with discoverers, scopes, lifetimes, find and wait; judged by the bus history that an observer recorded",
 "C12": "handshakes in and out of range and bus traffic between peers of every supported version; own value codec judges payload conversion",
}
PURE = "; no schedule, clock, I/O, fault or second party takes part in it, so there is nothing for a simulator to control: deciding it means generating inputs (property-based testing or fuzzing), not simulation"
NA = {
 "C01": "encoding and decoding a value is a pure function of the value or bytes" + PURE,
 "C07": "decoding and skipping is a pure function of a byte string" + PURE,
 "C08": "message (de)serialisation is a pure function of a message or byte string" + PURE,
 "C13": "epoch conversion is a pure function of bytes and two versions" + PURE + " (its use between peers of different versions is part of C12)",
 "C16": "what generated code decodes is a pure function of schema and value" + PURE,
 "C17": "parsing, diagnosing and formatting a schema is a pure function of its text" + PURE,
 "C18": "formatting is a pure function of the schema text" + PURE,
 "C20": "type ids are a pure function of a layout" + PURE,
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
notes = dict(NOTE)
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "verif-hooks" in c]
m = {
 "version": 1,
 "setup_cmd": "cd /verif && ./check.sh build",
 "hooks": {"guard": "cargo feature `verif-hooks` of aldrin-broker (off by default)", "enable": "cargo build --features aldrin-broker/verif-hooks (sim/Cargo.toml feature `hooks`)", "source_commits": hooks},
 "checks": [],
 "not_applicable": [],
 "notes": "All checks run one binary (/verif/sim). VERIF_SEED selects the seed, VERIF_BUDGET overrides the search time in seconds, replay.sh replays a violation. Known findings and repaired defects: known-findings.txt. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in notes:
        m["checks"].append({"property": i, "quick_cmd": f"cd /verif && ./check.sh {i} quick", "thorough_cmd": f"cd /verif && ./check.sh {i} thorough", "technique": TECH, "level": "exploration", "level_note": notes[i], "evidence_file": f"/verif/evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
