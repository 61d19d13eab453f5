#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HOOKS = ["4c5539c5788ba17a7a130610a13df4890da76b2b"]
T = {
 "C01": "model-based stateful property testing: random command histories against a sequential reference store, with causal re-runs and shrinking",
 "C02": "model-based property testing of set/get histories over generated values of all types",
 "C03": "model-based fault-directed property testing: failing commands generated on purpose, whole keyspace compared before and after",
 "C04": "model-based property testing of counter histories with boundary integers and floats",
 "C05": "model-based property testing of append and length histories",
 "C06": "model-based property testing of rename and delete histories, following each unique value",
 "C07": "model-based property testing of queries, metamorphic no-change relation",
 "C08": "structured fuzzing of arbitrary and odd requests incl. reserved and empty keys, crash and hang oracle",
 "C09": "round-trip property testing builder -> wire -> parser against an independent codec",
 "C10": "metamorphic property testing: request streams under random and exhaustive splittings",
 "C11": "grammar-aware and raw byte fuzzing of the request parser, differential against an independent decoder",
 "C12": "model-based stateful testing of the request builder against a list model with limits",
 "C13": "round-trip property testing of responses against an independent codec",
 "C14": "property testing of growing prefixes plus mutated byte fuzzing of the response parser against an independent decoder",
 "C15": "exhaustive enumeration plus generated names and numbers, and behavioural probes per command",
 "C16": "model-based stateful testing of statistics, and concurrent counting campaigns",
 "C17": "generated concurrent programs under a controlled random scheduler and under real threads with noise, linearizability search against the reference store",
 "C18": "generated concurrent rename programs under a controlled random scheduler and real threads with noise, linearizability search against the reference store",
 "C19": "model-based stateful testing of the typed client API on the in-memory backend",
 "C20": "model-based testing over loopback TCP with generated pipelines and splittings",
 "C21": "differential testing of the networked against the in-memory client, with a fault-injecting fake server",
 "C22": "round-trip property testing of generated command lines, and fuzzing of arbitrary lines against an independent parser",
 "C23": "model-based stateful testing of command line processing against the reference store and an independent printer",
 "C24": "model-based stateful testing of sessions, and concurrent campaigns",
 "C25": "model-based stateful testing of subscriptions",
 "C26": "model-based stateful testing of metrics, and concurrent campaigns",
 "C27": "model-based stateful testing of timers with a generated fake monotonic clock",
 "C28": "model-based stateful testing of the keyspace and value API against an ordered map",
 "C29": "fault-injecting testing over loopback TCP: generated misbehaving connections next to well-behaved ones with a reference store",
}
NOTE = "Generated-input exploration: quick runs a fixed number of seeded cases (see evidence), thorough runs for 10 minutes. Bounds and what they leave out are in DESIGN.md and the evidence's assumptions."
CLAIMED = os.environ.get("CLAIMED", "").split() or sorted(T)
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash bin/setup.sh",
 "hooks": {"guard": "cfg(hop_verif)", "enable": "RUSTFLAGS='--cfg hop_verif' (set by bin/env.sh)", "source_commits": HOOKS},
 "checks": [{"property": p, "quick_cmd": f"bash bin/check.sh {p} quick", "thorough_cmd": f"bash bin/check.sh {p} thorough",
             "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": NOTE}
            for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in CLAIMED],
 "notes": "Each check builds the harness against /repo's working tree and runs generated cases from VERIF_SEED. Known findings are in KNOWN_FINDINGS.txt; replay files are under evidence/replays.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
