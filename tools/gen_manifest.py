#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (the checks that exist under harness/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "The real library code over a simulated asio whose every completion, delivery and clock step the explorer decides; exhaustive within the stated bounds. Trusted: the simulated asio and the stand-ins for exe4cpp/ser4cpp (upstream's own full unit tests pass against the same stand-ins over real asio)."
SEQ = "Every execution within the stated bounds runs on the real code and is compared with a reference model; nothing beyond the bounds is claimed."
THR = "All schedules up to the preemption (delay) bound, with switches at every synchronisation operation and a vector-clock race detector over every compiler-instrumented access (race-free executions differ in nothing else). Trusted: sequentially consistent atomics, the scheduler; for C20 also the simulated asio and exe4cpp."
T_SEQ = "stateless model checking: exhaustive enumeration of operation sequences and inputs on the real code against a reference model"
T_SIM = "stateless model checking of the real code in a simulated network and clock: exhaustive enumeration of histories, environment answers and schedules of queued work"
T_THR = "stateless model checking of thread interleavings: iterative preemption bounding over the real code under a controlled scheduler, with race detection"
checks = {
 "C01": (T_SIM, SIM), "C02": (T_SIM, SIM), "C03": (T_SIM, SIM), "C04": (T_SIM, SIM), "C05": (T_SIM, SIM),
 "C06": (T_SEQ, SEQ), "C07": (T_THR, THR), "C08": (T_SEQ, SEQ), "C09": (T_SIM, SIM), "C10": (T_SIM, SIM),
 "C11": (T_SIM, SIM), "C12": (T_SIM, SIM), "C13": (T_SIM, SIM), "C14": (T_SIM, SIM), "C15": (T_SIM, SIM),
 "C16": (T_SIM, SIM), "C17": (T_SIM, SIM), "C18": (T_SEQ, SEQ), "C19": (T_SEQ, SEQ), "C20": (T_THR, THR),
 "C21": (T_SEQ, SEQ), "C22": (T_SIM, SIM), "C23": (T_SIM, SIM),
}
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
out, na = [], []
for p in props:
    if os.path.exists(f"{V}/harness/{p}.cpp"):
        t, n = checks[p]
        out.append({"property": p, "quick_cmd": f"./check.sh {p} --tier quick", "thorough_cmd": f"./check.sh {p} --tier thorough",
                    "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the library is compiled unmodified against stand-ins for its dependencies", "source_commits": []},
     "checks": out, "not_applicable": na,
     "notes": "Each check builds what it needs from /repo's working tree (see Makefile, check.sh)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
