#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (ids must be those of properties.jsonl)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
SOCK = "Sampled executions of the real crates over loopback TCP; trusts the kernel, tokio, prost/rmp and the harness oracles. No exhaustiveness: breadth comes from generated cases and injected faults."
T = {
 "C01": "trace monitor of decoder/reactor input against the sent byte stream, over real sockets with injected segmentation and short reads",
 "C02": "offline checker of the peer's byte log against the concatenated encodings, under short writes and stop-and-go readers",
 "C03": "progress monitor (kernel socket state + event counters) for lost wakeups and wedges under stall/resume workloads",
 "C04": "trace monitor of delivery and flush before close, with data+FIN and channel-close schedules",
 "C05": "boundary-size workload with delivery/byte/close monitors",
 "C06": "resource monitor: counting allocator, kernel queues and channel capacity against bounds",
 "C07": "lifecycle monitor: termination, drops and callbacks over every trigger in every state",
 "C08": "round-trip and stream oracle for the prost codec, in memory and over sockets",
 "C09": "round-trip and reference framing oracle for the MessagePack codec, in memory and over sockets",
 "C10": "mutation fuzzing of decoders and live endpoints with panic, allocation and progress monitors",
 "C11": "per-call result monitor of the real client against scripted and real servers",
 "C12": "per-stream sequence monitor of the real client against scripted and real servers",
 "C13": "cancellation monitor: wire log and poll/drop events of service futures",
 "C14": "completion monitor under connection loss, incl. multi-threaded races",
 "C15": "dispatch and wire-log checker (service callbacks vs raw client)",
 "C16": "drop/poll monitor of service objects over all close causes",
 "C17": "backpressure monitor: items produced vs bytes the client read",
 "C18": "id-reuse ledger checker and live-heap growth monitor",
 "C19": "isolation monitor: healthy clients served while faults (hostile peers, accept/setsockopt errors, panics) are injected",
 "C20": "limit monitor: boundary sizes and queue depth on all four entry points",
 "C21": "Miri (Tree Borrows), AddressSanitizer, MemorySanitizer and ThreadSanitizer, with std instrumented, on the monitored workloads",
 "C23": "starvation monitor: work between turns of a bystander task, per-direction and per-stream progress under endless traffic",
 "C24": "quiescence monitor: polls and epoll waits counted in quiet periods, in generated waiting states",
 "C25": "turn-counting monitor of bytes handed to the kernel (interposed writev/send), and socket option inspection",
 "C22": "client-state monitor against a scripted server sending unexpected messages",
}
claimed = [p for p in props if p in T and p in os.environ.get("CLAIM", " ".join(T)).split()]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": T[p],
   "level": "exploration",
   "level_note": SOCK,
 } for p in claimed],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in claimed],
 "notes": "No hooks in /repo: everything is observed at the public API, on the wire, in the kernel, in the allocator, in the panic hook or by sanitizers.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
