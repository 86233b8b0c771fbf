#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
T = "deterministic simulation with fault injection: seeded search over schedules, inputs and faults against a reference model"
NOTE = {
 "C01": "Replies of interleaved, pipelined clients compared one by one with a sequential map model; sampling of histories, no proof.",
 "C02": "Process deaths at sampled system calls and torn writes, repeated, restart from the surviving page cache, full comparison with every state the model allows.",
 "C03": "As C02 with loss of unflushed data (512-byte tearing, metadata journal prefixes). Trusts the storage model in DESIGN.md.",
 "C04": "Key generation, lookup and updates in sequential namespaces over histories with rotations, restarts and crashes.",
 "C05": "Full observable dump compared with the model before and after every restart and RELOAD.",
 "C06": "Cursor walks under a simulated clock that ends the time slice at sampled points, with writers in between.",
 "C07": "Version chains compared with the model's version list, with rotations, restarts and crashes.",
 "C08": "Several namespaces and clients, creation, deletion and flush with restarts and crashes; files on the simulated disk.",
 "C09": "Clients with different rights, challenges and settings interleaved; every reply and the resulting state compared with a rights model.",
 "C10": "Limits and counters compared with the model's live keys at every NSINFO/DBSIZE.",
 "C11": "Failing, short and full-disk reads, writes, opens and syncs while commands run; the model keeps exactly the states the property allows.",
 "C12": "Random fragmentation, buffering, slow readers, disconnections; replies compared as byte streams per client.",
 "C13": "Mutated and random byte streams next to checked clients; sanitizer and guard variants.",
 "C14": "Simulated time and scheduling decide when waiters time out; every WAIT is tracked.",
 "C15": "Monitor on every write, truncate and unlink of the simulated disk.",
 "C16": "Data files parsed independently and compared with acknowledged commands; the repository's own rebuild tool run in the simulator.",
 "C17": "Data files removed and restored, simulated hook outcomes.",
 "C18": "Hook arguments and dirty lists compared with the files really modified; a simulated backup is compared with the live files.",
 "C19": "Idle, steady and bursty traffic under a simulated clock that also jumps; every rotation and every flush on the simulated disk is compared with when it was due; all answers go through the model.",
 "C20": "Crashes and restarts around setting changes; settings and access compared with the model.",
 "C21": "The streams of slow, fragmented and vanishing mirrors are compared item by item with the commands executed; a second simulated server is fed one of them, compared with the model, takes over the traffic, and its own stream is sent back to the source.",
 "C22": "The library in a driver program under the same simulator, with crashes and disk faults.",
 "C23": "Several simulated instances over the same directories.",
 "C26": "The real tools run as simulated processes on the simulated disk between runs of the server; their output is served and compared with the model. Damage is sampled (bit flips, cuts, I/O errors).",
 "C27": "The real utilities on a stub of hiredis over the simulated network, between two simulated servers, with concurrent writers; target compared with what the source held.",
 "C28": "Seeded bodies of requests, hostile bytes, disconnections, hooks and disk faults are repeated 6-9 times; the live blocks of the simulated heap and the descriptors of the server are compared between repetitions that end in the same state.",
 "C29": "The simulated disk refuses every change below the index directory, the data directory or both (EROFS) for parts of a history, under the running server and between runs; all replies and full verifications are compared with the model.",
 "C30": "The simulated allocator refuses allocations of the server (one or several, from a seeded position on) while commands of several clients are executed; replies, closed connections, and full verifications before and after restarts are compared with the model, where a command hit by the fault may be refused without effect or the process may end.",
 "C24": "Stops by command and signal at sampled points followed by power loss.",
}
CLAIM = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C26 C27 C28 C29 C30".split()
NA = {"C25": "pure functions of one input buffer: no concurrency, time, I/O or multi-party behaviour for a simulator to control (the simulated data files are still checked against an independent CRC-32C and the challenge answers against an independent SHA-1)"}
for i in sorted(NOTE):
    if i not in CLAIM: NA[i] = "the simulator's check for this property is not finished"
m = {"version": 1, "setup_cmd": "bash sim/build.sh plain", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the seam is the libc boundary, renamed at link time (objcopy) in objects compiled from /repo's working tree."}
for i in CLAIM:
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} --tier thorough",
        "technique": T, "level": "exploration", "level_note": NOTE[i]})
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
