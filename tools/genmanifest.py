#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = "deterministic simulation: seeded search over "
claimed = {
 "C01": (T+"append/read histories, delivery of reads and writes, thread schedules; checked against a model of the log", "log file, handles and readers are simulated; log.go and binary.go run unmodified code (instrumented)"),
 "C02": (T+"power-cut points inside and between I/O operations and over what the disk keeps, over several restarts; durability oracle", "durability is judged on a simulated disk: fsync makes all earlier writes of the file durable"),
 "C03": (T+"failing, short and refused writes, syncs and seeks; refinement against a model of the log", "truncation and explicit Sync are assumed not to fail"),
 "C04": (T+"cut positions and short reads over stored logs", "reads at object starts, at the cut and beyond it; not inside objects"),
 "C05": (T+"interleavings of an appender whose writes become visible in pieces with following readers", "preemption between statements, visibility piece by piece"),
 "C33": (T+"read and seek failures during reads of a log, and short reads; refinement against a model of the log", "appends and opening do not fail here"),
 "C06": (T+"how a text source delivers its bytes (piece sizes, delays, data together with EOF); metamorphic: same graph as from one piece, and as from the in-memory parsers", "the oracle is the same parser on the whole input, except for documents generated from a model, which are compared with the model"),
 "C07": (T+"error positions and delivery schedules of failing text sources; prefix and error oracle", "the prefix parse is the reference for the partial result"),
 "C08": (T+"delivery schedules of binary streams; compared with an independent encoder and decoder", "independent reference codec written from the documented format"),
 "C09": (T+"truncation and error positions and delivery schedules of binary streams", "independent reference codec written from the documented format"),
 "C10": (T+"failing opens, stats and reads, short reads and missing files of a simulated file system", "files are simulated"),
 "C11": (T+"delivery of standard input and files to the instrumented command line tools, with read faults; metamorphic oracle", "the tools run in process; exit and standard streams are simulated"),
 "C12": (T+"schedules, delays, resets, partitions and timeouts of a simulated network between clients and server; answer-to-request matching over the history", "network and clock are simulated; client and server code is real"),
 "C13": (T+"message segmentation, peers that die, raw peers sending broken messages; every handler call must match a whole message sent", "network and clock are simulated"),
 "C14": (T+"segmentation and delay below the timeouts; results must equal those of an undisturbed network", "network and clock are simulated"),
 "C15": (T+"partitions, stalls, resets and server restarts; bounded call duration, progress after the last fault", "network and clock are simulated"),
 "C16": (T+"misbehaving peers beside honest clients; honest results and server survival", "network and clock are simulated"),
 "C17": (T+"connection histories with faults; open connections counted at quiescence", "network and clock are simulated"),
 "C21": (T+"map iteration orders and delivery of the input; all executions must give the same graph and order of the document", "map iteration order is chosen by the simulator"),
 "C22": (T+"crashes of server and power cuts during remote appends over a simulated network and disk; durability oracle", "network, clock and disk are simulated; whole system: client, server, handler, log"),
 "C18": (T+"interleavings of concurrent readers of one graph, preempted between statements; results compared with those obtained alone, graph with a pristine copy, memory accesses watched by the race detector with the simulator's own synchronisation hidden", "inside the standard library code is not preempted and not watched"),
 "C19": (T+"interleavings and repetitions of uses of shared compiled templates, paths and expressions; compared with fresh copies used alone; race detector as for C18", "contexts are trees; inside the standard library code is not preempted and not watched"),
 "C20": (T+"interleavings of programs of library calls on separate objects; compared with each program alone; race detector as for C18", "inside the standard library code is not preempted and not watched"),
}
na = json.load(open('/verif/tools/not_applicable.json'))
generic = "No violation on any of the explored executions (thousands of seeds per run, more in the thorough tier); sampling, not enumeration. Trusted: simulator, instrumenter, oracle. "
checks, nap = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = claimed[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=generic+n))
    else:
        nap.append(dict(property=i, reason=na.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=nap,
  notes="No hooks in /repo: the checks instrument a scratch copy of /repo's working tree (statement-level preemption points, simulated os/net/time/sync) and build it with the harness; /repo has only fix: commits. Replay a violation with ./check.sh replay <file>. Known findings: known_findings.txt.")
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
open('/verif/MANIFEST.json','a').write("\n")
