#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
DST = "deterministic simulation: seeded scheduler at every basic block, load and store, "
T = {
 "C01": (DST + "random preemption, results compared bit for bit with a fresh-process reference",
         "Seeded search over interleavings of 2-6 callers of the real code, one running at a time; every call is compared with the same call made alone in a fresh process. Sampling; sequentially consistent memory only."),
 "C02": (DST + "callers stalled at arbitrary instants, bounded-steps liveness",
         "Callers are frozen at seeded instants inside calls; the others must finish within a step budget and with the reference result. Sampling."),
 "C03": (DST + "panics injected at every kind of user-code seam, with retries and concurrent calls",
         "Panics are injected at seeded points of user-supplied number types, storage, models and codecs; retries, later and concurrent calls are compared with fresh-process references. Sampling."),
 "C04": ("deterministic simulation: seeded call histories with simulated clock, environment, randomness and addresses, compared with a fresh-process reference",
         "Histories of up to 140,000 calls over families of confusable cameras and inputs, on 1-3 threads with simulated environment; bit-for-bit comparison. Sampling."),
 "C05": ("deterministic simulation: saves, restarts, power failures and loads on a simulated disk, restored object compared with the original",
         "Seeded programs of saves, restarts and loads over 14 kinds of object, two precisions and six formats through split and interrupted transfers; parameters bit for bit, equality and the answers to a fixed set of calls are compared. Sampling."),
 "C06": ("deterministic simulation: structural and byte damage, torn and lost writes on a simulated disk, loader judged against the damage",
         "Seeded damage of the stored structure (fields missing, repeated, renamed, retyped) and of the stored bytes (cut, torn, flipped, spliced, lost, repeated); what must be rejected is known from the damage, what is accepted is compared with an object rebuilt from its parameters and with release 0.15.3. Sampling."),
 "C07": ("deterministic simulation: reader, writer and format failures injected at seeded points, with retries",
         "Persistent and one-time failures at seeded bytes and format events; success after a fault, or with other bytes than an undisturbed save, is a violation; retries are compared with undisturbed attempts. Sampling."),
 "C08": ("deterministic simulation: working tree and frozen release 0.15.3 share a simulated disk through upgrades, rollbacks and re-saves",
         "Seeded histories in which both versions save, load and re-save the same files in six formats; parameters bit for bit and answers are compared. Sampling."),
 "C09": ("deterministic simulation: heap allocations refused inside calls by the simulated allocator",
         "Calls on fixed-size data run with every heap allocation refused; others with a seeded allocation refused. Sampling of operations, inputs and number types."),
 "C10": ("deterministic simulation: simulated heap measured over long histories with failing and interrupted calls",
         "Growth of memory in use between two points of long call histories, confirmed on a history four times as long. Sampling."),
 "C11": (DST + "simulated user lens models with garbage, panic and re-entry faults, recorded history checked",
         "Everything that reaches the simulated model and comes of its answer is recorded and checked against the arguments and an independent change of frame. Sampling."),
 "C12": ("deterministic simulation: histories of self-checks on simulated lens models with a single seeded fault each",
         "Sound, near-tolerance, invalid and panicking models with the fault at one seeded pixel and coordinate, nested checks included; every verdict is compared with what is known of the model, and the pixels tried with the specified grid. Sampling."),
 "C13": ("deterministic simulation: the example runs on a simulated file system with failing, short, interrupted and lost writes, full disks and crashes",
         "The example's own code is started 1-4 times in one simulated directory with seeded faults at its open, write and other file calls; a start that reports success must leave exactly the files an undisturbed start leaves. Sampling."),
}
NA = {f"N{i:02}": "A pure function of the arguments: no schedule, clock, fault, I/O or interleaving takes part in it, so there is nothing for a simulator to decide (guide: not a simulation target)." for i in range(1, 12)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not claimed yet: its check is being built.")})
m = {"version": 1, "setup_cmd": "./sim/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: yield points come from compiler instrumentation, everything else through the seams the code already has. See DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
