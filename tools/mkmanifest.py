"""Writes MANIFEST.json: a check for every property that has a module in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: seeded schedules"
NOTE = {
    "C01": (SIM + " of recorder, workers and main thread; database compared with out-of-band trace", "exploration",
            "Sampled schedules and scenes; preemption only at intercepted operations; the manager queue is a model."),
    "C02": (SIM + "; crash and power-loss points reconstructed from a recorded disk", "fault_enumeration",
            "Every sampled run is cut at many (in small runs all) disk operations; the disk model allows lost unsynced writes, not reordered metadata."),
    "C03": (SIM + " and injected worker, manager, disk, lock, viewer and interrupt faults; bounded-progress oracle", "exploration",
            "Sampled fault placements; hang means no progress in simulated time or steps."),
    "C04": (SIM + " of the process pool with worker exceptions and kills; same-seed runs under two schedules compared", "exploration",
            "Real forked workers, simulated pool; sampled schedules."),
    "C05": (SIM + " of concurrent recorder and analysis commands over one database; reference evaluation of the recorded prefix", "exploration",
            "Commands are judged against every snapshot their reads could have seen; sampled."),
    "C06": ("deterministic simulation: compiled kernel under a simulated OpenMP runtime, seeded preemption at instrumented memory accesses", "exploration",
            "The kernel is rebuilt from the current source with instrumentation; team size, chunk assignment and preemption are sampled."),
    "C07": ("deterministic simulation: kernel under the simulated OpenMP runtime; recorder output against a reference over complete histories", "exploration",
            "Sampled scenes, recorders, schedules; no history beyond the event budget."),
    "C08": ("deterministic simulation: streamed run with seeded bundle sizes, pauses, abandonment and thread schedules against a single run", "exploration",
            "Sampled bundle sequences."),
    "C09": ("deterministic simulation: virtual-time event loop, seeded task/executor/network schedule; protocol monitor on the message history", "exploration",
            "Real server application and engine; simulated transport and executor."),
    "C10": ("deterministic simulation: virtual-time event loop with concurrent edits; bundles against undisturbed engine runs of the version", "exploration",
            "Real server application and engine; simulated transport and executor."),
    "C11": ("deterministic simulation: concurrent clients and disk faults; linearizability of the edit history against a sequential document model", "exploration",
            "Short histories, sampled schedules."),
    "C12": ("deterministic simulation: recorded disk, crash and power loss at every operation, disk errors and torn writes", "fault_enumeration",
            "All crash points of each sampled save/upload; unsynced data may be lost or torn."),
    "C13": ("deterministic simulation: virtual-time event loop with malformed messages, engine failures and disconnects; exactly-one-answer monitor", "exploration",
            "Real server application; sampled schedules."),
    "C14": (SIM + " with a stub viewer; scene tree after every command against the traced histories", "exploration",
            "The meshcat transport is a stub that keeps the object tree."),
    "C15": ("deterministic simulation: random source under the simulator (seeded, adversarial and extreme draws); history invariants", "exploration",
            "Sampled scenes and draws; geometry oracles are independent but tolerant of rounding."),
    "C16": ("deterministic simulation: one simulated random stream drives engine and reference tracer in lockstep", "exploration",
            "Scenes both can represent; decisions inside rounding distance of a tie are skipped."),
    "C17": ("deterministic simulation: sequences of simulate calls with injected failures and interrupts against a ledger of traced rays", "exploration",
            "Sampled call sequences and fault points."),
    "C22": ("deterministic simulation: the real page in a simulated browser against the real server, seeded user actions, request and message delays, losses and reconnects; comparison with a fresh page and with the edits made in turn", "exploration",
            "Real app.js, three.js and server; small DOM, simulated network, rendering to the screen and CodeMirror stubbed; sampled sessions."),
}
NA = {
    "C18": "A pure function of its inputs: no schedule, clock, fault, I/O or randomness is involved, so there is nothing to simulate.",
    "C19": "A pure numerical function of a table and a number; no schedule, fault, time or interleaving takes part.",
    "C20": "Pure formulas of angle and refractive index; nothing nondeterministic takes part.",
    "C21": "Parsing maps one file to one scene, without schedule, time or faults; generating inputs for it would not be simulation.",
}


def main():
    checks = []
    na = [dict(property=k, reason=v) for k, v in NA.items()]
    for p, (tech, level, note) in NOTE.items():
        if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
            checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                               evidence_file="evidence/%s.json" % p, technique=tech, level=level, level_note=note))
        else:
            na.append(dict(property=p, reason="Simulation applies, but its check is not built yet."))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
             notes="check.py --replay FILE re-executes a violation; --selftest compares repeated runs. No hooks were added to /repo: all seams are patched from /verif.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
