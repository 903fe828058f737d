#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
    "C01": ("the same seeded run repeated in simulated processes with other hash seed, clock, entropy and history; digests compared",
            "every draw, clock and entropy read of the run goes through the simulator; hash seeds are two real interpreter variants"),
    "C02": ("seeded baton scheduler interleaving 2-4 optimisers at source lines; each compared with its solo run",
            "interleavings at source-line, draw and evaluation granularity; not inside one line"),
    "C03": ("simulated histories of completed, failed and interrupted (at any source line) runs on shared objects against a pristine process", ""),
    "C04": ("objective exceptions injected at scheduled evaluations, step retried, compared with the fault-free run", ""),
    "C05": ("whole runs under simulated draw streams; history against the evaluation log", ""),
    "C06": ("whole runs under simulated draw streams; every recorded individual against the evaluation log", ""),
    "C07": ("whole runs under simulated draw streams with extreme draws; membership of every candidate, reachability under fair draws", ""),
    "C08": ("whole runs under simulated draw streams; evaluation log against created individuals", ""),
    "C09": ("whole runs under simulated draw streams; reference bookkeeping", ""),
    "C10": ("all component combinations under extreme draw streams and degenerate objectives, draw budget per step",
            "a step that needs more than its draw budget (400,000 for small runs) or 30 s of processor time counts as endless"),
    "C11": ("whole constrained runs; executable reference of flags and penalties", ""),
    "C12": ("whole multi-objective runs; brute-force dominance reference per generation", ""),
    "C13": ("whole FFGA runs; brute-force dominance over the full evaluation history", ""),
    "C14": ("selection steps of simulated runs; structural reference, proportions under fair streams at 6.5 sigma", ""),
    "C15": ("mutation steps of simulated runs; level 0/1 exact under extreme draws, rates under fair streams at 6.5 sigma", ""),
    "C16": ("recombination steps of simulated runs; set of admissible offspring, all of them looked for under fair streams", ""),
    "C17": ("survivor steps of simulated runs against a reference of who has to survive", ""),
    "C18": ("runs from supplied starting populations; generation 0 and reported best against the supplied individuals", ""),
    "C19": ("simulated standard output failing at scheduled writes; report against run data", ""),
    "C22": ("ready-made optimisers against their documented assembly on the same simulated stream", ""),
    "C23": ("process crashes at scheduled step boundaries and evaluations, resumed from pickled run data in pristine processes, "
            "against the uninterrupted run", ""),
    "C24": ("malformed objective results injected at scheduled evaluations, step retried, compared with the run without them", ""),
}
NA = {
    "C20": "the codec is a pure function of its input: no schedule, clock, I/O, randomness, fault or history changes its "
           "answer, so simulation has nothing to decide (its use inside runs is covered by C06, C07 and C18)",
    "C21": "argument validation is a pure function of the arguments: no schedule, fault or history is involved, "
           "so simulation has nothing to decide",
}
BASE = ("seeded search over simulated executions of the real code: no violation in the scenarios explored, none is proved absent; "
        "the simulated random streams, objective functions and output are trusted stubs")
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": [], "not_applicable": [
    {"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the simulator replaces the random module, clocks, entropy, standard output and the objective "
             "from outside. Repairs of genuine defects are the commits 'fix:' in /repo, listed in known_findings.json."}
for k, (t, n) in C.items():
    m["checks"].append({"property": k, "quick_cmd": f"python3 check.py --prop {k} --tier quick",
                        "thorough_cmd": f"python3 check.py --prop {k} --tier thorough",
                        "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration",
                        "level_note": BASE + ("; " + n if n else "")})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
