#!/usr/bin/env python3
"""Source of /verif/known_findings.json: the fix: commits of /repo (property, subject) and the unrepaired findings."""
import json
import os
import subprocess

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # start of the subject after 'fix: ' -> property it broke, what failed
    'fitness no longer removes':
        ('C03', "constructing a fitness with conditions removed 'optimize' from the caller's list, so the second run on the same object raised ValueError"),
    'genotype and phenotype are swapped back':
        ('C04', 'an exception of the objective left genotype and phenotype of the whole population exchanged; repeating the step evaluated bit strings'),
    'falsy input data':
        ('C08', "input_data of 0, [] or '' was not passed to the objective function"),
    'an objective function may return':
        ('C06', 'an objective returning a one-element list or tuple got the sequence as objective score and crashed in the fitness'),
    'Pareto ranking passes input data':
        ('C12', 'ranking called the objective without input_data (TypeError in every multi-objective run with input data)'),
    'objective scores of constrained':
        ('C11', 'objective values of a constrained multi-objective task were stored in reverse order'),
    'FFGA scores of carried-over':
        ('C12', 'a carried-over individual kept the fitness of its rank in an earlier generation'),
    'history of pareto sets':
        ('C09', 'sets recorded in historical_best changed when later generations re-ranked the shared individuals'),
    'an unchanged pareto set':
        ('C09', 'the generation counter without improvement was never above 0, so early stopping never happened for several objectives'),
    'an individual added in place':
        ('C17', 'replacing a duplicate elite could put one individual object into the generation twice'),
    'random transfer of parents':
        ('C10', "transfer_parents='random' with fewer than 11 individuals and several objectives raised ValueError"),
    'the random generator is seeded once':
        ('C01', 'every empty copy of a population reseeded the generator, so all generations repeated the same draws'),
    'mutation level 0.0':
        ('C15', 'level 0.0 still mutated one child in a thousand'),
    'named level of BinStringMutation':
        ('C15', 'a named level was computed once from the first population and reused for other lengths'),
    'CategoricalMutation accepts':
        ('C10', 'a named mutation level raised TypeError'),
    'StaticPenalty uses':
        ('C11', 'a violation in any interval but the first raised an exception, inequality constraints used the coefficients of equality constraints'),
    'VEGA uses the requested':
        ('C14', 'VEGA ignored tournament_size'),
    'VEGA counts the objectives':
        ('C07', 'VEGA called the objective with a point outside the declared space (and without input data)'),
    'balanced selection works with':
        ('C14', 'negative fitness gave negative probabilities, all-zero fitness a ZeroDivisionError'),
    'balanced selection never picks':
        ('C10', 'a draw next to 1 (accumulated sum below 1) returned no index and raised TypeError; a draw of 0 picked an individual of probability 0'),
    'balanced selection ends':
        ('C10', 'with the whole probability on one individual the search for a different second parent never ended'),
    'ranked selection ranks':
        ('C14', 'ranks followed the position in the unsorted population, not the fitness, and were written into the individuals'),
    'VEGA balanced and ranked':
        ('C14', 'parents selected for all objectives but the last were thrown away'),
    'tournament selection works in':
        ('C10', 'sample() raised ValueError when an FFGA population had become smaller than the tournament'),
}
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p, what = next(v for k, v in PROP.items() if s[5:].startswith(k))
        out.append({"property": p, "status": "fixed", "commit": h, "text": f"fixed: property={p} {h} {what}", "repair": s[5:]})
KNOWN = [
    {"property": "C10", "status": "known", "code": "crash:KeyError",
     "what": "AdaptivePenalty in a multi-objective run raises KeyError 'feasible' in generation 1 (the best solution of several "
             "objectives is a set without that mark)",
     "why_not_repaired": "what 'the best solution is feasible' means for a non-dominated set is a design decision",
     "scenario": {"c": {"kind": "steps", "n": 5, "ngen": 2, "early": None, "cp": 1.0,
                        "gens": {"k": "bin", "g": [[0, 7, 1], [0, 7, 1]], "as": "tuple"},
                        "obj": {"fam": "hash", "salt": 1, "m": 2, "multi": True, "shape": "indep", "ret": "tuple",
                                "conds": ["optimize", "optimize", {"op": "<=", "fam": "tri", "salt": 5, "mag": 1}]},
                        "pop": "binary", "fit": "vega", "sel": {"t": "vtour", "k": 2}, "cx": "uni",
                        "mut": {"t": "bin", "lvl": 0.35}, "ng": {"t": "new", "tp": "best"}, "obj_value": None, "inpop": None,
                        "penalty": {"t": "ada"}, "stream": {"s": 1, "p": 0.0, "salt": 1}}}},
]
with open(os.path.join(H, "known_findings.json"), "w") as f:
    json.dump({"findings": KNOWN + out}, f, indent=1)
    f.write("\n")
