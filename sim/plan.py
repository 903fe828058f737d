"""Plan per property: scenario counts, level, what ran real code.  Imported without the package under test."""

REAL = ["baumeva: all algorithms, populations, fitness, selections, crossovers, mutations, survivor selection, run data, "
        "penalties (unmodified, imported from the working tree)", "CPython threads (baton-scheduled) where clients interleave"]
STUB = ["random module (simulated per-client streams)", "os.urandom, clocks and process ids (simulated)", "sys.stdout (simulated)",
        "objective functions (generated pure functions with injected exceptions)", "callers (scenario interpreter)"]


def _plan():
    from . import props
    return {k: {"quick": p.quick, "thorough": p.thorough, "rule": p.rule} for k, p in props.PROPS.items()}


PLAN = _plan()
LEVEL = {k: "exploration" for k in PLAN}
