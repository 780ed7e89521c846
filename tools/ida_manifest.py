_MON = ("TLA+ specification of the integrator (BDF.tla, IdaCtl.tla, IdaMon.tla): its state is advanced by TLC over every event "
        "recorded from the real integrator and the property's condition evaluated at each of them")
_PAIR = "TLA+ self-composition (IdaPair.tla): TLC steps two recorded runs of the real integrator in lockstep and compares them"
_WHAT = {
    "I01": _MON, "I02": _MON, "I03": _MON + "; " + _PAIR, "I04": _MON, "I05": _MON, "I06": _MON, "I07": _MON, "I08": _MON,
    "I09": _MON, "I10": _MON, "I11": _MON, "I12": _MON, "I13": _MON, "I14": _MON + "; " + _PAIR, "I15": _PAIR, "I16": _MON,
    "I17": _PAIR, "I18": _MON}
_N = ("Scenarios: scripted nonlinear solver answers (outcome, size and direction of the correction chosen step by step) and real "
      "problems with the real Newton solver, both directions of integration, 1..3 unknowns, seeded. Floating-point comparisons "
      "carry explicit rounding allowances; decisions inside them are left open. The integrator (not part of the workspace build) "
      "is compiled from /repo/src with stand-ins for the old ndarray and failure crates. Trusts TLC, the stand-ins and the harness.")
for p in _WHAT:
    TECH[p] = _WHAT[p]
    NOTE[p] = _N
TECH["W02"] = "recorded evaluations of the integrator's norms judged by a TLA+ predicate in exact rational arithmetic (TLC)"
NOTE["W02"] = ("Exact rational comparison on grids and random vectors of 1..129 (thorough 4097) components, random masks, owned and "
               "viewed storage. Trusts the ndarray stand-in.")
HOOKS = {"guard": "cfg(ida_verif)", "enable": "RUSTFLAGS='--cfg ida_verif' (set by lib/ida.py)", "source_commits": ["d974fca"]}
