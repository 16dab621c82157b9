"""Direction B (code -> specification): solve with flixOpt, check the reported results with TLC."""
import json
import os
import tempfile

import tlc


def tlc_traces(pairs, timeout=800, module='Trace'):
    """pairs: list of (case, trace) -> list of violated [step, clause] per trace, stats"""
    if not pairs:
        return [], dict(states=0, transitions=0)
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump([dict(cs=c, tr=t) for c, t in pairs], f)
    try:
        recs, stats, _ = tlc.run(module, dict(CASES=f.name), timeout=timeout)
    finally:
        os.unlink(f.name)
    out = [None] * len(pairs)
    for r in recs:
        out[r['ci'] - 1] = sorted((x[0], x[1]) for x in r['bad'])
    if any(o is None for o in out):
        raise tlc.TLCError('no verdict for some traces')
    return out, stats
