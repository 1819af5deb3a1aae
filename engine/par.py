"""runs closures in forked workers"""
import os, multiprocessing as mp, traceback
_J = None
def _one(i):
    try: return (True, _J[i]())
    except Exception: return (False, traceback.format_exc())
def run(jobs, n=None):
    global _J
    _J = list(jobs)
    n = n or min(8, os.cpu_count() or 1)
    if n < 2 or len(_J) < 2: return [j() for j in _J]
    with mp.get_context('fork').Pool(n) as p: out = p.map(_one, range(len(_J)), chunksize=1)
    for ok, v in out:
        if not ok: raise RuntimeError(v)
    return [v for _, v in out]
