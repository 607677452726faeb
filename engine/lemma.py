"""Lemmas over contracts: property-level statements proved from the specification functions."""
import time
from . import term as tm
from .term import T, Forker
from .smt import Solver
from .prove import Prover
from .contract import Obl

LEMMAS = {}      # property id -> list of (name, fn, pre, kw)


def lemma(prop, name, pre=None, **kw):
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            LEMMAS.setdefault(p, []).append((name, fn, pre, kw))
        return fn
    return deco


def run_lemma(prop, idx, tier):
    name, fn, pre, kw = LEMMAS[prop][idx]
    solver = Solver(timeout=kw.get('timeout', 5000))
    prover = Prover(solver, kw.get('tol', 1e-12), kw.get('budget', 60.0))
    hy = [tm.const(x) for x in (pre() if pre else [])]
    out = []
    paths = Forker(lambda cs: solver.feasible(hy + cs)).run(fn)
    n = 0
    for pi, (conds, goals) in enumerate(paths):
        H = hy + conds
        for g in goals:
            t0 = time.time()
            what = 'lemma %s: %s [case %d]' % (name, g[0], pi)
            if len(g) == 3:
                ok = prover.eq(H, tm.const(g[1]), tm.const(g[2]))
                by = prover.by
            else:
                r, m = solver.prove(H, g[1])
                ok = r == 'proved'
                by = 'z3'
            out.append(Obl('lemma', what, 'discharged' if ok else 'undischarged', by if ok else 'none',
                           '' if ok else str(prover.last), time.time() - t0))
            n += 1
    if n == 0:
        raise RuntimeError('lemma %s generated no obligation' % name)
    return out, solver.time, prover.t_norm
