"""Numeric search for an input that satisfies a list of conditions (alternating-variable descent on branch
distance).  Only used to turn a failed obligation into a concrete failing input; decides nothing."""
import time
from . import term as tm
from .term import mp, EvalError


def dist(c, env, memo, want=True):
    op = c.op
    if op == 'not':
        return dist(c.args[0], env, memo, not want)
    if op in ('and', 'or'):
        ds = [dist(a, env, memo, want) for a in c.args]
        return sum(ds) if (op == 'and') == want else min(ds)
    if op in ('<', '<=', '==') and c.args[0].sort != 'B':
        a, b = tm.ev(c.args[0], env, memo), tm.ev(c.args[1], env, memo)
        a, b = mp.mpf(a), mp.mpf(b)
        if op == '==':
            return abs(a - b) if want else (mp.mpf(0) if a != b else mp.mpf(1))
        if op == '<':
            ok, d = (a < b, a - b) if want else (a >= b, b - a)
        else:
            ok, d = (a <= b, a - b) if want else (a > b, b - a)
        return mp.mpf(0) if ok else abs(d) + mp.mpf(10) ** -25
    v = bool(tm.ev(c, env, memo))
    return mp.mpf(0) if v == want else mp.mpf(1)


def norm(d):
    return d / (1 + d)


def score(conds, env):
    memo = {}
    try:
        return sum(norm(dist(c, env, memo)) for c in conds)
    except (EvalError, ZeroDivisionError, ValueError, OverflowError):
        return mp.mpf(1e6)


def find(smp, conds, seconds=3.0, goals=4):
    """inputs x with every condition true"""
    from .contract import cast
    out = []
    t0 = time.time()
    rng = smp.rng
    con = smp.con
    while time.time() - t0 < seconds and len(out) < goals:
        x = smp.raw()
        try:
            s = score(conds, smp.env(x))
        except Exception:
            return out
        # coordinates
        cs = []
        for p in con.params:
            if p.name not in x:
                continue
            if p.kind == 's':
                cs.append((p.name, None, p.layout))
            elif p.kind in ('in', 'io'):
                cs += [(p.name, j, c[0]) for j, c in enumerate(p.cells)]
            elif p.kind == 'sv2':
                cs += [(p.name, 0, 'f'), (p.name, 1, 'f')]
        cs = [c for c in cs if c[2] in 'dfi']
        if not cs:
            return out

        def get(c):
            return x[c[0]] if c[1] is None else x[c[0]][c[1]]

        def put(c, v):
            v = cast(c[2], v)
            if c[1] is None:
                x[c[0]] = v
            else:
                x[c[0]][c[1]] = v
        stall = 0
        while s > 0 and stall < 2 and time.time() - t0 < seconds:
            better = False
            for c in rng.sample(cs, len(cs)):
                step = 1 if c[2] == 'i' else rng.choice([1.0, 0.1])
                tries = 0
                while tries < 40 and s > 0 and time.time() - t0 < seconds:
                    v = get(c)
                    moved = False
                    for sg in (1, -1):
                        put(c, v + sg * step)
                        s2 = score(conds, smp.env(x))
                        tries += 1
                        if s2 < s:
                            s = s2
                            better = moved = True
                            break
                        put(c, v)
                    if moved:
                        step = step * 2 if c[2] != 'i' else step * 2
                    else:
                        if c[2] == 'i':
                            if step <= 1:
                                break
                            step = max(1, step // 4)
                        else:
                            step *= 0.2
                            if step < 1e-13:
                                break
            stall = 0 if better else stall + 1
        if s == 0:
            import copy
            out.append(copy.deepcopy(x))
    return out
