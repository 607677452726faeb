"""Frame and purity contract of every library function."""
from .base import *

# the documented exceptions: the random-number pair and the sleep routine
STATEFUL = {'random', 'gresid', 'wait'}


def short(sig):
    m = re.match(r'^(?:[\w:<> ]+ )?sla::(\w+)', sig)
    return m.group(1) if m else sig


import re


def history_inputs(con, seed, n):
    """argument sets, and mixtures that share some of their arguments with the previous call"""
    import random
    from engine.contract import Sampler
    rng = random.Random(seed)
    if con.spec is None:
        if not getattr(con, 'check', None) or not hasattr(con, 'gen'):
            return []
        xs = []
        for x in con.gen(rng, n):
            xs.append(x)
            if len(xs) >= n:
                break
        return xs
    smp = Sampler(con, seed)
    xs = smp.draw(n)
    out = []

    def near(v):
        if isinstance(v, float):
            u = rng.random()
            return v + rng.choice([1e-9, 1e-6, 1e-3, 0.1]) if u < 0.6 else v * (1 + 1e-7) if u < 0.8 else -v
        return v

    def allowed(z):
        try:
            e = smp.env(z)
            return all(tm.ev(c, e) for c in smp.pre)
        except tm.EvalError:
            return False
    for i, x in enumerate(xs):
        out.append(x)
        y = xs[(i + 1) % len(xs)]
        zs = []
        if len(x) > 1:
            # some arguments as before, the others new
            zs += [{k: (x[k] if rng.random() < 0.5 else y[k]) for k in x}]
            k = rng.choice(sorted(x))
            zs += [dict(x, **{k: y[k]})]
        # almost the arguments of the call before
        k = rng.choice(sorted(x)) if x else None
        if k:
            zs += [smp.fix(dict(x, **{k: [near(v) for v in x[k]] if isinstance(x[k], list) else near(x[k])}))]
        out += [z for z in zs if allowed(z)]
    return out


def history_check(native, cons, seed, n, rounds=1):
    """the same calls in two orders, in two processes: every call must give the same result; returns (calls, difference or None)"""
    import os
    import pickle
    import random
    import signal
    import sys
    calls = []
    for name in cons:
        con = ALL[name]
        calls += [(name, x) for x in history_inputs(con, seed, n)]
    rng = random.Random(seed + 5)
    orders = [list(range(len(calls))), list(range(len(calls)))[::-1]]
    for _ in range(rounds):
        o = list(range(len(calls)))
        rng.shuffle(o)
        orders.append(o)
    results = []
    for o in orders:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                os.dup2(dn, 1)
                signal.alarm(200)
                f = os.fdopen(w, 'wb')
                res = {}
                for i in o:
                    c, x = calls[i]
                    res[i] = repr(native._call(ALL[c], x, ()))
                    if i % 7 == 0:
                        # immediately again
                        if repr(native._call(ALL[c], x, ())) != res[i]:
                            res[i] += ' (differs when repeated)'
                pickle.dump(res, f)
                f.close()
            finally:
                os._exit(0)
        os.close(w)
        f = os.fdopen(r, 'rb')
        try:
            results.append(pickle.load(f))
        except Exception:
            results.append(None)
        f.close()
        os.waitpid(pid, 0)
    ok = [r for r in results if r is not None]
    if len(ok) < 2:
        return len(calls), None
    for i in range(len(calls)):
        v = set(r[i] for r in ok)
        if any('@stray' in x for x in v):
            return len(calls), {'call': {'function': calls[i][0], 'arguments': calls[i][1]}, 'results': sorted(v)[:2], 'previous calls': []}
        if len(v) > 1:
            a = [results.index(r) for r in ok]
            return len(calls), {'call': {'function': calls[i][0], 'arguments': calls[i][1]}, 'results': sorted(v)[:2],
                                'previous calls': [[calls[o[max(0, o.index(i) - 1)]]] for o in orders]}
    return len(calls), None


def purity_verify(prog, native, seed, tier, deadline):
    from engine.contract import Report, Obl
    from engine import frame
    rep = Report('library')
    t0 = time.time()
    A = frame.Analysis(prog)
    pub = A.public()
    sigs = frame.demangle([k[1] for k in pub])
    bad = []
    for k, sig in zip(pub, sigs):
        s = short(sig)
        if s in STATEFUL:
            continue
        S, f = A.sum[k], A.funcs[k]
        W = frame.writable_params(f, sig)
        why = []
        for tok, site in S.writes.items():
            if tok[0] == 'p':
                txt, w = W.get(tok[1], ('parameter %d' % tok[1], False))
                if not w:
                    why.append('the input argument %d (%s) may be written (%s)' % (tok[1] + 1, txt, site))
            elif tok[0] == 'g':
                g = A.guarded(tok, k)
                if g:
                    why.append('the static %s may be written (%s): %s' % (tok[2], site, g))
            elif tok[0] == 'pd':
                txt, w = W.get(tok[1], ('', False))
                if not w:
                    why.append('memory behind argument %d may be written (%s)' % (tok[1] + 1, site))
        o1 = Obl(sig, 'writes only its output arguments and keeps no state between calls', 'undischarged' if why else 'discharged', 'frame', '; '.join(why))
        why2 = ['%s (%s)' % x for x in S.unknown.items()]
        o2 = Obl(sig, 'calls only functions of their arguments', 'undischarged' if why2 else 'discharged', 'frame', '; '.join(why2))
        rep.obls += [o1, o2]
        if why or why2:
            bad.append((s, sig, why + why2))
    # histories on the real code
    names = [n for n, c in ALL.items() if n != 'library' and c.fn not in STATEFUL and (c.spec is not None or hasattr(c, 'gen')) and native.symbol(c.fn)
             and not any(p.kind == 'arr' and c.spec is not None for p in c.params)]
    n, diff = history_check(native, names, seed, 12 if tier == 'quick' else 150, 1 if tier == 'quick' else 4)
    rep.native_samples, rep.distinct = n, n
    rep.samples = [{'function': 'library', 'input': 'calls of %d routines in three orders' % len(names), 'output': 'equal results' if not diff else str(diff)[:500]}]
    if diff is None and bad:
        for s, sig, w in bad:
            mine = [m for m in names if ALL[m].fn == s] or [m for m in names]
            _, diff = history_check(native, mine, seed + 1, 400, 6)
            if diff:
                break
    if diff is not None:
        rep.violations.append({'function': diff['call']['function'], 'obligation': 'equal arguments give equal results whatever was called before', 'confirmed': True,
                               'input': {'history': diff}, 'native': diff['results'], 'contract': 'the same result after every history', 'alias': [], 'prover': 'history run'})
    for s, sig, w in bad:
        rep.violations.append({'function': sig, 'obligation': 'frame: writes only its output arguments, keeps no state, calls only pure functions', 'confirmed': False, 'input': None,
                               'contract': 'frame', 'native': '; '.join(w), 'alias': [], 'prover': '; '.join(w)})
    rep.wall = time.time() - t0
    return rep


import time
Contract('library', None, [], None, fn='slalib')
ALL['library'].verify = purity_verify
