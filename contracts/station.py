"""obs: proved for every number and every identifier, by a complete case split over the trie of the known identifiers.

An identifier either is a prefix of a known identifier (finitely many strings, each executed as it is) or it leaves the
trie: a prefix p of known identifiers, then a character c that continues none of them, then anything. In that case c is
symbolic and the rest of the string does not exist for the proof: reading it would end the extraction.
The table is a function-local static: every case is verified for the first call (initialising) and for later ones, which
start from the state that every first call is shown to leave behind."""
import time
from fractions import Fraction
from engine import term as tm
from engine.term import const, T
from engine.contract import Contract, ALL, I, OUT, Report, Obl
from engine.symex import Executor, Ptr, NULL, Unsupported, Abort, cstring, State, Timeout
from engine.smt import Solver
from contracts.base import ARR
from contracts.combin import STATIONS, station, obs_post, obs_check
from engine.lemma import lemma

PARTS = 6


def trie():
    """prefix -> set of next characters"""
    t = {'': set()}
    for s in STATIONS:
        for k in range(len(s[0])):
            t.setdefault(s[0][:k], set()).add(s[0][k])
        t.setdefault(s[0], set())
    return t


def cases():
    """(label, n, string or None, known part, excluded next characters)"""
    t = trie()
    out = []
    for n in range(len(STATIONS)):
        out.append(('number %d' % n, n, 'any', '', None))
    out.append(('number beyond the last', 'big', 'any', '', None))
    out.append(('no identifier', 'neg', None, '', None))
    for p in sorted(t):
        out.append(('identifier "%s"' % p, 'neg', 'is', p, None))
        out.append(('identifier "%s" and then none of "%s"' % (p, ''.join(sorted(t[p]))), 'neg', 'leaves', p, t[p]))
    return out


def concrete(case):
    """machine inputs of a case, for replays"""
    lab, n, kind, p, ex = case
    ns = [n] if isinstance(n, int) else [len(STATIONS), len(STATIONS) + 1, 1000, 2 ** 31 - 1] if n == 'big' else [-1, -2, -2 ** 31]
    enc = lambda s: [ord(c) - (256 if ord(c) > 127 else 0) for c in s] + [0]
    if kind is None:
        ids = [None]
    elif kind == 'any':
        ids = [None, enc(''), enc('AAT')]
    elif kind == 'is':
        ids = [enc(p)]
    else:
        ids = [enc(p + chr(c) + r) for c in range(1, 256) if chr(c) not in ex for r in ('', 'A')]
    return [{'n': a, 'id': b} for a in ns[:1 if len(ids) > 4 else 4] for b in ids]


def expected(case):
    lab, n, kind, p, ex = case
    if isinstance(n, int):
        return station(n, None)
    if n == 'big' or kind is None or kind == 'leaves':
        return None
    return station(-1, p)


def verify_part(part):
    def ver(prog, native, seed, tier, deadline):
        t0 = time.time()
        rep = Report('obs@%d' % part)
        solver = Solver()
        f = prog.find_short('obs')
        if f is None:
            rep.mode, rep.reason = 'bounded', 'function not found in the compiled sources'
            return rep
        ex = Executor(prog, ALL, solver, maxpaths=4000, maxsteps=60000000, deadline=min(t0 + 400, deadline))
        ex.exclude = {'obs'}
        init = {}                       # static objects after initialisation: id -> cells
        try:
            for i, case in enumerate(cases()):
                if i % PARTS != part:
                    continue
                ok = one(ex, f, case, rep, solver, init, 'first call')
                if ok and init:
                    ok = one(ex, f, case, rep, solver, init, 'later call')
                if not ok:
                    bad = replay(case, native, rep)
                    if bad:
                        break
        except (Unsupported, Timeout, RecursionError) as e:
            rep.mode, rep.reason = 'bounded', '%s: %s' % (type(e).__name__, e)
            rep.obls.append(Obl(rep.name, 'extraction', 'undischarged', 'none', rep.reason))
        rep.inlined = sorted(ex.inlined)
        rep.used = sorted(ex.used_contracts)
        rep.wall, rep.solver_s, rep.queries = time.time() - t0, solver.time, solver.queries
        return rep
    return ver


def replay(case, native, rep):
    xs = concrete(case)
    for x, r in zip(xs, native.batch(ALL['obs'], xs, timeout=60)):
        b = 'the call dies: %s' % r['crash'] if 'crash' in r else r.get('@stray') or obs_check(x, r)
        if b:
            rep.violations.append({'function': 'obs', 'obligation': case[0], 'confirmed': True, 'input': x, 'native': r, 'contract': b,
                                   'alias': [], 'output': 'obs', 'prover': 'native replay'})
            return True
    # the real code is right wherever it was run: the extraction could not follow it
    rep.mode, rep.reason = 'bounded', 'not discharged: ' + case[0]
    return False


def one(ex, f, case, rep, solver, init, when):
    lab, n, kind, p, excl = case
    t1 = time.time()
    mem = {}
    pc = []
    nv = const(n) if isinstance(n, int) else tm.var('n', 'I')
    if n == 'big':
        pc += [tm.le(len(STATIONS), nv), tm.le(nv, 2 ** 31 - 1)]
    elif n == 'neg':
        pc += [tm.lt(nv, 0), tm.le(-2 ** 31, nv)]
    if kind is None:
        idp = NULL
    else:
        o = ex.new_obj('id', 0, 'param', writable=False)
        cells = {k: (1, const(ord(c))) for k, c in enumerate(p)}
        if kind == 'is':
            cells[len(p)] = (1, const(0))
        elif kind == 'leaves':
            c = tm.var('c', 'I')
            cells[len(p)] = (1, c)
            pc += [tm.le(-128, c), tm.le(c, 127)] + [tm.not_(tm.eq(c, v)) for v in [0] + sorted(ord(z) for z in excl)]
        o.open = kind in ('leaves', 'any')
        o.size = len(cells)
        mem[o.id] = cells
        idp = Ptr(o.id, 0)
    out = ex.new_obj('obs', 40, 'param', writable=True)
    mem[out.id] = {}
    if when == 'later call':
        for k, c in init.items():
            mem[k] = dict(c)
    st = ex.start(f, [nv, idp, Ptr(out.id, 0)], mem, pc)
    results = ex.explore(st)
    rep.paths += len(results)
    want = expected(case)
    vals = want or ['?', '?', 0.0, 0.0, 0.0]
    good = bool(results)
    why = ''
    for r in results:
        if r.abort:
            if solver.feasible(r.pc):
                good, why = False, 'aborts: %s' % (r.abort,)
            continue
        if any(e[0] in ('frame', 'uninit') for e in r.events):
            good, why = False, str([e for e in r.events if e[0] in ('frame', 'uninit')][0])
            break
        for o in r.obls:
            if not (tm.isc(o[1]) and o[1].val) and solver.prove(r.pc, o[1])[0] != 'proved':
                good, why = False, str(o[2])
        rv = r.ret
        if rv is None or not tm.isc(rv) or bool(rv.val) != (want is not None):
            good, why = False, 'status %s' % (rv,)
            break
        got = cells_values(ex, r, out)
        for a, b in zip(got, vals):
            if isinstance(b, str):
                if a != b.encode('latin1'):
                    good, why = False, '%r instead of %r' % (a, b)
            else:
                w = tm.ev(tm.toR(b) if isinstance(b, T) else tm.rconst(Fraction(b)), {})
                if not isinstance(a, T) or tm.free_vars([a]):
                    good, why = False, 'value %s' % (a,)
                elif abs(tm.ev(a, {}) - w) > 1e-12 * max(1, abs(w)):
                    good, why = False, '%s instead of %s' % (tm.ev(a, {}), w)
        # what later calls start from
        stat = {k: c for k, c in r.mem.items() if ex.objs[k].kind == 'global' and ex.objs[k].g is not None and not ex.objs[k].g[0]['const']}
        if when == 'first call' and stat:
            for k in list(stat):
                if ex.objs[k].name.lstrip('@').startswith('_ZGV'):
                    stat[k] = {0: (1, const(1))}
            for t in getattr(ex, 'static_init', ()):
                for k, o in ex.objs.items():
                    if o.kind == 'global' and o.name.lstrip('@') == ('_ZGV' + t.lstrip('@')[2:]):
                        stat[k] = {0: (1, const(1))}
            if not init:
                init.update(stat)
            elif not same(stat, init):
                good, why = False, 'the initialised table differs'
        elif when == 'later call' and not same(stat, init):
            good, why = False, 'a later call changes static state'
    rep.obls.append(Obl('obs', '%s, %s' % (lab, when), 'discharged' if good else 'undischarged', 'enumeration' if good else 'none', why, time.time() - t1))
    return good


def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if set(a[k]) != set(b[k]):
            return False
        for q in a[k]:
            x, y = a[k][q], b[k][q]
            if x[0] != y[0] or not (x[1] is y[1] or isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and (x[1].obj, x[1].off) == (y[1].obj, y[1].off)):
                return False
    return True


def cells_values(ex, r, out):
    c = r.mem.get(out.id, {})
    st = State()
    st.mem = r.mem
    v = []
    for off in (0, 8):
        q = c.get(off)
        v.append(cstring(ex, st, q[1]) if q and isinstance(q[1], Ptr) and q[1].obj is not None else None)
    for off in (16, 24, 32):
        q = c.get(off)
        v.append(q[1] if q else None)
    return v


for k in range(PARTS):
    con = Contract('obs@%d' % k, 'b', [I('n'), ARR('id', 'c', lambda x: len(x['id'])), OUT('obs', 'ppddd')], None, fn='obs')
    con.verify = verify_part(k)
    con.check = obs_check
    con.post_native = obs_post


@lemma('C37', 'the case split over identifiers is complete')
def _():
    t = trie()
    cs = cases()
    ps = [c[3] for c in cs if c[2] == 'is']
    lv = {c[3]: c[4] for c in cs if c[2] == 'leaves'}
    # every string is in the trie, or leaves it at its longest prefix in the trie
    closed = all(p + c in t for p in t for c in t[p]) and '' in t
    return [('the trie is closed under one more known character', tm.rconst(int(closed)), tm.rconst(1)),
            ('every node has both cases', tm.rconst(int(sorted(ps) == sorted(t) and lv == t)), tm.rconst(1)),
            ('every number has a case', tm.rconst(int([c[1] for c in cs if isinstance(c[1], int)] == list(range(len(STATIONS))))), tm.rconst(1))]
