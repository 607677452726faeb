"""Shared helpers of the specifications."""
import math
import struct
from fractions import Fraction
from engine import term as tm
from engine.term import (sin, cos, tan, sqrt, atan2, asin, acos, atan, exp, log, pow_, abs_, fmod, round_, trunc, floor,
                         r2i, wrapS, wrapP, sdiv, srem, fdiv_, fmodi, ite, max_, min_, and_, or_, not_, eq, lt, le,
                         const, rconst, toR, SUM, uf, ufi, sel, hypot)
from engine.native import expand_layout, SZ
from engine.contract import Param, Contract, D, F, I, C, B, IN, OUT, IO, STR, SV2, sc, KEEP, ALL, f32

PId = math.pi
TWOPId = 2 * math.pi
AS2Rd = math.pi / (180 * 3600)        # arcseconds to radians
D2Rd = math.pi / 180


def pi(t):
    return f32(math.pi) if t == 'f' else math.pi


def contract(name, ret, params, **kw):
    def deco(fn):
        Contract(name, ret, params, fn, **kw)
        return fn
    return deco


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def matvec(m, v):
    """m: flat 9"""
    return [m[3 * i] * v[0] + m[3 * i + 1] * v[1] + m[3 * i + 2] * v[2] for i in range(3)]


def tmatvec(m, v):
    return [m[i] * v[0] + m[3 + i] * v[1] + m[6 + i] * v[2] for i in range(3)]


def matmul(a, b):
    return [sum_(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]


def transpose(m):
    return [m[3 * j + i] for i in range(3) for j in range(3)]


def sum_(it):
    r = rconst(0)
    for x in it:
        r = r + x
    return r


def s2c(a, b):
    """unit vector of spherical coordinates"""
    return [cos(a) * cos(b), sin(a) * cos(b), sin(b)]


def c2s(v):
    """longitude, latitude of a vector (zero longitude at the poles, zero for the null vector)"""
    x, y, z = v
    r = sqrt(x * x + y * y)
    if r == 0:
        a = rconst(0)
    else:
        a = atan2(y, x)
    if z == 0:
        b = rconst(0)
    else:
        b = atan2(z, r)
    return a, b


# samplers ------------------------------------------------------------------
def uni(a, b):
    return lambda r: r.uniform(a, b)


def ints(a, b):
    return lambda r: r.randrange(a, b + 1)


def angle(r):
    return r.choice([r.uniform(-7, 7), r.uniform(-math.pi, math.pi), r.choice([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2])]) \
        if r.random() < 0.4 else r.uniform(-7, 7)


def lat(r):
    u = r.random()
    if u < 0.1:
        return r.choice([0.0, math.pi / 2, -math.pi / 2])
    return r.uniform(-1.57, 1.57)


def dirn(r):
    return [angle(r), lat(r)]


def vec3(r):
    u = r.random()
    if u < 0.08:
        return r.choice([[0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -2.0]])
    return [r.uniform(-3, 3) for _ in range(3)]


def unit3(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 0.1:
            return [x / n for x in v]


def mat9(r):
    return [r.uniform(-3, 3) for _ in range(9)]


def rot9(r):
    """random rotation matrix"""
    a = unit3(r)
    th = r.uniform(-3, 3)
    c, s = math.cos(th), math.sin(th)
    x, y, z = a
    w = 1 - c
    return [c + x * x * w, x * y * w + z * s, x * z * w - y * s,
            x * y * w - z * s, c + y * y * w, y * z * w + x * s,
            x * z * w + y * s, y * z * w - x * s, c + z * z * w]


from engine.lemma import lemma          # noqa
from engine.term import var, diff       # noqa


def S(name):
    """specification function of a contract"""
    return ALL[name].spec


def V(names):
    return [var(n) for n in names.split()]


def ARR(name, kind, count):
    """array whose length is a function of the other arguments (native runs only)"""
    p = Param('arr', name, None)
    p.kw['layout'] = lambda inp: expand_layout('%s%d' % (kind, count(inp)))
    return p


def constants(prog, fn):
    """integer and real constants in the code of fn (its file), as places where it may behave differently"""
    import re, struct
    ints, reals = set(), set()
    try:
        f = prog.find_short(fn)
        for g in f.module.funcs.values():
            if not re.match(r'@"?_Z+N?K?3sla|@"?_ZL|@"?_ZZ?N3sla', g.name):
                continue
            for ln in g.body:
                if re.search(r' (icmp|add|sub|mul|sdiv|srem|and|shl|switch|select) ', ln) or ln.strip().startswith('switch'):
                    ints |= set(int(x) for x in re.findall(r'(?<![\w%.])-?\d+(?![\w.])', ln.split(', !')[0]))
                for x in re.findall(r'(?:double|float|,) (0x[0-9A-F]{16})', ln):
                    reals.add(struct.unpack('>d', bytes.fromhex(x[2:]))[0])
                for x in re.findall(r'(?:double|float|,) (-?\d+\.\d+e[+-]\d+)', ln):
                    reals.add(float(x))
    except Exception:
        pass
    return sorted(ints), sorted(x for x in reals if x == x and abs(x) not in (0.0, 1.0, float('inf')))


def pick(rng, small, cap):
    """a size: small(), or one of the sizes a probe asks for"""
    big = [z for z in getattr(rng, 'big', None) or () if z <= cap]
    return rng.choice(big) if big else small()


class Rng(__import__('random').Random):
    big = None


def probe_inputs(con, prog, seed, count, sizes=(), wide=False):
    """inputs of a sampled contract at the sizes and with the values that the code singles out"""
    ints, reals = constants(prog, con.fn)
    big = set(z for z in sizes if 0 < z < 2000) | set(c + d for c in ints if 6 <= c < 1200 for d in (-1, 0, 1, 2))
    if wide:
        big |= {9, 11, 12, 13, 16, 17, 20, 24, 30, 31, 32, 33, 40, 41}
    rng = Rng(seed * 104729 + 5)
    out = []
    if big:
        rng.big = sorted(big)
        out += list(con.gen(rng, count))
    if reals and con.mut:
        rng.big = sorted(big) if wide else None
        for x in con.gen(rng, count):
            if x.get('kind') == 'singular':
                continue
            x = dict(x)
            for _ in range(rng.choice([1, 1, 2, 4])):
                a = rng.choice(con.mut)
                if x[a]:
                    v = list(x[a])
                    c = rng.choice(reals)
                    j = rng.randrange(len(v))
                    if v[j] != 7.25:
                        v[j] = rng.choice([1, -1]) * rng.choice([c, c, c * 1.01, c * 0.99, c * 2, c / 2, 1 / c if abs(c) > 1e-30 else c])
                        x[a] = v
            out.append(x)
    return out


def judge(con, name, what, native, xs, rep):
    rs = native.batch(con, xs, timeout=400)
    seen = set()
    for x, r in zip(xs, rs):
        if r.get('missing'):
            break
        try:
            b = 'the call dies: %s' % r['crash'] if 'crash' in r else r.get('@stray') or con.check(x, r)
        except Exception as z:
            b = 'the result cannot be judged: %r' % z
        seen.add(repr(r)[:2000])
        if b:
            rep.violations.append({'function': name, 'obligation': 'bounded: ' + what, 'confirmed': True, 'input': x, 'native': r,
                                   'contract': b, 'alias': [], 'output': 'ret', 'prover': 'bounded'})
            break
    return rs, seen


def sampled(name, fn, ret, params, gen, check, quick, thorough, reason, what, sig=None, mut=(), probing=True):
    """bounded stand-in: the real function on generated arguments, each result judged by check(args, result) -> None or text"""
    con = Contract(name, ret, params, None, fn=fn, sig=sig)

    def ver(prog, native, seed, tier, deadline):
        import random
        from engine.contract import Report, Obl
        rep = Report(name)
        rep.mode, rep.reason = 'bounded', reason
        rng = random.Random(seed * 7919 + 17)
        g = gen(rng, quick if tier == 'quick' else thorough)
        xs = list(g)
        if probing:
            xs += probe_inputs(con, prog, seed, 250 if tier == 'quick' else 4000)
        rs, seen = judge(con, name, what, native, xs, rep)
        rep.native_samples, rep.distinct = len(rs), len(seen)
        if xs:
            rep.samples = [{'function': name, 'input': xs[0], 'output': rs[0]}]
        rep.obls.append(Obl(name, 'bounded: %d runs: %s' % (len(xs), what), 'undischarged', 'none', 'bounded, not proved'))
        return rep
    con.verify = ver
    con.check, con.gen, con.mut, con.what = check, gen, mut, what
    return con


# ---- every size at once -------------------------------------------------------------------
class Env(object):
    pass


def allsizes(name, fn, params, pre, post, what, tol=1e-12, ret=False, callees=None, lin=False, runs=None, specs=None, facts=None):
    """contract of fn for every size: integer parameters are symbolic, arrays have symbolic extents and the loops are
    summarised (engine/loops.py).  params: (kind, name, ...) with kind int | bool | in | out | arr(rows, cols, writable);
    post(e, path) yields (label, hypotheses, code term, contract term)"""
    con = Contract(name, None, [], None, fn=fn)

    def ver(prog, native, seed, tier, deadline):
        import time
        from engine.contract import Report, Obl, Solver, Prover, SCALE
        from engine.loops import LoopExecutor, SumEq, Unsupported
        from engine.symex import Ptr
        from engine.norm import Blowup
        from engine import term as tm
        rep = Report(name)
        t0 = time.time()
        solver = Solver()
        prover = Prover(solver, tol, 20.0)
        cons = dict(ALL)
        for c in callees or {}:
            for z in [z for z in cons if z.split('@')[0] == c]:
                del cons[z]
            cons[c] = callees[c]
        ex = LoopExecutor(prog, cons, solver, deadline=min(deadline or 1e18, t0 + 100))
        ex.exclude = {fn}
        ex.sums, ex.narrow = True, True
        prover_se = SumEq(ex, prover)
        prover_se.lin = True
        failing = None
        ex.specs = tuple(specs(prover_se, rep)) if specs else ()
        try:
            f = prog.find_short(fn)
            if f is None:
                raise Unsupported('function not found in the compiled sources')
            e = Env()
            mem, args = {}, []
            for p in params:
                if p[0] in ('int', 'bool'):
                    v = tm.var(p[1], 'I' if p[0] == 'int' else 'B')
                    args.append(v)
                    setattr(e, p[1], v)
            e.obj = {}
            args = []
            for p in params:
                if p[0] in ('int', 'bool'):
                    args.append(getattr(e, p[1]))
                    continue
                if p[0] == 'const':
                    setattr(e, p[1], const(p[2]))
                    args.append(const(p[2]))
                    continue
                if p[0] == 'arr':
                    o = ex.new_obj(p[1], None, 'param', writable=p[4])
                    ext = lambda z: getattr(e, z) if isinstance(z, str) else z
                    ty = p[5] if len(p) > 5 else 'd'
                    o.shape = {'elem': SZ[ty], 'rows': ext(p[2]), 'cols': ext(p[3]), 'sort': 'I' if ty == 'i' else 'R'}
                    mem[o.id] = {}
                else:
                    cells, size = expand_layout(p[2])
                    o = ex.new_obj(p[1], size, 'param', writable=p[0] == 'out')
                    mem[o.id] = {}
                    if p[0] == 'in':
                        vs = [tm.var('%s[%d]' % (p[1], i)) for i in range(len(cells))]
                        setattr(e, p[1], vs)
                        for (k, off), v in zip(cells, vs):
                            mem[o.id][off] = (SZ[k], v)
                e.obj[p[1]] = o
                args.append(Ptr(o.id, 0))
            ps = pre(e)
            if not solver.feasible(ps):
                raise RuntimeError('vacuous precondition')
            ex.facts = facts(e) if facts else {}
            results = ex.explore(ex.start(f, args, mem, ps))
            rep.paths = len(results)
            se = SumEq(ex, prover)
            se.lin = lin
            e.se, e.ex = se, ex
            canary = 0
            done = set()
            for i, r in enumerate(results):
                if not solver.feasible(r.pc):
                    continue
                if r.abort:
                    raise Unsupported('abnormal end: %s' % (r.abort,))
                for ev_ in r.events:
                    if ev_[0] in ('frame', 'uninit'):
                        raise Unsupported('%s %s' % ev_[:2])
                for o in r.obls:
                    if o[1].id in done:
                        continue
                    t1 = time.time()
                    if not ex.valid(r.pc, o[1]):
                        raise Unsupported('not discharged: %s' % (o[2],))
                    rep.obls.append(Obl(name, 'path %d: %s' % (i, o[2]), 'discharged', 'z3', '', time.time() - t1))

                def read(nm, *loc, hyps=()):
                    o = e.obj[nm]
                    return ex.read(list(r.pc) + list(hyps), r.mem.get(o.id, {}).get('upd') or [], o, tuple(const(x) for x in loc))

                def cell(nm, off=0):
                    c = r.mem.get(e.obj[nm].id, {}).get(off)
                    if c is None:
                        raise Unsupported('%s is not written' % nm)
                    return c[1]
                e.read, e.cell, e.written = read, cell, lambda nm, r=r: bool(r.mem.get(e.obj[nm].id))
                failing = r
                for lab, hyps, code, want in post(e, r):
                    t1 = time.time()
                    H = list(r.pc) + list(hyps)
                    if not solver.feasible(H):
                        continue
                    if not (code.sort == 'B' and tm.isc(want) and want.val and se.implies(H, code)) and not se.eq(H, code, want):
                        raise Unsupported('path %d: %s not discharged' % (i, lab))
                    rep.obls.append(Obl(name, 'path %d: %s' % (i, lab), 'discharged', 'loop summary', '', time.time() - t1))
                    if not canary and not tm.isc(want) and want.sort in 'RI':
                        if se.eq(H, code, want + 1):
                            raise RuntimeError('canary proved')
                        canary = 1
            rep.canaries = canary
            if not rep.obls:
                raise Unsupported('no obligations')
            n = getattr(ex, 'loop_obls', 0)
            rep.obls += [Obl(name, 'loop obligation %d' % j, 'discharged', 'z3') for j in range(n)]
        except (Unsupported, Blowup, RecursionError) as x:
            rep.obls = [Obl(name, 'extraction', 'undischarged', 'none', str(x))]
            rep.mode, rep.reason = 'bounded', '%s (%s); the sampled runs stand in' % (x, what)
            if runs and native is not None:
                # not proved: the real code at the sizes of the failing path, at larger sizes and with the values it compares with
                sizes = []
                try:
                    m = solver.model(failing.pc) if failing is not None else None
                    sizes = [int(tm.ev(getattr(e, p[1]), m)) for p in params if p[0] == 'int'] if m else []
                except Exception:
                    pass
                c = ALL[runs]
                judge(c, runs, c.what, native, probe_inputs(c, prog, seed, 600 if tier == 'quick' else 6000, sizes, True), rep)
        rep.inlined, rep.used = sorted(ex.inlined), sorted(y for z in ex.used_contracts for y in getattr(cons.get(z), 'via', (z,)))
        rep.wall, rep.solver_s, rep.queries = time.time() - t0, solver.time, solver.queries
        return rep
    con.verify = ver
    return con
