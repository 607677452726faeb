"""Stateful routines: the random-number pair, and the version report.

The statics of a routine are ghost parameters: their values before the call are arbitrary but for the stated invariant
(shown to hold for the initialisers and to be preserved), the standard library's engine is an arbitrary state machine and
generate_canonical an arbitrary function of its state with values in [0,1) (assumed contracts)."""
import random
import re
from .base import *

CANON = lambda s: uf('canonical', s)
NEXT = lambda s: ufi('advance', s)
SEEDED = lambda k: ufi('seeded', k)


def stochastic(name, ver, runs=None):
    ALL[name] = Contract(name, 'f', [F('x')], None, fn=name.split('@')[0])

    def verify(prog, native, seed, tier, deadline):
        import time
        from engine.contract import Report, Obl, Solver, Prover
        from engine.loops import LoopExecutor, Unsupported, flat
        from engine.symex import Executor, Ptr
        from engine.norm import Blowup
        rep = Report(name)
        t0 = time.time()

        class Gen(LoopExecutor):
            def static(self, o):
                return o.kind == 'global' and o.g is not None and not o.g[0]['const'] and ('_ZZN3sla' in o.name or '_ZGVZN3sla' in o.name)

            def cell(self, st, what):
                """current value of a static"""
                for o in list(self.objs.values()):
                    if self.static(o) and self.role(o) == what:
                        return (st.mem.get(o.id) or self.global_cells(o))[0][1]
                return tm.var('old:' + what, 'I')

            def role(self, o):
                return self.kind(o) if o.size == 1 or '_ZGV' in o.name or o.g[1][0] in ('float', 'double') else 'generator'

            def kind(self, o):
                m = re.search(r'\d+([A-Za-z_]+)$', o.name)
                return 'guard' if '_ZGV' in o.name else m.group(1) if m else o.name

            def global_cells(self, o):
                if not self.static(o):
                    return LoopExecutor.global_cells(self, o)
                c = self.gcells.get(o.id)
                if c is None:
                    real = LoopExecutor.global_cells(self, o)
                    k = self.kind(o)
                    o.writable = True
                    ty = o.g[1]
                    if o.size == 1 or k == 'guard':
                        v = real.get(0, (0, const(0)))[1] if self.flags is None else self.flags.get(k, real.get(0, (0, const(0)))[1])
                        v = const(int(v.val)) if isinstance(v, tm.T) else const(v)
                        c = {0: (1, v)}
                    elif ty[0] in ('float', 'double'):
                        c = {0: (o.size, tm.var('old:' + k))}
                    else:
                        c = {0: (o.size, tm.var('old:generator', 'I'))}
                    self.gcells[o.id] = c
                return c

            def call(self, st, fr, d, res, work, mod):
                _, rt, callee, cargs, normal = d
                nm = callee[1]
                if nm == '@__cxa_guard_release':
                    p = self.val(st, cargs[0][1], mod.resolve(cargs[0][0]), mod)
                    st.mem[p.obj] = {0: (1, const(1))}
                if callee[0] != 'reg' and ('generate_canonical' in nm or 'linear_congruential_engine' in nm or 'mersenne_twister' in nm):
                    args = [self.val(st, v, mod.resolve(t), mod) for t, v, a in cargs]
                    p = args[0]
                    if not isinstance(p, Ptr) or not self.static(self.objs[p.obj]) or p.off:
                        raise Unsupported('engine is not the static one')
                    self.global_cells(self.objs[p.obj])
                    cells = st.mem[p.obj] = dict(st.mem.get(p.obj) or self.gcells[p.obj])
                    sz, s = cells[0]
                    out = None
                    if 'generate_canonical' in nm:
                        out = CANON(s)
                        for c in (tm.le(rconst(0), out), tm.lt(out, rconst(1))):
                            st.pc.append(c)
                            self.learn(st, c)
                        cells[0] = (sz, NEXT(s))
                        self.draws += 1
                    elif re.search(r'4seedE', nm) or re.search(r'E?C[12]Em', nm):
                        cells[0] = (sz, SEEDED(args[1]))
                    elif re.search(r'C[12]Ev', nm):
                        cells[0] = (sz, SEEDED(const(1)))
                    else:
                        raise Unsupported('call to ' + nm)
                    if res is not None:
                        st.frames[-1].regs[res] = out
                    if normal is not None:
                        self.goto(st, normal)
                    return None
                return LoopExecutor.call(self, st, fr, d, res, work, mod)

            def goto(self, st, lab):
                """a rejection loop: every iteration starts in an arbitrary state"""
                fr = st.frames[-1]
                body = self.natural_loops(fr.f).get(lab)
                if body is None or len(st.frames) > 1:
                    return Executor.goto(self, st, lab)
                if lab in st.visits.get('heads', ()):
                    # back edge: whatever was not made arbitrary is as it was
                    free, snap = st.visits['loop']
                    for o, cs in snap.items():
                        for off, c in cs.items():
                            now = st.mem.get(o, {}).get(off)
                            if (o, off) not in free and (now is None or now[1] is not c[1]):
                                raise Unsupported('the loop changes %s' % self.objs[o].name)
                    self.again += 1
                    raise Again()
                if st.visits.get('heads'):
                    raise Unsupported('several loops')
                free = set()
                st.visits = dict(st.visits, heads=st.visits.get('heads', ()) + (lab,), before=self.cell(st, 'generator'))
                for b in body:
                    for ins in fr.f.blocks[b]:
                        if ins[0] == 'store':
                            dd = self.decode(fr.f.module, ins)
                            for x in flat(dd):
                                v = fr.regs.get(x) if isinstance(x, str) else None
                                if isinstance(v, Ptr):
                                    m = st.mem[v.obj] = dict(st.mem.get(v.obj, {}))
                                    for off, c in list(m.items()):
                                        if isinstance(c[1], tm.T):
                                            m[off] = (c[0], tm.var('loop:%s:%s' % (x, off), c[1].sort))
                                            free.add((v.obj, off))
                snap = {}
                for o in list(self.objs.values()):
                    if self.static(o):
                        c = dict(st.mem.get(o.id) or self.global_cells(o))
                        if self.role(o) == 'generator':
                            c[0] = (c[0][0], tm.var('loop:generator', 'I'))
                            free.add((o.id, 0))
                        st.mem[o.id] = c
                for k, c in st.mem.items():
                    snap[k] = dict(c)
                st.visits['loop'] = (free, snap)
                return Executor.goto(self, st, lab)

            def run_path(self, st, work):
                try:
                    r = LoopExecutor.run_path(self, st, work)
                except Again:
                    return None
                if r is not None:
                    r.visits = st.visits
                return r

        class Again(Exception):
            pass

        def need(what, ok, by='z3'):
            if not ok:
                raise Unsupported('not discharged: ' + what)
            rep.obls.append(Obl(name, what, 'discharged', by, '', 0.0))
        try:
            f = prog.find_short(ALL[name].fn)
            if f is None:
                raise Unsupported('function not found in the compiled sources')
            solver = Solver()
            prover = Prover(solver, 1e-6, 20.0)

            def run(flags):
                ex = Gen(prog, dict(ALL), solver, deadline=min(deadline or 1e18, t0 + 60))
                ex.exclude = {ALL[name].fn}
                ex.flags, ex.again, ex.draws = flags, 0, 0
                out = []
                for g, d in f.module.globals.items():
                    if ('_ZZN3sla' in g or '_ZGVZN3sla' in g) and not d.get('const') and not d.get('external'):
                        ex.global_cells(ex.objs[ex.global_ptr(g, f.module).obj])
                for r in ex.explore(ex.start(f, [tm.var('x')], {}, [])):
                    if not solver.feasible(r.pc):
                        continue
                    if r.abort:
                        raise Unsupported('abnormal end: %s' % (r.abort,))
                    for o in list(ex.objs.values()):
                        if ex.static(o):
                            ex.global_cells(o)
                    r.flags, r.floats, r.gen = {}, {}, tm.var('old:generator', 'I')
                    for o in ex.objs.values():
                        if not ex.static(o):
                            continue
                        v = (r.mem.get(o.id) or ex.global_cells(o))[0][1]
                        if ex.role(o) == 'generator':
                            r.gen = v
                        elif o.size == 1 or '_ZGV' in o.name:
                            if not tm.isc(v):
                                raise Unsupported('flag %s is not decided' % o.name)
                            r.flags[ex.kind(o)] = int(v.val)
                        else:
                            r.floats[ex.kind(o)] = v
                    r.before = r.visits.get('before')
                    out.append(r)
                rep.paths += len(out)
                rep.inlined = sorted(set(rep.inlined) | ex.inlined)
                rep.used = sorted(set(rep.used) | ex.used_contracts)
                return out
            ver(run, solver, prover, need)
            rep.canaries = 1
            rep.solver_s, rep.queries = solver.time, solver.queries
        except (Unsupported, Blowup, tm.EvalError, KeyError, AttributeError, TypeError, ValueError, IndexError) as err:
            rep.obls = [Obl(name, 'extraction', 'undischarged', 'none', '%s: %s' % (type(err).__name__, err))]
            rep.mode, rep.reason, rep.canaries = 'bounded', '%s; the sampled runs stand in' % (err,), 0
        if runs and native is not None:
            runs(native, random.Random(seed * 31 + 7), 1200000 if tier == 'quick' else 6000000, rep)
        rep.wall = time.time() - t0
        return rep
    ALL[name].verify = verify
    ALL[name].rerun = lambda native, rep: runs(native, random.Random(1 * 31 + 7), 1200000, rep)


def reach(run, first, step):
    """follow the flags from the initialisers until nothing new is reached; first/step return what is pending after the call"""
    todo, seen = [(None, None)], set()
    while todo:
        flags, pending = todo.pop()
        key = (tuple(sorted(flags.items())) if flags is not None else None, pending)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 16:
            raise ValueError('too many flag states')
        rs = run(flags)
        if not rs:
            raise ValueError('no path')
        for i, r in enumerate(rs):
            p = (first if flags is None else step)(i, r, pending, 'after %s' % (dict(key[0]) if key[0] else 'load',))
            todo.append((r.flags, p))
    return seen


unr = lambda t: t.args[0] if t.op == 'i2r' else t
GEN = lambda: tm.var('old:generator', 'I')


def random_ver(run, solver, prover, need):
    x = tm.var('x')

    def draw(i, r, s, lab):
        need('%s, path %d: the value is the next draw' % (lab, i), prover.eq(r.pc, r.ret, CANON(s)), 'norm')
        need('%s, path %d: the engine advances once' % (lab, i), r.gen is NEXT(s), 'trivial')
        need('%s, path %d: at least 0 and below 1' % (lab, i), solver.implied(r.pc, and_(tm.le(rconst(0), r.ret), tm.lt(r.ret, rconst(1)))))

    def first(i, r, pending, lab):
        a = tm.abs_(x) + 1
        k = tm.r2i(round_(a / pow_(rconst(10), tm.toR(tm.r2i(round_(log(a) / log(rconst(10)))) - 6))))
        if r.ret.op != 'uf' and not r.ret.args:
            raise ValueError('no draw')
        s = unr(r.ret.args[-1])
        if s.op != 'uf' or not s.args:
            raise ValueError('not seeded')
        m = unr(s.args[-1])
        want = tm.ite(tm.eq(tm.fmodi(k, const(2)), 0), k + 1, k)
        need('%s, path %d: seeded from the argument' % (lab, i), s is SEEDED(m) and prover.eq(r.pc, m, want), 'norm')
        draw(i, r, s, lab)

    def step(i, r, pending, lab):
        draw(i, r, GEN(), lab)
    reach(run, first, step)
    if prover.eq([], CANON(GEN()), CANON(NEXT(GEN()))):
        raise RuntimeError('canary proved')


def gresid_ver(run, solver, prover, need):
    x = tm.var('x')

    def pair(i, r, start, lab):
        s = tm.var('loop:generator', 'I')
        X, Y = 2 * CANON(s) - 1, 2 * CANON(NEXT(s)) - 1
        R = X * X + Y * Y
        W = sqrt(-2 * log(R) / max_(R, rconst(1e-20)))
        need('%s, path %d: the draws start from the engine as left' % (lab, i), start(r.before), 'trivial')
        need('%s, path %d: both draws inside the unit circle' % (lab, i), solver.implied(r.pc, tm.lt(R, rconst(1))))
        need('%s, path %d: the engine is left behind the two draws' % (lab, i), r.gen is NEXT(NEXT(s)), 'trivial')
        for u, v in ((Y, X), (X, Y)):
            if prover.eq(r.pc, r.ret, u * W * x):
                for k, c in r.floats.items():
                    if prover.eq(r.pc, c, v * W):
                        need('%s, path %d: a Box-Muller deviate times the standard deviation, its partner kept' % (lab, i), True, 'norm')
                        if prover.eq(r.pc, r.ret, v * W * x):
                            raise RuntimeError('canary proved')
                        return k
        need('%s, path %d: a Box-Muller deviate times the standard deviation' % (lab, i), False)

    def first(i, r, pending, lab):
        return pair(i, r, lambda b: b is not None and b.args and b is SEEDED(b.args[-1]) and tm.isc(b.args[-1]), lab)

    def step(i, r, pending, lab):
        if pending is None:
            return pair(i, r, lambda b: b is GEN(), lab)
        need('%s, path %d: the kept deviate times the standard deviation' % (lab, i), prover.eq(r.pc, r.ret, tm.var('old:' + pending) * x), 'norm')
        need('%s, path %d: the engine is untouched' % (lab, i), r.gen is GEN(), 'trivial')
        return None
    reach(run, first, step)


def ks(vs, cdf):
    vs = sorted(vs)
    n = len(vs)
    return max(max(abs(cdf(v) - i / n), abs(cdf(v) - (i + 1) / n)) for i, v in enumerate(vs)) * math.sqrt(n)


def corr(a, b):
    ma, mb = sum(a) / len(a), sum(b) / len(b)
    sa, sb = sum((u - ma) ** 2 for u in a), sum((v - mb) ** 2 for v in b)
    return sum((u - ma) * (v - mb) for u, v in zip(a, b)) / math.sqrt(sa * sb) if sa * sb > 0 else 1.0


def seq(native, fn, xs, rep):
    """the values of successive calls in one fresh process"""
    import ctypes, os, signal
    sym = [s for s in native.symbol(fn) if ALL[fn].matches('@' + s)]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            f = ctypes.CDLL(native.path)[sym[0]]
            f.restype, f.argtypes = ctypes.c_float, [ctypes.c_float]
            out = struct.pack('<%df' % len(xs), *[f(v) for v in xs])
            with os.fdopen(w, 'wb') as o:
                o.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        d = i.read()
    os.waitpid(pid, 0)
    rep.native_samples += len(d) // 4
    vs = list(struct.unpack('<%df' % (len(d) // 4), d))
    return vs + [float('nan')] * (len(xs) - len(vs))


def emulated(n):
    """pairs of deviates formed from successive draws of the engine the library uses (None: not decided in single precision)"""
    s = 123456789
    out = []

    def draw():
        nonlocal s
        s = s * 16807 % 2147483647
        return f32(s - 1) / 2147483648.0
    while len(out) < n:
        while True:
            x = f32(2 * draw() - 1)
            y = f32(2 * draw() - 1)
            r = x * x + y * y
            if abs(r - 1) < 1e-6:
                return out
            if r < 1:
                break
        w = math.sqrt(-2 * math.log(r) / max(r, 1e-20)) if r > 0 else 0.0
        out.append((y * w, x * w))
    return out


def alarm(rep, what, x, got, want):
    rep.violations.append({'function': rep.name, 'obligation': 'history: ' + what, 'confirmed': True, 'input': x,
                           'native': {'ret': got}, 'contract': repr(want), 'alias': [], 'output': 'ret', 'prover': 'native run'})


def moments(vs, a, b, rep, what):
    for lab, u, v in (('successive values', vs[:-1], vs[1:]), ('values two apart', vs[:-2], vs[2:]),
                      ('squares of successive values', [q * q for q in vs[:-1]], [q * q for q in vs[1:]]),
                      ('pairs', vs[0::2][:len(vs) // 2], vs[1::2][:len(vs) // 2])):
        c = corr(u, v)
        if abs(c) * math.sqrt(len(u)) > 5.5:
            return alarm(rep, '%s: %s are uncorrelated' % (what, lab), {'calls': len(vs), 'x': a}, c, b)


def extremes(m=2147483647, a=16807):
    """seeds and call numbers at which the known engine is next to its smallest and largest state"""
    inv, t, out = pow(a, -1, m), 1, {0: [], 1: []}
    for k in range(1, 4000):
        t = t * inv % m
        for s in list(range(1, 50)) + list(range(m - 50, m)):
            i = s * t % m
            if 317000 < i < 3160000 and i % 2:
                out[s > m // 2].append((float(i - 1), k))
        if min(len(v) for v in out.values()) >= 4:
            break
    return out[0][:4] + out[1][:4]


def random_runs(native, rng, n, rep):
    s = [rng.uniform(-100, 100), rng.choice([1e6, 1e-3, 123456.0, 0.0])]
    a = seq(native, 'random', [s[0]] * n, rep)
    b = seq(native, 'random', [s[0]] + [rng.choice([rng.uniform(-1e4, 1e4), 1.0, 0.0, -1.0, s[0], 2.0, 1e6, -s[0], 123456789.0]) for _ in range(20000)], rep)
    c = seq(native, 'random', [s[1] + 7.5] * 200, rep)
    d = seq(native, 'random', [-s[0]] * 200, rep)
    rep.distinct = len(set(a))
    rep.samples = [{'function': 'random', 'input': {'x': s[0]}, 'output': a[:3]}]
    for i, v in enumerate(a + b + c):
        if not 0.0 <= v < 1.0:
            return alarm(rep, 'values are at least 0 and below 1', {'x': s[0], 'call': i}, v, '[0,1)')
    for i, (u, v) in enumerate(zip(a, b)):
        if u != v:
            return alarm(rep, 'the seed is used by the first call only', {'x': s[0], 'call': i}, v, u)
    for x, k in extremes():
        for i, v in enumerate(seq(native, 'random', [x] * (k + 1), rep)):
            if not 0.0 <= v < 1.0:
                return alarm(rep, 'values are at least 0 and below 1', {'x': x, 'call': i}, v, '[0,1)')
    if a[:200] == c:
        return alarm(rep, 'different seeds give different sequences', {'x': s[1] + 7.5, 'other': s[0]}, c[0], a[0])
    if d != a[:200]:
        return alarm(rep, 'the sign of the seed is ignored', {'x': -s[0]}, d[0], a[0])
    k = ks(a, lambda v: min(max(v, 0.0), 1.0))
    if k > 3:
        return alarm(rep, 'values are uniform', {'x': s[0], 'calls': n}, k, 'Kolmogorov-Smirnov below 3')
    moments(a, s[0], 0.0, rep, 'random')


def gresid_runs(native, rng, n, rep):
    a = seq(native, 'gresid', [1.0] * n, rep)
    sd = [f32(rng.choice([rng.uniform(0.1, 10), 1e-3, 100.0, 1.0, 2.0, 0.0, -1.5, rng.uniform(10, 1e6)])) for _ in range(20000)]
    b = seq(native, 'gresid', sd, rep)
    rep.distinct = len(set(a))
    rep.samples = [{'function': 'gresid', 'input': {'x': 1.0}, 'output': a[:3]}]
    for i, (u, v, s) in enumerate(zip(a, b, sd)):
        if not abs(v - u * s) <= 1e-5 * abs(u * s) + 1e-30:
            return alarm(rep, 'the value scales with the standard deviation of its own call', {'x': s, 'call': i}, v, u * s)
    k = ks(a, lambda v: 0.5 * math.erfc(-v / math.sqrt(2)))
    if k > 3:
        return alarm(rep, 'values are normal with mean zero and the given standard deviation', {'x': 1.0, 'calls': n}, k, 'Kolmogorov-Smirnov below 3')
    for lab, v in (('first', a[0::2]), ('second', a[1::2])):
        m = len(v)
        z = sum(v) / math.sqrt(m)
        if abs(z) > 6:
            return alarm(rep, 'the %s deviates have mean zero' % lab, {'x': 1.0, 'calls': n}, z / math.sqrt(m), 0.0)
        q = sum(u * u for u in v) / m
        if abs(q - 1) > 6 * math.sqrt(2 / m):
            return alarm(rep, 'the %s deviates have the given standard deviation' % lab, {'x': 1.0, 'calls': n}, math.sqrt(q), 1.0)
        for lim in (1.0, 2.0, 3.0, 3.5):
            p = math.erfc(lim / math.sqrt(2))
            c = sum(abs(u) > lim for u in v)
            if abs(c - p * m) > 6 * math.sqrt(p * m) + 3:
                return alarm(rep, 'the %s deviates beyond %g standard deviations are as many as in a normal distribution' % (lab, lim), {'x': 1.0, 'calls': n}, c, p * m)
    close = lambda u, v: abs(u - v) <= 1e-4 * (abs(v) + 1e-3)
    prs = emulated(20000)
    first = 0 if close(a[0], prs[0][0]) else 1 if close(a[0], prs[0][1]) else None
    if first is not None:
        # the engine is the one known: each pair is returned whole and in step
        for i, p in enumerate(prs):
            for j in (0, 1):
                if 2 * i + j < n and not close(a[2 * i + j], p[first ^ j]):
                    return alarm(rep, 'both deviates of each pair are returned, each once', {'x': 1.0, 'call': 2 * i + j}, a[2 * i + j], p[first ^ j])
    moments(a, 1.0, 0.0, rep, 'gresid')


stochastic('random', random_ver, random_runs)
stochastic('gresid', gresid_ver, gresid_runs)


# ---- version report ------------------------------------------------------------------------------------------------
def version_run(native, rep):
    form = lambda v: '%d.%d-%d' % (v // 1000000, v // 1000 % 1000, v % 1000)
    a = native.batch(ALL['veri'], [{}])[0].get('ret')
    b = native.batch(ALL['vers'], [{}])[0].get('ret')
    b = b.decode('latin1') if isinstance(b, bytes) else b
    rep.native_samples, rep.distinct = 2, 2
    if a is None or b is None or b != form(a):
        rep.violations.append({'function': 'vers', 'obligation': 'the text is the number in the form M.N-R', 'confirmed': True, 'input': {},
                               'native': {'ret': str(b)}, 'contract': form(a) if a is not None else '?', 'alias': [], 'output': 'ret', 'prover': 'native run'})


def version_verify(prog, native, seed, tier, deadline):
    import time
    from engine.contract import Report, Obl, Solver
    from engine.symex import Executor, Ptr
    from engine.ir import Unsupported
    rep = Report('vers')
    t0 = time.time()
    form = lambda v: '%d.%d-%d' % (v // 1000000, v // 1000 % 1000, v % 1000)
    try:
        ex = Executor(prog, dict(ALL), Solver())
        ex.exclude = {'vers', 'veri'}
        v, = ex.explore(ex.start(prog.find_short('veri'), [], {}, []))
        s, = ex.explore(ex.start(prog.find_short('vers'), [], {}, []))
        if v.abort or s.abort or not tm.isc(v.ret) or not isinstance(s.ret, Ptr):
            raise Unsupported('not constants')
        cells = ex.global_cells(ex.objs[s.ret.obj])
        txt = ''
        i = s.ret.off
        while i in cells and cells[i][1].val:
            txt += chr(cells[i][1].val & 255)
            i += 1
        if txt != form(v.ret.val):
            raise Unsupported('the two reports differ: %s, %s' % (txt, v.ret.val))
        rep.obls += [Obl('vers', 'both reports are constants', 'discharged', 'trivial'),
                     Obl('vers', 'the text is the number in the form M.N-R', 'discharged', 'trivial')]
    except (Unsupported, AttributeError, TypeError, ValueError, KeyError) as err:
        rep.obls = [Obl('vers', 'extraction', 'undischarged', 'none', str(err))]
        rep.mode, rep.reason = 'bounded', '%s; the native call stands in' % (err,)
    rep.canaries = 1
    if native is not None:
        version_run(native, rep)
    rep.wall = time.time() - t0
    return rep


ALL['veri'] = Contract('veri', 'i', [], None)
ALL['vers'] = Contract('vers', 'p', [], None)
ALL['vers'].verify = version_verify
ALL['vers'].rerun = version_run
