"""Refraction and air mass."""
from .base import *


def clamp(x, lo, hi):
    return min_(max_(x, rconst(lo)), rconst(hi))


def rr(*ab):
    """sampler: inside [a,b], or slightly/far outside"""
    a, b = ab[0], ab[1]

    def f(r):
        u = r.random()
        if u < 0.75:
            return r.uniform(a, b)
        if u < 0.85:
            return r.choice([a, b])
        k = r.choice([1, 1, 30])
        return a - k * r.uniform(0, b - a) if r.random() < 0.5 else b + k * r.uniform(0, b - a)
    return f


temp, press, hum = rr(150, 350), rr(1, 1200), rr(0, 1)
wave = lambda r: r.choice([r.uniform(0.2, 2), r.uniform(0.01, 0.3), r.uniform(90, 110), 100.0, r.uniform(100, 1e5), 2e6])


def vapour(t, p, rh):
    """water vapour pressure from saturation vapour pressure and relative humidity"""
    tdc = t - 273.15
    ps = pow_(rconst(10), (0.7859 + 0.03477 * tdc) / (1 + 0.00412 * tdc)) * (1 + p * (4.5e-6 + 6.0e-10 * tdc * tdc))
    return rh * ps / (1 - (1 - rh) * ps / p)


@contract('refcoq', None, [D('atk'), D('apm'), D('arh'), D('wl'), OUT('refa', 'd'), OUT('refb', 'd')], nsamples=150, ntol=1e-10,
          dom={'atk': temp, 'apm': press, 'arh': hum, 'wl': wave})
def _(atk, apm, arh, wl):
    t, p, r, w = clamp(atk, 100, 500), clamp(apm, 0, 10000), clamp(arh, 0, 1), clamp(wl, 0.1, 1e6)
    if p > 0:
        pw = vapour(t, p, r)
    else:
        pw = rconst(0)
    beta = 4.4474e-6 * t
    if wl <= 100:
        gamma = ((77.53484e-6 + (4.39108e-7 + 3.666e-9 / (w * w)) / (w * w)) * p - 11.2684e-6 * pw) / t
    else:
        gamma = (77.6890e-6 * p - (6.3938e-6 - 0.375463 / t) * pw) / t
        beta = beta * (1 - 0.0074 * pw)
    return {'refa': [gamma * (1 - beta)], 'refb': [-gamma * (beta - gamma / 2)]}


RARGS = 'ozd oh atk apm arh wl phi tlr eps'.split()


@contract('refro', 'd', [D(x) for x in RARGS])
def _(**k):
    return {'ret': uf('refro', *[k[x] for x in RARGS])}


def refro_oracle(ozd, oh, atk, apm, arh, wl, phi, tlr, eps, fine=False):
    """independent evaluation: Gauss-Legendre quadrature of the Auer-Standish integrand in each layer of the documented
    atmosphere, with the radius solved to convergence at every node"""
    import numpy as np
    z1 = math.fmod(ozd, 2 * math.pi)
    if abs(z1) >= math.pi:
        z1 -= math.copysign(2 * math.pi, z1)
    z0 = min(abs(z1), 1.623156204)
    h = min(max(oh, -1e3), 8e4)
    T0 = min(max(atk, 100.0), 500.0)
    P = min(max(apm, 0.0), 1e4)
    rh = min(max(arh, 0.0), 1.0)
    w = max(wl, 0.1)
    al = min(max(abs(tlr), 0.001), 0.01)
    optic = w <= 100.0
    g = 9.784 * (1 - 0.0026 * math.cos(2 * phi) - 0.00000028 * h)
    a = (287.6155 + 1.62887 / w ** 2 + 0.01360 / w ** 4) * 273.15e-6 / 1013.25 if optic else 77.6890e-6
    gal = g * 28.9644 / 8314.32
    ga = gal / al
    tc = T0 - 273.15
    ps = 10 ** ((0.7859 + 0.03477 * tc) / (1 + 0.00412 * tc)) * (1 + P * (4.5e-6 + 6e-10 * tc * tc))
    pw = rh * ps / (1 - (1 - rh) * ps / P) if P > 0 else 0.0
    x = pw * (1 - 18.0152 / 28.9644) * ga / (18.36 - ga)
    c1 = a * (P + x) / T0
    c2 = (a * x + (11.2684e-6 if optic else 6.3938e-6) * pw) / T0
    c5 = 0.0 if optic else 375463.0e-6 * pw / T0
    R0 = 6378120.0
    r0 = R0 + h
    rt = R0 + max(11000.0, h)
    rs = R0 + 80000.0

    c3 = (ga - 1) * al * c1 / T0
    c4 = 17.36 * al * c2 / T0
    c6 = 0.0 if optic else c5 * 16.36 * al / T0 ** 2

    def trop(r):
        T = np.clip(T0 - al * (r - r0), 100.0, 320.0)
        q = T / T0
        return 1 + (c1 * q ** (ga - 2) - (c2 - c5 / T) * q ** 16.36) * q, r * (-c3 * q ** (ga - 2) + (c4 - c6 / q) * q ** 16.36)
    nt = float(trop(np.array([rt]))[0][0])
    Tt = float(np.clip(T0 - al * (rt - r0), 100.0, 320.0))

    def strat(r):
        y = (nt - 1) * np.exp(-gal / Tt * (r - rt))
        return 1 + y, -r * gal / Tt * y
    sk = float(trop(np.array([r0]))[0][0]) * r0 * math.sin(z0)
    tot = 0.0
    xg, wg = np.polynomial.legendre.leggauss(60 if fine else 16)
    for f, ra, rb in ((trop, r0, rt), (strat, rt, rs)):
        def zd(r):
            s = sk / (r * float(f(np.array([r]))[0][0]))
            return math.atan2(s, math.sqrt(max(1 - s * s, 0.0)))
        za = z0 if f is trop else zd(ra)
        zb = zd(rb)
        N = 200 if fine else 10
        for k in range(N):
            u, v = za + (zb - za) * k / N, za + (zb - za) * (k + 1) / N
            z = (u + v) / 2 + (v - u) / 2 * xg
            s = np.sin(z)
            r = np.full_like(z, ra) if sk == 0 else None
            if r is None:
                r = np.full_like(z, ra)
                for _ in range(200 if fine else 30):
                    n, dn = f(r)
                    st = np.clip(np.where(s > 1e-20, (r * n * s - sk) / np.where(s > 1e-20, s, 1) / (n + dn), 0.0), -4e4, 4e4)
                    r = r - st
                    if np.max(np.abs(st)) < 1e-6:
                        break
            n, dn = f(r)
            tot += float(np.sum(wg * dn / (n + dn))) * (v - u) / 2
    return math.copysign(1, z1) * tot if z1 != 0 else tot


def refro_input(r):
    u = r.random()
    z = r.uniform(0, 1.5) if u < 0.5 else r.uniform(1.4, 1.55) if u < 0.7 else 0.0 if u < 0.75 else \
        r.choice([-1, 1]) * r.uniform(0, 1.5) + r.choice([0, 2 * math.pi, -4 * math.pi])
    x = {'ozd': z, 'oh': r.choice([r.uniform(0, 5000), r.uniform(-1500, 12500), r.uniform(12500, 90000)]) if r.random() < 0.6 else r.uniform(0, 4000),
         'atk': r.uniform(240, 310), 'apm': r.choice([r.uniform(300, 1050), r.uniform(500, 1050), 0.0, -5.0]),
         'arh': r.choice([r.uniform(0, 1), r.uniform(-0.5, 1.5)]), 'wl': r.choice([r.uniform(0.3, 2), r.uniform(0.01, 0.2), r.uniform(80, 130), 1e4, 1e6]),
         'phi': r.uniform(-1.6, 1.6), 'tlr': r.choice([0.0065, r.uniform(0.003, 0.009), -0.0065, 0.05, 0.0]), 'eps': r.choice([1e-8, 1e-9, 1e-10, 1e-8])}
    u = r.random()
    if u < 0.15:
        # a little beyond the horizon, in ordinary conditions
        x.update(ozd=r.choice([-1, 1]) * r.uniform(1.5, 1.62), oh=r.uniform(0, 3000), atk=r.uniform(265, 300), apm=r.uniform(600, 1030), arh=r.uniform(0, 0.6),
                 wl=r.uniform(0.3, 2), tlr=r.uniform(0.005, 0.0075))
    elif u < 0.2:
        x.update(atk=r.choice([r.uniform(60, 130), 100.0]), ozd=r.uniform(0, 1.2), apm=r.uniform(1, 60), arh=0.0)
    elif u < 0.25:
        x.update(apm=r.uniform(1050, 1500), ozd=r.uniform(0, 1.2))
    elif u < 0.28:
        x.update(atk=r.choice([r.uniform(310, 520), r.uniform(400, 500)]), ozd=r.uniform(0, 1.2), arh=0.0)
    elif u < 0.31:
        x.update(apm=r.uniform(0.02, 2), arh=1.0, atk=r.uniform(240, 260))
    elif u < 0.34:
        x.update(wl=100.0)
    elif u < 0.37:
        x.update(ozd=r.choice([-1, 1]) * r.uniform(1.6228, 1.62315), oh=r.uniform(0, 3000), atk=r.uniform(265, 300), apm=r.uniform(600, 1030), arh=0.0,
                 wl=r.uniform(0.3, 2), tlr=r.uniform(0.005, 0.0075))
    return x


CLIPS = {'oh': (-1e3, 8e4), 'atk': (100.0, 500.0), 'apm': (0.0, 1e4), 'arh': (0.0, 1.0), 'wl': (0.1, None),
         'tlr': (0.001, 0.01), 'eps': (1e-12, 0.1), 'ozd': (None, 1.623156204)}


def refro_clip(x):
    """the arguments as the documentation bounds them, and the sign of the result"""
    z = math.fmod(x['ozd'], 2 * math.pi)
    if abs(z) >= math.pi:
        z -= math.copysign(2 * math.pi, z)
    y = dict(x, ozd=abs(z), tlr=abs(x['tlr']), eps=abs(x['eps']))
    for k, (lo, hi) in CLIPS.items():
        if lo is not None:
            y[k] = max(y[k], lo)
        if hi is not None:
            y[k] = min(y[k], hi)
    return y, (-1.0 if z < 0 else 1.0)


def refro_wide(r):
    """any arguments, most of them outside the documented bounds"""
    x = refro_input(r)
    for k, f in (('oh', lambda: r.choice([-1e3, 8e4, r.uniform(-5e3, -900), r.uniform(7.9e4, 1e6)])),
                 ('atk', lambda: r.choice([100.0, 500.0, r.uniform(-50, 105), r.uniform(310, 505), r.uniform(495, 2000)])),
                 ('apm', lambda: r.choice([0.0, 1e4, -r.uniform(0, 5), r.uniform(1050, 9900), r.uniform(9e3, 1e5)])),
                 ('arh', lambda: r.choice([0.0, 1.0, -r.uniform(0, 3), 1 + r.uniform(0, 3)])),
                 ('wl', lambda: r.choice([0.1, 0.0, -r.uniform(0, 3), r.uniform(0.01, 0.12), 100.0, r.uniform(99, 101)])),
                 ('tlr', lambda: r.choice([-1, 1]) * r.choice([0.0, 0.001, 0.01, r.uniform(0, 0.0012), r.uniform(0.0095, 0.012), 5.0])),
                 ('eps', lambda: r.choice([-1, 1]) * r.choice([0.05, 1e-6, r.uniform(0.09, 0.2), 3.0, 1e-10])),
                 ('ozd', lambda: r.choice([-1, 1]) * r.choice([1.623156204, 3.1415, 3.1417, r.uniform(1.57, 1.65), r.uniform(1.65, 9), r.uniform(0, 50)]))):
        if r.random() < 0.35:
            x[k] = f()
    return x


def refro_verify(prog, native, seed, tier, deadline):
    import random
    from engine.contract import Report, Obl
    rep = Report('refro')
    rep.mode = 'bounded'
    rep.reason = 'how near the Simpson sum comes to the integral: checked on sampled inputs against an independent integration, not proved'
    rng = random.Random(seed * 7919 + 17)
    xs = [refro_input(rng) for _ in range(2000 if tier == 'quick' else 30000)]
    # below 93 degrees: the same value as at 93 degrees
    lo = []
    for _ in range(40):
        x = refro_input(rng)
        x['ozd'] = rng.choice([-1, 1]) * rng.choice([rng.uniform(1.623157, 1.65), rng.uniform(1.65, 3.14)])
        lo += [x, dict(x, ozd=math.copysign(1.623156204, x['ozd']))]
    wide = [refro_wide(rng) for _ in range(600 if tier == 'quick' else 6000)]
    bounded_ = [refro_clip(x) for x in wide]
    lo += [y for x, (c, s) in zip(wide, bounded_) for y in (x, c)]
    rs = native.batch(ALL['refro'], xs + lo, timeout=300)
    seen = set()

    def bad(what, x, r, e):
        rep.violations.append({'function': 'refro', 'obligation': 'bounded: ' + what, 'confirmed': True,
                               'input': x, 'native': r, 'contract': repr(e), 'alias': [], 'output': 'ret', 'prover': 'bounded'})
    for x, r in zip(xs, rs):
        if r.get('missing'):
            break
        e = refro_oracle(**x)
        v = r.get('ret', float('nan'))
        seen.add(v)
        ok = lambda: abs(v - e) <= 1e-9 + 0.5 * x['eps'] + (1e-6 if abs(e) < 0.004 and abs(math.remainder(x['ozd'], 2 * math.pi)) < 1.55 else 3e-4) * abs(e)
        if not ok():
            e = refro_oracle(fine=True, **x)
        if not ok():
            bad('agrees with the independent integration', x, r, e)
            break
    for i in range(len(xs) + 80, len(rs) - 1, 2):
        u, v, s = rs[i].get('ret', float('nan')), rs[i + 1].get('ret', float('nan')), bounded_[(i - len(xs) - 80) // 2][1]
        if not abs(u - s * v) <= 1e-12 + 1e-9 * abs(v) + 0.5 * (xs + lo)[i + 1]['eps'] and not (u != u and v != v) and abs(u) < 1e9:
            # not where the model itself is at the mercy of the last bits
            c = (xs + lo)[i + 1]
            near = [q.get('ret', float('nan')) for q in native.batch(ALL['refro'], [dict(c, ozd=c['ozd'] * (1 + d)) for d in (1e-14, -1e-14, 1e-15, -1e-15)])]
            if not all(abs(q - v) <= 1e-3 * abs(u - s * v) for q in near):
                continue
            bad('an argument beyond its documented bound acts as the bound', (xs + lo)[i], rs[i], s * v)
            break
    for i in range(len(xs), min(len(xs) + 80, len(rs)) - 1, 2):
        u, v = rs[i].get('ret', float('nan')), rs[i + 1].get('ret', float('nan'))
        if not abs(u - v) <= 1e-12 and not (u != u and v != v):
            bad('below 93 degrees the value is that at 93 degrees', (xs + lo)[i], rs[i], v)
            break
    rep.native_samples, rep.distinct = len(rs), len(seen)
    rep.samples = [{'function': 'refro', 'input': xs[0], 'output': rs[0]}]
    rep.obls.append(Obl('refro', 'bounded: %d sampled inputs agree with an independent integration' % len(xs), 'undischarged', 'none', 'bounded, not proved'))
    return rep


ALL['refro'].verify = refro_verify


# refro, without its quadrature: the code is executed symbolically up to the outermost loop (the quadrature of the two
# layers) and after it; what the loop reads is compared with the documented atmosphere, what it writes is arbitrary
def refro_atmosphere(a):
    """what the quadrature needs, from the bounded arguments a"""
    z, h, T, P, rh, w, al, phi = [a[k] for k in ('ozd', 'oh', 'atk', 'apm', 'arh', 'wl', 'tlr', 'phi')]
    optic = w <= 100
    g = 9.784 * (1 - 0.0026 * cos(2 * phi) - 0.00000028 * h)
    A = (287.6155 + (1.62887 + 0.01360 / (w * w)) / (w * w)) * rconst(273.15e-6 / 1013.25) if optic else rconst(77.6890e-6)
    gal = g * rconst(28.9644 / 8314.32)
    ga = gal / al
    pw = vapour(T, P, rh) if P > 0 else rconst(0)
    x = pw * rconst(1 - 18.0152 / 28.9644) * ga / (18.36 - ga)
    c1 = A * (P + x) / T
    c2 = (A * x + (rconst(11.2684e-6) if optic else rconst(6.3938e-6)) * pw) / T
    c5 = rconst(0) if optic else rconst(375463.0e-6) * pw / T
    c3, c4, c6 = (ga - 1) * al * c1 / T, 17.36 * al * c2 / T, rconst(0) if optic else c5 * 16.36 * al / (T * T)
    r0, rt, rs = 6378120.0 + h, 6378120.0 + max_(h, rconst(11000)), rconst(6458120.0)

    def trop(r):
        t = clamp(T - al * (r - r0), 100, 320)
        q = t / T
        u, v = pow_(q, ga - 2), pow_(q, rconst(16.36))
        return t, 1 + (c1 * u - (c2 - c5 / t) * v) * q, r * (-c3 * u + (c4 - c6 / q) * v)
    _, n0, d0 = trop(r0)
    tt, nt, dt = trop(rt)

    def strat(r):
        y = (nt - 1) * exp(-gal / tt * (r - rt))
        return 1 + y, -r * (gal / tt) * y
    sk = n0 * r0 * sin(z)

    def zd(r, n):
        s = sk / (r * n)
        return atan2(s, sqrt(max_(1 - s * s, rconst(0))))
    (nu, du), (nv, dv) = strat(rt), strat(rs)
    f = lambda n, d: d / (n + d)
    return {'half the tolerance': a['eps'] / 2, 'zenith distance at the observer': z, 'temperature at the observer': T, 'lapse rate': al,
            'gamal': gal, 'gamma-2': ga - 2, 'c1': c1, 'c2': c2, 'c3': c3, 'c4': c4, 'c5': c5, 'c6': c6,
            'radius at the observer': r0, 'radius at the tropopause': rt, 'temperature at the tropopause': tt,
            'refractive index at the tropopause': nt, 'Snell invariant': sk,
            'zenith distance below the tropopause': zd(rt, nt), 'zenith distance above the tropopause': zd(rt, nu),
            'zenith distance at the limit': zd(rs, nv), 'integrand at the observer': f(n0, d0),
            'integrand below the tropopause': f(nt, dt), 'integrand above the tropopause': f(nu, du), 'integrand at the limit': f(nv, dv)}


CUTS = ('radius at the tropopause', 'radius at the observer', 'temperature at the tropopause', 'Snell invariant', 'refractive index at the tropopause', 'gamal', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'gamma-2')


# the variable that holds it
NAMED = {'half the tolerance': 'tolerance', 'zenith distance at the observer': 'zobs2', 'temperature at the observer': 'tdk_ok', 'lapse rate': 'alpha',
         'gamal': 'gamal', 'gamma-2': 'gamm2', 'c1': 'c1', 'c2': 'c2', 'c3': 'c3', 'c4': 'c4', 'c5': 'c5', 'c6': 'c6',
         'radius at the observer': 'r0', 'radius at the tropopause': 'rt', 'temperature at the tropopause': 'tt',
         'refractive index at the tropopause': 'dnt', 'Snell invariant': 'sk0',
         'zenith distance below the tropopause': 'zt', 'zenith distance above the tropopause': 'zts', 'zenith distance at the limit': 'zs',
         'integrand at the observer': 'f0', 'integrand below the tropopause': 'ft', 'integrand above the tropopause': 'fts', 'integrand at the limit': 'fs'}


def refro_domain(prog, native, seed, tier, deadline):
    import random, time
    from engine.contract import Report, Obl, Solver, Prover, sc
    from engine.loops import LoopExecutor, Unsupported, flat
    from engine.symex import Executor, Ptr
    from engine.norm import Blowup
    from engine import term as tm
    rep = Report('refro@domain')
    rep.linked = True           # each quantity is in the variable of its name
    t0 = time.time()

    class Cut(LoopExecutor):
        def goto(self, st, lab):
            fr = st.frames[-1]
            if len(st.frames) > 1:
                return Executor.goto(self, st, lab)
            loops = self.natural_loops(fr.f)
            body = loops.get(lab)
            if body is None or any(lab in b for h, b in loops.items() if h != lab):
                return Executor.goto(self, st, lab)
            if 'cut' in st.visits:
                raise Unsupported('more than one outermost loop')
            used, outs = set(), set()
            for b in body:
                for ins in fr.f.blocks[b]:
                    d = self.decode(fr.f.module, ins)
                    used.update(x for x in flat(d) if isinstance(x, str) and x in fr.regs)
                    if d[0] in ('br', 'cbr'):
                        outs.update(x for x in (d[1:2] if d[0] == 'br' else d[2:4]) if x not in body)
                    elif d[0] in ('switch', 'ret'):
                        raise Unsupported('%s inside the quadrature' % d[0])
            if len(outs) != 1:
                raise Unsupported('the quadrature has %d exits' % len(outs))
            live = []
            for r in sorted(used):
                v = fr.regs[r]
                if not isinstance(v, Ptr):
                    live.append((v, r))
                    continue
                if not isinstance(v.off, int) or v.off:
                    raise Unsupported('pointer into an object read by the quadrature')
                m = st.mem[v.obj] = dict(st.mem.get(v.obj, {}))
                for off, c in sorted(m.items()):
                    if not isinstance(c[1], tm.T):
                        raise Unsupported('pointer kept in memory across the quadrature')
                    live.append((c[1], r if off == 0 else ''))
                    m[off] = (c[0], tm.var('quad%s:%d' % (r, off), c[1].sort))
                if not m:
                    m[0] = (8, tm.var('quad%s:0' % r))
            st.visits = dict(st.visits, cut=(live, list(st.pc)))
            return Executor.goto(self, st, outs.pop())

        def run_path(self, st, work):
            r = Executor.run_path(self, st, work)
            if r is not None:
                r.cut = st.visits.get('cut')
            return r
    try:
        f = prog.find_short('refro')
        if f is None:
            raise Unsupported('function not found in the compiled sources')
        solver = Solver()
        prover = Prover(solver, 1e-12, 20.0)
        ex = Cut(prog, dict(ALL), solver, deadline=min(deadline or 1e18, t0 + 60))
        ex.exclude = {'refro'}
        raw = {n: tm.var(n) for n in RARGS}
        rs = ex.explore(ex.start(f, [raw[n] for n in RARGS], {}, []))
        rep.paths = len(rs)
        z = tm.wrapS(raw['ozd'], rconst(2 * math.pi), rconst(math.pi))
        base = {'ozd': tm.abs_(z), 'tlr': tm.abs_(raw['tlr']), 'eps': tm.abs_(raw['eps'])}
        ab, doc, rng = {}, {}, []
        for k, (lo, hi) in CLIPS.items():
            t = base.get(k, raw[k])
            if lo is not None:
                t = max_(t, rconst(lo))
            if hi is not None:
                t = min_(t, rconst(hi))
            doc[k], ab[k] = t, tm.var(k + '!')
            rng.append(tm.le(rconst(0.0 if lo is None else lo), ab[k]))
            if hi is not None:
                rng.append(tm.le(ab[k], rconst(hi)))
        ab['phi'] = raw['phi']
        rawvars = set(RARGS) - {'phi'}
        memo = {}

        def abstract(t):
            """replace each subterm that provably is an argument as documented bounded by its variable"""
            todo = [s for s in tm.subterms([t]) if s.sort == 'R']
            m = {}
            for s in todo:
                if s.id not in memo:
                    memo[s.id] = None
                    fv = {v.val if hasattr(v, 'val') else v for v in tm.free_vars([s])}
                    if len(fv) == 1 and next(iter(fv)) in rawvars:
                        k = next(iter(fv))
                        if s is doc[k] or s.op == 'ite' and prover.eq([], s, doc[k], deadline=time.time() + 5):
                            memo[s.id] = ab[k]
                if memo[s.id] is not None:
                    m[s] = memo[s.id]
            return tm.subst(t, m) if m else t

        def need(what, ok, by):
            if not ok:
                raise Unsupported('not discharged: ' + what)
            rep.obls.append(Obl('refro@domain', what, 'discharged', by, '', 0.0))
        names = lambda ts: {v.val if hasattr(v, 'val') else v for v in tm.free_vars(ts)}
        posts, seen = {}, {}
        for i, r in enumerate(rs):
            if not solver.feasible(r.pc):
                continue
            if r.abort or r.cut is None:
                raise Unsupported('a path ends before the quadrature')
            live, pc = r.cut
            apc = [abstract(c) for c in pc]
            alive = [(abstract(c) if isinstance(c, tm.T) else c, nm) for c, nm in live]
            need('path %d: the way to the quadrature depends on the bounded arguments only' % i, not names(apc) & rawvars, 'trivial')
            need('path %d: what the quadrature reads depends on the bounded arguments only' % i,
                 not names([c for c, r_ in alive if isinstance(c, tm.T)]) & rawvars, 'z3')
            X = r.ret
            need('path %d: the result is formed from what the quadrature leaves' % i, all(str(n).startswith('quad') for n in names([X])), 'trivial')
            sg = 1 if solver.implied(r.pc, tm.le(rconst(0), z)) else -1 if solver.implied(r.pc, tm.lt(z, rconst(0))) else 0
            need('path %d: the sign of the zenith distance is decided' % i, sg, 'z3')
            key = tuple(sorted(c.id for c in apc))
            posts.setdefault(key, []).append((sg, X))
            if key not in seen:
                seen[key] = (apc, alive)
        ids = sorted(posts)
        for n, key in enumerate(ids):
            for m, (sg, X) in enumerate(posts[key][1:]):
                s0, X0 = posts[key][0]
                need('case %d.%d: the result has the sign of the zenith distance' % (n, m),
                     s0 != sg and prover.eq([], X, -X0) or s0 == sg and prover.eq([], X, X0), 'norm')
            need('case %d: both signs covered' % n, {a for a, b in posts[key]} == {1, -1}, 'trivial')
            apc, alive = seen[key]
            H = apc + rng
            if not solver.feasible(H):
                continue
            rnd = random.Random(5)

            def draw():
                return {'ozd!': rnd.uniform(0, 1.6), 'oh!': rnd.uniform(-900, 3e4), 'atk!': rnd.uniform(120, 480), 'apm!': rnd.choice([0.0, rnd.uniform(1, 1e3)]),
                        'arh!': rnd.uniform(0, 1), 'wl!': rnd.choice([rnd.uniform(0.1, 99), rnd.uniform(101, 1e5)]), 'tlr!': rnd.uniform(0.001, 0.01),
                        'eps!': rnd.uniform(1e-12, 0.1), 'phi': rnd.uniform(-1.5, 1.5)}
            for sp in tm.Forker(lambda c: solver.feasible(H + c)).run(lambda: refro_atmosphere(ab)):
                hy, want = H + list(sp[0]), sp[1]
                env = None
                for _ in range(400):
                    e = draw()
                    if all(tm.ev(c, e) for c in hy):
                        env = e
                        break
                if env is None:
                    if solver.feasible(hy):
                        raise Unsupported('no point in case %d' % n)
                    continue
                vals = [(float(tm.ev(c, env)), c, r) for c, r in alive if isinstance(c, tm.T) and c.sort == 'R']
                cutc, cutd = {}, {}
                for lab, t in want.items():
                    v = float(tm.ev(t, env))
                    ok = False
                    for u, c, r in sorted(vals, key=lambda q: (q[2] != '%' + NAMED[lab], abs(q[0] - v)))[:12]:
                        # quantities already shown equal are generalised on both sides
                        if abs(u - v) <= 1e-9 * (abs(v) + 1e-12) and prover.eq(hy, tm.subst(c, cutc), tm.subst(t, cutd)):
                            ok = True
                            rep.linked = rep.linked and r == '%' + NAMED[lab]
                            if c.args and t.args and lab in CUTS:
                                cutc[-c] = cutd[-t] = -tm.var(lab)
                                cutc[c] = cutd[t] = tm.var(lab)
                                for o in (1.0, 6378120.0):
                                    if (c - o).args and (t - o).args and c.op == '+' and t.op == '+':
                                        cutc[c - o] = cutd[t - o] = tm.var(lab) - o
                            break
                    need('case %d: %s as documented' % (n, lab), ok, prover.by or 'norm')
                    if lab == 'Snell invariant' and prover.eq(hy, c, t * rconst(1.001)):
                        raise RuntimeError('canary proved')
                    rep.canaries = 1
    except Exception as err:
        if 'canary' in str(err):
            raise
        rep.mode, rep.reason = 'bounded', 'outside the quadrature: %s; checked on sampled inputs only' % (err,)
        rep.obls = [Obl('refro@domain', 'extraction', 'undischarged', 'none', str(err))]
        rep.canaries = 0
    else:
        rep.inlined, rep.used = sorted(ex.inlined), sorted(ex.used_contracts)
        rep.solver_s, rep.queries = solver.time, solver.queries
    rep.wall = time.time() - t0
    return rep


ALL['refro@domain'] = Contract('refro@domain', None, [], None, fn='refro')
ALL['refro@domain'].verify = refro_domain


# refro's quadrature, by cut points: the heads of its loops (layers, refinements, nodes).  From an arbitrary state at a
# head the code is executed to the next head; the change of every variable that matters is the documented step.
QREAL = ('tolerance alpha gamm2 delm2 c1 c2 c3 c4 c5 c6 tdk_ok r0 rt tt dnt gamal sk0 zobs2 zt zts zs f0 ft fts fs reft refp '
         'ref_old z0 z_range fb ff f_odd f_even h r').split()
QINT = 'k num_strips step i'.split()
LAYER = ('k tolerance alpha gamm2 delm2 c1 c2 c3 c4 c5 c6 tdk_ok r0 rt tt dnt gamal sk0 zobs2 zt zts zs f0 ft fts fs').split()
REFINE = LAYER + 'reft ref_old num_strips step z0 z_range fb ff f_odd f_even'.split()
NODE = REFINE + 'h r i'.split()
ALIVE = {'layer': LAYER, 'refine': REFINE, 'node': NODE}


def refro_index(v, layer, r):
    """refractive index and r*dn/dr of the model at distance r from the centre of the Earth"""
    if layer == 0:
        t = max_(min_(v['tdk_ok'] - v['alpha'] * (r - v['r0']), rconst(320)), rconst(100))
        q = t / v['tdk_ok']
        a, b = pow_(q, v['gamm2']), pow_(q, v['delm2'])
        return 1 + (v['c1'] * a - (v['c2'] - v['c5'] / t) * b) * q, r * (-v['c3'] * a + (v['c4'] - v['c6'] / q) * b)
    b = v['gamal'] / v['tt']
    w = (v['dnt'] - 1) * exp(-b * (r - v['rt']))
    return 1 + w, -r * b * w


def refro_node(v, layer):
    """one node: the radius by at most four Newton steps from the last one, to the metre; the integrand joins its sum"""
    S = sin(v['z0'] + v['h'] * tm.toR(v['i']))
    r = v['r']
    if S > 1e-20:
        d = rconst(1e6)
        for _ in range(4):
            if not abs_(d) > 1:
                break
            n, m = refro_index(v, layer, r)
            d = (r * n - v['sk0'] / S) / (n + m)
            r = r - d
    n, m = refro_index(v, layer, r)
    f = m / (n + m)
    if tm.and_(tm.eq(v['step'], 1), tm.eq(tm.srem(v['i'], const(2)), 0)):
        return dict(v, r=r, i=v['i'] + v['step'], f_even=v['f_even'] + f)
    return dict(v, r=r, i=v['i'] + v['step'], f_odd=v['f_odd'] + f)


def refro_quadrature(prog, native, seed, tier, deadline):
    import time
    from engine.contract import Report, Obl, Solver, Prover
    from engine.loops import LoopExecutor, RegionEnd
    from engine.symex import Executor, Ptr, Unsupported
    from engine.norm import Blowup
    from engine import term as tm
    rep = Report('refro@quadrature')
    t0 = time.time()

    class Cuts(LoopExecutor):
        """stops at the next cut point"""
        heads, armed = {}, False

        def goto(self, st, lab):
            if len(st.frames) > 1 or lab not in self.heads:
                return Executor.goto(self, st, lab)
            if not self.armed or st.visits.get('left'):
                st.visits['hit'] = self.heads[lab]
                raise RegionEnd()
            st.visits['left'] = 1
            return Executor.goto(self, st, lab)

        def run_path(self, st, work):
            r = LoopExecutor.run_path(self, st, work)
            if r is not None and st.visits.get('hit'):
                self.hits.append((st.visits['hit'], st))
                return None
            return r
    try:
        f = prog.find_short('refro')
        if f is None:
            raise Unsupported('function not found in the compiled sources')
        domain = refro_domain(prog, native, seed, tier, deadline)
        f.module.parse_function(f)
        solver = Solver()
        prover = Prover(solver, 1e-12, 20.0)

        def executor():
            ex = Cuts(prog, dict(ALL), solver, deadline=min(deadline or 1e18, t0 + 100))
            ex.exclude = {'refro'}
            ex.hits = []
            return ex
        ex = executor()
        loops = ex.natural_loops(f)
        depth = {h: sum(h in b for b in loops.values()) for h in loops}
        byd = {}
        for h, d in depth.items():
            byd.setdefault(d, []).append(h)
        if sorted(byd) != [1, 2, 3, 4] or any(len(b) != 1 for b in byd.values()):
            raise Unsupported('the loops are not layers, refinements, nodes, radius')
        ex.heads = {byd[1][0]: 'layer', byd[2][0]: 'refine', byd[3][0]: 'node'}
        heads = ex.heads
        label = {w: h for h, w in heads.items()}
        ex.explore(ex.start(f, [tm.var(n) for n in RARGS], {}, []))
        if not ex.hits or any(w != 'layer' for w, s in ex.hits):
            raise Unsupported('the quadrature is not reached first')
        base, ex0 = ex.hits[0][1], ex
        regs = {}
        for b in f.blocks.values():
            for ins in b:
                if ins[0] == 'alloca':
                    regs[ins[1]] = ex.decode(f.module, ins)[1]
        entry = []
        cellof = lambda st, n: st.mem.get(st.frames[-1].regs['%' + n].obj, {}).get(0, (0, None))[1]
        for n in QREAL + QINT:
            if '%' + n not in regs:
                raise Unsupported('no variable ' + n)

        def need(what, ok, by='norm'):
            if not ok:
                raise Unsupported('not discharged: ' + what)
            rep.obls.append(Obl('refro@quadrature', what, 'discharged', by, '', 0.0))
        # entry
        need('entry: the quadrature starts from the documented atmosphere, variable by variable', domain.mode == 'proof' and domain.linked, 'refro@domain')
        for j, (w, s) in enumerate(ex.hits):
            d = cellof(s, 'delm2')
            need('entry %d: the water vapour exponent less 2' % j, tm.isc(d) and abs(float(d.val) - 16.36) < 1e-12, 'trivial')
            need('entry %d: starts with the lower layer' % j, tm.isc(cellof(s, 'k')) and cellof(s, 'k').val == 0, 'trivial')
        v0 = {n: tm.var(n + '~', 'I' if n in QINT else 'R') for n in QREAL + QINT}
        frozen = {n: cellof(base, n) for n in LAYER if n not in ('k',) and all(
            isinstance(cellof(s, n), tm.T) and tm.isc(cellof(s, n)) and float(cellof(s, n).val) == float(cellof(base, n).val) for w, s in ex.hits)
            if isinstance(cellof(base, n), tm.T) and tm.isc(cellof(base, n))}
        v0.update(frozen)
        inv = [tm.le(const(8), v0['num_strips']), tm.le(v0['num_strips'], const(32766)), tm.le(const(1), v0['step']), tm.le(v0['step'], const(2)),
               tm.le(const(1), v0['i']), tm.le(v0['i'], v0['num_strips'] + 1)]

        def run(where, layer):
            """all ways from an arbitrary state at the head to the next head or the end"""
            ex = executor()
            ex.heads, ex.armed = heads, True
            ex.objs, ex.nobj, ex.gobj, ex.gcells, ex.icache = dict(ex0.objs), ex0.nobj, dict(ex0.gobj), dict(ex0.gcells), ex0.icache
            st = base.copy()
            fr = st.frames[-1]
            v = dict(v0, k=const(layer))
            mem = {}
            for a, p in sorted(fr.regs.items(), key=lambda q: str(q[0])):
                if not isinstance(p, Ptr):
                    continue
                n, ty = a[1:], regs.get(a)
                if ty is None:
                    continue
                if n in v:
                    val = v[n] if n in ALIVE[where] or n == 'refp' and where == 'layer' else tm.var('dead:' + n, v[n].sort)
                    mem[p.obj] = {0: (ex.objs[p.obj].size, val)}
                elif ty[0] in ('double',) or ex.objs[p.obj].size == 8 and ty[0] not in ('ptr', 'struct', 'named'):
                    mem[p.obj] = {0: (8, tm.var('dead:' + n))}
                else:
                    mem[p.obj] = {}
            if where == 'layer' and layer == 2:
                for n in ('reft', 'refp'):
                    mem[fr.regs['%' + n].obj] = {0: (8, v0[n])}
            if where == 'layer' and layer == 1:
                mem[fr.regs['%reft'].obj] = {0: (8, v0['reft'])}
            st.mem = mem
            st.pc = list(inv) if where != 'layer' else []
            st.known = {}
            for c in st.pc:
                ex.learn(st, c)
            st.obls, st.events, st.visits = [], [], {}
            ex.hits = []
            ex.goto(st, label[where])
            ends = ex.explore(st)
            rep.paths += len(ends) + len(ex.hits)
            rep.inlined = sorted(set(rep.inlined) | ex.inlined)
            out = [(w, s, None) for w, s in ex.hits] + [('end', None, r) for r in ends]
            res = []
            for w, s, r in out:
                pc = s.pc if s is not None else r.pc
                if not solver.feasible(pc):
                    continue
                if r is not None and r.abort:
                    raise Unsupported('abnormal end: %s' % (r.abort,))
                for e in (s.events if s is not None else r.events):
                    if e[0] in ('frame', 'uninit'):
                        raise Unsupported('%s %s' % e[:2])
                for o in (s.obls if s is not None else r.obls):
                    if not solver.implied(pc, o[1]):
                        raise Unsupported('not discharged: ' + o[2])
                res.append((w, s, r, pc))
            if not res:
                raise Unsupported('no way on from %s' % where)
            return v, res

        def same(lab, pc, s, want, alive):
            bad = [n for n in alive if not (cellof(s, n) is want[n] or isinstance(cellof(s, n), tm.T) and prover.eq(pc, cellof(s, n), want[n]))]
            need('%s: %d variables as specified' % (lab, len(alive)), not bad or None)

        def spec(pc, fn):
            """the specification at one way of the code"""
            r = tm.Forker(lambda c: solver.feasible(list(pc) + c)).run(fn)
            return [(list(c), x) for c, x in r if solver.feasible(list(pc) + list(c))]
        simpson = lambda v: v['h'] * (v['fb'] + 4 * v['f_odd'] + 2 * v['f_even'] + v['ff']) / 3
        for layer in (0, 1):
            # a layer begins
            v, res = run('layer', layer)
            for j, (w, s, r, pc) in enumerate(res):
                lab = 'layer %d begins, way %d' % (layer, j)
                need(lab + ': goes to the first refinement', w == 'refine', 'trivial')
                a, b, x, y = (v['zobs2'], v['zt'], v['f0'], v['ft']) if layer == 0 else (v['zts'], v['zs'], v['fts'], v['fs'])
                want = dict(v, ref_old=rconst(1), num_strips=const(8), step=const(1), f_odd=rconst(0), f_even=rconst(0), z0=a, z_range=b - a, fb=x, ff=y)
                same(lab, pc, s, want, [n for n in REFINE if n != 'reft' or layer == 1])
            # a refinement begins
            v, res = run('refine', layer)
            for j, (w, s, r, pc) in enumerate(res):
                lab = 'layer %d refines, way %d' % (layer, j)
                need(lab + ': goes to the nodes', w == 'node', 'trivial')
                same(lab, pc, s, dict(v, h=v['z_range'] / tm.toR(v['num_strips']), r=v['r0'] if layer == 0 else v['rt'], i=const(1)), NODE)
            # a node, or the end of a pass
            v, res = run('node', layer)
            kinds = set()
            for j, (w, s, r, pc) in enumerate(res):
                lab = 'layer %d node, way %d' % (layer, j)
                kinds.add(w)
                more = tm.le(v['i'], v['num_strips'] - 1)
                again = and_(tm.lt(v['tolerance'], tm.abs_(simpson(v) - v['ref_old'])), tm.lt(v['num_strips'], const(16384)))
                if w == 'node':
                    need(lab + ': taken while nodes are left', solver.implied(pc, more), 'z3')
                    for c, want in spec(pc, lambda: refro_node(v, layer)):
                        same(lab, pc + c, s, want, NODE)
                        need(lab + ': the node number stays in range', solver.implied(pc + c, and_(tm.le(const(1), want['i']), tm.le(want['i'], v['num_strips'] + 1))), 'z3')
                elif w == 'refine':
                    need(lab + ': taken when the pass is done', solver.implied(pc, tm.not_(more)), 'z3')
                    need(lab + ': taken when the tolerance is not met and strips are left', solver.implied(pc, again) or prover.eq(pc, tm.ite(again, const(1), const(0)), const(1)), 'z3')
                    want = dict(v, ref_old=simpson(v), num_strips=2 * v['num_strips'], f_even=v['f_even'] + v['f_odd'], f_odd=rconst(0), step=const(2))
                    same(lab, pc, s, want, REFINE)
                    need(lab + ': the number of strips stays in range', solver.implied(pc, and_(tm.le(const(8), want['num_strips']), tm.le(want['num_strips'], const(32766)))), 'z3')
                elif w == 'layer':
                    need(lab + ': taken when the pass is done', solver.implied(pc, tm.not_(more)), 'z3')
                    need(lab + ': taken when the tolerance is met or no strips are left', solver.implied(pc, tm.not_(again)) or prover.eq(pc, tm.ite(again, const(1), const(0)), const(0)), 'z3')
                    same(lab, pc, s, dict(v, k=const(layer + 1)), LAYER)
                    need(lab + ': the layer gives its Simpson sum', prover.eq(pc, cellof(s, 'reft' if layer == 0 else 'refp'), simpson(v)))
                    if layer == 1:
                        need(lab + ': the lower layer is kept', cellof(s, 'reft') is v['reft'], 'trivial')
                        if prover.eq(pc, cellof(s, 'refp'), simpson(dict(v, f_even=v['f_odd']))):
                            raise RuntimeError('canary proved')
                        rep.canaries = 1
                else:
                    raise Unsupported('the function ends inside the quadrature')
            need('layer %d: nodes, refinements and an end' % layer, kinds == {'node', 'refine', 'layer'}, 'trivial')
        v, res = run('layer', 2)
        for j, (w, s, r, pc) in enumerate(res):
            need('after both layers, way %d: the function ends' % j, w == 'end', 'trivial')
            X = v0['reft'] + v0['refp']
            z = tm.var('dead:zobs1')
            neg = solver.implied(pc, tm.lt(z, rconst(0)))
            need('after both layers, way %d: the sign of the zenith distance is decided' % j, neg or solver.implied(pc, tm.le(rconst(0), z)), 'z3')
            need('after both layers, way %d: the result is the sum of the layers, with the sign of the zenith distance' % j, prover.eq(pc, r.ret, -X if neg else X))
        rep.solver_s, rep.queries = solver.time, solver.queries
    except Exception as err:
        if 'canary' in str(err):
            raise
        rep.mode, rep.reason = 'bounded', 'quadrature: %s; checked on sampled inputs only' % (err,)
        rep.obls = [Obl('refro@quadrature', 'extraction', 'undischarged', 'none', '%s: %s' % (type(err).__name__, err))]
        rep.canaries = 0
    rep.wall = time.time() - t0
    return rep


ALL['refro@quadrature'] = Contract('refro@quadrature', None, [], None, fn='refro')
ALL['refro@quadrature'].verify = refro_quadrature


@contract('refco', None, [D(x) for x in 'oh atk apm arh wl phi tlr eps'.split()] + [OUT('refa', 'd'), OUT('refb', 'd')], nsamples=10,
          dom={'*': lambda r: dict((k, v) for k, v in refro_input(r).items() if k != 'ozd')}, ntol=1e-9)
def _(oh, atk, apm, arh, wl, phi, tlr, eps):
    r1, r4 = [uf('refro', rconst(math.atan(k)), oh, atk, apm, arh, wl, phi, tlr, eps) for k in (1, 4)]
    return {'refa': [(64 * r1 - r4) / 60], 'refb': [(r4 - 4 * r1) / 60]}


@lemma('C31', 'the fitted constants reproduce the refraction at the two fitted zenith distances')
def _():
    r1, r4 = V('r1 r4')
    a, b = (64 * r1 - r4) / 60, (r4 - 4 * r1) / 60
    return [('tan z = 1', a + b, r1), ('tan z = 4', 4 * a + 64 * b, r4)]


C5_ = [0.55445, -0.01133, 0.00202, 0.28385, 0.02390]


def lowref(e):
    c = C5_
    return (c[0] + c[1] * e + c[2] * e * e) / (1 + c[3] * e + c[4] * e * e)


@contract('refz', 'd', [D('zu'), D('refa'), D('refb')], nsamples=200,
          pre=lambda zu, refa, refb: [lt(rconst(-math.pi / 2), zu)],
          dom={'zu': lambda r: r.choice([r.uniform(0, 1.7), r.uniform(1.3, 1.7), r.uniform(-1, 1.5), r.uniform(1.6, 3)]), 'refa': uni(1e-4, 4e-4), 'refb': uni(-5e-7, 0)})
def _(zu, refa, refb):
    r2d = 57.29577951308232
    z83 = 83.0 / r2d
    z1 = min_(zu, rconst(z83))

    def step(z):
        t = sin(z) / cos(z)
        return t, 1 + (refa + 3 * refb * t * t) / (cos(z) * cos(z))
    # two Newton-Raphson iterations for the observed zenith distance
    t, d = step(z1)
    z2 = z1 - (refa * t + refb * t * t * t) / d
    t, d = step(z2)
    ref = z1 - z2 + (z2 - z1 + refa * t + refb * t * t * t) / d
    if zu > z1:
        e = 90 - min_(rconst(93), zu * r2d)
        ref = ref / lowref(7.0) * lowref(e)
    return {'ret': zu - ref}


@contract('refv', None, [IN('vec', 'd3'), D('refa'), D('refb'), OUT('rvec', 'd3')], aliases=[('vec', 'rvec')], nsamples=150,
          dom={'vec': unit3, 'refa': uni(1e-4, 4e-4), 'refb': uni(-5e-7, 0)})
def _(vec, refa, refb):
    x, y, z1 = vec
    z = max_(z1, rconst(0.05))
    r2 = x * x + y * y
    r = sqrt(r2)
    wb = refb * r2 / (z * z)
    wt = (refa + wb) / (1 + (refa + 3 * wb) * (z * z + r2) / (z * z))
    d = wt * r / z
    cd = 1 - d * d / 2
    f = cd * (1 - wt)
    return {'rvec': [x * f, y * f, cd * (z + d * r) + (z1 - z)]}


@lemma('C31', 'vector refraction changes elevation only: the azimuth direction is kept')
def _():
    x, y, f = V('x y f')
    return [('azimuth', (x * f) * y - (y * f) * x, rconst(0))]


@contract('atmdsp', None, [D(x) for x in 'atk apm arh wl1 a1 b1 wl2'.split()] + [OUT('a2', 'd'), OUT('b2', 'd')], nsamples=150, ntol=1e-10,
          dom={'atk': temp, 'apm': press, 'arh': hum, 'wl1': wave, 'wl2': wave, 'a1': uni(1e-4, 4e-4), 'b1': uni(-5e-7, 0)})
def _(atk, apm, arh, wl1, a1, b1, wl2):
    if or_(lt(rconst(100), wl1), lt(rconst(100), wl2)):
        return {'a2': [a1], 'b2': [b1]}
    t, p, rh = clamp(atk, 100, 500), clamp(apm, 0, 10000), clamp(arh, 0, 1)
    pw = rh * pow_(rconst(10), -8.7115 + 0.03477 * t)

    def dn(wl):
        w = max_(wl, rconst(0.1))
        return ((77.5317e-6 + (0.43909e-6 + 0.00367e-6 / (w * w)) / (w * w)) * p - 11.2684e-6 * pw) / t
    d1, d2 = dn(wl1), dn(wl2)
    if d1 == 0:
        return {'a2': [a1], 'b2': [b1]}
    f = d2 / d1
    if d1 == a1:
        return {'a2': [a1 * f], 'b2': [b1 * f]}
    return {'a2': [a1 * f], 'b2': [b1 * f * (1 + d1 * (d1 - d2) / (2 * (d1 - a1)))]}


@contract('airmas', 'd', [D('zd')], dom={'zd': lambda r: r.choice([r.uniform(-1.6, 1.6), r.uniform(1.4, 3), 0.0])})
def _(zd):
    s = 1 / cos(min_(rconst(1.52), abs_(zd))) - 1
    return {'ret': 1 + 0.9981833 * s - 0.002875 * s * s - 0.0008083 * s * s * s}
