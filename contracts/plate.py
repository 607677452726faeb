"""Plate models (fit, apply, invert, decompose) and pincushion distortion."""
from .base import *
from engine.contract import K

coef = lambda r: r.choice([0.0, 1.0, r.uniform(-3, 3), r.uniform(-1, 1), r.uniform(-20, 20)]) if r.random() < 0.4 else r.uniform(-3, 3)
model6 = lambda r: r.choice([[coef(r) for _ in range(6)], [coef(r) for _ in range(6)], [0.0] * 6, [1.0, 2.0, 0.0, 3.0, 0.0, -4.0], [0.5, 2.0, 4.0, 1.0, 3.0, 6.0]])


def affine(m, x, y):
    return m[0] + m[1] * x + m[2] * y, m[3] + m[4] * x + m[5] * y


@contract('xy2xy', None, [D('x1'), D('y1'), IN('model', 'd6'), OUT('x2', 'd'), OUT('y2', 'd')], dom={'model': model6})
def _(x1, y1, model):
    x, y = affine(model, x1, y1)
    return {'x2': [x], 'y2': [y]}


def inverse6(m):
    a, b, c, d, e, f = m
    det = b * f - c * e
    return [(c * d - a * f) / det, f / det, -c / det, (a * e - b * d) / det, -e / det, b / det]


@contract('invf', 'b', [IN('model', 'd6'), OUT('inverse', 'd6')], dom={'model': model6})
def _(model):
    a, b, c, d, e, f = model
    if b * f - c * e == 0:
        return {'ret': False, 'inverse': [None] * 6}
    return {'ret': True, 'inverse': inverse6(model)}


@lemma('C34', 'the inverse model undoes the model and inverting twice returns the model')
def _():
    m = V('a b c d e f')
    x, y = V('x y')
    i = inverse6(m)
    u, v = affine(m, x, y)
    p, q = affine(i, u, v)
    r = [('x', p, x), ('y', q, y)]
    j = inverse6(i)
    return r + [('coefficient %s' % n, j[k], m[k]) for k, n in enumerate('abcdef')]


def at2(y, x):
    """atan2 with the angle of the null vector taken as zero"""
    if and_(eq(y, rconst(0)), eq(x, rconst(0))):
        return rconst(0)
    return atan2(y, x)


def zero_points(a, d, xs, ys, hp, o):
    det = xs * ys * (cos(hp) * cos(hp) - sin(hp) * sin(hp))
    xz = ys * (a * cos(hp + o) - d * sin(hp + o)) / det
    yz = xs * (a * sin(o - hp) + d * cos(o - hp)) / det
    return det, xz, yz


@contract('dcmpf', None, [IN('model', 'd6')] + [OUT(x, 'd') for x in 'xz yz xs ys perp orient'.split()], nsamples=150, ntol=1e-10,
          dom={'model': model6}, angles=['perp', 'orient'])
def _(model):
    a, b, c, d, e, f = model
    rb, rc = sqrt(b * b + e * e), sqrt(c * c + f * f)
    s = 1
    if b * f - c * e < 0:
        s = -1
    b, e = s * b, s * e
    p = wrapS(at2(c, f) + at2(e, b), rconst(2 * PId), rconst(PId))
    o = at2(c * rb - e * rc, b * rc + f * rb)
    det, xz, yz = zero_points(a, d, s * rb, rc, p / 2, o)
    if det == 0:
        xz, yz = rconst(0), rconst(0)
    return {'xz': [xz], 'yz': [yz], 'xs': [s * rb], 'ys': [rc], 'perp': [p], 'orient': [o]}


@lemma('C34', 'scales, non-perpendicularity and orientation recombine to the model coefficients')
def _():
    # polar forms: c, f = ys (sin p1, cos p1), e', b' = rb (sin p2, cos p2); perp = p1 + p2 - 2 k pi, orient = (p1 - p2)/2 + k pi
    out = []
    p1, p2, xs, ys = V('p1 p2 xs ys')
    for k in (-1, 0, 1):
        hp = (p1 + p2) / 2 - rconst(k * PId)
        o = (p1 - p2) / 2 + rconst(k * PId)
        ch, sh, co, so = cos(hp), sin(hp), cos(o), sin(o)
        out += [('b, k=%d' % k, xs * (co * ch + so * sh), xs * cos(p2)), ('c, k=%d' % k, ys * (co * sh + so * ch), ys * sin(p1)),
                ('e, k=%d' % k, xs * (-so * ch + co * sh), xs * sin(p2)), ('f, k=%d' % k, ys * (-so * sh + co * ch), ys * cos(p1))]
    return out


@lemma('C34', 'the zero points reproduce the constant terms of the model')
def _():
    a, d, xs, ys, hp, o = V('a d xs ys hp o')
    det, xz, yz = zero_points(a, d, xs, ys, hp, o)
    ch, sh, co, so = cos(hp), sin(hp), cos(o), sin(o)
    b, c, e, f = xs * (co * ch + so * sh), ys * (co * sh + so * ch), xs * (-so * ch + co * sh), ys * (-so * sh + co * ch)
    return [('a', b * xz + c * yz, a), ('d', e * xz + f * yz, d)]


# ---- distortion ------------------------------------------------------------------
disco = lambda r: r.choice([0.0, -0.3333, 147.069, 178.585, 21.2, 13.32, r.uniform(-3, 3), r.uniform(0, 200), -r.uniform(0, 1)])
xyd = lambda r: r.choice([0.0, r.uniform(-0.05, 0.05), r.uniform(-1, 1), r.uniform(-2, 2)])


@contract('pcd', None, [D('disco'), IO('x', 'd'), IO('y', 'd')], dom={'disco': disco, 'x': xyd, 'y': xyd})
def _(disco, x, y):
    f = 1 + disco * (x[0] * x[0] + y[0] * y[0])
    return {'x': [x[0] * f], 'y': [y[0] * f]}


def cbrt(w):
    r = pow_(abs_(w), rconst(Fraction(1, 3)))
    if w < 0:
        r = -r
    return r


@contract('unpcd', None, [D('disco'), IO('x', 'd'), IO('y', 'd')], dom={'disco': disco, 'x': xyd, 'y': xyd}, nsamples=200, ntol=1e-10)
def _(disco, x, y):
    rp = sqrt(x[0] * x[0] + y[0] * y[0])
    if or_(eq(rp, rconst(0)), eq(disco, rconst(0))):
        return {'x': x, 'y': y}
    q, r = 1 / (3 * disco), rp / (2 * disco)
    w = q * q * q + r * r
    if w >= 0:
        # Cardano
        d = sqrt(w)
        f = cbrt(r + d) + cbrt(r - d)
    else:
        # three real roots: the one that moves the point least
        a = 2 / sqrt(-3 * disco)
        c = 4 * rp / (disco * a * a * a)
        s = 1 - c * c
        if s < 0:
            s = rconst(0)
        th = atan2(sqrt(s), c)
        f1, f2, f3 = [a * cos(t / 3) for t in (2 * PId - th, th, 2 * PId + th)]
        d1, d2, d3 = [abs_(z - rp) for z in (f1, f2, f3)]
        if d1 < d2:
            f = ite(lt(d1, d3), f1, f3)
        else:
            f = ite(lt(d2, d3), f2, f3)
    return {'x': [f / rp * x[0]], 'y': [f / rp * y[0]]}


@lemma('C35', 'the root found satisfies the distortion equation: disco f^3 + f = rp')
def _():
    s, t, k, a, th = V('s t disco a th')
    # one real root: f = s + t with s^3 + t^3 = 2 r, s t = -q, and q = 1/(3 disco), r = rp/(2 disco)
    f = s + t
    q, r = -s * t, (s * s * s + t * t * t) / 2
    out = [('Cardano', f * f * f + 3 * q * f, 2 * r)]
    # three real roots: disco = -4/(3 a^2), rp = disco a^3 cos(3 psi) / 4
    dk = -4 / (3 * a * a)
    for j in (-1, 0, 1):
        psi = (th + rconst(j * 2 * PId)) / 3
        f = a * cos(psi)
        out.append(('geometric %d' % j, dk * f * f * f + f, dk * a * a * a * cos(3 * psi) / 4))
    return out


# ---- predicted positions ----------------------------------------------------------------
def pxy_instance(n):
    k = max(n, 1)

    def spec(**a):
        e, m, c = a['expected'], a['measured'], a['model']
        p = []
        sx, sy = rconst(0), rconst(0)
        for i in range(n):
            x, y = affine(c, m[2 * i], m[2 * i + 1])
            p += [x, y]
            sx = sx + (x - e[2 * i]) * (x - e[2 * i])
            sy = sy + (y - e[2 * i + 1]) * (y - e[2 * i + 1])
        return {'predicted': p + a['predicted'][2 * n:], 'x_rms': [sqrt(sx / k)], 'y_rms': [sqrt(sy / k)], 'rms': [sqrt((sx + sy) / k)]}
    Contract('pxy@%d' % n, None, [K('nsamples', n), IN('expected', 'd%d' % (2 * k)), IN('measured', 'd%d' % (2 * k)), IN('model', 'd6'), IO('predicted', 'd%d' % (2 * k)),
                                  OUT('x_rms', 'd'), OUT('y_rms', 'd'), OUT('rms', 'd')], spec, fn='pxy', nsamples=60, bound='%d samples' % n)


for n in range(5):
    pxy_instance(n)

PA = lambda *z: [ARR(n, 'd', lambda x, n=n: len(x[n])) for n in z]


def pxy_gen(rng, count):
    for _ in range(count):
        n = pick(rng, lambda: rng.choice([-3, 0, 1, 2, 5, 9, 17]), 1500)
        k = 2 * max(n, 0) + 2
        yield {'nsamples': n, 'expected': [rng.uniform(-3, 3) for _ in range(k)], 'measured': [rng.uniform(-3, 3) for _ in range(k)], 'model': [rng.uniform(-2, 2) for _ in range(6)],
               'predicted': [7.25] * k, 'x_rms': [0.0], 'y_rms': [0.0], 'rms': [0.0]}


def pxy_check(x, r):
    n = max(x['nsamples'], 0)
    c, e, m = x['model'], x['expected'], x['measured']
    if any(r[z] != x[z] for z in ('expected', 'measured', 'model')):
        return 'an input changed'
    sx = sy = 0.0
    want = []
    for i in range(n):
        p, q = c[0] + c[1] * m[2 * i] + c[2] * m[2 * i + 1], c[3] + c[4] * m[2 * i] + c[5] * m[2 * i + 1]
        want += [p, q]
        sx += (p - e[2 * i]) ** 2
        sy += (q - e[2 * i + 1]) ** 2
    want += x['predicted'][2 * n:]
    want += [math.sqrt(sx / max(n, 1)), math.sqrt(sy / max(n, 1)), math.sqrt((sx + sy) / max(n, 1))]
    got = r['predicted'] + r['x_rms'] + r['y_rms'] + r['rms']
    bad = [i for i in range(len(want)) if not abs(want[i] - got[i]) <= 1e-11 * (1 + abs(want[i]))]
    return 'predicted positions and residuals %s, expected %s' % (got, want) if bad else None


sampled('pxy#runs', 'pxy', None, [I('nsamples')] + PA('expected', 'measured', 'model', 'predicted', 'x_rms', 'y_rms', 'rms'), pxy_gen, pxy_check, 800, 20000,
        'more samples: sampled sets up to 17, not proved', 'predicted positions are those of the model and the residuals their root mean squares', mut=('expected', 'measured', 'model'))


def pxy_post(e, path):
    n = e.nsamples
    k = tm.var('k', 'I')
    E, M = (lambda i, c: sel('expected', i, c)), (lambda i, c: sel('measured', i, c))
    P = lambda i: affine(e.model, M(i, 0), M(i, 1))
    S = [SUM(k, 0, n, (P(k)[c] - E(k, c)) * (P(k)[c] - E(k, c))) for c in (0, 1)]
    none = ite(lt(n, 1), rconst(0), rconst(1))
    S = [ite(lt(n, 1), rconst(0), x / toR(max_(const(1), n))) for x in S]
    yield 'x_rms', [], e.cell('x_rms'), sqrt(S[0])
    yield 'y_rms', [], e.cell('y_rms'), sqrt(S[1])
    yield 'rms', [], e.cell('rms'), sqrt(S[0] + S[1])
    i = tm.var('i', 'I')
    for c in (0, 1):
        for lab, h, w in (('of the model', lt(i, n), P(i)[c]), ('beyond the samples unchanged', le(n, i), sel('predicted', i, c))):
            H = [le(0, i), lt(i, e.cap), h]
            yield 'predicted[i][%d] %s' % (c, lab), H, e.read('predicted', i, c, hyps=H), w


def pxy_pre(e):
    e.cap = tm.var('cap', 'I')
    for o in e.obj.values():
        if o.shape:
            o.shape['rows'] = e.cap
    return [le(-2 ** 31, e.nsamples), le(e.nsamples, 2 ** 31 - 1), le(e.nsamples, e.cap), le(0, e.cap)]


allsizes('pxy@all', 'pxy', [('int', 'nsamples'), ('arr', 'expected', 0, 2, False), ('arr', 'measured', 0, 2, False), ('in', 'model', 'd6'),
                            ('arr', 'predicted', 0, 2, True), ('out', 'x_rms', 'd'), ('out', 'y_rms', 'd'), ('out', 'rms', 'd')], pxy_pre, pxy_post,
         'any number of samples', runs='pxy#runs')


# ---- fitting --------------------------------------------------------------------------
def fit_gen(rng, count):
    for _ in range(count):
        sbr = rng.random() < 0.5
        n = pick(rng, lambda: rng.choice([-1, 0, 1, 2, 2, 3, 3, 4, 6, 11]), 1500)
        k = max(n, 0) + 1
        u = rng.random()
        m = [rng.uniform(-3, 3) for _ in range(2 * k)]
        if u < 0.1:
            m = [0.0] * (2 * k)
        elif u < 0.15:
            m = [0.0 if i % 2 == 0 else v for i, v in enumerate(m)]
        elif u < 0.2:
            m = [0.0 if i % 2 == 1 else v for i, v in enumerate(m)]
        elif u < 0.4:
            m = [v + (100.0 if i % 2 else -40.0) for i, v in enumerate(m)]
        noise = rng.choice([0.0, 1e-3, 0.3, 2.0])
        if sbr and rng.random() < 0.8:
            b, c, a, d, s = rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.choice([1, -1])
            co = [s * a, s * b, -s * c, d, c, b]
        else:
            co = [rng.uniform(-3, 3) for _ in range(6)]
        e = []
        for i in range(k):
            x, y = m[2 * i], m[2 * i + 1]
            e += [co[0] + co[1] * x + co[2] * y + rng.gauss(0, noise), co[3] + co[4] * x + co[5] * y + rng.gauss(0, noise)]
        yield {'sbr': sbr, 'nsamples': n, 'expected': e, 'measured': m, 'model': [7.25 + i for i in range(6)]}


def fit_check(x, r):
    import numpy as np
    n, sbr = x['nsamples'], bool(x['sbr'])
    if r['expected'] != x['expected'] or r['measured'] != x['measured']:
        return 'an input changed'
    if n < (2 if sbr else 3):
        return None if r['ret'] == 1 and r['model'] == x['model'] else 'too few samples: status %s, model %s' % (r['ret'], r['model'])
    m = np.array(x['measured'][:2 * n]).reshape(n, 2)
    e = np.array(x['expected'][:2 * n]).reshape(n, 2)
    if (m == 0).all() or (not sbr and ((m[:, 0] == 0).all() or (m[:, 1] == 0).all())):
        return None if r['ret'] == 2 else 'degenerate samples: status %d' % r['ret']
    g = r['model']
    res = lambda c: sum((c[0] + c[1] * p + c[2] * q - u) ** 2 + (c[3] + c[4] * p + c[5] * q - v) ** 2 for (p, q), (u, v) in zip(m.tolist(), e.tolist()))
    z, o = np.zeros(n), np.ones(n)
    if not sbr:
        A = np.column_stack([o, m])
        if np.linalg.cond(A) > 1e4:
            return None
        w = np.concatenate([np.linalg.lstsq(A, e[:, k], rcond=None)[0] for k in (0, 1)]).tolist()
        cand = [w]
    else:
        cand = []
        A = np.vstack([np.column_stack([o, m[:, 0], -m[:, 1], z]), np.column_stack([z, m[:, 1], m[:, 0], o])])
        if np.linalg.cond(A) > 1e4:
            return None
        for s in (1, -1):
            a, b, c, d = np.linalg.lstsq(A, np.concatenate([s * e[:, 0], e[:, 1]]), rcond=None)[0].tolist()
            cand.append([s * a, s * b, -s * c, d, c, b])
        if n == 2:
            cand = cand[:1]
        else:
            r0, r1 = res(cand[0]), res(cand[1])
            t = 1e-9 * (1 + r0 + r1)
            cand = cand[:1] if r0 < r1 - t else cand[1:] if r1 < r0 - t else cand
    if r['ret'] != 0:
        return 'regular samples: status %d' % r['ret']
    cd = np.linalg.cond(A) ** 2 * 1e-14
    for c in cand:
        if all(abs(p - q) <= (1e-8 + 100 * cd) * (1 + max(abs(v) for v in c)) for p, q in zip(c, g)):
            return None
    return 'model %s is not the least-squares fit %s' % (g, cand)


sampled('fitxy#runs', 'fitxy', 'i', [B('sbr'), I('nsamples')] + PA('expected', 'measured', 'model'), fit_gen, fit_check, 3000, 60000,
        'sampled sets up to 11, not proved', 'the model is the least-squares fit, with the documented statuses', mut=('expected', 'measured'))


class Dmat(object):
    """dmat as fitxy needs it (its contract, C32): either the matrix is reported singular, or the vector is replaced by
    the solution of M x = v and the matrix by its inverse; both are functions of their inputs"""
    via = ('dmat@all',)

    def matches(self, name):
        return True

    def apply_call(self, ex, st, args, cargs):
        from engine.ir import F64, Unsupported
        from engine.symex import Ptr, _M1
        if not tm.isc(args[0]):
            raise Unsupported('dmat of unknown order')
        n = args[0].val
        at = lambda p, i: Ptr(p.obj, p.off + 8 * i)
        M = [ex.load_cell(st, at(args[1], i), F64, _M1) for i in range(n * n)]
        y = [ex.load_cell(st, at(args[2], i), F64, _M1) for i in range(n)]
        memo = ex.__dict__.setdefault('dmat_memo', {})
        k = tuple(x.id for x in M)
        if k not in memo:
            memo[k] = (ex.fresh('singular', 'B'), [ex.fresh('inv', 'R') for _ in range(n * n)], {}, M)
        s, inv, sols, _ = memo[k]
        x = sols.setdefault(tuple(v.id for v in y), [ex.fresh('sol', 'R') for _ in range(n)])

        def put(s2, i, vs):
            for j, v in enumerate(vs):
                ex.store_cell(s2, at(args[i], j), F64, v, _M1)

        def bad(s2):
            s2.events.append(('rel', (s, M, y, None, None)))
            put(s2, 1, [ex.fresh('undefined', 'R') for _ in M])
            put(s2, 2, [ex.fresh('undefined', 'R') for _ in y])
            put(s2, 3, [rconst(0)])
            return tm.TRUE

        def good(s2):
            s2.events.append(('rel', (s, M, y, x, inv)))
            put(s2, 1, inv)
            put(s2, 2, x)
            put(s2, 3, [ex.fresh('det', 'R')])
            return tm.FALSE
        return [(c, f) for c, f in (([s], bad), ([not_(s)], good)) if ex.solver.feasible(st.pc + c)]


def fit_gens(rels):
    """what the calls of dmat guarantee, as terms that are zero"""
    out = []
    for s, M, y, x, inv in rels:
        n = len(y)
        if x is None:
            continue
        out += [sum_(M[i * n + j] * x[j] for j in range(n)) - y[i] for i in range(n)]
        out += [sum_(M[i * n + j] * inv[j * n + k] for j in range(n)) - (1 if i == k else 0) for i in range(n) for k in range(n)]
    return out


def fitxy_post(e, path):
    n = e.nsamples
    k = tm.var('k', 'I')
    X, Y, x, y = sel('expected', k, 0), sel('expected', k, 1), sel('measured', k, 0), sel('measured', k, 1)
    S = lambda t: SUM(k, 0, n, t)
    N = toR(n)
    se, pc = e.se, list(path.pc)
    true = lambda b: tm.TRUE if b else tm.FALSE
    rels = [v[1] for v in path.events if v[0] == 'rel']
    sbr = e.ex.valid(pc, e.sbr)
    least = 2 if sbr else 3
    status = lambda v: eq(path.ret, v) if path.ret.sort == 'I' else tm.FALSE
    few = e.ex.valid(pc, lt(n, least))
    if few or not e.ex.valid(pc, le(least, n)):
        yield 'too few samples: status', [], true(few and e.ex.valid(pc, status(1)) and not e.written('model')), tm.TRUE
        return
    # the matrices are those of the normal equations
    if not sbr:
        W = [N, S(x), S(y), S(x), S(x * x), S(x * y), S(y), S(x * y), S(y * y)]
    else:
        q = S(x * x + y * y)
        W = [N, S(x), -S(y), rconst(0), S(x), q, rconst(0), S(y), S(y), rconst(0), -q, -S(x), rconst(0), S(y), S(x), N]
    yield 'dmat is called', [], true(len(rels) == (2 if sbr else 1)), tm.TRUE
    for s, M, v, sol, inv in rels:
        for i in range(len(W)):
            yield 'normal matrix [%d]' % i, [], M[i], W[i]
    if any(r[3] is None for r in rels):
        yield 'singular normal matrix: status', [], true(e.ex.valid(pc, status(2)) and not e.written('model')), tm.TRUE
        return
    yield 'regular normal matrix: status', [], true(e.ex.valid(pc, status(0))), tm.TRUE
    m = [e.cell('model', 8 * i) for i in range(6)]
    gens = fit_gens(rels)
    px, py = m[0] + m[1] * x + m[2] * y - X, m[3] + m[4] * x + m[5] * y - Y
    if not sbr:
        mult = [z for r in rels for z in r[2]] + [S(Y), S(x * Y), S(y * Y)]
        for lab, d in (('x', px), ('y', py)):
            for w, z in (('1', rconst(1)), ('x', x), ('y', y)):
                yield 'residual of %s is orthogonal to %s' % (lab, w), [], true(se.member(pc, S(d * z), gens, mult)), tm.TRUE
        yield 'canary', [], true(not se.member(pc, S(px) + 1, gens, mult)), tm.TRUE
        return
    # four coefficients: solid body with or without a mirror image, one of the two least-squares solutions
    res = []
    for r, sg in zip(rels, (1, -1)):
        a, b, c, d = r[3]
        res.append(S((a + b * x - c * y - sg * X) * (a + b * x - c * y - sg * X) + (d + c * x + b * y - Y) * (d + c * x + b * y - Y)))
    ok = []
    for j, sg in enumerate((1, -1)):
        form = se.eq(pc, m[4], -sg * m[2]) and se.eq(pc, m[5], sg * m[1])
        # derivatives of the squared residuals with respect to a, d, b, c of  sg*(a + b x - c y), d + c x + b y
        eqs = form and all(se.member(pc, g, gens) for g in (S(sg * px), S(py), S(sg * px * x + py * y), S(-sg * px * y + py * x)))
        best = eqs and se.implies(pc, or_(eq(n, 2), le(res[0], res[1])) if sg == 1 else and_(not_(eq(n, 2)), le(res[1], res[0])))
        ok.append(best)
    yield 'the better of the two least-squares solutions (the first for two samples)', [], true(any(ok)), tm.TRUE
    yield 'canary', [], true(not se.implies(pc, lt(res[0], res[1] - 1)) and not se.member(pc, S(px) + 1, gens)), tm.TRUE


def fitxy_pre(e):
    for o in e.obj.values():
        if o.shape:
            o.shape['rows'] = tm.var('cap', 'I')
    cap = tm.var('cap', 'I')
    return [le(-2 ** 31, e.nsamples), le(e.nsamples, 2 ** 31 - 1), le(e.nsamples, cap), le(0, cap)]


allsizes('fitxy@all', 'fitxy', [('bool', 'sbr'), ('int', 'nsamples'), ('arr', 'expected', 0, 2, False), ('arr', 'measured', 0, 2, False), ('out', 'model', 'd6')],
         fitxy_pre, fitxy_post, 'any number of samples', runs='fitxy#runs', callees={'dmat': Dmat()}, lin=True)


@lemma('C34', 'the normal equations make the squared residuals stationary and no other model does better')
def _():
    # three samples, six coefficients: for a model with zero gradient, S(model + h) - S(model) is a sum of squares
    x, y, u = [V('x%d' % i)[0] for i in range(3)], [V('y%d' % i)[0] for i in range(3)], [V('u%d' % i)[0] for i in range(3)]
    c, h = V('c0 c1 c2'), V('h0 h1 h2')
    f = lambda q, i: q[0] + q[1] * x[i] + q[2] * y[i]
    S = lambda q: sum_((f(q, i) - u[i]) * (f(q, i) - u[i]) for i in range(3))
    grad = [sum_(2 * (f(c, i) - u[i]) * z[i] for i in range(3)) for z in ([rconst(1)] * 3, x, y)]
    return [('excess', S([p + q for p, q in zip(c, h)]) - S(c), sum_(h[k] * grad[k] for k in range(3)) + sum_(f(h, i) * f(h, i) for i in range(3)))]
