"""Gnomonic (tangent-plane) projection and plate-centre recovery."""
from .base import *

TPTINY = {'f': f32(1e-6), 'd': 1e-6}


def tpclass(d, t):
    """(status, usable denominator)"""
    e = TPTINY[t]
    if d > e:
        return 0, d
    if d >= 0:
        return 1, rconst(Fraction(e))
    if d > -e:
        return 2, rconst(-Fraction(e))
    return 3, d


def gno(p, q):
    """numerators and denominator of the standard coordinates of star p about tangent point q"""
    dra = p[0] - q[0]
    den = sin(p[1]) * sin(q[1]) + cos(p[1]) * cos(q[1]) * cos(dra)
    return cos(p[1]) * sin(dra), sin(p[1]) * cos(q[1]) - cos(p[1]) * sin(q[1]) * cos(dra), den


near = lambda r: [r.uniform(-3, 3), r.uniform(-1.5, 1.5)]
plate = lambda r: r.choice([r.uniform(-0.3, 0.3), r.uniform(-3, 3), 0.0])

for t, n in (('d', 'ds2tp'), ('f', 's2tp')):
    def _m(t, n):
        @contract(n, 'i', [IN('point', t + '2'), IN('tangent', t + '2'), OUT('xi', t), OUT('eta', t)],
                  dom={'point': dirn, 'tangent': dirn}, nsamples=200)
        def _(point, tangent):
            x, y, d = gno(point, tangent)
            st, d = tpclass(d, t)
            return {'ret': st, 'xi': [x / d], 'eta': [y / d]}
    _m(t, n)

for t, n in (('d', 'dtp2s'), ('f', 'tp2s')):
    def _m(t, n):
        @contract(n, None, [sc(t, 'xi'), sc(t, 'eta'), IN('tangent', t + '2'), OUT('point', t + '2')],
                  dom={'xi': plate, 'eta': plate, 'tangent': dirn}, angles=['point[0]'], aliases=[('tangent', 'point')])
        def _(xi, eta, tangent):
            s, c = sin(tangent[1]), cos(tangent[1])
            den = c - eta * s
            return {'point': [wrapP(atan2(xi, den) + tangent[0], 2 * pi(t)), atan2(s + eta * c, sqrt(xi * xi + den * den))]}
    _m(t, n)

POLE = {'f': f32(1e-20), 'd': 1e-20}

for t, n in (('d', 'dtp2v'), ('f', 'tp2v')):
    def _m(t, n):
        @contract(n, None, [sc(t, 'xi'), sc(t, 'eta'), IN('tangent', t + '3'), OUT('point', t + '3')],
                  dom={'xi': plate, 'eta': plate, 'tangent': lambda r: r.choice([unit3(r), unit3(r), unit3(r), [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]])})
        def _(xi, eta, tangent):
            x, y, z = tangent
            f = sqrt(1 + xi * xi + eta * eta)
            r = sqrt(x * x + y * y)
            if r == 0:
                x = r = rconst(Fraction(POLE[t]))
            return {'point': [(x - (xi * y + eta * x * z) / r) / f, (y + (xi * x - eta * y * z) / r) / f, (z + eta * r) / f]}
    _m(t, n)

for t, n in (('d', 'dv2tp'), ('f', 'v2tp')):
    def _m(t, n):
        @contract(n, 'i', [IN('point', t + '3'), IN('tangent', t + '3'), OUT('xi', t), OUT('eta', t)], nsamples=200,
                  dom={'point': unit3, 'tangent': lambda r: r.choice([unit3(r), unit3(r), unit3(r), [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]])})
        def _(point, tangent):
            x, y, z = point
            x0, y0, z0 = tangent
            r2 = x0 * x0 + y0 * y0
            r = sqrt(r2)
            if r == 0:
                x0 = r = rconst(Fraction(POLE[t]))
            w = x * x0 + y * y0
            st, d = tpclass(w + z * z0, t)
            d = d * r
            return {'ret': st, 'xi': [(y * x0 - x * y0) / d], 'eta': [(z * r2 - z0 * w) / d]}
    _m(t, n)


def roots_s(xi, eta, p, t):
    s, c = sin(p[1]), cos(p[1])
    sdf = s * sqrt(1 + xi * xi + eta * eta)
    r2 = c * c * (1 + eta * eta) - s * s * xi * xi
    return sdf, r2


for t, n in (('d', 'dtps2c'), ('f', 'tps2c')):
    def _m(t, n):
        @contract(n, 'i', [sc(t, 'xi'), sc(t, 'eta'), IN('point', t + '2'), OUT('s1', t + '2'), OUT('s2', t + '2')],
                  dom={'xi': plate, 'eta': plate, 'point': dirn}, angles=['s1[0]', 's2[0]'], nsamples=200)
        def _(xi, eta, point):
            sdf, r2 = roots_s(xi, eta, point, t)
            if r2 >= 0:
                r = sqrt(r2)
                d1 = atan2(sdf - eta * r, sdf * eta + r)
                if and_(eq(xi, rconst(0)), eq(r, rconst(0))):
                    r = rconst(1)
                d2 = atan2(sdf + eta * r, sdf * eta - r)
                two = not_(lt(abs_(sdf), rconst(1)))
                return {'ret': ite(two, const(2), const(1)),
                        's1': [wrapP(point[0] - atan2(xi, r), 2 * pi(t)), d1],
                        's2': [wrapP(point[0] - atan2(xi, -r), 2 * pi(t)), d2]}
            return {'ret': 0, 's1': [KEEP, KEEP], 's2': [KEEP, KEEP]}
    _m(t, n)

for t, n in (('d', 'dtpv2c'), ('f', 'tpv2c')):
    def _m(t, n):
        @contract(n, 'i', [sc(t, 'xi'), sc(t, 'eta'), IN('point', t + '3'), OUT('s1', t + '3'), OUT('s2', t + '3')],
                  dom={'xi': plate, 'eta': plate, 'point': lambda r: r.choice([unit3(r), unit3(r), unit3(r), unit3(r), [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]])}, nsamples=200)
        def _(xi, eta, point):
            x, y, z = point
            rxy = x * x + y * y
            e1 = eta * eta + 1
            sdf = z * sqrt(xi * xi + e1)
            r2 = rxy * e1 - z * z * xi * xi
            if r2 > 0:
                out = {'ret': ite(lt(abs_(sdf), rconst(1)), const(1), const(2))}
                for k, r in (('s1', sqrt(r2)), ('s2', -sqrt(r2))):
                    c = (sdf * eta + r) / (e1 * sqrt(rxy * (r2 + xi * xi)))
                    out[k] = [c * (x * r + y * xi), c * (y * r - x * xi), (sdf - eta * r) / e1]
                return out
            return {'ret': 0, 's1': [KEEP] * 3, 's2': [KEEP] * 3}
    _m(t, n)


# ---- lemmas ------------------------------------------------------------------------
@lemma('C18', 'deprojection undoes projection (spherical form): the recovered direction is the star',
       pre=lambda: [lt(rconst(0), gno(V('h d'), [rconst(0), var('d0')])[2]), lt(rconst(0), cos(var('d')))])
def _():
    q = V('a0 d0')
    h, d = V('h d')
    p = [q[0] + h, d]
    x, y, den = gno([h, d], [rconst(0), q[1]])
    r = S('dtp2s')(x / den, y / den, q)['point']
    u, v = s2c(*r), s2c(*p)
    return [('component %d' % i, u[i], v[i]) for i in range(3)]


@lemma('C18', 'projection undoes deprojection (spherical form)')
def _():
    xi, eta = V('xi eta')
    q = V('a0 d0')
    r = S('dtp2s')(xi, eta, q)['point']
    x, y, den = gno(r, q)
    return [('xi', x, xi * den), ('eta', y, eta * den), ('in front of the plane', den * sqrt(1 + xi * xi + eta * eta), rconst(1))]


def unit_at(n):
    return s2c(*V('a%s d%s' % (n, n)))


@lemma('C18', 'direction-cosine and spherical forms agree', pre=lambda: [lt(rconst(0), cos(var('d0')))])
def _():
    xi, eta = V('xi eta')
    p, q = V('a d'), V('a0 d0')
    x, y, den = gno(p, q)
    v, w = s2c(*p), s2c(*q)
    r = cos(q[1])
    num = v[1] * w[0] - v[0] * w[1], v[2] * r * r - w[2] * (v[0] * w[0] + v[1] * w[1])
    u = S('dtp2v')(xi, eta, w)['point']
    s = s2c(*S('dtp2s')(xi, eta, q)['point'])
    return [('denominator', dot(v, w), den), ('xi', num[0], x * r), ('eta', num[1], y * r)] + \
           [('deprojection %d' % i, u[i], s[i]) for i in range(3)]


@lemma('C18', 'denominators are never zero, so coordinates are always defined')
def _():
    d = var('d')
    out = []
    for t in 'df':
        st, e = tpclass(d, t)
        out.append(('usable denominator', not_(eq(e, rconst(0)))))
    return out


def tps_pre():
    xi, eta, a, d = V('xi eta a d')
    sdf, r2 = roots_s(xi, eta, [a, d], 'd')
    return [lt(rconst(0), r2), lt(rconst(0), cos(d))]


for k in (0, 1):
    def _m(k):
        @lemma('C19', 'every solution projects the star to the given plate coordinates (spherical form, solution %d)' % (k + 1), pre=tps_pre)
        def _():
            xi, eta, a, d = V('xi eta a d')
            o = S('dtps2c')(xi, eta, [a, d])
            q = o['s%d' % (k + 1)]
            x, y, den = gno([a, d], q)
            return [('xi', x, xi * den), ('eta', y, eta * den), ('star in front of the plane', den * sqrt(1 + xi * xi + eta * eta), rconst(1))]

        @lemma('C19', 'every solution projects the star to the given plate coordinates (vector form, solution %d)' % (k + 1), pre=tps_pre)
        def _():
            xi, eta, a, d = V('xi eta a d')
            v = s2c(a, d)
            o = S('dtpv2c')(xi, eta, v)
            if isinstance(o['ret'], int):
                return [('unreachable', tm.FALSE)]
            w = o['s%d' % (k + 1)]
            den = dot(v, w)
            f = sqrt(1 + xi * xi + eta * eta)
            return [('unit vector', dot(w, w), rconst(1)), ('star in front of the plane', den * f, rconst(1))]
    _m(k)
