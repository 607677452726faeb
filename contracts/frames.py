"""Galactic, supergalactic, ecliptic coordinates, E-terms, precession."""
from .base import *
from .vec import rot, IDENT

GAL = [-0.054875539726, -0.873437108010, -0.483834985808,
       +0.494109453312, -0.444829589425, +0.746982251810,
       -0.867666135858, -0.198076386122, +0.455983795705]
SUP = [-0.735742574804, +0.677261296414, 0.0,
       -0.074553778365, -0.080991471307, +0.993922590400,
       +0.673145302109, +0.731271165817, +0.110081262225]
G50 = [-0.066988739415, -0.872755765852, -0.483538914632,
       +0.492728466075, -0.450346958020, +0.744584633283,
       -0.867600811151, -0.188374601723, +0.460199784784]


def sph(v):
    """vector -> longitude 0..2pi, latitude"""
    a, b = c2s(v)
    return [wrapP(a, TWOPId), b]


def conv(name, m, inverse):
    @contract(name, None, [IN('a', 'd2'), OUT('b', 'd2')], dom={'a': dirn}, angles=['b[0]'], aliases=[('a', 'b')])
    def _(a):
        v = s2c(*a)
        return {'b': sph(tmatvec(m, v) if inverse else matvec(m, v))}


conv('eqgal', GAL, False)
conv('galeq', GAL, True)
conv('galsup', SUP, False)
conv('supgal', SUP, True)


# ---- E-terms -----------------------------------------------------------------------
def eterms(be):
    t = (be - 1950) * 1.00002135903e-2
    e = 0.01673011 - (0.00004193 + 0.000000126 * t) * t
    e0 = (84404.836 - (46.8495 + (0.00319 + 0.00181 * t) * t) * t) * AS2Rd
    p = (1015489.951 + (6190.67 + (1.65 + 0.012 * t) * t) * t) * AS2Rd
    ek = e * 20.49552 * AS2Rd
    return [ek * sin(p), -ek * cos(p) * cos(e0), -ek * cos(p) * sin(e0)]


epoch = uni(1800, 2100)


@contract('etrms', None, [D('be'), OUT('et', 'd3')], dom={'be': epoch})
def _(be):
    return {'et': eterms(be)}


@contract('addet', None, [IN('dir', 'd2'), D('be'), OUT('edir', 'd2')], dom={'dir': dirn, 'be': epoch}, angles=['edir[0]'], aliases=[('dir', 'edir')])
def _(dir, be):
    v, e = s2c(*dir), eterms(be)
    return {'edir': sph([v[i] + e[i] for i in range(3)])}


def unet(v, e):
    f = 1 + dot(v, e)
    return [v[i] * f - e[i] for i in range(3)]


@contract('subet', None, [IN('edir', 'd2'), D('be'), OUT('dir', 'd2')], dom={'edir': dirn, 'be': epoch}, angles=['dir[0]'], aliases=[('edir', 'dir')])
def _(edir, be):
    return {'dir': sph(unet(s2c(*edir), eterms(be)))}


@contract('eg50', None, [IN('fk4', 'd2'), OUT('gal', 'd2')], dom={'fk4': dirn}, angles=['gal[0]'])
def _(fk4):
    loc = S('subet')(fk4, rconst(1950))['dir']
    return {'gal': sph(matvec(G50, s2c(*loc)))}


@contract('ge50', None, [IN('gal', 'd2'), OUT('fk4', 'd2')], dom={'gal': dirn}, angles=['fk4[0]'])
def _(gal):
    loc = c2s(tmatvec(G50, s2c(*gal)))
    return {'fk4': S('addet')(list(loc), rconst(1950))['edir']}


# ---- precession ------------------------------------------------------------------------
def zyz(zeta, theta, z):
    return matmul(rot(3, -z), matmul(rot(2, theta), rot(3, -zeta)))


def poly(c, x):
    """c[0] + c[1] x + ..."""
    r = rconst(0)
    for k in reversed(c):
        r = r * x + k
    return r


def prec76(ep0, ep1):
    t0, t = (ep0 - 2000) / 100, (ep1 - ep0) / 100
    w = poly([2306.2181, 1.39656, -0.000139], t0)
    zeta = w * t + poly([0.30188, -0.000344], t0) * t * t + 0.017998 * t * t * t
    z = w * t + poly([1.09468, 0.000066], t0) * t * t + 0.018203 * t * t * t
    theta = poly([2004.3109, -0.85330, -0.000217], t0) * t + poly([-0.42665, -0.000217], t0) * t * t - 0.041833 * t * t * t
    return zeta * AS2Rd, theta * AS2Rd, z * AS2Rd


def precBN(b0, b1):
    u, t = (b0 - 1850) / 100, (b1 - b0) / 100
    w = poly([2303.5548, 1.39720, 0.000059], u)
    zeta = w * t + poly([0.30242, -0.000269], u) * t * t + 0.017996 * t * t * t
    z = w * t + poly([1.09478, 0.000387], u) * t * t + 0.018324 * t * t * t
    theta = poly([2005.1125, -0.85294, -0.000365], u) * t + poly([-0.42647, -0.000365], u) * t * t - 0.041802 * t * t * t
    return zeta * AS2Rd, theta * AS2Rd, z * AS2Rd


# Simon et al. (1994): coefficient of t^k as polynomial in t0
S94 = {
    'w': [23060.9097, 139.7459, -0.0038, -0.5918, -0.0037, 0.0007],
    'zeta': [[30.2226, -0.2523, -0.3840, -0.0014, 0.0007], [18.0183, -0.1326, 0.0006, 0.0005], [-0.0583, -0.0001, 0.0007], [-0.0285], [-0.0002]],
    'z': [[109.5270, 0.2446, -1.3913, -0.0134, 0.0026], [18.2667, -1.1400, -0.0173, 0.0044], [-0.2821, -0.0093, 0.0032], [-0.0301, 0.0006], [-0.0001]],
    'theta0': [20042.0207, -85.3131, -0.2111, 0.3642, 0.0008, -0.0005],
    'theta': [[-42.6566, -0.2111, 0.5463, 0.0017, -0.0012], [-41.8238, 0.0359, 0.0027, -0.0001], [-0.0731, 0.0019, 0.0009], [-0.0127, 0.0011], [0.0004]],
}


def precS94(e0, e1):
    t0, t = (e0 - 2000) / 1000, (e1 - e0) / 1000

    def ser(first, rest):
        r = poly(first, t0) * t
        p = t
        for c in rest:
            p = p * t
            r = r + poly(c, t0) * p
        return r * AS2Rd
    return ser(S94['w'], S94['zeta']), ser(S94['theta0'], S94['theta']), ser(S94['w'], S94['z'])


eps2 = uni(1850, 2150)
for n, f in (('prec', prec76), ('prebn', precBN), ('precl', precS94)):
    def _m(n, f):
        @contract(n, None, [D('ep0'), D('ep1'), OUT('m', 'd9')], dom={'ep0': eps2, 'ep1': eps2})
        def _(ep0, ep1):
            return {'m': zyz(*f(ep0, ep1))}
    _m(n, f)


FK4, FK5 = 4, 5


@contract('preces', None, [I('system'), D('ep0'), D('ep1'), IO('pos', 'd2')], angles=['pos[0]'], nsamples=200,
          pre=lambda system, ep0, ep1, pos: [le(0, system), le(system, 6)],
          dom={'system': ints(0, 6), 'ep0': eps2, 'ep1': eps2, 'pos': dirn})
def _(system, ep0, ep1, pos):
    if eq(system, FK4):
        m = zyz(*precBN(ep0, ep1))
    elif eq(system, FK5):
        m = zyz(*prec76(ep0, ep1))
    else:
        return {'pos': [rconst(-99), rconst(-99)]}
    return {'pos': sph(matvec(m, s2c(*pos)))}


# ---- ecliptic ----------------------------------------------------------------------------
mjd = uni(40000, 65000)


def meanobl(date):
    t = (date - 51544.5) / 36525
    return poly([84381.448, -46.8150, -0.00059, 0.001813], t) * AS2Rd


@contract('ecmat', None, [D('date'), OUT('m', 'd9')], dom={'date': mjd})
def _(date):
    return {'m': rot(1, meanobl(date))}


def jepoch(date):
    return 2000 + (date - 51544.5) / 365.25


@contract('eqecl', None, [IN('dir', 'd2'), D('date'), OUT('edir', 'd2')], dom={'dir': dirn, 'date': mjd}, angles=['edir[0]'])
def _(dir, date):
    p = zyz(*prec76(rconst(2000), jepoch(date)))
    return {'edir': sph(matvec(rot(1, meanobl(date)), matvec(p, s2c(*dir))))}


@contract('ecleq', None, [IN('edir', 'd2'), D('date'), OUT('dir', 'd2')], dom={'edir': dirn, 'date': mjd}, angles=['dir[0]'])
def _(edir, date):
    p = zyz(*prec76(rconst(2000), jepoch(date)))
    return {'dir': sph(tmatvec(p, tmatvec(rot(1, meanobl(date)), s2c(*edir))))}


# ---- lemmas ----------------------------------------------------------------------------------
@lemma('C20', 'the fixed matrices are proper rotations to their published precision')
def _():
    out = []
    for n, m in (('galactic', GAL), ('supergalactic', SUP), ('B1950 galactic', G50)):
        m = [rconst(Fraction(x)) for x in m]
        p = matmul(m, transpose(m))
        q = matmul(transpose(m), m)
        for i in range(9):
            out.append(('%s M M^T %d' % (n, i), le(abs_(p[i] - IDENT[i]), rconst(1e-10))))
            out.append(('%s M^T M %d' % (n, i), le(abs_(q[i] - IDENT[i]), rconst(1e-10))))
        det = dot(m[0:3], cross(m[3:6], m[6:9]))
        out.append(('%s determinant' % n, le(abs_(det - 1), rconst(1e-10))))
    return out


@lemma(['C20', 'C30'], 'sphericals of a non-degenerate vector give back its direction', pre=lambda: [
    lt(rconst(0), var('x') * var('x') + var('y') * var('y'))])
def _():
    v = V('x y z')
    u = s2c(*sph(v))
    l = sqrt(dot(v, v))
    return [('component %d' % i, u[i] * l, v[i]) for i in range(3)]


@lemma('C21', 'removing E-terms undoes adding them to first order in the E-term vector')
def _():
    a, d, s = V('a d s')
    e = [s * x for x in V('e0 e1 e2')]
    v = s2c(a, d)
    w = [v[i] + e[i] for i in range(3)]
    l = sqrt(dot(w, w))
    r = unet([x / l for x in w], e)
    c = cross(v, r)
    out = []
    for i in range(3):
        g = tm.subst(diff(c[i], {s: rconst(1)}), {s: rconst(0)})
        out.append(('first-order residual %d' % i, g, rconst(0)))
        out.append(('zero-order residual %d' % i, tm.subst(c[i], {s: rconst(0)}), rconst(0)))
    return out


@lemma(['C22', 'C23'], 'ZYZ and X rotations are proper orthogonal for every angle, so the transposed product inverts')
def _():
    a, b, c, e = V('a b c e')
    m = zyz(a, b, c)
    k = matmul(rot(1, e), m)
    out = []
    for n, q in (('precession', m), ('ecliptic', k)):
        p = matmul(q, transpose(q))
        out += [('%s orthogonal %d' % (n, i), p[i], IDENT[i]) for i in range(9)]
        out.append(('%s determinant' % n, dot(q[0:3], cross(q[3:6], q[6:9])), rconst(1)))
    return out


@lemma('C22', 'equatorial -> ecliptic -> equatorial is the identity on vectors')
def _():
    a, b, c, e = V('a b c e')
    v = V('x y z')
    p, r = zyz(a, b, c), rot(1, e)
    w = tmatvec(p, tmatvec(r, matvec(r, matvec(p, v))))
    return [('component %d' % i, w[i], v[i]) for i in range(3)]


@lemma('C23', 'coincident epochs give the identity matrix')
def _():
    e = var('e')
    out = []
    for f in (prec76, precBN, precS94):
        m = zyz(*f(e, e))
        out += [('%s %d' % (f.__name__, i), m[i], IDENT[i]) for i in range(9)]
    return out
