"""Horizon coordinates, altazimuth mounts, hour-angle solutions, separations and bearings, sidereal time."""
from .base import *


# ---- sidereal time -------------------------------------------------------------------
def gmst_poly(jc):
    """GMST-UT1, seconds (IAU 1982)"""
    return 24110.54841 + (8640184.812866 + (0.093104 - 6.2e-6 * jc) * jc) * jc


S2R = TWOPId / 86400.0
ut1 = uni(10000, 80000)


@contract('gmst', 'd', [D('ut1')], dom={'ut1': lambda r: r.choice([r.uniform(10000, 80000), float(r.randrange(30000, 60000)), r.uniform(-1000, 1000)])}, angles=['ret'])
def _(ut1):
    return {'ret': wrapP(fmod(ut1, 1) * TWOPId + gmst_poly((ut1 - 51544.5) / 36525) * S2R, TWOPId)}


@contract('gmsta', 'd', [D('date'), D('fdate')], angles=['ret'],
          dom={'date': lambda r: r.choice([r.uniform(10000, 80000), r.uniform(0, 1)]), 'fdate': lambda r: r.choice([r.uniform(0, 1), r.uniform(10000, 80000), r.uniform(-2, 2)])})
def _(date, fdate):
    jc = (date + fdate - 51544.5) / 36525
    return {'ret': wrapP((gmst_poly(jc) + 86400 * (fmod(date, 1) + fmod(fdate, 1))) * S2R, TWOPId)}


@contract('eqeqx', 'd', [D('date')], dom={'date': ut1})
def _(date):
    t = (date - 51544.5) / 36525
    om = AS2Rd * (450160.280 + (-5.0 * 1296000 - 482890.539 + (7.455 + 0.008 * t) * t) * t)
    n = S('nutc')(date)
    return {'ret': n['psi'][0] * cos(n['eps0'][0]) + AS2Rd * (0.00264 * sin(om) + 0.000063 * sin(2 * om))}


# ---- horizon --------------------------------------------------------------------------
def hor(h, d, phi):
    """vector of (hour angle, declination) in the horizon frame (north, east, zenith); the map is its own inverse"""
    return [-cos(h) * cos(d) * sin(phi) + sin(d) * cos(phi), -sin(h) * cos(d), cos(h) * cos(d) * cos(phi) + sin(d) * sin(phi)]


for t, n1, n2 in (('f', 'e2h', 'h2e'), ('d', 'de2h', 'dh2e')):
    def _mk(t, n1, n2):
        @contract(n1, None, [IN('dir', t + '2'), sc(t, 'phi'), OUT('az', t), OUT('el', t)], dom={'dir': dirn, 'phi': lat}, angles=['az'])
        def _(dir, phi):
            x, y, z = hor(dir[0], dir[1], phi)
            r = sqrt(x * x + y * y)
            if r == 0:
                a = rconst(0)
            else:
                a = atan2(y, x)
                if a < 0:
                    a = a + 2 * pi(t)
            return {'az': [a], 'el': [atan2(z, r)]}

        @contract(n2, None, [sc(t, 'az'), sc(t, 'el'), sc(t, 'phi'), OUT('dir', t + '2')], dom={'az': angle, 'el': lat, 'phi': lat}, angles=['dir[0]'])
        def _(az, el, phi):
            x, y, z = hor(az, el, phi)
            r = sqrt(x * x + y * y)
            if r == 0:
                a = rconst(0)
            else:
                a = atan2(y, x)
            return {'dir': [a, atan2(z, r)]}
    _mk(t, n1, n2)


@contract('zd', 'd', [IN('dir', 'd2'), D('phi')], dom={'dir': dirn, 'phi': lat})
def _(dir, phi):
    x, y, z = hor(dir[0], dir[1], phi)
    return {'ret': atan2(sqrt(x * x + y * y), z)}


@contract('pa', 'd', [IN('dir', 'd2'), D('phi')], dom={'dir': dirn, 'phi': lat}, angles=['ret'])
def _(dir, phi):
    h, d = dir
    s = cos(phi) * sin(h)
    c = sin(phi) * cos(d) - cos(phi) * sin(d) * cos(h)
    if and_(eq(s, rconst(0)), eq(c, rconst(0))):
        return {'ret': rconst(0)}
    return {'ret': atan2(s, c)}


@contract('altaz', None, [IN('dir', 'd2'), D('phi'), OUT('am', 'd9')], dom={'dir': dirn, 'phi': lat}, angles=['am[0]', 'am[6]'])
def _(dir, phi):
    h, d = dir
    x, y, z = hor(h, d, phi)
    rsq = x * x + y * y
    r = sqrt(rsq)
    if rsq == 0:
        az = rconst(0)
    else:
        az = atan2(y, x)
    if az < 0:
        az = az + TWOPId
    el = atan2(z, r)
    c = cos(d) * sin(phi) - cos(h) * sin(d) * cos(phi)
    s = sin(h) * cos(phi)
    if c * c + s * s > 0:
        q = atan2(s, c)
    else:
        q = PId - h
    if rsq < 1e-30:
        rsq = rconst(1e-30)
        r = sqrt(rsq)
    qd = -x * cos(phi) / rsq
    ad = sin(phi) + z * qd
    ed = cos(phi) * y / r
    add = ed / r * (z * sin(phi) + (2 - rsq) * qd)
    edd = -r * qd * ad
    qdd = ed / r * (sin(phi) + 2 * z * qd)
    return {'am': [az, ad, add, el, ed, edd, q, qd, qdd]}


# ---- hour angle from azimuth / parallactic angle --------------------------------------------
TINY = 1e-12


def toward0(x):
    if x >= 0:
        return x - rconst(TINY)
    return x + rconst(TINY)


def nudge(x, centre):
    """move x off +-centre and off zero by a negligible amount"""
    if lt(abs_(abs_(x) - centre), rconst(TINY)):
        return toward0(x)
    if lt(abs_(x), rconst(TINY)):
        return rconst(TINY)
    return x


def hsol(qt, qb, ty, tx, sgn):
    """solutions of sin(h+t) = qt/qb with tan t = ty/tx"""
    if le(abs_(qt), qb):
        hpt = asin(qt / qb)
        t = atan2(ty, tx)
        h1 = wrapS(hpt - t, TWOPId, PId)
        h2 = wrapS(-hpt - (t + PId), TWOPId, PId)
        return {'ha1': [h1], 'v1': [le(h1 * sgn, rconst(0))], 'ha2': [h2], 'v2': [le(h2 * sgn, rconst(0))]}
    return {'ha1': [None], 'v1': [tm.FALSE], 'ha2': [None], 'v2': [tm.FALSE]}


PDOM = dict(lat=lambda r: r.choice([lat(r), 0.0, PId / 2, -0.8]), dec=lambda r: r.choice([lat(r), 0.0, 0.3]))
GEN = lambda v: [le(abs_(v), rconst(1.6))]


@contract('pda2h', None, [D('lat'), D('dec'), D('azimuth'), OUT('ha1', 'd'), OUT('v1', 'b'), OUT('ha2', 'd'), OUT('v2', 'b')],
          dom=dict(PDOM, azimuth=angle), angles=['ha1', 'ha2'], nsamples=300, timeout=400)
def _(lat, dec, azimuth):
    pn = nudge(wrapS(lat, TWOPId, PId), PId / 2)
    an = nudge(wrapS(azimuth, TWOPId, PId), PId)
    dn = wrapS(dec, TWOPId, PId)
    if or_(lt(abs_(abs_(dn) - abs_(lat)), rconst(TINY)), lt(abs_(abs_(dn) - PId / 2), rconst(TINY))):
        dn = toward0(dn)
    elif lt(abs_(dn), rconst(TINY)):
        dn = rconst(TINY)
    sasp = sin(an) * sin(pn)
    return hsol(sin(dn) * sin(an) * cos(pn), cos(dn) * sqrt(cos(an) * cos(an) + sasp * sasp), sasp, -cos(an), an)


@contract('pdq2h', None, [D('lat'), D('dec'), D('pa'), OUT('ha1', 'd'), OUT('v1', 'b'), OUT('ha2', 'd'), OUT('v2', 'b')],
          dom=dict(PDOM, pa=angle), angles=['ha1', 'ha2'], nsamples=300, timeout=400)
def _(lat, dec, pa):
    pn = nudge(wrapS(lat, TWOPId, PId), PId / 2)
    qn = nudge(wrapS(pa, TWOPId, PId), PId)
    dn = wrapS(dec, TWOPId, PId)
    if or_(lt(abs_(abs_(dec) - abs_(lat)), rconst(TINY)), lt(abs_(abs_(dec) - PId / 2), rconst(TINY))):
        dn = toward0(dn)
    sqsd = sin(qn) * sin(dn)
    return hsol(sin(pn) * sin(qn) * cos(dn), cos(pn) * sqrt(cos(qn) * cos(qn) + sqsd * sqsd), sqsd, cos(qn), -qn)


# ---- separations, bearings --------------------------------------------------------------------
for t, n in (('d', 'dsepv'), ('f', 'sepv')):
    def _mk2(t, n):
        @contract(n, t, [IN('va', t + '3'), IN('vb', t + '3')], dom={'va': vec3, 'vb': vec3})
        def _(va, vb):
            s = sqrt(dot(cross(va, vb), cross(va, vb)))
            c = dot(va, vb)
            if or_(not_(eq(s, rconst(0))), not_(eq(c, rconst(0)))):
                return {'ret': atan2(s, c)}
            return {'ret': rconst(0)}
    _mk2(t, n)

for t, n in (('d', 'dsep'), ('f', 'sep')):
    def _mk3(t, n):
        @contract(n, t, [IN('sa', t + '2'), IN('sb', t + '2')], dom={'sa': dirn, 'sb': dirn})
        def _(sa, sb):
            return S('dsepv')(s2c(*sa), s2c(*sb))
    _mk3(t, n)

for t, n in (('d', 'dbear'), ('f', 'bear')):
    def _mk4(t, n):
        @contract(n, t, [IN('da', t + '2'), IN('db', t + '2')], dom={'da': dirn, 'db': lambda r: dirn(r)}, angles=['ret'])
        def _(da, db):
            dra = db[0] - da[0]
            x = sin(db[1]) * cos(da[1]) - cos(db[1]) * sin(da[1]) * cos(dra)
            y = sin(dra) * cos(db[1])
            if or_(not_(eq(x, rconst(0))), not_(eq(y, rconst(0)))):
                return {'ret': atan2(y, x)}
            return {'ret': rconst(0)}
    _mk4(t, n)

for t, n in (('d', 'dpav'), ('f', 'pav')):
    def _mk5(t, n):
        @contract(n, t, [IN('va', t + '3'), IN('vb', t + '3')], dom={'va': vec3, 'vb': vec3}, angles=['ret'])
        def _(va, vb):
            m = sqrt(dot(va, va))
            u = va
            if m != 0:
                u = [x / m for x in va]
            s = vb[1] * u[0] - vb[0] * u[1]
            c = vb[2] * (u[0] * u[0] + u[1] * u[1]) - u[2] * (vb[0] * u[0] + vb[1] * u[1])
            if and_(eq(s, rconst(0)), eq(c, rconst(0))):
                return {'ret': rconst(0)}
            return {'ret': atan2(s, c)}
    _mk5(t, n)


# ---- lemmas ---------------------------------------------------------------------------------------
@lemma('C14', 'horizon and equatorial conversions are one involutive rotation')
def _():
    h, d, phi = V('h d phi')
    v = hor(h, d, phi)
    # the same linear map applied to its own result gives the original vector
    x, y, z = v
    w = [-x * sin(phi) + z * cos(phi), -y, x * cos(phi) + z * sin(phi)]
    u = s2c(h, d)
    return [('component %d' % i, w[i], u[i]) for i in range(3)] + [('unit length', dot(v, v), rconst(1))]


@lemma('C14', 'azimuth/elevation of a star reproduce its horizon vector, so the inverse routine recovers the star',
       pre=lambda: [lt(rconst(0), dot(hor(*V('h d phi'))[:2] + [rconst(0)], hor(*V('h d phi'))[:2] + [rconst(0)]))])
def _():
    h, d, phi = V('h d phi')
    v = hor(h, d, phi)
    o = S('de2h')([h, d], phi)
    u = s2c(o['az'][0], o['el'][0])
    return [('component %d' % i, u[i], v[i]) for i in range(3)]


@lemma('C14', 'zenith distance is the complement of the elevation')
def _():
    h, d, phi = V('h d phi')
    v = hor(h, d, phi)
    z = S('zd')([h, d], phi)['ret']
    return [('cos zd', cos(z), v[2])]


def qnorm(h, d, phi):
    c = cos(d) * sin(phi) - cos(h) * sin(d) * cos(phi)
    s = sin(h) * cos(phi)
    return c * c + s * s


RSQ = lambda: [le(rconst(1e-30), dot(hor(*V('h d phi'))[:2] + [rconst(0)], hor(*V('h d phi'))[:2] + [rconst(0)])),
               lt(rconst(0), cos(var('d'))), lt(rconst(0), qnorm(*V('h d phi')))]


@lemma('C15', 'rates are the derivatives of azimuth, elevation and parallactic angle; accelerations of the rates', pre=RSQ, budget=200)
def _():
    h, d, phi = V('h d phi')
    am = S('altaz')([h, d], phi)['am']
    out = []
    for k, n in ((0, 'azimuth'), (3, 'elevation'), (6, 'parallactic angle')):
        out.append((n + ' rate', diff(am[k], {h: rconst(1)}), am[k + 1]))
        out.append((n + ' acceleration', diff(am[k + 1], {h: rconst(1)}), am[k + 2]))
    return out


@lemma('C16', 'solutions satisfy the defining equation of the azimuth',
       pre=lambda: [lt(rconst(0), cos(var('d')))])
def _():
    p, d, a = V('p d a')
    sasp = sin(a) * sin(p)
    qt, qb = sin(d) * sin(a) * cos(p), cos(d) * sqrt(cos(a) * cos(a) + sasp * sasp)
    r = hsol(qt, qb, sasp, -cos(a), a)
    if r['ha1'][0] is None:
        return [('no solution', tm.TRUE)]
    out = []
    for k in ('ha1', 'ha2'):
        x, y, z = hor(r[k][0], d, p)
        out.append((k, y * cos(a), x * sin(a)))
    return out


@lemma('C16', 'solutions satisfy the defining equation of the parallactic angle',
       pre=lambda: [lt(rconst(0), cos(var('p')))])
def _():
    p, d, q = V('p d q')
    s = sin(q) * sin(d)
    qt, qb = sin(p) * sin(q) * cos(d), cos(p) * sqrt(cos(q) * cos(q) + s * s)
    r = hsol(qt, qb, s, cos(q), -q)
    if r['ha1'][0] is None:
        return [('no solution', tm.TRUE)]
    out = []
    for k in ('ha1', 'ha2'):
        h = r[k][0]
        out.append((k, cos(p) * sin(h) * cos(q), (sin(p) * cos(d) - cos(p) * sin(d) * cos(h)) * sin(q)))
    return out


@lemma('C17', 'separation has the cosine of the angle, is symmetric and ignores vector lengths')
def _():
    a = [var('a%d' % i) for i in range(3)]
    b = [var('b%d' % i) for i in range(3)]
    x = S('dsepv')(a, b)['ret']
    l = sqrt(dot(a, a) * dot(b, b))
    out = [('cosine', cos(x) * l, dot(a, b) if bool(or_(not_(eq(sqrt(dot(cross(a, b), cross(a, b))), rconst(0))), not_(eq(dot(a, b), rconst(0))))) else l)]
    c1, c2 = cross(a, b), cross(b, a)
    out.append(('symmetric', dot(c1, c1), dot(c2, c2)))
    return out


@lemma('C17', 'bearing and vector position angle are the same function')
def _():
    a1, d1, a2, d2 = V('a1 d1 a2 d2')
    u, v = s2c(a1, d1), s2c(a2, d2)
    s = v[1] * u[0] - v[0] * u[1]
    c = v[2] * (u[0] * u[0] + u[1] * u[1]) - u[2] * (v[0] * u[0] + v[1] * u[1])
    dra = a2 - a1
    x = sin(d2) * cos(d1) - cos(d2) * sin(d1) * cos(dra)
    y = sin(dra) * cos(d2)
    return [('sine part', s, y * cos(d1)), ('cosine part', c, x * cos(d1))]


@lemma('C13', 'split date gives the same sidereal time')
def _():
    d, f = V('d f')
    a = S('gmst')(d + f)['ret']
    b = S('gmsta')(d, f)['ret']
    c = S('gmsta')(f, d)['ret']
    return [('order', b, c)]
