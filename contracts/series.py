"""Nutation, Earth and Moon ephemerides, TDB-TT: published series as contracts."""
import json
import os
from .base import *
from .vec import rot, IDENT
from .frames import poly, zyz, prec76, jepoch, mjd
from . import sky

HERE = os.path.dirname(os.path.abspath(__file__))


def tab(name):
    with open(os.path.join(HERE, 'tables', name + '.json')) as f:
        return json.load(f)


def num(x):
    """table entry as the machine number the decimal denotes"""
    return float(x)


# ---- nutation ----------------------------------------------------------------------------------------
NUT = tab('nutc')
NUT80 = tab('nutc80')['terms']

# fundamental arguments: constant (degrees) and polynomial (arcseconds) in Julian centuries from J2000
FUND = [(134.96340251, [1717915923.2178, 31.8792, 0.051635, -0.00024470]),
        (357.52910918, [129596581.0481, -0.5532, 0.000136, -0.00001149]),
        (93.27209062, [1739527262.8478, -12.7512, -0.001037, 0.00000417]),
        (297.85019547, [1602961601.209, -6.3706, 0.006539, -0.00003169]),
        (125.04455501, [-6962890.5431, 7.4722, 0.007702, -0.00005939]),
        (181.97980085, [210664136.433548]),
        (355.43299958, [68905077.493988]),
        (34.35151874, [10925660.377991]),
        (50.07744430, [4399609.855732])]


def fundamental(t):
    return [c * D2Rd + poly([0] + p, t) * AS2Rd for c, p in FUND]


def lin(mult, args):
    return sum_(m * a for m, a in zip(mult, args) if m)


def nutation(date):
    t = (date - 51544.5) / 36525
    fa = fundamental(t)
    psi = -153.1 * sin(fa[1]) - 1.9 * sin(2 * fa[1])
    eps = rconst(0)
    for m, p, o in zip(NUT['fa_coef'], NUT['l_psi'], NUT['o_eps']):
        a = lin([int(x) for x in m], fa)
        p, o = [num(x) for x in p], [num(x) for x in o]
        psi = psi + ((p[0] + p[2] * t) * cos(a) + (p[1] + p[3] * t) * sin(a))
        eps = eps + ((o[0] + o[2] * t) * cos(a) + (o[1] + o[3] * t) * sin(a))
    return ((psi * 1e-6 - 0.042888 - 0.29856 * t) * AS2Rd, (eps * 1e-6 - 0.005171 - 0.02408 * t) * AS2Rd,
            poly([84381.412, -46.80927, -0.000152, 0.0019989, -0.00000051, -0.000000025], t) * AS2Rd)


FUND80 = [[485866.733, 1325 * 1296000.0 + 715922.633, 31.310, 0.064],
          [1287099.804, 99 * 1296000.0 + 1292581.224, -0.577, -0.012],
          [335778.877, 1342 * 1296000.0 + 295263.137, -13.257, 0.011],
          [1072261.307, 1236 * 1296000.0 + 1105601.328, -6.891, 0.019],
          [450160.280, -5 * 1296000.0 - 482890.539, 7.455, 0.008]]


def nutation80(date):
    t = (date - 51544.5) / 36525
    fa = [poly(c, t) * AS2Rd for c in FUND80]
    psi, eps = rconst(0), rconst(0)
    for r in NUT80:
        a = lin(r[:5], fa)
        c = [num(x) for x in r[5:]]
        psi = psi + (c[0] + c[1] * t) * sin(a)
        eps = eps + (c[2] + c[3] * t) * cos(a)
    u = AS2Rd / 1e4
    return psi * u, eps * u, poly([84381.448, -46.8150, -0.00059, 0.001813], t) * AS2Rd


anydate = uni(15000, 80000)
for n, f in (('nutc', nutation), ('nutc80', nutation80)):
    def _m(n, f):
        @contract(n, None, [D('tdb'), OUT('psi', 'd'), OUT('eps', 'd'), OUT('eps0', 'd')], dom={'tdb': anydate}, budget=120, timeout=400, nsamples=25)
        def _(tdb):
            p, e, e0 = f(tdb)
            return {'psi': [p], 'eps': [e], 'eps0': [e0]}
    _m(n, f)


def nutmat(psi, eps, eps0):
    """mean equator and equinox of date -> true"""
    return matmul(rot(1, -(eps0 + eps)), matmul(rot(3, -psi), rot(1, eps0)))


@contract('nut', None, [D('tdb'), OUT('mat', 'd9')], dom={'tdb': anydate}, nsamples=10)
def _(tdb):
    n = S('nutc')(tdb)
    return {'mat': nutmat(n['psi'][0], n['eps'][0], n['eps0'][0])}


@contract('prenut', None, [D('je'), D('mjd'), OUT('mat', 'd9')], dom={'je': uni(1900, 2100), 'mjd': anydate}, nsamples=10)
def _(je, mjd):
    n = S('nut')(mjd)['mat']
    return {'mat': matmul(n, zyz(*prec76(je, jepoch(mjd))))}


@lemma('C24', 'nutation and precession-nutation matrices are proper rotations')
def _():
    a, b, c, p, e, o = V('a b c p e o')
    n = nutmat(p, e, o)
    out = []
    for k, q in (('nutation', n), ('precession-nutation', matmul(n, zyz(a, b, c)))):
        w = matmul(q, transpose(q))
        out += [('%s orthogonal %d' % (k, i), w[i], IDENT[i]) for i in range(9)]
    out.append(('determinant', dot(n[0:3], cross(n[3:6], n[6:9])), rconst(1)))
    return out


@lemma('C24', 'zero nutation gives the identity')
def _():
    n = nutmat(rconst(0), rconst(0), var('o'))
    return [('element %d' % i, n[i], IDENT[i]) for i in range(9)]


# ---- Earth: epv ---------------------------------------------------------------------------------------
EPV = tab('epv')
EPVROT = [1.0, +0.000000211284, -0.000000091603,
          -0.000000230286, +0.917482137087, -0.397776982902,
          0.0, +0.397776982902, +0.917482137087]


def epv_series(t, names, j):
    """sum over the powers of time of t^k * sum a cos(b + c t)"""
    r = rconst(0)
    for k, n in enumerate(names):
        p = rconst(1)
        for _ in range(k):
            p = p * t
        for a, b, c in EPV[n][j]:
            r = r + num(a) * p * cos(num(b) + num(c) * t)
    return r


def epv_rate(t, names, j):
    """its derivative with respect to t, term by term"""
    r = rconst(0)
    for k, n in enumerate(names):
        p = rconst(1)
        for _ in range(k):
            p = p * t
        for a, b, c in EPV[n][j]:
            a, b, c = num(a), num(b), num(c)
            r = r - a * c * p * sin(b + c * t)
            if k:
                q = rconst(k)
                for _ in range(k - 1):
                    q = q * t
                r = r + a * q * cos(b + c * t)
    return r


@contract('epv', None, [D('date'), OUT('hpos', 'd3'), OUT('hvelo', 'd3'), OUT('bpos', 'd3'), OUT('bvelo', 'd3')],
          dom={'date': anydate}, nsamples=6, budget=200, timeout=800)
def _(date):
    t = (date - 51544.5) / 365.25
    E, N = ['E0', 'E1', 'E2'], ['S0', 'S1', 'S2']
    h = [epv_series(t, E, j) for j in range(3)]
    s = [epv_series(t, N, j) for j in range(3)]
    hv = [epv_rate(t, E, j) for j in range(3)]
    sv = [epv_rate(t, N, j) for j in range(3)]
    y = 365.25
    return {'hpos': matvec(EPVROT, h), 'hvelo': matvec(EPVROT, [x / y for x in hv]),
            'bpos': matvec(EPVROT, [a + b for a, b in zip(h, s)]),
            'bvelo': matvec(EPVROT, [(a + b) / y for a, b in zip(hv, sv)])}


@lemma('C25', 'each velocity series is the time derivative of the position series')
def _():
    t = var('t')
    out = []
    for k, n in (('heliocentric', ['E0', 'E1', 'E2']), ('Sun-barycentre', ['S0', 'S1', 'S2'])):
        for j in range(3):
            out.append(('%s axis %d' % (k, j), diff(epv_series(t, n, j), {t: rconst(1)}), epv_rate(t, n, j)))
    return out


@lemma('C25', 'the frame rotation is a proper rotation to its published precision')
def _():
    m = [rconst(Fraction(x)) for x in EPVROT]
    p = matmul(m, transpose(m))
    out = [('M M^T %d' % i, le(abs_(p[i] - IDENT[i]), rconst(1e-6))) for i in range(9)]
    return out


# ---- TDB-TT ----------------------------------------------------------------------------------------------
FB = tab('rcc')['fb']
FBPOW = [(0, 474), (474, 679), (679, 764), (764, 784), (784, 787)]


@contract('rcc', 'd', [D('tdb'), D('ut1'), D('cl'), D('cda'), D('cdp')], nsamples=12, budget=120, timeout=400,
          dom={'tdb': anydate, 'ut1': uni(0, 1), 'cl': uni(-3.14, 3.14), 'cda': uni(0, 6400), 'cdp': uni(-6400, 6400)})
def _(tdb, ut1, cl, cda, cdp):
    t = (tdb - 51544.5) / 365250
    w = t / 3600
    tsol = ut1 * TWOPId - cl
    L, M, De, J, Sa = [(c + r * w) * D2Rd for c, r in ((280.46645683, 1296027711.03429), (357.52910918, 1295965810.481),
                       (297.85019547, 16029616012.09), (34.35151874, 109306899.89453), (50.0774443, 44046398.47038))]
    topo = cda * (0.00029e-10 * sin(tsol + L - Sa) + 0.00100e-10 * sin(tsol - 2 * M) + 0.00133e-10 * sin(tsol - De)
                  + 0.00133e-10 * sin(tsol + L - J) - 0.00229e-10 * sin(tsol + 2 * L + M) + 0.05312e-10 * sin(tsol - M)
                  - 0.13677e-10 * sin(tsol + 2 * L) + 3.17679e-10 * sin(tsol)) \
        - cdp * (0.02200e-10 * cos(L + M) + 1.31840e-10 * cos(L))
    fb = rconst(0)
    p = rconst(1)
    for a, b in FBPOW:
        for r in FB[a:b]:
            fb = fb + p * num(r[0]) * sin(num(r[1]) * t + num(r[2]))
        p = p * t
    adj = 0.00065e-6 * sin(6069.776754 * t + 4.021194) + 0.00033e-6 * sin(213.299095 * t + 5.543132) \
        - 0.00196e-6 * sin(6208.294251 * t + 5.696701) - 0.00173e-6 * sin(74.781599 * t + 2.435900) + 0.03638e-6 * t * t
    return {'ret': topo + fb + adj}


# ---- Moon ---------------------------------------------------------------------------------------------------
DM = tab('dmoon')
DMOON = {'Lp': [270.434164, 481267.8831, -0.001133, 0.0000019], 'M': [358.475833, 35999.0498, -0.000150, -0.0000033],
         'Mp': [296.104608, 477198.8491, 0.009192, 0.0000144], 'D': [350.737486, 445267.1142, -0.001436, 0.0000019],
         'F': [11.250889, 483202.0251, -0.003211, -0.0000003], 'Om': [259.183275, -1934.1420, 0.002078, 0.0000022]}


def dmoon_angles(t):
    """longitude, latitude, parallax (radians) as functions of Julian centuries from 1900 (Meeus 1979)"""
    a = {k: poly(c, t) * D2Rd for k, c in DMOON.items()}
    Lp, M, Mp, De, Fa, Om = [a[k] for k in ('Lp', 'M', 'Mp', 'D', 'F', 'Om')]
    wa = sin((51.2 + 20.2 * t) * D2Rd)
    wb = 0.003964 * sin(poly([346.560, 132.870, -0.0091731], t) * D2Rd)
    so = sin(Om)
    wom = Om + (275.05 - 2.30 * t) * D2Rd
    Lp = Lp + (0.000233 * wa + wb + 0.001964 * so) * D2Rd
    M = M - 0.001778 * wa * D2Rd
    Mp = Mp + (0.000817 * wa + wb + 0.002541 * so) * D2Rd
    De = De + (0.002011 * wa + wb + 0.001964 * so) * D2Rd
    Fa = Fa + (wb - 0.024691 * so - 0.004328 * sin(wom)) * D2Rd
    e = poly([1, -0.002495, -0.00000752], t)

    def ser(fn, T_, I_):
        r = rconst(0)
        for c, i in zip(DM[T_], DM[I_]):
            i = [int(x) for x in i]
            x = num(c) * fn(lin(i[:4], [M, Mp, De, Fa]))
            for _ in range(i[4]):
                x = x * e
            r = r + x
        return r
    return (Lp + ser(sin, 'TL', 'ITL') * D2Rd,
            ser(sin, 'TB', 'ITB') * (1 - 0.0004664 * cos(Om) - 0.0000754 * cos(wom)) * D2Rd,
            ser(cos, 'TP', 'ITP') * D2Rd)


def dmoon_frame(date, v):
    """ecliptic of date -> equator, mean equinox of date, with the FK5 equinox correction"""
    t = (date - 51544.5) / 36525
    eqc = 7.272205216643039903848712e-5 * (0.035 + 0.00085 * (2000 + 100 * t - 1949.9997904423))
    eps = poly([84381.448, -46.8150, -0.00059, 0.001813], t) * AS2Rd
    x, y, z = v
    return [x - eqc * cos(eps) * y + eqc * sin(eps) * z, eqc * x + y * cos(eps) - z * sin(eps), y * sin(eps) + z * cos(eps)]


@contract('dmoon', None, [D('date'), OUT('pv', 'd6')], dom={'date': anydate}, nsamples=10, budget=120, timeout=800)
def _(date):
    t = (date - 15019.5) / 36525
    l, b, p = dmoon_angles(t)
    one = {date: rconst(1)}
    # per second: the date is in days
    ld, bd, pd = [diff(x, one) / 86400 for x in (l, b, p)]
    r = 4.2635212653763e-5 / sin(p)
    rd = -r * pd * cos(p) / sin(p)
    pos = [r * cos(l) * cos(b), r * sin(l) * cos(b), r * sin(b)]
    vel = [-r * cos(b) * sin(l) * ld - (r * bd * sin(b) - cos(b) * rd) * cos(l),
           r * cos(b) * cos(l) * ld - (r * bd * sin(b) - cos(b) * rd) * sin(l),
           r * bd * cos(b) + sin(b) * rd]
    return {'pv': dmoon_frame(date, pos) + dmoon_frame(date, vel)}


@lemma('C27', 'rates of the rectangular coordinates are the derivatives of the polar form')
def _():
    l, b, p, ld, bd, pd = V('l b p ld bd pd')
    env = {l: ld, b: bd, p: pd}
    r = 1 / sin(p)
    rd = -r * pd * cos(p) / sin(p)
    pos = [r * cos(l) * cos(b), r * sin(l) * cos(b), r * sin(b)]
    vel = [-r * cos(b) * sin(l) * ld - (r * bd * sin(b) - cos(b) * rd) * cos(l),
           r * cos(b) * cos(l) * ld - (r * bd * sin(b) - cos(b) * rd) * sin(l),
           r * bd * cos(b) + sin(b) * rd]
    return [('component %d' % i, diff(pos[i], env), vel[i]) for i in range(3)]


# ---- low-precision Earth and Moon -------------------------------------------------------------------------
EV = tab('evp')


def n32(x):
    return f32(float(x))


def evp_theory(date):
    """Stumpff's theory: heliocentric and barycentric velocity (AU/s) and position (AU), mean equator of date"""
    F32 = n32
    CC2PI = F32('6.283185')
    t = (date - 15019.5) / 36525
    t2 = t * t
    fel = [num(a) + t * num(b) + t2 * num(c) for a, b, c in EV['DCFEL']]
    dml, g = fel[0], fel[1]
    moonl, moonf = fel[2], fel[3]
    plon = fel[4:8]
    deps = num(EV['DCEPS'][0]) + t * num(EV['DCEPS'][1]) + t2 * num(EV['DCEPS'][2])
    sel = [F32(a) + t * F32(b) + t2 * F32(c) for a, b, c in EV['CCSEL']]
    e = fmod(sel[0], CC2PI)
    peri, node = sel[1:5], sel[5:9]
    pecc = [fmod(x, CC2PI) for x in sel[9:13]]
    incl = [fmod(x, CC2PI) for x in sel[13:17]]
    CCSEC3 = F32('-7.757020e-08')
    sn = [sin(F32(r[1]) + t * F32(r[2])) for r in EV['CCSEC']]
    amp = [F32(r[0]) for r in EV['CCSEC']]
    pertl = amp[0] * sn[0] + amp[1] * sn[1] + (amp[2] + t * CCSEC3) * sn[2] + amp[3] * sn[3]
    pertld = pertr = pertrd = rconst(0)
    for k, (arg, am) in enumerate(zip(EV['DCARGS'], EV['CCAMPS'])):
        a = num(arg[0]) + t * num(arg[1])
        am = [F32(x) for x in am]
        pertl = pertl + am[0] * cos(a) + am[1] * sin(a)
        pertr = pertr + am[2] * cos(a) + am[3] * sin(a)
        if k < 10:
            pertld = pertld + (am[1] * cos(a) - am[0] * sin(a)) * am[4]
            pertrd = pertrd + (am[3] * cos(a) - am[2] * sin(a)) * am[4]
    CCSGD, DCSLD = F32('1.990969e-07'), 1.990987e-07
    e2 = e * e
    phi = 2 * e * ((1 - e2 * 0.125) * sin(g) + e * 0.625 * sin(2 * g) + e2 * F32('0.54166667') * sin(3 * g))
    f = g + phi
    dpsi = (1 - e2) / (1 + e * cos(f))
    phid = 2 * e * CCSGD * ((1 + e2 * 1.5) * cos(f) + e * (1.25 - sin(f) * sin(f) * 0.5))
    psid = CCSGD * e * sin(f) / sqrt(1 - e2)
    d1 = 1 + pertr
    drd = d1 * (psid + dpsi * pertrd)
    drld = d1 * dpsi * (DCSLD + phid + pertld)
    L = dml + phi + pertl
    xhd = drd * cos(L) - drld * sin(L)
    yhd = drd * sin(L) + drld * cos(L)
    pl = pld = pp = ppd = rconst(0)
    for arg, am in zip(EV['DCARGM'], EV['CCAMPM']):
        a = num(arg[0]) + t * num(arg[1])
        am = [F32(x) for x in am]
        pl, pld = pl + am[0] * sin(a), pld + am[1] * cos(a)
        pp, ppd = pp + am[2] * cos(a), ppd - am[3] * sin(a)
    tl = moonl + pl
    sigma = F32('3.122140e-05') / (1 + pp)
    a = sigma * (F32('2.661699e-06') + pld)
    b = sigma * ppd
    xhd = xhd + a * sin(tl) + b * cos(tl)
    yhd = yhd - a * cos(tl) + b * sin(tl)
    zhd = -sigma * F32('2.399485e-07') * cos(moonf)
    K = 0.99999696
    xbd, ybd, zbd = xhd * K, yhd * K, zhd * K
    lp = []
    for k in range(4):
        m = F32(EV['CCPAMV'][k])
        tlk = plon[k] + 2 * pecc[k] * sin(plon[k] - peri[k])
        lp.append(tlk)
        xbd = xbd + m * (sin(tlk) + pecc[k] * sin(peri[k]))
        ybd = ybd - m * (cos(tlk) + pecc[k] * cos(peri[k]))
        zbd = zbd - m * incl[k] * cos(plon[k] - node[k])
    r = dpsi * d1
    flatm = F32('8.978749e-2') * sin(moonf)
    xh = r * cos(L) - sigma * cos(flatm) * cos(tl)
    yh = r * sin(L) - sigma * cos(flatm) * sin(tl)
    zh = -sigma * sin(flatm)
    xb, yb, zb = xh * K, yh * K, zh * K
    for k in range(4):
        fl = incl[k] * sin(plon[k] - node[k])
        a = F32(EV['CCPAM'][k]) * (1 - pecc[k] * cos(plon[k] - peri[k]))
        xb = xb - a * cos(fl) * cos(lp[k])
        yb = yb - a * cos(fl) * sin(lp[k])
        zb = zb - a * sin(fl)
    eqc = 0.7272205216643e-4 * (0.035 + 0.00085 * (jepoch(date) - 1949.9997904423))

    def equ(v):
        x, y, z = v
        ya, za = cos(deps) * y - sin(deps) * z, sin(deps) * y + cos(deps) * z
        return [x - eqc * ya, ya + eqc * x, za]
    return equ([xbd, ybd, zbd]), equ([xb, yb, zb]), equ([xhd, yhd, zhd]), equ([xh, yh, zh])


@contract('evp', None, [D('date'), D('deqx'), OUT('bvelo', 'd3'), OUT('bpos', 'd3'), OUT('hvelo', 'd3'), OUT('hpos', 'd3')],
          tol=3e-6, ntol=1e-6, nsamples=20, budget=60, timeout=800,
          dom={'date': uni(30000, 65000), 'deqx': lambda r: r.choice([0.0, -1.0, r.uniform(1900, 2100), r.uniform(0, 1900)])})
def _(date, deqx):
    v = evp_theory(date)
    if deqx > 0:
        m = zyz(*prec76(jepoch(date), deqx))
        v = [matvec(m, x) for x in v]
    return {'bvelo': v[0], 'bpos': v[1], 'hvelo': v[2], 'hpos': v[3]}


def yearfrac(year, day, fraction):
    """Julian years since 1900 and fraction of the four-year cycle used by the low-precision theories"""
    y4 = fmodi(year, 4)
    yf = (toR(4 * (day - ite(eq(y4, 0), const(1), const(0))) - y4 - 2) + 4 * fraction) / 1461
    return toR(year - 1900) + yf, yf


def yday(r):
    return r.randrange(1, 366)


@contract('earth', None, [I('year'), I('day'), F('fraction'), OUT('pv', 'f6')], nsamples=60, ntol=4e-4, budget=60,
          pre=lambda year, day, fraction: [le(-10000, year), le(year, 10000), le(-1000, day), le(day, 1000), le(-10, fraction), le(fraction, 10)],
          dom={'year': ints(1900, 2100), 'day': yday, 'fraction': uni(0, 1)})
def _(year, day, fraction):
    t, yf = yearfrac(year, day, fraction)
    TW = n32('6.28318530718')
    speed, ed, es = n32('1.9913e-7'), n32('3.12e-5'), n32('8.31e-11')
    elm = n32('4.881628') + TW * yf + n32('0.00013420') * t
    gam = n32('4.908230') + n32('3.0005e-4') * t
    # anomaly: reduced to one turn before the equation of centre (only trigonometric uses follow)
    em = elm - gam
    eps = n32('0.40931975') - n32('2.27e-6') * t
    e = n32('0.016751') - n32('4.2e-7') * t
    v = em + 2 * e * sin(em) + 1.25 * e * e * sin(2 * em)
    L = v + gam
    r = (1 - e * e) / (1 + e * cos(v))
    lm = n32('4.72') + n32('83.9971') * t
    w1, w2 = -r * sin(L), -speed * (cos(L) + e * cos(gam))
    return {'pv': [-r * cos(L) - ed * cos(lm), (w1 - ed * sin(lm)) * cos(eps), w1 * sin(eps),
                   speed * (sin(L) + e * sin(gam)) + es * sin(lm), (w2 - es * cos(lm)) * cos(eps), w2 * sin(eps)]}


@contract('ecor', None, [SV2('dir'), I('year'), I('day'), F('fraction'), OUT('velocity', 'f'), OUT('lt', 'f')], nsamples=60, ntol=4e-4,
          pre=lambda dir, year, day, fraction: [le(-10000, year), le(year, 10000), le(-1000, day), le(day, 1000), le(-10, fraction), le(fraction, 10)],
          dom={'year': ints(1900, 2100), 'day': yday, 'fraction': uni(0, 1)})
def _(dir, year, day, fraction):
    pv = S('earth')(year, day, fraction)['pv']
    u = s2c(*dir)
    return {'velocity': [-n32('1.4959787066e8') * dot(pv[3:6], u)], 'lt': [n32('499.0047837') * dot(pv[0:3], u)]}


MO = tab('moon')


@contract('moon', None, [I('year'), I('day'), F('fraction'), OUT('pv', 'f6')], nsamples=60, ntol=4e-4, budget=60,
          pre=lambda year, day, fraction: [le(-10000, year), le(year, 10000), le(-1000, day), le(day, 1000), le(-10, fraction), le(fraction, 10)],
          dom={'year': ints(1900, 2100), 'day': yday, 'fraction': uni(0, 1)})
def _(year, day, fraction):
    t, yf = yearfrac(year, day, fraction)
    R = n32('1.745329252e-2')
    rate = n32('9.652743551e-12')
    # mean elements, degrees and degrees per year
    arg = [R * (n32(a) + n32(w) * yf + n32(f) * t) for a, w, f in
           (('358.475833', '0', '359.990498'), ('296.104608', '4680', '91.988491'),
            ('350.737486', '4320', '132.671142'), ('11.250889', '4680', '152.020251'))]
    mot = [n32(x) for x in ('359.990498', '4771.988491', '4452.671142', '4832.020251')]
    lp = R * (n32('270.434164') + 4680 * yf + n32('132.678831') * t)

    def ser(T_, I_, fn):
        r = rd = rconst(0)
        for c, i in zip(MO[T_], MO[I_]):
            i = [int(x) for x in i]
            a = lin(i, arg)
            w = sum(k * m for k, m in zip(i, mot))
            c = n32(c)
            if fn == 'sin':
                r, rd = r + c * sin(a), rd + c * cos(a) * w
            else:
                r, rd = r + c * cos(a), rd - c * sin(a) * w
        return r, rd
    l, ld = ser('TL', 'ITL', 'sin')
    l, ld = l * R + lp, rate * (ld + n32('4812.678831') / R)
    b, bd = ser('TB', 'ITB', 'sin')
    b, bd = b * R, bd * rate
    p, pd = ser('TP', 'ITP', 'cos')
    p, pd = (p + n32('0.950724')) * R, pd * rate
    r = n32('4.2635212653763e-5') / sin(p)
    rd = -r * pd / sin(p)
    v = S('cs2c6')([l, b, r, ld, bd, rd])
    v = list(v.values())[0]
    eps = R * (n32('23.45229') - n32('0.00013') * t)

    def equ(x, y, z):
        return [x, y * cos(eps) - z * sin(eps), y * sin(eps) + z * cos(eps)]
    return {'pv': equ(*v[0:3]) + equ(*v[3:6])}
