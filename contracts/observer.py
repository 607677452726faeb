"""Observer geometry, radial-velocity corrections, proper motion."""
from .base import *
from .vec import rot, IDENT
from .frames import sph

RE, FLAT, AU = 6378140.0, 1.0 / 298.257, 1.49597870e11


def geocentric(phi, h):
    """distances (AU) from the spin axis and from the equatorial plane (IAU 1976 ellipsoid)"""
    b = (1 - FLAT) * (1 - FLAT)
    c = 1 / sqrt(cos(phi) * cos(phi) + b * sin(phi) * sin(phi))
    return (RE * c + h) * cos(phi) / AU, (RE * b * c + h) * sin(phi) / AU


hts = uni(-500, 9000)


@contract('geoc', None, [D('latitude'), D('height'), OUT('axis', 'd'), OUT('equator', 'd')], dom={'latitude': lat, 'height': hts})
def _(latitude, height):
    r, z = geocentric(latitude, height)
    return {'axis': [r], 'equator': [z]}


OMEGA = 7.292115855306589e-5


@contract('pvobs', None, [D('latitude'), D('height'), D('lst'), OUT('pv', 'd6')], dom={'latitude': lat, 'height': hts, 'lst': angle})
def _(latitude, height, lst):
    r, z = geocentric(latitude, height)
    return {'pv': [r * cos(lst), r * sin(lst), z, -OMEGA * r * sin(lst), OMEGA * r * cos(lst), rconst(0)]}


@lemma('C28', 'observer velocity is the rotation rate times the derivative with respect to sidereal time')
def _():
    r, z, t = V('r z t')
    p = [r * cos(t), r * sin(t), z]
    v = [-OMEGA * r * sin(t), OMEGA * r * cos(t), rconst(0)]
    return [('component %d' % i, diff(p[i], {t: rconst(Fraction(OMEGA))}), v[i]) for i in range(3)]


@lemma('C28', 'at zero height the observer lies on the reference ellipsoid')
def _():
    phi = var('phi')
    b = 1 - Fraction(FLAT)
    c = 1 / sqrt(cos(phi) * cos(phi) + b * b * sin(phi) * sin(phi))
    r, z = RE * c * cos(phi), RE * b * b * c * sin(phi)
    return [('ellipse', r * r + z * z / (b * b), rconst(RE) * RE)]


def polar(m_long, m_phi, x, y):
    v = s2c(m_long, m_phi)
    m = matmul(rot(2, x), rot(1, y))
    # site and terrestrial pole (0,0,1) in the true frame
    return matvec(m, v), [-sin(x) * cos(y), sin(y), cos(x) * cos(y)]


def az0(y, x):
    if and_(eq(y, rconst(0)), eq(x, rconst(0))):
        return rconst(0)
    return atan2(y, x)


pmxy = lambda r: r.choice([0.0, r.uniform(-3e-6, 3e-6), r.uniform(-0.5, 0.5)])


@contract('polmo', None, [D('m_long'), D('m_phi'), D('x_pm'), D('y_pm'), OUT('t_long', 'd'), OUT('t_phi', 'd'), OUT('d_az', 'd')],
          dom={'m_long': angle, 'm_phi': lambda r: r.uniform(-1.55, 1.55), 'x_pm': pmxy, 'y_pm': pmxy}, angles=['t_long', 'd_az'])
def _(m_long, m_phi, x_pm, y_pm):
    s, n = polar(m_long, m_phi, x_pm, y_pm)
    r = sqrt(s[0] * s[0] + s[1] * s[1])
    if r == 0:
        lo, cl, sl = rconst(0), rconst(1), rconst(0)
    else:
        lo, cl, sl = atan2(s[1], s[0]), s[0] / r, s[1] / r
    # pole direction resolved along south and east of the true site
    south = (n[0] * cl + n[1] * sl) * s[2] - n[2] * r
    east = n[1] * cl - n[0] * sl
    return {'t_long': [lo], 't_phi': [atan2(s[2], r)], 'd_az': [az0(-east, -south)]}


@lemma('C28', 'zero polar motion leaves the site vector and the azimuth unchanged', pre=lambda: [lt(rconst(0), cos(var('p')))])
def _():
    l, p = V('l p')
    s, n = polar(l, p, rconst(0), rconst(0))
    v = s2c(l, p)
    r = sqrt(s[0] * s[0] + s[1] * s[1])
    cl, sl = s[0] / r, s[1] / r
    out = [('site %d' % i, s[i], v[i]) for i in range(3)]
    out.append(('azimuth sine', n[1] * cl - n[0] * sl, rconst(0)))
    out.append(('azimuth cosine', -((n[0] * cl + n[1] * sl) * s[2] - n[2] * r), r))
    return out


# ---- radial velocities ------------------------------------------------------------------------------------
@contract('rverot', 'f', [F('phi'), IN('pos', 'f2'), F('stime')], dom={'phi': lat, 'pos': dirn, 'stime': angle})
def _(phi, pos, stime):
    return {'ret': f32(0.4655) * cos(phi) * sin(stime - pos[0]) * cos(pos[1])}


SOLAR = {'rvgalc': [-108.70408, +97.86251, -164.33610], 'rvlg': [-148.23284, +133.44888, -224.09467],
         'rvlsrd': [+0.63823, +14.58542, -7.80116], 'rvlsrk': [-0.29000, +17.31726, -10.00141]}
for n_, v_ in SOLAR.items():
    def _m(n, v):
        @contract(n, 'f', [IN('pos', 'f2')], dom={'pos': dirn})
        def _(pos):
            return {'ret': dot([f32(x) for x in v], s2c(*pos))}
    _m(n_, v_)


@lemma('C29', 'a projection is bounded by the speed and odd under reversal')
def _():
    a, d = V('a d')
    u = s2c(a, d)
    w = s2c(a + rconst(math.pi), -d)
    out = [('unit direction', dot(u, u), rconst(1))]
    out += [('reversal %d' % i, w[i], -u[i]) for i in range(3)]
    for n, v in SOLAR.items():
        v = [rconst(Fraction(f32(x))) for x in v]
        # |v|^2 |u|^2 - (v.u)^2 = |v x u|^2 (Lagrange), so |v.u| <= |v|
        c = cross(v, u)
        out.append(('%s bounded' % n, dot(v, v) * dot(u, u) - dot(v, u) * dot(v, u), dot(c, c)))
    return out


# ---- proper motion --------------------------------------------------------------------------------------------
VFR = (365.25 * 86400.0 / 149597870.0) * 4.8481368111e-6


@contract('pm', None, [IN('dir0', 'd2'), IN('motion', 'd2'), D('parallax'), D('rv'), D('ep0'), D('ep1'), OUT('dir1', 'd2')],
          dom={'dir0': dirn, 'motion': lambda r: [r.uniform(-1e-3, 1e-3), r.uniform(-1e-3, 1e-3)], 'parallax': uni(0, 1), 'rv': uni(-300, 300),
               'ep0': uni(1900, 2100), 'ep1': uni(1900, 2100)}, angles=['dir1[0]'], aliases=[('dir0', 'dir1'), ('motion', 'dir1')])
def _(dir0, motion, parallax, rv, ep0, ep1):
    a, d = dir0
    u = s2c(a, d)
    w = VFR * rv * parallax
    v = [-motion[0] * u[1] - motion[1] * cos(a) * sin(d) + w * u[0],
         motion[0] * u[0] - motion[1] * sin(a) * sin(d) + w * u[1],
         motion[1] * cos(d) + w * u[2]]
    return {'dir1': sph([u[i] + (ep1 - ep0) * v[i] for i in range(3)])}


@lemma('C30', 'the space motion is the derivative of the scaled direction vector')
def _():
    a, d, k, pa, pd, w = V('a d k pa pd w')
    u = s2c(a, d)
    pos = [k * x for x in u]
    rate = {a: pa, d: pd, k: w}
    v = [-pa * u[1] - pd * cos(a) * sin(d) + w * u[0], pa * u[0] - pd * sin(a) * sin(d) + w * u[1], pd * cos(d) + w * u[2]]
    one = {k: rconst(1)}
    return [('component %d' % i, tm.subst(diff(pos[i], rate), one), v[i]) for i in range(3)]
