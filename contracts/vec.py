"""3-vectors and 3x3 matrices, spherical/Cartesian conversions, rotations."""
from .base import *

for t, pre in (('f', ''), ('d', 'd')):
    def _mk(t, pre):
        n = pre

        @contract(n + 'mxm', None, [IN('a', t + '9'), IN('b', t + '9'), OUT('c', t + '9')],
                  aliases=[('a', 'c'), ('b', 'c')], dom={'a': mat9, 'b': mat9})
        def _(a, b):
            return {'c': matmul(a, b)}

        @contract(n + 'mxv', None, [IN('m', t + '9'), IN('a', t + '3'), OUT('b', t + '3')],
                  aliases=[('a', 'b')], dom={'m': mat9, 'a': vec3})
        def _(m, a):
            return {'b': matvec(m, a)}

        @contract(('imxv' if t == 'f' else 'dimxv'), None, [IN('m', t + '9'), IN('a', t + '3'), OUT('b', t + '3')],
                  aliases=[('a', 'b')], dom={'m': mat9, 'a': vec3})
        def _(m, a):
            return {'b': tmatvec(m, a)}

        @contract(n + 'vdv', t, [IN('a', t + '3'), IN('b', t + '3')], dom={'a': vec3, 'b': vec3})
        def _(a, b):
            return {'ret': dot(a, b)}

        @contract(n + 'vxv', None, [IN('a', t + '3'), IN('b', t + '3'), OUT('c', t + '3')],
                  aliases=[('a', 'c'), ('b', 'c')], dom={'a': vec3, 'b': vec3})
        def _(a, b):
            return {'c': cross(a, b)}

        @contract(n + 'vn', t, [IN('v', t + '3'), OUT('n', t + '3')], aliases=[('v', 'n')], dom={'v': vec3})
        def _(v):
            m = sqrt(dot(v, v))
            if m > 0:
                return {'ret': m, 'n': [v[0] / m, v[1] / m, v[2] / m]}
            return {'ret': rconst(0), 'n': [rconst(0)] * 3}
    _mk(t, pre)


# ---- spherical / Cartesian ---------------------------------------------------
for t, n1, n2, n3, n4 in (('f', 'cs2c', 'cc2s', 'cs2c6', 'cc62s'), ('d', 'dcs2c', 'dcc2s', 'ds2c6', 'dc62s')):
    def _mk2(t, n1, n2, n3, n4):
        @contract(n1, None, [IN('s', t + '2'), OUT('c', t + '3')], dom={'s': dirn})
        def _(s):
            return {'c': s2c(s[0], s[1])}

        @contract(n2, None, [IN('c', t + '3'), OUT('s', t + '2')], dom={'c': vec3})
        def _(c):
            return {'s': list(c2s(c))}

        @contract(n3, None, [IN('s', t + '6'), OUT('c', t + '6')],
                  dom={'s': lambda r: [angle(r), lat(r), r.uniform(0, 5), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)]})
        def _(s):
            a, b, r, ad, bd, rd = s
            u = s2c(a, b)
            # velocity: r' u + r (a' du/da + b' du/db)
            ua = [-sin(a) * cos(b), cos(a) * cos(b), rconst(0)]
            ub = [-cos(a) * sin(b), -sin(a) * sin(b), cos(b)]
            return {'c': [r * x for x in u] + [rd * u[i] + r * (ad * ua[i] + bd * ub[i]) for i in range(3)]}

        @contract(n4, None, [IN('c', t + '6'), OUT('s', t + '6')],
                  dom={'c': lambda r: vec3(r) + vec3(r)})
        def _(c):
            p, v = c[:3], c[3:]
            if dot(p, p) == 0:
                p = v
            x, y, z = p
            q = x * x + y * y
            r = sqrt(dot(p, p))
            if q != 0:
                rho = sqrt(q)
                a = atan2(y, x)
                b = atan2(z, rho)
                ad = (x * v[1] - y * v[0]) / q
                bd = (v[2] * q - z * (x * v[0] + y * v[1])) / (dot(p, p) * rho)
            else:
                a, ad, bd = rconst(0), rconst(0), rconst(0)
                if z != 0:
                    b = atan2(z, sqrt(q))
                else:
                    b = rconst(0)
            if r != 0:
                rd = dot(p, v) / r
            else:
                rd = rconst(0)
            return {'s': [a, b, r, ad, bd, rd]}
    _mk2(t, n1, n2, n3, n4)

# ---- Euler rotations ------------------------------------------------------------
IDENT = [rconst(1), rconst(0), rconst(0), rconst(0), rconst(1), rconst(0), rconst(0), rconst(0), rconst(1)]


def rot(axis, a):
    """frame rotation by a about axis 1,2,3"""
    c, s, o, i = cos(a), sin(a), rconst(0), rconst(1)
    if axis == 1:
        return [i, o, o, o, c, s, o, -s, c]
    if axis == 2:
        return [c, o, -s, o, i, o, s, o, c]
    return [c, s, o, -s, c, o, o, o, i]


def euler_matrix(order, angles):
    m = IDENT
    for ch, ang in zip(order, angles):
        if or_(*[eq(ch, ord(x)) for x in 'Xx1']):
            m = matmul(rot(1, ang), m)
        elif or_(*[eq(ch, ord(x)) for x in 'Yy2']):
            m = matmul(rot(2, ang), m)
        elif or_(*[eq(ch, ord(x)) for x in 'Zz3']):
            m = matmul(rot(3, ang), m)
        else:
            break           # end of string or unrecognised axis: stop
    return m


def order_dom(r):
    n = r.choice([0, 1, 2, 3, 3, 3, 3, 4])
    return [ord(r.choice('XxYyZz123XYZ')) if r.random() < 0.93 else ord(r.choice(' qAw04')) for _ in range(n)] + [0]


for t, n in (('d', 'deuler'), ('f', 'euler')):
    def _mk3(t, n):
        @contract(n, None, [STR('order', 6), sc(t, 'phi'), sc(t, 'theta'), sc(t, 'psi'), OUT('m', t + '9')],
                  dom={'order': order_dom}, pre=lambda order, phi, theta, psi: [eq(order[5], 0)], nsamples=120)
        def _(order, phi, theta, psi):
            return {'m': euler_matrix(order[:3], [phi, theta, psi])}
    _mk3(t, n)

# ---- axial vectors ------------------------------------------------------------------
for t, n1, n2 in (('f', 'av2m', 'm2av'), ('d', 'dav2m', 'dm2av')):
    def _mk4(t, n1, n2):
        @contract(n1, None, [IN('v', t + '3'), OUT('m', t + '9')], dom={'v': vec3})
        def _(v):
            phi = sqrt(dot(v, v))
            if phi != 0:
                x, y, z = [q / phi for q in v]
                s, c = sin(phi), cos(phi)
                w = 1 - c
                return {'m': [x * x * w + c, x * y * w + z * s, x * z * w - y * s,
                              x * y * w - z * s, y * y * w + c, y * z * w + x * s,
                              x * z * w + y * s, y * z * w - x * s, z * z * w + c]}
            return {'m': list(IDENT)}

        @contract(n2, None, [IN('m', t + '9'), OUT('v', t + '3')], dom={'m': lambda r: rot9(r) if r.random() < 0.9 else
                                                                          [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]})
        def _(m):
            x, y, z = m[5] - m[7], m[6] - m[2], m[1] - m[3]
            s2 = sqrt(x * x + y * y + z * z)
            if s2 != 0:
                phi = atan2(s2, m[0] + m[4] + m[8] - 1)
                return {'v': [x * phi / s2, y * phi / s2, z * phi / s2]}
            return {'v': [rconst(0)] * 3}
    _mk4(t, n1, n2)


# ---- lemmas ---------------------------------------------------------------------------
def _vars3(p):
    return [var('%s%d' % (p, i)) for i in range(3)]


@lemma('C01', 'transpose product undoes an orthogonal transformation')
def _():
    # m = product of three elementary rotations (every proper orthogonal matrix is one)
    a, b, c = V('a b c')
    m = matmul(rot(3, a), matmul(rot(2, b), rot(3, c)))
    v = _vars3('v')
    w = S('dimxv')(m, S('dmxv')(m, v)['b'])['b']
    return [('component %d' % i, w[i], v[i]) for i in range(3)]


@lemma('C01', 'matrix product is associative with vector application')
def _():
    a = [var('a%d' % i) for i in range(9)]
    b = [var('b%d' % i) for i in range(9)]
    v = _vars3('v')
    p = S('dmxv')(S('dmxm')(a, b)['c'], v)['b']
    q = S('dmxv')(a, S('dmxv')(b, v)['b'])['b']
    return [('component %d' % i, p[i], q[i]) for i in range(3)]


@lemma('C01', 'vector product is orthogonal to both factors; Lagrange identity; normalisation gives unit length')
def _():
    a, b = _vars3('a'), _vars3('b')
    c = S('dvxv')(a, b)['c']
    d = S('dvdv')(a, b)['ret']
    out = [('a.(axb)', dot(a, c), rconst(0)), ('b.(axb)', dot(b, c), rconst(0)),
           ('|axb|^2', dot(c, c), dot(a, a) * dot(b, b) - d * d)]
    r = S('dvn')(a)
    if r['ret'] > 0:
        out.append(('|n|=1', dot(r['n'], r['n']), rconst(1)))
    out += [('n*|v|=v %d' % i, r['n'][i] * r['ret'], a[i]) for i in range(3)] if bool(r['ret'] > 0) else []
    return out


@lemma('C02', 'unit vector of every direction has unit length')
def _():
    a, b = V('a b')
    c = S('dcs2c')([a, b])['c']
    return [('length', dot(c, c), rconst(1))]


@lemma('C02', 'direction of a vector reproduces the normalised vector')
def _():
    x, y, z = V('x y z')
    a, b = S('dcc2s')([x, y, z])['s']
    c = S('dcs2c')([a, b])['c']
    r = sqrt(x * x + y * y + z * z)
    if r == 0:
        return [('x', c[0], rconst(1)), ('y', c[1], rconst(0)), ('z', c[2], rconst(0))]
    return [('x', c[0] * r, x), ('y', c[1] * r, y), ('z', c[2] * r, z)]


@lemma('C03', 'six-vector velocity is the time derivative of the position')
def _():
    v = V('a b r ad bd rd')
    c = S('ds2c6')(v)['c']
    rates = {v[0]: v[3], v[1]: v[4], v[2]: v[5]}
    return [('d%d' % i, diff(c[i], rates), c[i + 3]) for i in range(3)]


@lemma('C03', 'spherical rates are the time derivatives of the spherical position (off the pole)',
       pre=lambda: [lt(rconst(0), var('x') * var('x') + var('y') * var('y')), not_(eq(var('x') * var('x') + var('y') * var('y') + var('z') * var('z'), rconst(0)))])
def _():
    c = V('x y z xd yd zd')
    s = S('dc62s')(c)['s']
    rates = {c[0]: c[3], c[1]: c[4], c[2]: c[5]}
    return [('d%d' % i, diff(s[i], rates), s[i + 3]) for i in range(3)]


@lemma('C03', 'Cartesian -> spherical -> Cartesian is the identity off the pole',
       pre=lambda: [lt(rconst(0), var('x') * var('x') + var('y') * var('y')), not_(eq(var('x') * var('x') + var('y') * var('y') + var('z') * var('z'), rconst(0)))])
def _():
    c = V('x y z xd yd zd')
    s = S('dc62s')(c)['s']
    c2 = S('ds2c6')(s)['c']
    return [('%d' % i, c2[i], c[i]) for i in range(6)]


@lemma('C04', 'every Euler matrix is a proper rotation')
def _():
    o = [var('o0', 'I'), var('o1', 'I'), var('o2', 'I')] + [const(0)] * 3
    phi, theta, psi = V('phi theta psi')
    m = S('deuler')(o, phi, theta, psi)['m']
    p = matmul(m, transpose(m))
    det = dot(m[0:3], cross(m[3:6], m[6:9]))
    return [('orthogonal %d' % i, p[i], IDENT[i]) for i in range(9)] + [('det', det, rconst(1))]


@lemma('C05', 'rotation matrix of an axial vector is proper orthogonal and leaves its axis fixed')
def _():
    v = _vars3('v')
    m = S('dav2m')(v)['m']
    p = matmul(m, transpose(m))
    w = matvec(m, v)
    return [('orthogonal %d' % i, p[i], IDENT[i]) for i in range(9)] + [('axis %d' % i, w[i], v[i]) for i in range(3)] + \
        [('trace', m[0] + m[4] + m[8], 1 + 2 * cos(sqrt(dot(v, v))))]


@lemma('C05', 'matrix -> axial vector recovers axis and angle (rotation angle in (0, pi))',
       pre=lambda: [lt(rconst(0), sin(var('p'))), eq(dot(_vars3('u'), _vars3('u')), rconst(1))], budget=120)
def _():
    # rotation of angle p about the unit axis u
    u = _vars3('u')
    p = var('p')
    x, y, z = u
    s, c = sin(p), cos(p)
    w = 1 - c
    m = [x * x * w + c, x * y * w + z * s, x * z * w - y * s,
         x * y * w - z * s, y * y * w + c, y * z * w + x * s,
         x * z * w + y * s, y * z * w - x * s, z * z * w + c]
    # antisymmetric part and trace
    return [('antisymmetric x', m[5] - m[7], 2 * s * x), ('antisymmetric y', m[6] - m[2], 2 * s * y),
            ('antisymmetric z', m[1] - m[3], 2 * s * z),
            ('trace', m[0] + m[4] + m[8] - 1 - 2 * c - (x * x + y * y + z * z - 1) * w, rconst(0))]
