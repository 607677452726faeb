"""Range reduction; sexagesimal encoding and decoding."""
from .base import *

big = lambda r: r.choice([r.uniform(-7, 7), r.uniform(-1000, 1000), r.choice([0.0, 3.0, -3.0, 3.2, -3.2, 6.3, -6.3, 9.5])])

for t, n1, n2 in (('f', 'range', 'ranorm'), ('d', 'drange', 'dranrm')):
    def _mk(t, n1, n2):
        @contract(n1, t, [sc(t, 'angle')], dom={'angle': big})
        def _(angle):
            return {'ret': wrapS(angle, 2 * pi(t), pi(t))}

        @contract(n2, t, [sc(t, 'angle')], dom={'angle': big})
        def _(angle):
            return {'ret': wrapP(angle, 2 * pi(t))}
    _mk(t, n1, n2)


def split_time(ndp, days):
    """round |days| to ndp decimals of a second and split: exact integer arithmetic"""
    rs = 1
    for k in range(1, 10):
        if ndp >= k:
            rs *= 10
        else:
            break
    N = r2i(round_(rconst(86400 * rs) * abs_(days)))
    h = sdiv(N, 3600 * rs)
    N1 = N - h * (3600 * rs)
    m = sdiv(N1, 60 * rs)
    N2 = N1 - m * (60 * rs)
    s = sdiv(N2, rs)
    f = N2 - s * rs
    return h, m, s, f, N, rs


def cr(h, m, s, f, sign):
    return [h, m, s, f, sign]


NDP = lambda ndp, **k: [le(ndp, 9)]
ndpdom = lambda r: r.choice([-3, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
smalldays = lambda r: r.choice([r.uniform(-1, 1), r.uniform(-3, 3), r.uniform(-100, 100), r.choice([0.0, 0.99999999999, 1.0, -1.0, 0.5, 1e-9])])

for t, n in (('d', 'dd2tf'), ('f', 'cd2tf')):
    def _mk2(t, n):
        @contract(n, None, [I('ndp'), sc(t, 'days'), OUT('r', 'i4b')], dom={'ndp': ndpdom, 'days': smalldays}, fp=t, tol=1e-12,
                  pre=lambda ndp, days: [le(ndp, 9), le(abs_(days), rconst(80000000))])
        def _(ndp, days):
            h, m, s, f, N, rs = split_time(ndp, days)
            return {'r': cr(h, m, s, f, days >= 0)}
    _mk2(t, n)

ANG = lambda r: r.choice([r.uniform(-7, 7), r.uniform(-0.01, 0.01), r.uniform(-100, 100), 0.0, 3.141592653589793])
for t, n, k in (('d', 'dr2af', 15.0 / TWOPId), ('f', 'cr2af', f32(15.0 / TWOPId)),
                ('d', 'dr2tf', 1 / Fraction(TWOPId)), ('f', 'cr2tf', 1 / Fraction(f32(TWOPId)))):
    def _mk3(t, n, k):
        @contract(n, None, [I('ndp'), sc(t, 'angle'), OUT('r', 'i4b')], dom={'ndp': ndpdom, 'angle': ANG}, fp=t, tol=3e-7 if t == 'f' else 1e-12,
                  pre=lambda ndp, angle: [le(ndp, 9), le(abs_(angle), rconst(30000000))])
        def _(ndp, angle):
            days = toR(angle) * rconst(k)
            h, m, s, f, N, rs = split_time(ndp, days)
            return {'r': cr(h, m, s, f, toR(angle) >= 0)}
    _mk3(t, n, k)

# ---- decoding --------------------------------------------------------------------
for t, n in (('d', 'daf2r'), ('f', 'caf2r')):
    def _mk4(t, n):
        k = AS2Rd if t == 'd' else f32(AS2Rd)

        @contract(n, 'i', [I('deg'), I('min'), sc(t, 'sec'), OUT('rad', t)],
                  dom={'deg': ints(-2, 362), 'min': ints(-2, 62), 'sec': uni(-3, 63)})
        def _(deg, min, sec):
            st = 0
            if or_(lt(deg, 0), lt(359, deg)):
                st = 1
            elif or_(lt(min, 0), lt(59, min)):
                st = 2
            elif or_(lt(sec, 0), le(60, sec)):
                st = 3
            return {'ret': const(st), 'rad': [(toR(deg) * 3600 + toR(min) * 60 + sec) * k]}
    _mk4(t, n)

for t, n in (('d', 'dtf2d'), ('f', 'ctf2d'), ('d', 'dtf2r'), ('f', 'ctf2r')):
    def _mk5(t, n):
        k = rconst(Fraction(1, 86400)) if n.endswith('d') else rconst(Fraction(2 * pi(t)) / 86400)

        @contract(n, 'i', [I('hour'), I('min'), sc(t, 'sec'), OUT('days', t)],
                  dom={'hour': ints(-2, 26), 'min': ints(-2, 62), 'sec': uni(-3, 63)})
        def _(hour, min, sec):
            st = 0
            if or_(lt(sec, 0), le(60, sec)):
                st = 3
            elif or_(lt(min, 0), lt(59, min)):
                st = 2
            elif or_(lt(hour, 0), lt(23, hour)):
                st = 1
            return {'ret': const(st), 'days': [(toR(hour) * 3600 + toR(min) * 60 + sec) * k]}
    _mk5(t, n)


@lemma('C06', 'range reduction preserves the angle modulo a turn and lands in the interval')
def _():
    x = var('x')
    a = S('drange')(x)['ret']
    b = S('dranrm')(x)['ret']
    return [('sin drange', sin(a), sin(x)), ('cos drange', cos(a), cos(x)), ('sin dranrm', sin(b), sin(x)),
            ('cos dranrm', cos(b), cos(x)), ('drange in [-pi,pi]', and_(le(rconst(-PId), a), le(a, rconst(PId)))),
            ('dranrm in [0,2pi)', and_(le(rconst(0), b), lt(b, rconst(TWOPId))))]


@lemma('C07', 'fields are in range and recombine to the nearest unit of the last digit',
       pre=lambda: [le(var('ndp', 'I'), 9), le(abs_(var('x')), rconst(80000000))])
def _():
    ndp, x = var('ndp', 'I'), var('x')
    h, m, s, f, N, rs = split_time(ndp, x)
    tot = ((h * 60 + m) * 60 + s) * rs + f
    ex = rconst(86400 * rs) * abs_(x)
    return [('fields', and_(le(0, h), le(0, m), le(m, 59), le(0, s), le(s, 59), le(0, f), lt(f, rs))),
            ('recombine', eq(tot, N)),
            ('nearest', and_(le(ex - rconst(Fraction(1, 2)), toR(N)), le(toR(N), ex + rconst(Fraction(1, 2)))))]


@lemma('C08', 'decoding is linear and inverse to sexagesimal splitting')
def _():
    h, m, s = var('h', 'I'), var('m', 'I'), var('s')
    d = S('dtf2d')(h, m, s)
    r = S('dtf2r')(h, m, s)
    a = S('daf2r')(h, m, s)
    return [('days', d['days'][0] * 86400, (toR(h) * 60 + toR(m)) * 60 + s),
            ('radians', r['days'][0], d['days'][0] * rconst(TWOPId)),
            ('same status', r['ret'], d['ret']),
            ('arc', a['rad'][0] * rconst(Fraction(648000) / Fraction(PId)), (toR(h) * 60 + toR(m)) * 60 + s)]
