"""Calendar, epochs, time scales."""
import datetime
from .base import *

GOOD_Y = lambda lo: (lambda r: r.choice([r.randrange(lo - 3, 3000), r.randrange(1800, 2200), r.choice([lo, lo - 1, 1900, 2000, 1600, 2100, 4, 100, 400, 0, 49, 50, 99, 100]),
                                         r.randrange(3000, 1000000)]))
MON = lambda r: r.choice([r.randrange(1, 13), r.randrange(1, 13), r.randrange(-1, 15), 2])
DAY = lambda r: r.choice([r.randrange(1, 32), r.randrange(1, 29), r.choice([0, 1, 28, 29, 30, 31, 32])])
BYMONTH = lambda inp: [('month %d' % k, {'month': k}, []) for k in range(1, 13)] + [('other month', {}, [or_(lt(inp['month'], 1), lt(12, inp['month']))])]
BYMONTHYEAR = lambda inp: [(l + w, b, e + [c]) for l, b, e in BYMONTH(inp) for w, c in ((', year < 0', lt(inp['year'], 0)), (', year >= 0', le(0, inp['year'])))]
BYNDP = lambda inp: [('ndp %d' % k, {'ndp': k}, []) for k in range(1, 10)] + [('ndp <= 0', {}, [le(inp['ndp'], 0)])]
YPRE = lambda year, month, day: [le(year, 1000000), le(-1000000, day), le(day, 1000000)]


def leap(y):
    return and_(eq(srem(y, 4), 0), or_(not_(eq(srem(y, 100), 0)), eq(srem(y, 400), 0)))


MLEN = [31, None, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_length(y, m):
    for k in range(1, 13):
        if k == 2:
            continue
        if eq(m, k):
            return const(MLEN[k - 1])
    if leap(y):
        return const(29)
    return const(28)


@contract('process_year_defaults', 'i', [I('year')], dom={'year': GOOD_Y(-4)})
def _(year):
    if and_(le(0, year), le(year, 49)):
        return {'ret': year + 2000}
    if and_(le(50, year), le(year, 99)):
        return {'ret': year + 1900}
    return {'ret': year}


@contract('validate_gregorian_day', 'i', [I('year'), I('month'), I('day')], dom={'year': GOOD_Y(-4699), 'month': ints(1, 12), 'day': DAY},
          pre=lambda year, month, day: [le(1, month), le(month, 12)])
def _(year, month, day):
    n = month_length(year, month)
    if and_(le(1, day), le(day, n)):
        return {'ret': const(0)}
    return {'ret': const(3)}


# days before the month in a year that starts on 1 March
MOFF = {3: 0, 4: 31, 5: 61, 6: 92, 7: 122, 8: 153, 9: 184, 10: 214, 11: 245, 12: 275, 1: 306, 2: 337}


def gregorian_mjd(year, month, day):
    """days since 1858 November 17 by the Gregorian rules (year counted from 1 March)"""
    for m in range(1, 13):
        if eq(month, m):
            y = year - 1 if m <= 2 else year
            return 365 * y + fdiv_(y, 4) - fdiv_(y, 100) + fdiv_(y, 400) + MOFF[m] + day - 678882
    return None


@contract('cldj', 'i', [I('year'), I('month'), I('day'), OUT('mjd', 'd')], pre=YPRE,
          dom={'year': GOOD_Y(-4699), 'month': MON, 'day': DAY}, nsamples=200, cases=BYMONTH)
def _(year, month, day):
    if lt(year, -4699):
        return {'ret': const(1), 'mjd': [None]}
    if or_(lt(month, 1), lt(12, month)):
        return {'ret': const(2), 'mjd': [None]}
    j = gregorian_mjd(year, month, day)
    return {'ret': S('validate_gregorian_day')(year, month, day)['ret'], 'mjd': [toR(j)]}


@contract('caldj', 'i', [I('year'), I('month'), I('day'), OUT('mjd', 'd')], pre=YPRE,
          dom={'year': GOOD_Y(-4699), 'month': MON, 'day': DAY}, nsamples=200, cases=BYMONTH)
def _(year, month, day):
    return S('cldj')(S('process_year_defaults')(year)['ret'], month, day)


def hatcher(N):
    """calendar date of the day N = floor(MJD): Hatcher's integer formula; the lemmas below show that it inverts
    gregorian_mjd on every day of the accepted range"""
    jd = N + 2400001
    n4 = 4 * (jd + sdiv(sdiv(6 * sdiv(4 * jd - 17918, 146097), 4) + 1, 2) - 37)
    nd10 = 10 * sdiv(srem(n4 - 237, 1461), 4) + 5
    return [sdiv(n4, 1461) - 4712, srem(sdiv(nd10, 306) + 2, 12) + 1, sdiv(srem(nd10, 306), 10) + 1]


MJD = lambda r: r.choice([r.uniform(-2395530.0, 100000.0), r.uniform(30000, 70000), float(r.randrange(-100000, 100000)), r.uniform(1e6, 0.99e9),
                          r.choice([-2395520.0, -2395519.5, 1e9, 999999999.0, 51544.5, 0.0, -0.5, -1.0, 51602.999999])])


@contract('djcl', 'b', [D('mjd'), OUT('date', 'i4d')], dom={'mjd': MJD}, nsamples=200)
def _(mjd):
    if or_(le(mjd, rconst(-2395520)), le(rconst(10 ** 9), mjd)):
        return {'ret': tm.TRUE, 'date': [None] * 5}
    n = floor(mjd)
    return {'ret': tm.FALSE, 'date': hatcher(r2i(n)) + [None, mjd - n]}


@contract('djcal', 'b', [I('ndp'), D('mjd'), OUT('date', 'i4d')], dom={'ndp': ints(-2, 9), 'mjd': MJD}, nsamples=200, cases=BYNDP,
          pre=lambda ndp, mjd: [le(ndp, 9)])
def _(ndp, mjd):
    if or_(le(mjd, rconst(-2395520)), le(rconst(10 ** 9), mjd)):
        return {'ret': tm.TRUE, 'date': [None] * 5}
    rs = 1
    for k in range(1, 10):
        if eq(ndp, k):
            rs = 10 ** k
            break
    N = r2i(round_(mjd * rconst(rs)))
    n = fdiv_(N, rs)
    return {'ret': tm.FALSE, 'date': hatcher(n) + [N - n * rs, None]}


@contract('clyd', 'i', [I('year'), I('month'), I('day'), OUT('jyear', 'i'), OUT('jday', 'i')],
          pre=lambda year, month, day: [le(year, 1000000), le(-100, day), le(day, 1000000)],
          dom={'year': GOOD_Y(-4711), 'month': MON, 'day': DAY}, nsamples=200, cases=BYMONTHYEAR)
def _(year, month, day):
    if lt(year, -4711):
        return {'ret': const(1), 'jyear': [None], 'jday': [None]}
    if or_(lt(month, 1), lt(12, month)):
        return {'ret': const(2), 'jyear': [None], 'jday': [None]}
    # days since 2000 January 1, laid on four-year cycles of 1461 days that begin with the leap year
    n = gregorian_mjd(year, month, day) - 51544
    k = fdiv_(n, 1461)
    L = n - 1461 * k
    # year 0..3 of the cycle: 366 days, then three times 365
    y = fdiv_(L - 1, 365) - fdiv_(L - 1, 1461)
    jy, jd = 2000 + 4 * k + y, L + 1 - 365 * y - fdiv_(y + 3, 4)
    return {'ret': S('validate_gregorian_day')(year, month, day)['ret'], 'jyear': [jy], 'jday': [jd]}


@contract('calyd', 'i', [I('year'), I('month'), I('day'), OUT('jyear', 'i'), OUT('jday', 'i')],
          pre=lambda year, month, day: [le(year, 1000000), le(-100, day), le(day, 1000000)],
          dom={'year': GOOD_Y(-4711), 'month': MON, 'day': DAY}, nsamples=200, cases=BYMONTHYEAR)
def _(year, month, day):
    return S('clyd')(S('process_year_defaults')(year)['ret'], month, day)


# ---- epochs -------------------------------------------------------------------------
mjdd = uni(-100000, 100000)
epd = uni(-4000, 4000)


@contract('epj', 'd', [D('mjd')], dom={'mjd': mjdd})
def _(mjd):
    return {'ret': 2000 + (mjd - 51544.5) / 365.25}


@contract('epj2d', 'd', [D('je')], dom={'je': epd})
def _(je):
    return {'ret': 51544.5 + (je - 2000) * 365.25}


@contract('epb', 'd', [D('mjd')], dom={'mjd': mjdd})
def _(mjd):
    return {'ret': 1900 + (mjd - 15019.81352) / 365.242198781}


@contract('epb2d', 'd', [D('be')], dom={'be': epd})
def _(be):
    return {'ret': 15019.81352 + (be - 1900) * 365.242198781}


CODE = lambda r: ord(r.choice('BbJjBbJjBbJjXk '))


@contract('epco', 'd', [C('result'), C('given'), D('epoch')], dom={'result': CODE, 'given': CODE, 'epoch': epd}, nsamples=200, ntol=1e-8)
def _(result, given, epoch):
    rb, rj = or_(eq(result, ord('B')), eq(result, ord('b'))), or_(eq(result, ord('J')), eq(result, ord('j')))
    gb, gj = or_(eq(given, ord('B')), eq(given, ord('b'))), or_(eq(given, ord('J')), eq(given, ord('j')))
    if not_(or_(rb, rj)):
        if eq(result, given):
            return {'ret': None}
        return {'ret': rconst(0)}
    if not_(or_(gb, gj)):
        return {'ret': rconst(0)}
    if or_(and_(rb, gb), and_(rj, gj)):
        return {'ret': epoch}
    if rb:
        return S('epb')(S('epj2d')(epoch)['ret'])
    return S('epj')(S('epb2d')(epoch)['ret'])


# ---- time scales ------------------------------------------------------------------------
def _mjd(y, m, d):
    return (datetime.date(y, m, d) - datetime.date(1858, 11, 17)).days


LEAPS = [(1972, 1, 1), (1972, 7, 1), (1973, 1, 1), (1974, 1, 1), (1975, 1, 1), (1976, 1, 1), (1977, 1, 1), (1978, 1, 1),
         (1979, 1, 1), (1980, 1, 1), (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1),
         (1991, 1, 1), (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1),
         (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1)]
# USNO tai-utc.dat drift segments: start date, offset, reference MJD, rate
DRIFT = [((1961, 1, 1), 1.422818, 37300, 0.001296), ((1961, 8, 1), 1.372818, 37300, 0.001296),
         ((1962, 1, 1), 1.845858, 37665, 0.0011232), ((1963, 11, 1), 1.945858, 37665, 0.0011232),
         ((1964, 1, 1), 3.240130, 38761, 0.001296), ((1964, 4, 1), 3.340130, 38761, 0.001296),
         ((1964, 9, 1), 3.440130, 38761, 0.001296), ((1965, 1, 1), 3.540130, 38761, 0.001296),
         ((1965, 3, 1), 3.640130, 38761, 0.001296), ((1965, 7, 1), 3.740130, 38761, 0.001296),
         ((1965, 9, 1), 3.840130, 38761, 0.001296), ((1966, 1, 1), 4.313170, 39126, 0.002592),
         ((1968, 2, 1), 4.213170, 39126, 0.002592)]
UTC = lambda r: r.choice([r.uniform(36000, 60000), r.uniform(37000, 42000),
                          r.choice([_mjd(*d) for d in LEAPS] + [_mjd(*x[0]) for x in DRIFT]) + r.choice([0.0, -0.001, 0.001, -1.0])])


@contract('dat', 'd', [D('utc')], dom={'utc': UTC}, nsamples=300)
def _(utc):
    for k in range(len(LEAPS) - 1, -1, -1):
        if le(rconst(_mjd(*LEAPS[k])), utc):
            return {'ret': rconst(10 + k)}
    for d, off, ref, rate in reversed(DRIFT):
        if le(rconst(_mjd(*d)), utc):
            return {'ret': off + (utc - ref) * rate}
    return {'ret': 1.417818 + (utc - 37300) * 0.001296}


@contract('dtt', 'd', [D('utc')], dom={'utc': UTC}, nsamples=300)
def _(utc):
    return {'ret': S('dat')(utc)['ret'] + 32.184}


@contract('dt', 'd', [D('epoch')], dom={'epoch': lambda r: r.choice([r.uniform(-2000, 2500), 1708.185161980887, 979.0258204760233, 1708.18, 979.02, 1708.19, 979.03])}, nsamples=200)
def _(epoch):
    c = (epoch - 1800) / 100
    if le(rconst(1708.185161980887), epoch):
        return {'ret': 5.156 + 13.3066 * (c - 0.19) * (c - 0.19)}
    if le(rconst(979.0258204760233), epoch):
        return {'ret': 25.5 * c * c}
    return {'ret': 1360 + 320 * c + 44.3 * c * c}


# ---- lemmas ----------------------------------------------------------------------------
@lemma('C11', 'epoch scales are exact inverses')
def _():
    x = var('x')
    return [('Julian', S('epj')(S('epj2d')(x)['ret'])['ret'], x), ('Julian back', S('epj2d')(S('epj')(x)['ret'])['ret'], x),
            ('Besselian', S('epb')(S('epb2d')(x)['ret'])['ret'], x), ('Besselian back', S('epb2d')(S('epb')(x)['ret'])['ret'], x)]


@lemma('C12', 'era boundaries of TT-UT are continuous')
def _():
    out = []
    for b in (1708.185161980887, 979.0258204760233):
        c = (Fraction(b) - 1800) / 100
        f = [Fraction('5.156') + Fraction('13.3066') * (c - Fraction('0.19')) ** 2, Fraction('25.5') * c * c, 1360 + 320 * c + Fraction('44.3') * c * c]
        a, d = (f[0], f[1]) if b > 1500 else (f[1], f[2])
        out.append(('continuity at %r' % b, tm.const(bool(abs(a - d) < Fraction(1, 10 ** 6)))))
    return out


N_ = lambda: var('N', 'I')


@lemma('C09', 'the calendar date repeats every 146097 days with the year advanced by 400',
       pre=lambda: [le(-2395520, N_()), le(N_(), 10 ** 9)])
def _():
    a, b = hatcher(N_()), hatcher(N_() + 146097)
    y, m, d = V('y m d')
    y, m, d = var('y', 'I'), var('m', 'I'), var('d', 'I')
    out = [('year', b[0], a[0] + 400), ('month', b[1], a[1]), ('day', b[2], a[2])]
    for k in range(1, 13):
        out.append(('MJD of the same date 400 years on, month %d' % k, eq(gregorian_mjd(y + 400, const(k), d), gregorian_mjd(y, const(k), d) + 146097)))
    return out


@lemma('C09', 'every day of one 400-year cycle: MJD -> date -> MJD is the identity and the date is valid (exhaustive)')
def _():
    bad = None
    prev = None
    n = 0
    for N in range(-2395519, -2395519 + 146097):
        y, m, d = [x.val for x in hatcher(const(N))]
        ml = 29 if (m == 2 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else (MLEN[m - 1] or 28)
        yy = y - 1 if m <= 2 else y
        j = 365 * yy + yy // 4 - yy // 100 + yy // 400 + MOFF[m] + d - 678882
        if j != N or not (1 <= d <= ml) or not 1 <= m <= 12:
            bad = (N, y, m, d)
            break
        n += 1
    return [('146097 days checked (%s)' % (bad or n), tm.const(bad is None and n == 146097))]


@lemma('C10', 'between 1900 March 1 and 2100 February 28 the day in year is the Gregorian one',
       pre=lambda: [le(1901, var('year', 'I')), le(var('year', 'I'), 2099)])
def _():
    y = var('year', 'I')
    out = []
    for m in (1, 3, 12):
        r = S('clyd')(y, const(m), const(1))
        out.append(('year, month %d' % m, eq(r['jyear'][0], y)))
        out.append(('day, month %d' % m, eq(r['jday'][0], gregorian_mjd(y, const(m), const(1)) - gregorian_mjd(y, const(1), const(1)) + 1)))
    return out


@lemma('C10', 'the four-year cycle formula is the calendar of one leap and three common years (exhaustive over the 1461 days)')
def _():
    ok = True
    for n in range(1461):
        L = const(n)
        y = (fdiv_(L - 1, 365) - fdiv_(L - 1, 1461)).val
        jd = n + 1 - 365 * y - (y + 3) // 4
        start = [0, 366, 731, 1096, 1461]
        ok = ok and start[y] <= n < start[y + 1] and jd == n - start[y] + 1
    return [('1461 days', tm.const(ok))]
