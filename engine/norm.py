"""Equational back end: normal form of real terms as rational functions over atoms
(variables, sin/cos/sqrt/atan2/... of normalised arguments) modulo
    sin^2+cos^2 = 1,  sqrt(u)^2 = u,  |u|^2 = u^2,  sin/cos of atan2, periodicity, angle addition,
    linearity of finite sums.
Every coefficient carries (value, magnitude of its contributions); a coefficient counts as zero when
|value| <= tol * magnitude, so that re-associated constants do not matter but changed ones do.
"""
import decimal
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
import math
import time
from . import term as tm
from .term import T, mp

# contexts are per thread: new threads copy DefaultContext
for _c in (decimal.DefaultContext, getcontext()):
    _c.prec = 50
    _c.Emin = -999999
    _c.Emax = 999999

PI = Decimal(str(mp.nstr(mp.pi, 45)))
PID = Decimal(math.pi)
HALFPI = PI / 2
D0 = Decimal(0)
D1 = Decimal(1)
TINY = Decimal('1e-42')


class Blowup(Exception):
    pass


def frac2dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator)


def mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Norm(object):
    def __init__(self, tol=1e-12, expand=False, sign=None, deadline=None, limit=60000):
        self.tol = tol
        self.expand = expand
        self.sign = sign            # oracle: term -> 1,-1,0,None
        self.deadline = deadline
        self.limit = limit
        self.atoms = []             # (kind, key data)
        self.index = {}
        self.factors = []
        self.findex = {}
        self.memo = {}
        self.base = {}              # monomial -> base coefficient for angle expansion
        self.redmemo = {}
        self.trigmemo = {}
        self.ops = 0
        self.atom_pos = {}

    # ---------------- polys: dict mono -> (c, a) ------------------------------
    def padd(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        r = dict(p)
        for m, (c, a) in q.items():
            x = r.get(m)
            if x is None:
                r[m] = (c, a)
            else:
                nc, na = x[0] + c, x[1] + a
                if abs(nc) <= TINY * Decimal(na):
                    del r[m]
                else:
                    r[m] = (nc, na)
        return r

    def pscale(self, p, k):
        if k == 0:
            return {}
        ka = float(abs(k))
        return {m: (c * k, a * ka) for m, (c, a) in p.items()}

    def pmul(self, p, q):
        if len(p) * len(q) > self.limit * 4:
            raise Blowup('polynomial product')
        if self.deadline and time.time() > self.deadline:
            raise Blowup('deadline')
        r = {}
        for m1, (c1, a1) in p.items():
            for m2, (c2, a2) in q.items():
                m = mul_mono(m1, m2)
                c, a = c1 * c2, a1 * a2
                x = r.get(m)
                if x is None:
                    r[m] = (c, a)
                else:
                    r[m] = (x[0] + c, x[1] + a)
        r = {m: v for m, v in r.items() if abs(v[0]) > TINY * Decimal(v[1])}
        if len(r) > self.limit:
            raise Blowup('polynomial size')
        return r

    # ---------------- rationals: (num, den) den: tuple sorted ((fid,exp)) -------
    def rc(self, c):
        c = Decimal(c)
        if c == 0:
            return ({}, ())
        return ({(): (c, float(abs(c)))}, ())

    def ratom(self, i):
        return ({((i, 1),): (D1, 1.0)}, ())

    def factor_poly(self, den):
        p = {(): (D1, 1.0)}
        for f, e in den:
            for _ in range(e):
                p = self.pmul(p, self.factors[f])
        return p

    def radd(self, x, y):
        if not x[0]:
            return y
        if not y[0]:
            return x
        if x[1] == y[1]:
            return self.simp((self.padd(x[0], y[0]), x[1]))
        d1, d2 = dict(x[1]), dict(y[1])
        l = dict(d1)
        for f, e in d2.items():
            l[f] = max(l.get(f, 0), e)
        m1 = tuple(sorted((f, e - d1.get(f, 0)) for f, e in l.items() if e > d1.get(f, 0)))
        m2 = tuple(sorted((f, e - d2.get(f, 0)) for f, e in l.items() if e > d2.get(f, 0)))
        n1 = self.reduce((self.pmul(x[0], self.factor_poly(m1)), tuple(sorted(l.items()))))
        n2 = self.reduce((self.pmul(y[0], self.factor_poly(m2)), tuple(sorted(l.items()))))
        if n1[1] == n2[1]:
            return self.simp((self.padd(n1[0], n2[0]), n1[1]))
        return self.radd(n1, n2)

    def rmul(self, x, y):
        if not x[0] or not y[0]:
            return ({}, ())
        d = dict(x[1])
        for f, e in y[1]:
            d[f] = d.get(f, 0) + e
        return self.simp(self.reduce((self.pmul(x[0], y[0]), tuple(sorted(d.items())))))

    def rneg(self, x):
        return (self.pscale(x[0], Decimal(-1)), x[1])

    def simp(self, r):
        """cancel single-atom denominator factors"""
        num, den = r
        if not num:
            return ({}, ())
        if not den:
            return r
        changed = False
        nd = []
        for f, e in den:
            fp = self.factors[f]
            if len(fp) == 1:
                (m, _), = fp.items()
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    k = min((dict(mm).get(a, 0) for mm in num), default=0)
                    k = min(k, e)
                    if k > 0:
                        nn = {}
                        for mm, v in num.items():
                            dd = dict(mm)
                            dd[a] -= k
                            if dd[a] == 0:
                                del dd[a]
                            nn[tuple(sorted(dd.items()))] = v
                        num = nn
                        e -= k
                        changed = True
            elif len(fp) == len(num) and e > 0:
                # numerator equal to the factor up to a constant
                q = self.proportional(num, fp)
                if q is not None:
                    num = {(): (q, float(abs(q)))}
                    e -= 1
            if e > 0:
                nd.append((f, e))
        return (num, tuple(nd))

    def proportional(self, p, q):
        if set(p) != set(q):
            return None
        m0 = min(q)
        k = p[m0][0] / q[m0][0]
        for m in q:
            if abs(p[m][0] - k * q[m][0]) > Decimal(self.tol) * (abs(p[m][0]) + abs(k * q[m][0])):
                return None
        return k

    def rinv(self, x):
        num, den = x
        if not num:
            raise Blowup('division by zero')
        n = self.factor_poly(den)
        if len(num) == 1:
            (m, (c, a)), = num.items()
            d = {}
            for at, e in m:
                f = self.factor({((at, 1),): (D1, 1.0)})
                d[f] = d.get(f, 0) + e
            return self.simp(self.reduce((self.pscale(n, 1 / c), tuple(sorted(d.items())))))
        lead = min(num)
        k = num[lead][0]
        f = self.factor(self.pscale(num, 1 / k))
        return self.simp(self.reduce((self.pscale(n, 1 / k), ((f, 1),))))

    def factor(self, p):
        key = tuple(sorted(p))
        for i in self.findex.get(key, ()):
            if self.pclose(self.factors[i], p):
                return i
        self.factors.append(p)
        self.findex.setdefault(key, []).append(len(self.factors) - 1)
        return len(self.factors) - 1

    def pclose(self, p, q):
        t = Decimal(self.tol)
        for m, (c, a) in p.items():
            d = q[m]
            if abs(c - d[0]) > t * Decimal(a + d[1]):
                return False
        return True

    # ---------------- reduction --------------------------------------------------
    def reduce(self, r):
        num, den = r
        out = None
        keep = {}
        for m, v in num.items():
            if any(e >= 2 and self.atoms[a][0] in ('sin', 'sqrt', 'abs') for a, e in m):
                rr = self.reduce_mono(m)
                rr = ({mm: (c * v[0], aa * v[1]) for mm, (c, aa) in rr[0].items()}, rr[1])
                if rr[1] == ():
                    keep = self.padd(keep, rr[0])
                else:
                    out = rr if out is None else self.radd(out, rr)
            else:
                keep = self.padd(keep, {m: v})
        if out is None:
            return (keep, den)
        base = self.radd(out, (keep, ()))
        d = dict(base[1])
        for f, e in den:
            d[f] = d.get(f, 0) + e
        return (base[0], tuple(sorted(d.items())))

    def reduce_mono(self, m):
        r = self.redmemo.get(m)
        if r is not None:
            return r
        for k, (a, e) in enumerate(m):
            kind = self.atoms[a][0]
            if e >= 2 and kind in ('sin', 'sqrt', 'abs'):
                rest = list(m)
                if e - 2 > 0:
                    rest[k] = (a, e - 2)
                else:
                    del rest[k]
                rest = tuple(rest)
                if kind == 'sin':
                    c = self.cos_of(a)
                    sq = ({(): (D1, 1.0), ((c, 2),): (-D1, 1.0)}, ())
                elif kind == 'sqrt':
                    sq = self.atoms[a][1]
                else:
                    x = self.atoms[a][1]
                    sq = self.rmul(x, x)
                r = self.rmul(({rest: (D1, 1.0)}, ()), sq)
                break
        else:
            r = ({m: (D1, 1.0)}, ())
        self.redmemo[m] = r
        return r

    def cos_of(self, a):
        return self.atom('cos', (self.atoms[a][1],))

    # ---------------- atoms ---------------------------------------------------------
    def rkey(self, r):
        return (tuple(sorted(r[0])), r[1])

    def rclose(self, x, y):
        return self.pclose(x[0], y[0])

    def bucket(self, key, args):
        """coarse numeric fingerprint: close arguments fall into the same or adjacent buckets (None: not usable)"""
        if not args or not key[2]:
            return None
        num = args[0][0]
        for m in key[2][0][0]:
            if m != ():
                c, a = num[m]
                x = abs(float(c))
                if x == 0.0 or a > 1e3 * x:
                    return None
                return int(math.floor(math.log(x) / max(1e4 * self.tol, 1e-9)))
        return None

    def atom(self, kind, args, extra=None, src=None):
        key = (kind, extra, tuple(self.rkey(r) for r in args))
        b = self.bucket(key, args)
        ent = self.index.get(key)
        if ent is None:
            ent = self.index[key] = ([], {}, [])      # all, by bucket, without bucket
        if b is None:
            cand = ent[0]
        else:
            cand = ent[1].get(b, []) + ent[1].get(b - 1, []) + ent[1].get(b + 1, []) + ent[2]
        for i in cand:
            if all(self.rclose(x, y) for x, y in zip(self.atoms[i][2], args)):
                return i
        self.atoms.append((kind, args[0] if args else None, args, extra, src))
        i = len(self.atoms) - 1
        ent[0].append(i)
        if b is None:
            ent[2].append(i)
        else:
            ent[1].setdefault(b, []).append(i)
        return i

    def isconst(self, r):
        return r[1] == () and (not r[0] or (len(r[0]) == 1 and () in r[0]))

    def cval(self, r):
        return r[0][()][0] if r[0] else D0

    # ---------------- terms -----------------------------------------------------------
    def norm(self, t):
        r = self.memo.get(t.id)
        if r is None:
            if self.deadline and time.time() > self.deadline:
                raise Blowup('deadline')
            r = self._norm(t)
            self.memo[t.id] = r
        return r

    def _norm(self, t):
        op = t.op
        if op == 'c':
            if t.sort == 'B':
                return self.rc(1 if t.val else 0)
            return self.rc(frac2dec(Fraction(t.val)))
        if op == 'v':
            return self.ratom(self.atom('v', (), t.val))
        if op == '+':
            # flatten long sums iteratively
            parts = []
            stack = [t]
            while stack:
                x = stack.pop()
                if x.op == '+' and (x is t or x.id not in self.memo):
                    stack.extend(x.args)
                else:
                    parts.append(x)
            acc = ({}, ())
            byden = {}
            for x in parts:
                n = self.norm(x)
                if n[1] in byden:
                    p = byden[n[1]]
                    for m, (c, a) in n[0].items():
                        y = p.get(m)
                        p[m] = (c, a) if y is None else (y[0] + c, y[1] + a)
                else:
                    byden[n[1]] = dict(n[0])
            for d in sorted(byden):
                p = {m: v for m, v in byden[d].items() if abs(v[0]) > TINY * Decimal(v[1])}
                acc = self.radd(acc, (p, d) if p else ({}, ()))
            return acc
        if op == '*':
            return self.rmul(self.norm(t.args[0]), self.norm(t.args[1]))
        if op == '/':
            return self.rmul(self.norm(t.args[0]), self.rinv(self.norm(t.args[1])))
        if op == 'i2r':
            return self.norm(t.args[0])
        if op in ('sin', 'cos'):
            return self.trig(self.norm(t.args[0]))[0 if op == 'sin' else 1]
        if op == 'sqrt':
            return self.nsqrt(self.norm(t.args[0]), t.args[0])
        if op == 'abs':
            return self.nabs(self.norm(t.args[0]), t.args[0])
        if op == 'atan2':
            y, x = self.norm(t.args[0]), self.norm(t.args[1])
            if self.isconst(y) and self.isconst(x):
                return self.rc(Decimal(mp.nstr(mp.atan2(mp.mpf(str(self.cval(y))), mp.mpf(str(self.cval(x)))), 45)))
            if not y[0] and self.sign:
                s = self.sign(t.args[1])
                if s == 1:
                    return ({}, ())
                if s == -1:
                    return self.rc(PI)
            # positive rescaling
            ref = x if x[0] else y
            k = 1 / abs(ref[0][min(ref[0])][0])
            y2, x2 = (self.pscale(y[0], k), y[1]), (self.pscale(x[0], k), x[1])
            # positive common denominators (sqrt atoms) drop out
            y2, x2 = self.strip_pos(y2, x2)
            # atan2(-y,x) = -atan2(y,x): canonical sign of y
            if y2[0] and y2[0][min(y2[0])][0] < 0:
                y2 = self.rneg(y2)
                return self.rneg(self.ratom(self.atom('atan2', (y2, x2), None, t)))
            return self.ratom(self.atom('atan2', (y2, x2), None, t))
        if op == 'sum':
            return self.nsum(t)
        if op in ('exp', 'log'):
            a = self.norm(t.args[0])
            if self.isconst(a):
                f = mp.exp if op == 'exp' else mp.log
                return self.rc(Decimal(mp.nstr(f(mp.mpf(str(self.cval(a)))), 45)))
            return self.ratom(self.atom(op, (a,), None, t))
        if op == 'pow':
            a, b = self.norm(t.args[0]), self.norm(t.args[1])
            if self.isconst(a) and self.isconst(b):
                return self.rc(Decimal(mp.nstr(mp.power(mp.mpf(str(self.cval(a))), mp.mpf(str(self.cval(b)))), 45)))
            return self.ratom(self.atom('pow', (a, b), None, t))
        if op == 'ite':
            return self.ratom(self.atom('ite', (self.norm(t.args[1]), self.norm(t.args[2])), t.args[0].id, t))
        if op in ('wrapS', 'wrapP', 'fmod'):
            args = tuple(self.norm(a) for a in t.args)
            return self.ratom(self.atom(op, args, None, t))
        if op in ('sdiv', 'srem', 'fdiv', 'fmodi', 'r2i', 'trunc', 'round', 'floor'):
            args = tuple(self.norm(a) for a in t.args)
            return self.ratom(self.atom(op if op != 'r2i' else 'trunc', args, None, t))
        if op in ('sel', 'uf'):
            args = tuple(self.norm(a) for a in t.args)
            return self.ratom(self.atom(op, args, t.val, t))
        if t.sort == 'B':
            return self.ratom(self.atom('bool', (), t.id, t))
        raise Blowup('op ' + op)

    def is_pos_factor(self, f):
        p = self.factors[f]
        if len(p) == 1:
            (m, (c, a)), = p.items()
            return c > 0 and all(self.atoms[x][0] in ('sqrt', 'abs', 'exp') for x, e in m)
        return False

    def strip_pos(self, y, x):
        dy, dx = dict(y[1]), dict(x[1])
        for f in set(dy) | set(dx):
            if self.is_pos_factor(f) or (max(dy.get(f, 0), dx.get(f, 0)) % 2 == 0):
                k = max(dy.get(f, 0), dx.get(f, 0))
                if dy.get(f, 0) == dx.get(f, 0):
                    dy.pop(f), dx.pop(f)
        return (y[0], tuple(sorted(dy.items()))), (x[0], tuple(sorted(dx.items())))

    def nabs(self, a, src):
        if self.isconst(a):
            return self.rc(abs(self.cval(a)))
        if len(a[0]) == 1 and not a[1]:
            (m, (c, _)), = a[0].items()
            if all(self.atoms[x][0] in ('sqrt', 'abs', 'exp') or e % 2 == 0 for x, e in m):
                return self.pabs(a)
        if self.sign and src is not None:
            s = self.sign(src)
            if s is not None:
                return a if s >= 0 else self.rneg(a)
        lead = a[0][min(a[0])][0]
        if lead < 0:
            a = self.rneg(a)
        return self.ratom(self.atom('abs', (a,), None, src))

    def pabs(self, a):
        return ({m: (abs(c), x) for m, (c, x) in a[0].items()}, a[1])

    def nsqrt(self, u, src):
        if self.isconst(u):
            c = self.cval(u)
            if c < 0:
                if c > Decimal('-1e-30'):
                    return self.rc(0)
                raise Blowup('sqrt of negative constant')
            return self.rc(c.sqrt())
        num, den = u
        k = abs(num[min(num)][0])
        root = k.sqrt()
        num = self.pscale(num, 1 / k)
        # denominators with known sign: sqrt(N/D) = sqrt(N*f^(odd))/|f|^...
        outden = self.rc(1)
        rest = []
        for f, e in den:
            if e % 2 == 1:
                num2 = self.reduce((self.pmul(num, self.factors[f]), ()))
                if num2[1] != ():
                    rest.append((f, e))
                    continue
                num = num2[0]
                e += 1
            h = e // 2
            fr = (self.factors[f], ())
            if h % 2 == 0 or self.is_pos_factor(f):
                fa = fr
            else:
                src2 = self.to_term(fr)
                fa = self.nabs(fr, src2)
            for _ in range(h):
                outden = self.rmul(outden, fa)
        # common even powers come out as absolute values
        pulled = self.rc(1)
        if len(num) > 1:
            com = None
            for m in num:
                d = dict(m)
                com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
                if not com:
                    break
            com = {a: e - e % 2 for a, e in (com or {}).items() if e >= 2}
            if com:
                nn = {}
                for m, v in num.items():
                    d = dict(m)
                    for a, e in com.items():
                        d[a] -= e
                        if d[a] == 0:
                            del d[a]
                    nn[tuple(sorted(d.items()))] = v
                num = nn
                for a, e in com.items():
                    x = self.ratom(a)
                    if (e // 2) % 2 == 1:
                        x1 = self.nabs(x, self.to_term(x))
                    else:
                        x1 = x
                    for _ in range(e // 2):
                        pulled = self.rmul(pulled, x1)
        # perfect squares: monomial numerators
        res = None
        if len(num) == 1 and not rest:
            (m, (c, a)), = num.items()
            if c > 0 and all(e % 2 == 0 for _, e in m):
                res = self.rc(c.sqrt())
                for at, e in m:
                    x = self.ratom(at)
                    h = e // 2
                    if h % 2 == 1:
                        x1 = self.nabs(x, self.to_term(x))
                    else:
                        x1 = x
                    for _ in range(h):
                        res = self.rmul(res, x1)
        if res is None and not rest:
            sq = self.try_square(num)
            if sq is not None:
                res = self.nabs((sq, ()), self.to_term((sq, ())))
        if res is None:
            i = self.atom('sqrt', ((num, tuple(rest)),), None, src)
            res = self.ratom(i)
        res = (self.pscale(res[0], root), res[1])
        res = self.rmul(res, pulled)
        if self.isconst(outden):
            return (self.pscale(res[0], 1 / self.cval(outden)), res[1])
        return self.rmul(res, self.rinv(outden))

    def try_square(self, num):
        """num = (sum a_i m_i)^2 for few terms?  only plain monomials, quick test"""
        n = len(num)
        if n not in (3, 6):
            return None
        roots = []
        for m, (c, a) in num.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                roots.append((tuple((x, e // 2) for x, e in m), c.sqrt()))
        k = 2 if n == 3 else 3
        if not k <= len(roots) <= 6:
            return None
        import itertools
        for rs, signs in itertools.product(itertools.combinations(roots, k), itertools.product((1, -1), repeat=k - 1)):
            p = {}
            for (m, c), s in zip(rs, (1,) + signs):
                p[m] = (c * s, float(c))
            q = self.pmul(p, p)
            q = self.reduce((q, ()))
            if q[1] == () and self.pzero(self.padd(q[0], self.pscale(num, Decimal(-1)))):
                return p
        return None

    def pzero(self, p):
        t = self.tol
        return all(abs(c) <= Decimal(t) * Decimal(a) for c, a in p.values())

    # ---------------- trigonometry ---------------------------------------------------
    def trig(self, A):
        key = self.rkey(A)
        key = (key, self.bucket((None, None, (key,)), (A,)))
        for B, r in self.trigmemo.get(key, ()):
            if self.rclose(A, B):
                return r
        r = self._trig(A)
        self.trigmemo.setdefault(key, []).append((A, r))
        return r

    def angle_close(self, x, y):
        return abs(x - y) <= Decimal(max(self.tol, 1e-13)) * 4

    def _trig(self, A):
        if self.isconst(A):
            v = mp.mpf(str(self.cval(A)))
            k = self.cval(A) / HALFPI
            kr = k.to_integral_value()
            if abs(k) < 1000 and abs(k - kr) <= Decimal(self.tol) * 4:
                q = int(kr) % 4
                return (self.rc([0, 1, 0, -1][q]), self.rc([1, 0, -1, 0][q]))
            return (self.rc(Decimal(mp.nstr(mp.sin(v), 45))), self.rc(Decimal(mp.nstr(mp.cos(v), 45))))
        num, den = A
        if den == ():
            # multiples of pi/2 in the constant part
            if () in num:
                k = num[()][0] / HALFPI
                kr = k.to_integral_value()
                if kr != 0 and abs(k) < 64 and abs(k - kr) <= Decimal(self.tol) * 8:
                    n2 = dict(num)
                    del n2[()]
                    s, c = self.trig((n2, ()))
                    q = int(kr) % 4
                    if q == 0:
                        return (s, c)
                    if q == 1:
                        return (c, self.rneg(s))
                    if q == 2:
                        return (self.rneg(s), self.rneg(c))
                    return (self.rneg(c), s)
            # periodic wrappers
            for m, (c, a) in num.items():
                if len(m) == 1 and m[0][1] == 1:
                    at = self.atoms[m[0][0]]
                    if at[0] in ('wrapS', 'wrapP', 'fmod') and self.isconst(at[2][1]):
                        per = self.cval(at[2][1]) * c / (2 * PI)
                        pr = per.to_integral_value()
                        if pr != 0 and abs(per - pr) <= Decimal(max(self.tol * 4, 1e-12)) * abs(pr):
                            n2 = dict(num)
                            del n2[m]
                            inner = self.rmul(self.rc(c), at[2][0])
                            return self.trig(self.radd((n2, ()), inner))
                    if at[0] == 'sin' or at[0] == 'cos':
                        continue
            # expansion of sums
            parts = []
            rest = {}
            for m, (c, a) in num.items():
                n = self.multiple(m, c)
                if n is not None and (n != 0):
                    parts.append((m, n))
                else:
                    rest[m] = (c, a)
            if parts and (len(num) > 1 or parts[0][1] not in (1, -1) or self.is_atan2(parts[0][0])):
                sc = self.trig0((rest, ())) if rest else (self.rc(0), self.rc(1))
                for m, n in parts:
                    s1, c1 = self.trig_base(m)
                    sn, cn = self.multi(s1, c1, abs(n))
                    if n < 0:
                        sn = self.rneg(sn)
                    s, c = sc
                    sc = (self.radd(self.rmul(s, cn), self.rmul(c, sn)),
                          self.radd(self.rmul(c, cn), self.rneg(self.rmul(s, sn))))
                return sc
        return self.trig0(A)

    def is_atan2(self, m):
        return len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'atan2'

    def multiple(self, m, c):
        """integer multiple of the base angle for monomial m, or None when it is not to be expanded"""
        if self.is_atan2(m):
            k = c.to_integral_value()
            return int(k) if abs(c - k) <= Decimal(self.tol) * 4 and 0 < abs(k) <= 12 else None
        b = self.base.get(m)
        if b is None:
            return None
        k = c / b
        kr = k.to_integral_value()
        if kr != 0 and abs(kr) <= 12 and abs(k - kr) <= Decimal(self.tol) * 4 * abs(kr):
            return int(kr)
        return None

    def trig_base(self, m):
        if self.is_atan2(m):
            y, x = self.atoms[m[0][0]][2]
            h2 = self.radd(self.rmul(y, y), self.rmul(x, x))
            src = self.atoms[m[0][0]][4]
            hs = None
            if src is not None:
                hs = src.args[0] * src.args[0] + src.args[1] * src.args[1]
            h = self.nsqrt(h2, hs)
            hi = self.rinv(h)
            return (self.rmul(y, hi), self.rmul(x, hi))
        b = self.base[m]
        return self.trig0(({m: (b, float(abs(b)))}, ()))

    def multi(self, s, c, n):
        rs, rcn = self.rc(0), self.rc(1)
        for _ in range(n):
            rs, rcn = (self.radd(self.rmul(rs, c), self.rmul(rcn, s)),
                       self.radd(self.rmul(rcn, c), self.rneg(self.rmul(rs, s))))
        return rs, rcn

    def trig0(self, A):
        if self.isconst(A):
            return self._trig(A)
        num, den = A
        lead = num[min(num)][0]
        neg = lead < 0
        if neg:
            A = self.rneg(A)
        s = self.ratom(self.atom('sin', (A,)))
        c = self.ratom(self.atom('cos', (A,)))
        return (self.rneg(s) if neg else s, c)

    def collect_bases(self, ts):
        """angle expansion: base units of every monomial occurring in sin/cos arguments"""
        seen = {}
        for t in tm.subterms(ts):
            if t.op in ('sin', 'cos'):
                A = self.norm_arg_plain(t.args[0])
                if A is None:
                    continue
                for m, (c, a) in A.items():
                    if m != () and c != 0:
                        seen.setdefault(m, []).append(abs(c))
        for m, cs in seen.items():
            b = min(cs)
            for dvd in (1, 2, 3, 4):
                bb = b / dvd
                if all(abs(x / bb - (x / bb).to_integral_value()) < Decimal(self.tol) * 16 for x in cs):
                    self.base[m] = bb
                    break

    def norm_arg_plain(self, t):
        try:
            A = self.norm(t)
        except Blowup:
            return None
        out = {}
        if A[1] != ():
            return None

        def flat(num, k):
            for m, (c, a) in num.items():
                if len(m) == 1 and m[0][1] == 1:
                    at = self.atoms[m[0][0]]
                    if at[0] in ('wrapS', 'wrapP', 'fmod') and at[2][0][1] == ():
                        flat(at[2][0][0], k * c)
                        continue
                x = out.get(m)
                out[m] = (c * k, a) if x is None else (x[0] + c * k, a)
        flat(A[0], D1)
        return out

    # ---------------- finite sums ------------------------------------------------------
    def nsum(self, t):
        body = self.norm(t.args[0])
        lo, hi = self.norm(t.args[1]), self.norm(t.args[2])
        def dep(i, memo={}):
            at = self.atoms[i]
            if at[0] == 'v':
                return at[3] == t.val
            if at[4] is not None and any(x.val == t.val for x in tm.free_vars([at[4]])):
                return True
            for r in at[2]:
                for m in r[0]:
                    if any(dep(a) for a, e in m):
                        return True
                for f, e in r[1]:
                    if any(dep(a) for m in self.factors[f] for a, e2 in m):
                        return True
            return False
        den_out, den_in = [], []
        for f, e in body[1]:
            (den_in if any(dep(a) for m in self.factors[f] for a, e2 in m) else den_out).append((f, e))
        out = ({}, ())
        for m, (c, a) in body[0].items():
            mi = tuple((x, e) for x, e in m if dep(x))
            mo = tuple((x, e) for x, e in m if not dep(x))
            if not mi and not den_in:
                cnt = self.radd(hi, self.rneg(lo))
                out = self.radd(out, self.rmul(({mo: (c, a)}, ()), cnt))
            else:
                s = self.atom('sum', (({mi: (D1, 1.0)}, tuple(den_in)), lo, hi), t.val)
                out = self.radd(out, ({mul_mono(mo, ((s, 1),)): (c, a)}, ()))
        if den_out:
            for f, e in den_out:
                for _ in range(e):
                    out = self.rmul(out, self.rinv((self.factors[f], ())))
        return out

    # ---------------- back to terms --------------------------------------------------------
    def atom_term(self, i):
        k, a0, args, extra, src = self.atoms[i]
        if k == 'v':
            return tm.var(extra)
        if k == 'sin':
            return tm.sin(self.to_term(a0))
        if k == 'cos':
            return tm.cos(self.to_term(a0))
        if k == 'sqrt':
            return tm.sqrt(self.to_term(a0))
        if k == 'abs':
            return tm.abs_(self.to_term(a0))
        if src is not None:
            return src
        raise Blowup('atom_term')

    def to_term(self, r):
        t = tm.rconst(0)
        try:
            for m, (c, a) in r[0].items():
                x = tm.rconst(Fraction(c))
                for at, e in m:
                    x = x * self.atom_term(at) ** e
                t = t + x
        except Blowup:
            return None
        if r[1]:
            return None
        return t

    def iszero(self, r):
        return self.pzero(r[0])

    def residual(self, r, n=4):
        bad = [(abs(c) / Decimal(a), m) for m, (c, a) in r[0].items() if abs(c) > Decimal(self.tol) * Decimal(a)]
        bad.sort(reverse=True)
        out = []
        for v, m in bad[:n]:
            try:
                s = '*'.join('%s^%d' % (tm.show(self.atom_term(a), 3), e) for a, e in m) or '1'
            except Exception:
                s = str(m)
            out.append('%s: rel %.3g' % (s, v))
        return out
