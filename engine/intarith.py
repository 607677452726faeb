"""Integer arithmetic with division by constants: interval propagation, affine canonical form with floor quotients,
and exhaustive enumeration of a remainder.  Used before z3, which is weak on nested quotients."""
import math
from fractions import Fraction
from . import term as tm
from .term import T, const, rconst

INF = float('inf')


class Bounds(object):
    """interval of a term under hypotheses (syntactic bounds on subterms, propagated upwards)"""

    def __init__(self, hyps):
        self.lo = {}
        self.hi = {}
        self.memo = {}
        todo = list(hyps)
        while todo:
            h = todo.pop()
            neg = False
            if h.op == 'not':
                h = h.args[0]
                neg = True
            if h.op == 'and' and not neg:
                todo.extend(h.args)
            elif h.op == '==' and not neg and h.args[0].sort in 'IR':
                self.rel(h.args[0], h.args[1], False)
                self.rel(h.args[1], h.args[0], False)
            elif h.op in ('<', '<='):
                x, y = h.args
                strict = h.op == '<'
                if neg:
                    x, y = y, x
                    strict = not strict
                self.rel(x, y, strict)

    def rel(self, x, y, strict):
        """x <= y (or <)"""
        if x.sort == 'R':
            nx, ny = tm.intval(x), tm.intval(y)
            if nx is not None and ny is not None:
                x, y = nx, ny
        integer = x.sort == 'I'
        if tm.isc(x) and not tm.isc(y):
            v = x.val + (1 if strict and integer else 0)
            self.low(y, v)
        elif tm.isc(y) and not tm.isc(x):
            v = y.val - (1 if strict and integer else 0)
            self.high(x, v)
        else:
            # x - y <= 0 with one affine variable: c*t + k <= 0
            pass

    def low(self, t, v):
        # peel affine shells: c + t, k*t
        if t.op == '+' and tm.isc(t.args[0]):
            return self.low(t.args[1], v - t.args[0].val)
        if t.op == '+' and tm.isc(t.args[1]):
            return self.low(t.args[0], v - t.args[1].val)
        if t.op == '*' and tm.isc(t.args[0]) and t.args[0].val != 0:
            q = Fraction(v) / Fraction(t.args[0].val)
            if t.sort == 'I':
                q = math.ceil(q) if t.args[0].val > 0 else math.floor(q)
            return self.low(t.args[1], q) if t.args[0].val > 0 else self.high(t.args[1], q)
        if t.op == 'i2r':
            return self.low(t.args[0], math.ceil(Fraction(v)))
        self.lo[t.id] = max(self.lo.get(t.id, -INF), v)

    def high(self, t, v):
        if t.op == '+' and tm.isc(t.args[0]):
            return self.high(t.args[1], v - t.args[0].val)
        if t.op == '+' and tm.isc(t.args[1]):
            return self.high(t.args[0], v - t.args[1].val)
        if t.op == '*' and tm.isc(t.args[0]) and t.args[0].val != 0:
            q = Fraction(v) / Fraction(t.args[0].val)
            if t.sort == 'I':
                q = math.floor(q) if t.args[0].val > 0 else math.ceil(q)
            return self.high(t.args[1], q) if t.args[0].val > 0 else self.low(t.args[1], q)
        if t.op == 'i2r':
            return self.high(t.args[0], math.floor(Fraction(v)))
        self.hi[t.id] = min(self.hi.get(t.id, INF), v)

    def of(self, t):
        r = self.memo.get(t.id)
        if r is None:
            a, b = self.calc(t)
            a = max(a, self.lo.get(t.id, -INF))
            b = min(b, self.hi.get(t.id, INF))
            if t.op == 'abs' or True:
                r = (a, b)
            self.memo[t.id] = r
        return r

    def calc(self, t):
        op = t.op
        if op == 'c':
            return (t.val, t.val) if t.sort != 'B' else (-INF, INF)
        if op == 'v' or not t.args:
            return (-INF, INF)
        if op == '+':
            a, b = self.of(t.args[0]), self.of(t.args[1])
            return (a[0] + b[0], a[1] + b[1])
        if op == '*':
            a, b = self.of(t.args[0]), self.of(t.args[1])
            if t.args[0] is t.args[1] and a[0] > -INF and a[1] < INF:
                m = max(a[0] * a[0], a[1] * a[1])
                return (0 if a[0] <= 0 <= a[1] else min(a[0] * a[0], a[1] * a[1]), m)
            ps = [mul(x, y) for x in a for y in b]
            return (min(ps), max(ps))
        if op == 'abs':
            a = self.of(t.args[0])
            h = max(abs(a[0]), abs(a[1]))
            l = 0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
            # bounds recorded on the absolute value itself bound the argument too
            return (l, h)
        if op == 'ite':
            a, b = self.of(t.args[1]), self.of(t.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == 'i2r':
            return self.of(t.args[0])
        if op in ('r2i', 'trunc', 'round', 'floor'):
            a = self.of(t.args[0])
            f = {'r2i': lambda v: int(v), 'trunc': lambda v: int(v), 'round': lambda v: tm._rnd(v), 'floor': lambda v: math.floor(v)}[op]
            return (a[0] if a[0] == -INF else f(Fraction(a[0])), a[1] if a[1] == INF else f(Fraction(a[1])))
        if op in ('sdiv', 'fdiv') and tm.isc(t.args[1]) and t.args[1].val > 0:
            a = self.of(t.args[0])
            d = t.args[1].val

            def q(v):
                if v in (INF, -INF):
                    return v
                v = int(v)
                return v // d if (op == 'fdiv' or v >= 0) else -((-v) // d)
            return (q(a[0]), q(a[1]))
        if op in ('srem', 'fmodi') and tm.isc(t.args[1]) and t.args[1].val > 0:
            a = self.of(t.args[0])
            d = t.args[1].val
            if op == 'fmodi' or a[0] >= 0:
                return (0, min(d - 1, a[1]) if a[0] >= 0 else d - 1)
            if a[1] <= 0:
                return (-(d - 1), 0)
            return (-(d - 1), d - 1)
        if op == 'fmod' and tm.isc(t.args[1]) and t.args[1].val > 0:
            a = self.of(t.args[0])
            m = t.args[1].val
            return (0 if a[0] >= 0 else -m, 0 if a[1] <= 0 else m)
        if op in ('sin', 'cos'):
            return (-1, 1)
        if op == 'wrapP' and tm.isc(t.args[1]):
            return (0, t.args[1].val)
        if op == 'wrapS' and tm.isc(t.args[2]):
            return (-t.args[2].val, t.args[2].val)
        if op == 'sqrt' or op == 'exp':
            return (0, INF)
        return (-INF, INF)

    def holds(self, g):
        """True when the goal follows from the intervals"""
        if tm.isc(g):
            return bool(g.val)
        if g.op == 'and':
            return all(self.holds(x) for x in g.args)
        neg = False
        if g.op == 'not':
            g = g.args[0]
            neg = True
        if g.op in ('<', '<='):
            x, y = g.args
            d = self.of(tm.sub(x, y))
            a, b = self.of(x), self.of(y)
            lo = max(d[0], a[0] - b[1]) if not (a[0] == -INF or b[1] == INF) else d[0]
            hi = min(d[1], a[1] - b[0]) if not (a[1] == INF or b[0] == -INF) else d[1]
            if g.op == '<':
                return lo >= 0 if neg else hi < 0
            return lo > 0 if neg else hi <= 0
        if g.op == '==' and neg and g.args[0].sort in 'IR':
            d = self.of(tm.sub(g.args[0], g.args[1]))
            return d[0] > 0 or d[1] < 0
        return False


def mul(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


class Affine(object):
    """canonical affine form over integer atoms and floor quotients of affine forms by constants"""

    def __init__(self, hyps, solver=None, bounds=None):
        self.b = bounds or Bounds(hyps)
        self.hyps = hyps
        self.s = solver
        self.atoms = {}        # key -> ('t', term) | ('q', form, d)
        self.memo = {}
        self.bmemo = {}

    # forms: (tuple sorted ((key, coef)...), const)
    def add(self, f, g, k=1):
        d = dict(f[0])
        for a, c in g[0]:
            d[a] = d.get(a, 0) + k * c
        return (tuple(sorted((a, c) for a, c in d.items() if c)), f[1] + k * g[1])

    def scale(self, f, k):
        if k == 0:
            return ((), 0)
        return (tuple((a, c * k) for a, c in f[0]), f[1] * k)

    def atom(self, t):
        k = ('t', t.id)
        self.atoms[k] = t
        return (((k, 1),), 0)

    def bounds(self, f):
        lo = hi = f[1]
        for a, c in f[0]:
            x = self.abounds(a)
            lo += mul(c, x[0] if c > 0 else x[1])
            hi += mul(c, x[1] if c > 0 else x[0])
        return lo, hi

    def abounds(self, a):
        r = self.bmemo.get(a)
        if r is None:
            if a[0] == 't':
                r = self.b.of(self.atoms[a])
            elif a[0] == 'r':
                r = (0, a[1] - 1)
            elif a[0] == 'f':
                r = (-INF, INF)
            elif a[0] == 'p':
                u, v = self.bounds(a[1]), self.bounds(a[2])
                ps = [mul(x, y) for x in u for y in v]
                r = (min(ps), max(ps))
            else:
                lo, hi = self.bounds(a[1])
                d = a[2]
                r = (lo if lo == -INF else lo // d, hi if hi == INF else hi // d)
            self.bmemo[a] = r
        return r

    def quot(self, f, d):
        """floor(f / d)"""
        if d == 1:
            return f
        # a single quotient atom with coefficient +-1 (mod d) and nothing else: merge nested divisions
        out = ((), 0)
        rest = {}
        for a, c in f[0]:
            q, r = divmod(c, d)
            if r > d // 2:
                q, r = q + 1, r - d
            if q:
                out = self.add(out, (((a, q),), 0))
            if r:
                rest[a] = r
        q, r = divmod(f[1], d)
        out = (out[0], out[1] + q)
        if not rest:
            return out
        form = (tuple(sorted(rest.items())), r)
        # leading coefficient positive: floor(-x/d) = -floor((x + d - 1)/d)
        if form[0][0][1] < 0:
            neg = self.scale(form, -1)
            neg = (neg[0], neg[1] + d - 1)
            return self.add(out, self.quot(neg, d), -1)
        # content
        g = 0
        for _, c in form[0]:
            g = math.gcd(g, c)
        if g > 1 and d % g == 0:
            form = (tuple((a, c // g) for a, c in form[0]), form[1] // g)
            return self.add(out, self.quot(form, d // g))
        if len(form[0]) == 1 and form[0][0][0][0] == 'q' and form[0][0][1] == 1:
            qa = form[0][0][0]
            inner = (qa[1][0], qa[1][1] + form[1] * qa[2])
            return self.add(out, self.quot(inner, qa[2] * d))
        lo, hi = self.bounds(form)
        if lo != -INF and hi != INF and lo // d == hi // d:
            return (out[0], out[1] + lo // d)
        k = ('q', form, d)
        return self.add(out, (((k, 1),), 0))

    def sign(self, t, f):
        lo, hi = self.bounds(f)
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        if self.s is not None:
            if self.s.implied(self.hyps, tm.le(0, t)):
                return 1
            if self.s.implied(self.hyps, tm.le(t, 0)):
                return -1
        return 0

    def of(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == 'c':
            r = ((), t.val)
        elif op == '+':
            r = self.add(self.of(t.args[0]), self.of(t.args[1]))
        elif op == '*':
            x, y = self.of(t.args[0]), self.of(t.args[1])
            if not x[0]:
                r = self.scale(y, x[1])
            elif not y[0]:
                r = self.scale(x, y[1])
            else:
                k = ('p',) + tuple(sorted((x, y)))
                r = (((k, 1),), 0)
        elif op in ('sdiv', 'srem', 'fdiv', 'fmodi') and tm.isc(t.args[1]) and t.args[1].val > 0:
            x = self.of(t.args[0])
            d = t.args[1].val
            if op in ('fdiv', 'fmodi'):
                q = self.quot(x, d)
            else:
                rb = self.b.of(tm.srem(t.args[0], t.args[1]))
                sg = self.sign(t.args[0], x) if rb[0] < 0 and rb[1] >= 0 else 0
                if rb[0] >= 0:
                    q = self.quot(x, d)
                elif rb[1] < 0:
                    q = self.quot(x, d)
                    q = (q[0], q[1] + 1)
                elif sg > 0:
                    q = self.quot(x, d)
                elif sg < 0:
                    q = self.scale(self.quot(self.scale(x, -1), d), -1)
                else:
                    k = ('s', x, d)
                    self.bmemo[k] = self.b.of(tm.sdiv(t.args[0], t.args[1]))
                    q = (((k, 1),), 0)
            r = q if op in ('sdiv', 'fdiv') else self.add(x, q, -d)
        elif op == 'r2i' and t.args[0].op == 'round' and tm.ratval(t.args[0].args[0]) is not None:
            # integer nearest to N/n
            N, n = tm.ratval(t.args[0].args[0])
            x = self.of(N)
            if all(c % n == 0 for a, c in x[0]) and x[1] % n == 0:
                r = (tuple((a, c // n) for a, c in x[0]), x[1] // n)
            else:
                sg = self.sign(N, x)
                if sg == 0:
                    r = self.atom(t)
                else:
                    y = self.scale(x, 2 * sg)
                    r = self.scale(self.quot((y[0], y[1] + n), 2 * n), sg)
        else:
            r = self.atom(t)
        self.memo[t.id] = r
        return r


def expand_quotients(A, f, d, target):
    """rewrite the form f: the quotient atom `target` = ('q', form, d) is replaced by Q and one unit-coefficient atom
    of its dividend by R + d*Q - rest, with 0 <= R < d"""
    form = target[1]
    piv = [a for a, c in form[0] if abs(c) == 1 and a[0] != 'q'] or [a for a, c in form[0] if abs(c) == 1]
    if not piv:
        return None
    piv = piv[0]
    pc = dict(form[0])[piv]
    R, Q = ('r', d), ('f', 'Q')
    # pc*piv + rest + k = d*Q + R   ->  piv = pc*(d*Q + R - rest - k)
    rest = (tuple((a, c) for a, c in form[0] if a != piv), form[1])
    val = A.add((((R, 1), (Q, d)), 0), rest, -1)
    val = A.scale((tuple(sorted(val[0])), val[1]), pc)
    memo = {}

    def go(g):
        out = ((), g[1])
        for a, c in g[0]:
            if a == piv:
                h = val
            elif a == target:
                h = (((Q, 1),), 0)
            elif a[0] == 'q':
                if a not in memo:
                    memo[a] = A.quot(go(a[1]), a[2])
                h = memo[a]
            elif a[0] == 'p':
                if a not in memo:
                    x, y = go(a[1]), go(a[2])
                    if not x[0]:
                        memo[a] = A.scale(y, x[1])
                    elif not y[0]:
                        memo[a] = A.scale(x, y[1])
                    else:
                        memo[a] = (((('p',) + tuple(sorted((x, y))), 1),), 0)
                h = memo[a]
            elif a[0] == 's':
                if a not in memo:
                    memo[a] = (((('s', go(a[1]), a[2]), 1),), 0)
                h = memo[a]
            else:
                h = (((a, 1),), 0)
            out = A.add(out, h, c)
        return out
    return go(f), R, go


def evalR(f, R, v):
    """value of a form that depends on R only"""
    s = f[1]
    for a, c in f[0]:
        if a == R:
            s += c * v
        elif a[0] == 'q':
            x = evalR(a[1], R, v)
            if x is None:
                return None
            s += c * (x // a[2])
        elif a[0] == 'p':
            x, y = evalR(a[1], R, v), evalR(a[2], R, v)
            if x is None or y is None:
                return None
            s += c * x * y
        else:
            return None
    return s


def only_R(f, R):
    return all(a == R or (a[0] == 'q' and only_R(a[1], R)) or (a[0] == 'p' and only_R(a[1], R) and only_R(a[2], R)) for a, c in f[0])


def quots(f, acc=None):
    acc = acc if acc is not None else []
    for a, c in f[0]:
        if a[0] == 'q':
            quots(a[1], acc)
            if a not in acc:
                acc.append(a)
        elif a[0] == 'p':
            quots(a[1], acc)
            quots(a[2], acc)
    return acc


def prove_eq(hyps, a, b, solver=None, limit=5000):
    """True when a == b (integers) follows; 'affine' or 'affine+enumeration' says how"""
    B = Bounds(hyps)
    A = Affine(hyps, solver, B)
    d = A.add(A.of(a), A.of(b), -1)
    if not d[0] and d[1] == 0:
        return 'affine'
    if not d[0]:
        return None
    for tgt in quots(d):
        if tgt[2] > limit:
            continue
        r = expand_quotients(A, d, tgt[2], tgt)
        if r is None:
            continue
        g, R, go = r
        if not only_R(g, R):
            continue
        # hypotheses that become functions of the remainder alone
        hs = []
        for h in hyps:
            hh, neg = (h.args[0], True) if h.op == 'not' else (h, False)
            if hh.op in ('<', '<=', '==') and hh.args[0].sort == 'I':
                f = go(A.add(A.of(hh.args[0]), A.of(hh.args[1]), -1))
                if only_R(f, R):
                    hs.append((hh.op, f, neg))
        ok = True
        for v in range(tgt[2]):
            sat = True
            for op, f, neg in hs:
                x = evalR(f, R, v)
                c = x < 0 if op == '<' else x <= 0 if op == '<=' else x == 0
                if c == neg:
                    sat = False
                    break
            if sat and evalR(g, R, v) != 0:
                ok = False
                break
        if ok:
            return 'affine+enumeration'
    return None
