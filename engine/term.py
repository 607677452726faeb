"""Hash-consed first-order terms: the language of contracts and of symbolic values.

Sorts: 'R' (real), 'I' (mathematical integer), 'B' (bool).  C floats and doubles are
interpreted as exact reals; the constants keep their exact binary value.
"""
import struct
import sys
from fractions import Fraction
import mpmath

sys.setrecursionlimit(1000000)
mp = mpmath.mp.clone()
mp.dps = 40

_tab = {}
_next = [1]


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'val')

    def __hash__(self):
        return self.id

    # comparison operators build terms -----------------------------------
    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return not_(eq(self, o))

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = const(1)
            for _ in range(n):
                r = mul(r, self)
            return r
        return pow_(self, n)

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __bool__(self):
        if self.op == 'c' and self.sort == 'B':
            return self.val
        if self.sort == 'B':
            return decide(self)
        raise TypeError('truth value of non-bool term %s' % self)

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, val=None):
    key = (op, tuple([a.id for a in args]), sort, val) if op != 'c' else ('c', sort, val)
    t = _tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


def const(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return _mk('c', (), 'B', v)
    if isinstance(v, int):
        return _mk('c', (), sort or 'I', v if (sort or 'I') == 'I' else Fraction(v))
    if isinstance(v, (float, Fraction)):
        return _mk('c', (), 'R', Fraction(v))
    raise TypeError(repr(v))


TRUE = const(True)
FALSE = const(False)


def rconst(v):
    return _mk('c', (), 'R', Fraction(v))


def var(name, sort='R'):
    return _mk('v', (), sort, name)


def isc(t):
    return t.op == 'c'


def coerce2(a, b):
    a, b = const(a), const(b)
    if a.sort != b.sort:
        a, b = toR(a), toR(b)
    return a, b


def toR(t):
    t = const(t)
    if t.sort == 'R':
        return t
    if t.sort == 'I':
        if isc(t):
            return rconst(t.val)
        return _mk('i2r', (t,), 'R')
    if t.sort == 'B':
        return ite(t, rconst(1), rconst(0))
    raise TypeError


def add(a, b):
    a, b = coerce2(a, b)
    if isc(a) and isc(b):
        return const_s(a.val + b.val, a.sort)
    if isc(a) and a.val == 0:
        return b
    if isc(b) and b.val == 0:
        return a
    if isc(b):
        a, b = b, a
    # fold constants: c1 + (c2 + x)
    if isc(a) and b.op == '+' and isc(b.args[0]):
        return add(const_s(a.val + b.args[0].val, a.sort), b.args[1])
    return _mk('+', (a, b), a.sort)


def const_s(v, sort):
    if sort == 'R':
        return rconst(v)
    return _mk('c', (), 'I', int(v))


def sub(a, b):
    a, b = coerce2(a, b)
    if a is b:
        return const_s(0, a.sort)
    return add(a, neg(b))


def neg(a):
    a = const(a)
    return mul(const_s(-1, a.sort), a)


def mul(a, b):
    a, b = coerce2(a, b)
    if isc(a) and isc(b):
        return const_s(a.val * b.val, a.sort)
    if isc(b):
        a, b = b, a
    if isc(a):
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        if b.op == '*' and isc(b.args[0]):
            return mul(const_s(a.val * b.args[0].val, a.sort), b.args[1])
    return _mk('*', (a, b), a.sort)


def div(a, b):
    a, b = toR(a), toR(b)
    if isc(b) and b.val != 0:
        return mul(rconst(1 / Fraction(b.val)), a)
    return _mk('/', (a, b), 'R')


# -- integer division (C semantics: truncation) ---------------------------
def sdiv(a, b):
    a, b = const(a), const(b)
    if isc(b) and isc(a) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        return const(q if (a.val >= 0) == (b.val >= 0) else -q)
    if isc(b) and b.val == 1:
        return a
    return _mk('sdiv', (a, b), 'I')


def srem(a, b):
    a, b = const(a), const(b)
    if isc(b) and isc(a) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        q = q if (a.val >= 0) == (b.val >= 0) else -q
        return const(a.val - q * b.val)
    return _mk('srem', (a, b), 'I')


def fdiv_(a, b):
    """floor division of integers (spec only)"""
    return _mk('fdiv', (const(a), const(b)), 'I') if not (isc(const(a)) and isc(const(b))) else const(const(a).val // const(b).val)


def fmodi(a, b):
    a, b = const(a), const(b)
    return _mk('fmodi', (a, b), 'I') if not (isc(a) and isc(b)) else const(a.val % b.val)


def f1(op, a):
    return _mk(op, (toR(a),), 'R')


def _ex(fn):
    """constant folding to a double-free exact value is only done where exact"""
    return fn


def _flip(a):
    """-a in canonical orientation when a (a short difference) is not in it, else None"""
    if a.op not in ('+', '*'):
        return None
    parts = []
    todo = [a]
    while todo:
        x = todo.pop()
        if x.op == '+':
            todo.extend(x.args)
            if len(todo) + len(parts) > 6:
                return None
        else:
            parts.append(x)
    cs = []
    for x in parts:
        if isc(x):
            continue
        if x.op == '*' and isc(x.args[0]):
            cs.append((x.args[1].id, x.args[0].val, x.args[1]))
        elif x.op == '*' and isc(x.args[1]):
            cs.append((x.args[0].id, x.args[1].val, x.args[0]))
        else:
            cs.append((x.id, 1, x))
    if not cs:
        return None
    cs.sort(key=lambda q: q[0])
    if cs[0][1] >= 0:
        return None
    r = rconst(0)
    for i, k, x in cs:
        r = add(r, mul(rconst(-k), x))
    for x in parts:
        if isc(x):
            r = add(rconst(-x.val), r)
    return r


def sin(a):
    a = toR(a)
    if isc(a) and a.val == 0:
        return rconst(0)
    n = _flip(a)
    if n is not None:
        return neg(_mk('sin', (n,), 'R'))
    return _mk('sin', (a,), 'R')


def cos(a):
    a = toR(a)
    if isc(a) and a.val == 0:
        return rconst(1)
    n = _flip(a)
    if n is not None:
        a = n
    return _mk('cos', (a,), 'R')


def tan(a):
    return div(sin(a), cos(a))


def sqrt(a):
    a = toR(a)
    if isc(a) and a.val >= 0:
        import math
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return rconst(Fraction(rn, rd))
    return _mk('sqrt', (a,), 'R')


def atan2(y, x):
    y, x = toR(y), toR(x)
    if isc(y) and y.val == 0 and isc(x) and x.val >= 0:
        return rconst(0)
    return _mk('atan2', (y, x), 'R')


def asin(x):
    x = toR(x)
    return atan2(x, sqrt(1 - x * x))


def acos(x):
    x = toR(x)
    return atan2(sqrt(1 - x * x), x)


def atan(x):
    return atan2(x, rconst(1))


def hypot(a, b):
    a, b = toR(a), toR(b)
    return sqrt(a * a + b * b)


def exp(a):
    a = toR(a)
    if isc(a) and a.val == 0:
        return rconst(1)
    return _mk('exp', (a,), 'R')


def log(a):
    a = toR(a)
    if isc(a) and a.val == 1:
        return rconst(0)
    return _mk('log', (a,), 'R')


def pow_(a, b):
    a, b = toR(a), toR(b)
    if isc(b) and b.val.denominator == 1 and 0 <= b.val <= 8:
        r = rconst(1)
        for _ in range(int(b.val)):
            r = mul(r, a)
        return r
    if isc(a) and isc(b) and b.val.denominator == 1 and abs(b.val) <= 64 and a.val != 0:
        return rconst(Fraction(a.val) ** int(b.val))
    if isc(b) and b.val == Fraction(1, 2):
        return sqrt(a)
    if isc(b) and b.val.denominator == 1 and -8 <= b.val < 0:
        return div(1, pow_(a, -b.val))
    return _mk('pow', (a, b), 'R')


def abs_(a):
    a = const(a)
    if isc(a):
        return const_s(abs(a.val), a.sort)
    if a.op == 'abs':
        return a
    if a.op == '*' and isc(a.args[0]) and a.args[0].val < 0:
        return abs_(neg(a))
    return _mk('abs', (a,), a.sort)


def fmod(a, b):
    """C fmod"""
    a, b = toR(a), toR(b)
    if isc(a) and isc(b) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        r = abs(a.val) - q * abs(b.val)
        return rconst(r if a.val >= 0 else -r)
    if isc(b) and b.val > 0 and Fraction(b.val).denominator == 1:
        n = intval(a)
        if n is not None:
            return toR(srem(n, int(b.val)))
    return _mk('fmod', (a, b), 'R')


def _rnd(v):  # half away from zero
    v = Fraction(v)
    q = (abs(v) + Fraction(1, 2)).__floor__()
    return q if v >= 0 else -q


def intval(a):
    """integer term equal to the real term a when a is integer-valued by construction, else None"""
    if isc(a):
        return const(int(a.val)) if Fraction(a.val).denominator == 1 else None
    if a.op == 'i2r':
        return a.args[0]
    if a.op == 'trunc':
        return _mk('r2i', (a.args[0],), 'I')
    if a.op in ('round', 'floor'):
        return _mk('r2i', (a,), 'I')
    if a.op == '+':
        x = intval(a.args[0])
        if x is None:
            return None
        y = intval(a.args[1])
        return None if y is None else x + y
    if a.op == '*':
        x = intval(a.args[0])
        if x is None:
            return None
        y = intval(a.args[1])
        return None if y is None else x * y
    return None


def ratval(a):
    """(integer term N, positive integer n) with a = N/n, for truncation of integer quotients"""
    if a.op == '*' and isc(a.args[0]) and a.args[0].val != 0 and Fraction(a.args[0].val).denominator != 1:
        n = intval(a.args[1])
        if n is not None:
            q = Fraction(a.args[0].val)
            if q.denominator < 10 ** 15:
                return n * q.numerator, q.denominator
    return None


def round_(a):
    a = toR(a)
    n = None if isc(a) else intval(a)
    if n is not None:
        return a
    if isc(a):
        return rconst(_rnd(a.val))
    if a.op in ('trunc', 'round', 'floor', 'i2r'):
        return a
    return _mk('round', (a,), 'R')


def trunc(a):
    a = toR(a)
    if isc(a):
        return rconst(int(a.val))
    if a.op in ('trunc', 'round', 'floor', 'i2r') or intval(a) is not None:
        return a
    q = ratval(a)
    if q is not None:
        return toR(sdiv(q[0], q[1]))
    return _mk('trunc', (a,), 'R')


def floor(a):
    a = toR(a)
    if isc(a):
        return rconst(a.val.__floor__())
    if a.op in ('trunc', 'round', 'floor', 'i2r'):
        return a
    return _mk('floor', (a,), 'R')


def ceil(a):
    return neg(floor(neg(toR(a))))


def r2i(a):
    """fptosi: truncation to integer"""
    a = toR(a)
    if isc(a):
        return const(int(a.val))
    if a.op == 'i2r':
        return a.args[0]
    if a.op == 'trunc':
        a = a.args[0]
    n = intval(a)
    if n is not None:
        return n
    q = ratval(a)
    if q is not None:
        return sdiv(q[0], q[1])
    return _mk('r2i', (a,), 'I')


def wrapS(x, full, half):
    """x reduced into [-half, half] modulo full  (the contract of drange)"""
    x, full, half = toR(x), toR(full), toR(half)
    if x.op == 'atan2' and x.args[1].op in ('sqrt', 'abs') and isc(half) and half.val > Fraction(8, 5):
        return x            # latitude: already within +-pi/2
    return _mk('wrapS', (toR(x), toR(full), toR(half)), 'R')


def wrapP(x, full):
    """x reduced into [0, full) modulo full  (the contract of dranrm)"""
    return _mk('wrapP', (toR(x), toR(full)), 'R')


def sel(name, *idx, sort='R'):
    """element of an input array of symbolic length"""
    return _mk('sel', tuple(const(i) for i in idx), sort, name)


def SUM(bv, lo, hi, body):
    """sum of body for integer bv in lo <= bv < hi; bv is a fresh bound variable"""
    lo, hi = const(lo), const(hi)
    n = 1 + max([int(x.val[2:]) for x in subterms([body]) if x.op == 'sum'] or [-1])
    b = var('@k%d' % n, 'I')
    body = subst(toR(body), {bv: b})
    if isc(body) and body.val == 0:
        return body
    return _mk('sum', (body, lo, hi), 'R', b.val)


def uf(name, *args):
    return _mk('uf', tuple(toR(a) for a in args), 'R', name)


def _round32(x):
    try:
        return mp.mpf(struct.unpack('<f', struct.pack('<f', float(x)))[0])
    except OverflowError:
        raise EvalError('float overflow')


def f32(a):
    """a rounded to single precision"""
    a = toR(a)
    if a.op == 'uf' and a.val == 'f32':
        return a
    if a.op == 'ite':
        return ite(a.args[0], f32(a.args[1]), f32(a.args[2]))
    if isc(a) and Fraction(struct.unpack('<f', struct.pack('<f', float(a.val)))[0]) == a.val:
        return a
    return uf('f32', a)


def ufi(name, *args):
    return _mk('uf', tuple(const(a) for a in args), 'I', name)


def ite(c, a, b):
    if isinstance(a, T) and a.sort == 'B' or isinstance(a, bool):
        a, b = const(a), const(b)
    else:
        a, b = coerce2(a, b)
    c = const(c)
    if isc(c):
        return a if c.val else b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    return _mk('ite', (c, a, b), a.sort)


def max_(a, b):
    a, b = coerce2(a, b)
    if isc(a) and isc(b):
        return a if a.val >= b.val else b
    if a is b:
        return a
    return ite(le(b, a), a, b)


def min_(a, b):
    a, b = coerce2(a, b)
    if isc(a) and isc(b):
        return a if a.val <= b.val else b
    if a is b:
        return a
    return ite(le(a, b), a, b)


def eq(a, b):
    a, b = coerce2(a, b)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return const(bool(a.val == b.val))
    if a.sort == 'B':
        if isc(a):
            return b if a.val else not_(b)
        if isc(b):
            return a if b.val else not_(a)
    if isc(a):
        a, b = b, a
    # ite(c,k1,k2) == k
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        x, y = a.args[1].val == b.val, a.args[2].val == b.val
        return ite(a.args[0], x, y)
    if isc(b) and a.op == 'i2r' and b.val.denominator != 1:
        return FALSE
    if isc(b) and a.op == 'i2r':
        return eq(a.args[0], const(int(b.val)))
    return _mk('==', (a, b), 'B')


def lt(a, b):
    a, b = coerce2(a, b)
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return const(bool(a.val < b.val))
    return _mk('<', (a, b), 'B')


def le(a, b):
    a, b = coerce2(a, b)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return const(bool(a.val <= b.val))
    return _mk('<=', (a, b), 'B')


def not_(a):
    a = const(a)
    if isc(a):
        return const(not a.val)
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return _mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = const(x)
        if isc(x):
            if not x.val:
                return FALSE
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


# ---------------------------------------------------------------------------
# forking evaluation of specification functions
_forker = [None]


def decide(t):
    f = _forker[0]
    if f is None:
        raise TypeError('symbolic condition outside a specification: %s' % show(t))
    return f.decide(t)


class Forker(object):
    """enumerates all paths of a Python specification function over symbolic inputs"""

    def __init__(self, feasible=None, maxpaths=4096):
        self.feasible = feasible
        self.maxpaths = maxpaths

    def run(self, fn):
        """returns list of (conds, result)"""
        out = []
        todo = [[]]
        saved = _forker[0]
        try:
            while todo:
                prefix = todo.pop()
                self.trace = list(prefix)
                self.pos = 0
                self.conds = []
                self.todo = todo
                self.known = {}
                _forker[0] = self
                res = fn()
                _forker[0] = None
                out.append((list(self.conds), res))
                if len(out) > self.maxpaths:
                    raise RuntimeError('too many specification paths')
        finally:
            _forker[0] = saved
        return out

    def decide(self, t):
        k = self.known.get(t.id)
        if k is not None:
            return k
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            _forker[0] = None
            try:
                if self.feasible is not None and not self.feasible(self.conds + [t]):
                    d = False
                    forced = True
                elif self.feasible is not None and not self.feasible(self.conds + [not_(t)]):
                    d = True
                    forced = True
                else:
                    d, forced = True, False
                    self.todo.append(self.trace[:self.pos] + [False])
            finally:
                _forker[0] = self
            self.trace.append(d)
        self.pos += 1
        self.conds.append(t if d else not_(t))
        self.known[t.id] = d
        self.known[not_(t).id] = not d
        return d


class NumForker(Forker):
    """evaluates a specification function at concrete inputs; remembers the decision tree"""

    def __init__(self, fn):
        self.fn = fn
        self.root = None
        self.env = None

    def at(self, env, memo):
        """result (terms) of the specification for the inputs env"""
        node = self.root
        self.path = []
        while node is not None:
            if node[0] is None:
                return node[1]
            self.path.append(node[0])
            d = bool(ev(node[0], env, memo))
            nxt = node[2][d]
            if nxt is None:
                break
            node = nxt
        self.env, self.memo = env, memo
        self.known = {}
        self.trace = []
        saved = _forker[0]
        _forker[0] = self
        try:
            res = self.fn()
        finally:
            _forker[0] = saved
        self.path = [t for t, d in self.trace]
        # insert into the tree
        leaf = (None, res, None)
        for t, d in reversed(self.trace):
            ch = [None, None]
            ch[d] = leaf
            leaf = (t, None, ch)
        if self.root is None:
            self.root = leaf
        else:
            a, b = self.root, leaf
            while a[0] is not None and b[0] is a[0]:
                d = 0 if b[2][0] is not None else 1
                if a[2][d] is None:
                    a[2][d] = b[2][d]
                    break
                a, b = a[2][d], b[2][d]
        return res

    def decide(self, t):
        k = self.known.get(t.id)
        if k is None:
            _forker[0] = None
            k = bool(ev(t, self.env, self.memo))
            _forker[0] = self
            self.trace.append((t, int(k)))
            self.known[t.id] = k
            self.known[not_(t).id] = not k
        return k


# ---------------------------------------------------------------------------
def subst(t, m):
    """m: {var term: term}"""
    memo = {k.id: const(v) for k, v in m.items()}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if not x.args:
            r = x
        else:
            na = [go(a) for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x, na)
        memo[x.id] = r
        return r
    return go(t)


_B = {'+': add, '*': mul, '/': div, 'sdiv': sdiv, 'srem': srem, 'fdiv': fdiv_, 'fmodi': fmodi,
      'sin': sin, 'cos': cos, 'sqrt': sqrt, 'atan2': atan2, 'exp': exp, 'log': log, 'pow': pow_,
      'abs': abs_, 'fmod': fmod, 'round': round_, 'trunc': trunc, 'floor': floor, 'r2i': r2i,
      'wrapS': wrapS, 'wrapP': wrapP, 'ite': ite, '==': eq, '<': lt, '<=': le, 'not': not_,
      'and': and_, 'i2r': toR}


def rebuild(x, na):
    f = _B.get(x.op)
    if f is not None:
        return f(*na)
    return _mk(x.op, tuple(na), x.sort, x.val)


def free_vars(ts):
    seen = set()
    out = []

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'v':
            out.append(x)
        for a in x.args:
            go(a)
    for t in ts:
        go(t)
    return out


def subterms(ts):
    seen = {}

    def go(x):
        if x.id in seen:
            return
        for a in x.args:
            go(a)
        seen[x.id] = x
    for t in ts:
        go(t)
    return list(seen.values())


def show(t, depth=6):
    if t.op == 'c':
        if t.sort == 'R':
            return repr(float(t.val)) if abs(t.val) < 10**300 else str(t.val)
        return str(t.val)
    if t.op == 'v':
        return t.val
    if depth == 0:
        return '..'
    a = [show(x, depth - 1) for x in t.args]
    if t.op in ('+', '*', '/', '==', '<', '<='):
        return '(' + (' %s ' % t.op).join(a) + ')'
    if t.op in ('i2r',):
        return a[0]
    if t.op == 'and':
        return '(' + ' && '.join(a) + ')'
    if t.op == 'not':
        return '!' + a[0]
    nm = t.op if t.op not in ('uf', 'sel') else t.val
    return '%s(%s)' % (nm, ', '.join(a))


# ---------------------------------------------------------------------------
class EvalError(Exception):
    pass


UF_EVAL = {'f32': _round32}


def _mpc(v):
    if isinstance(v, Fraction):
        return mp.mpf(v.numerator) / v.denominator
    return mp.mpf(v)


def ev(t, env, memo=None):
    """numeric evaluation at 40 digits; env: {var name: number} ('sel' names map to callables)"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == 'c':
            r = x.val if x.sort != 'R' else _mpc(x.val)
        elif op == 'v':
            if x.val not in env:
                raise EvalError('unbound ' + str(x.val))
            r = env[x.val]
            if x.sort == 'R' and not isinstance(r, mp.mpf):
                r = _mpc(Fraction(r)) if not isinstance(r, bool) else r
        elif op == 'ite':
            r = go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        elif op == 'and':
            r = True
            for a in x.args:
                if not go(a):
                    r = False
                    break
        elif op == 'sum':
            lo, hi = go(x.args[1]), go(x.args[2])
            r = mp.mpf(0)
            for k in range(int(lo), int(hi)):
                e2 = dict(env)
                e2[x.val] = k
                r += ev(x.args[0], e2)
        else:
            a = [go(y) for y in x.args]
            r = apply_op(x, a, env)
        memo[x.id] = r
        return r
    return go(t)


def apply_op(x, a, env):
    op = x.op
    if op == '+':
        return a[0] + a[1]
    if op == '*':
        return a[0] * a[1]
    if op == '/':
        if a[1] == 0:
            raise EvalError('division by zero')
        return a[0] / a[1]
    if op == 'i2r':
        return mp.mpf(a[0])
    if op == 'r2i':
        return int(a[0])
    if op == 'sin':
        return mp.sin(a[0])
    if op == 'cos':
        return mp.cos(a[0])
    if op == 'sqrt':
        if a[0] < 0:
            if a[0] > -1e-30:
                return mp.mpf(0)
            raise EvalError('sqrt of negative')
        return mp.sqrt(a[0])
    if op == 'atan2':
        if a[0] == 0 and a[1] == 0:
            return mp.mpf(0)
        return mp.atan2(a[0], a[1])
    if op == 'exp':
        return mp.exp(a[0])
    if op == 'log':
        if a[0] <= 0:
            raise EvalError('log domain')
        return mp.log(a[0])
    if op == 'pow':
        if a[0] < 0 or (a[0] == 0 and a[1] <= 0):
            raise EvalError('pow domain')
        return mp.power(a[0], a[1])
    if op == 'abs':
        return abs(a[0])
    if op == 'fmod':
        if a[1] == 0:
            raise EvalError('fmod')
        r = mp.fmod(abs(a[0]), abs(a[1]))
        return r if a[0] >= 0 else -r
    if op == 'round':
        v = mp.floor(abs(a[0]) + mp.mpf(1) / 2)
        return v if a[0] >= 0 else -v
    if op == 'trunc':
        v = mp.floor(abs(a[0]))
        return v if a[0] >= 0 else -v
    if op == 'floor':
        return mp.floor(a[0])
    if op == 'sdiv':
        if a[1] == 0:
            raise EvalError('sdiv')
        q = abs(a[0]) // abs(a[1])
        return q if (a[0] >= 0) == (a[1] >= 0) else -q
    if op == 'srem':
        if a[1] == 0:
            raise EvalError('srem')
        q = abs(a[0]) // abs(a[1])
        q = q if (a[0] >= 0) == (a[1] >= 0) else -q
        return a[0] - q * a[1]
    if op == 'fdiv':
        return a[0] // a[1]
    if op == 'fmodi':
        return a[0] % a[1]
    if op == 'wrapS':
        v, full, half = a
        r = mp.fmod(abs(v), full)
        r = r if v >= 0 else -r
        if abs(r) >= half:
            r = r - full if v >= 0 else r + full
        return r
    if op == 'wrapP':
        v, full = a
        r = mp.fmod(abs(v), full)
        r = r if v >= 0 else -r
        if r < 0:
            r += full
        return r
    if op == '==':
        return a[0] == a[1]
    if op == '<':
        return a[0] < a[1]
    if op == '<=':
        return a[0] <= a[1]
    if op == 'not':
        return not a[0]
    if op == 'sel':
        f = env.get(x.val)
        if f is None:
            raise EvalError('unbound array ' + x.val)
        v = f(*a)
        return v if isinstance(v, mp.mpf) else _mpc(Fraction(v))
    if op == 'uf':
        f = UF_EVAL.get(x.val)
        if f is None:
            raise EvalError('no evaluator for ' + x.val)
        return f(*a)
    raise EvalError('op ' + op)


# ---------------------------------------------------------------------------
def diff(t, d):
    """directional derivative: d maps variable terms to their rates (others are constant)"""
    memo = {k.id: const(v) for k, v in d.items()}
    Z = rconst(0)

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ('c', 'v'):
            r = Z
        else:
            a = x.args
            if x.op == '+':
                r = go(a[0]) + go(a[1])
            elif x.op == '*':
                r = go(a[0]) * a[1] + a[0] * go(a[1])
            elif x.op == '/':
                r = (go(a[0]) * a[1] - a[0] * go(a[1])) / (a[1] * a[1])
            elif x.op == 'sin':
                r = cos(a[0]) * go(a[0])
            elif x.op == 'cos':
                r = -sin(a[0]) * go(a[0])
            elif x.op == 'sqrt':
                g = go(a[0])
                r = Z if g is Z else g / (2 * x)
            elif x.op == 'atan2':
                r = (go(a[0]) * a[1] - a[0] * go(a[1])) / (a[0] * a[0] + a[1] * a[1])
            elif x.op == 'exp':
                r = x * go(a[0])
            elif x.op == 'log':
                r = go(a[0]) / a[0]
            elif x.op in ('wrapS', 'wrapP', 'fmod'):
                r = go(a[0])
            elif x.op == 'pow' and isc(a[1]):
                r = a[1] * pow_(a[0], a[1].val - 1) * go(a[0])
            else:
                if any(go(y) is not Z for y in a):
                    raise TypeError('derivative of ' + x.op)
                r = Z
        memo[x.id] = r
        return r
    return go(t)


def margin(conds, env, memo):
    """smallest relative distance from a boundary among the (inexact) real comparisons in conds"""
    best = 1.0
    for t in subterms(conds):
        if t.op in ('<', '<=', '==') and t.args[0].sort == 'R':
            a, b = t.args
            if all(x.op in ('c', 'v', 'i2r') for x in (a, b)):
                continue
            try:
                x, y = ev(a, env, memo), ev(b, env, memo)
            except EvalError:
                continue
            sc = abs(x) + abs(y)
            if a.op == '+' or b.op == '+':
                for u in (a, b):
                    if u.op == '+':
                        for w in u.args:
                            try:
                                sc = max(sc, abs(ev(w, env, memo)))
                            except EvalError:
                                pass
            if sc == 0:
                return 0.0
            best = min(best, float(abs(x - y) / sc))
    return best
