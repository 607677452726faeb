"""z3 back end: path feasibility, side obligations, inequalities and integer reasoning.

Transcendental subterms are abstracted as real constants constrained by the (trusted) axioms below.
"""
import time
import math
from fractions import Fraction
import z3
from . import term as tm
from .term import T

PI = Fraction(math.pi)


class Solver(object):
    def __init__(self, timeout=3000, ftimeout=400):
        self.timeout = timeout
        self.ftimeout = ftimeout
        self.cache = {}
        self.zc = {}
        self.ax = {}          # term id -> list of z3 axioms
        self.deps = {}        # term id -> frozenset of atom ids below
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.facts = []
        self.by = 'z3'
        self.cmemo = {}
        self.creg = {}
        self.cnorm = None
        self.ctol = 1e-12

    # -- translation --------------------------------------------------------
    def z(self, t):
        r = self.zc.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == 'c':
            if t.sort == 'B':
                r = z3.BoolVal(t.val)
            elif t.sort == 'I':
                r = z3.IntVal(t.val)
            else:
                r = z3.Q(t.val.numerator, t.val.denominator)
            self.deps[t.id] = frozenset()
            self.zc[t.id] = r
            return r
        if op == 'v':
            nm = '%s#%s' % (t.val, t.sort)
            r = z3.Real(nm) if t.sort == 'R' else z3.Int(nm) if t.sort == 'I' else z3.Bool(nm)
            self.deps[t.id] = frozenset()
            self.zc[t.id] = r
            return r
        a = [self.z(x) for x in t.args]
        d = frozenset().union(*[self.deps[x.id] for x in t.args]) if t.args else frozenset()
        atom = False
        if op == '+':
            r = a[0] + a[1]
        elif op == '*':
            r = a[0] * a[1]
        elif op == '/':
            # q * b == a
            r = z3.Real('div!%d' % t.id)
            self.ax[t.id] = [z3.Implies(a[1] != 0, r * a[1] == a[0])]
            atom = True
        elif op == 'i2r':
            r = z3.ToReal(a[0])
        elif op == '==':
            r = a[0] == a[1]
        elif op == '<':
            r = a[0] < a[1]
        elif op == '<=':
            r = a[0] <= a[1]
        elif op == 'not':
            r = z3.Not(a[0])
        elif op == 'and':
            r = z3.And(*a)
        elif op == 'ite':
            r = z3.If(a[0], a[1], a[2])
        elif op == 'abs':
            r = z3.If(a[0] >= 0, a[0], -a[0])
        elif op in ('wrapS', 'wrapP'):
            # definition through the remainder of the division by a full turn
            f = tm.fmod(t.args[0], t.args[1])
            zf = self.z(f)
            d = d | self.deps[f.id]
            if op == 'wrapS':
                r = z3.If(z3.And(zf < a[2], -zf < a[2]), zf, z3.If(a[0] >= 0, zf - a[1], zf + a[1]))
            else:
                r = z3.If(zf >= 0, zf, zf + a[1])
        elif op in ('sdiv', 'srem'):
            x, y = a
            b = t.args[1]
            if tm.isc(b) and b.val > 0:
                q = z3.If(x >= 0, x / y, -((-x) / y))
            else:
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            r = q if op == 'sdiv' else x - y * q
        elif op == 'fdiv':
            r = a[0] / a[1]
        elif op == 'fmodi':
            r = a[0] % a[1]
        elif op in ('r2i', 'trunc', 'round', 'floor'):
            n = z3.Int('%s!%d' % (op, t.id))
            x = a[0]
            h = z3.Q(1, 2)
            if op in ('r2i', 'trunc'):
                ax = [z3.Implies(x >= 0, z3.And(z3.ToReal(n) <= x, x < z3.ToReal(n) + 1)),
                      z3.Implies(x < 0, z3.And(z3.ToReal(n) >= x, x > z3.ToReal(n) - 1))]
            elif op == 'round':
                ax = [z3.Implies(x >= 0, z3.And(z3.ToReal(n) - h <= x, x < z3.ToReal(n) + h)),
                      z3.Implies(x < 0, z3.And(z3.ToReal(n) + h >= x, x > z3.ToReal(n) - h))]
            else:
                ax = [z3.ToReal(n) <= x, x < z3.ToReal(n) + 1]
            self.ax[t.id] = ax
            atom = True
            r = n if op == 'r2i' else z3.ToReal(n)
        elif op == 'sel' and t.sort == 'I' and all(x.sort == 'I' for x in t.args):
            r = z3.Function('[%s]' % t.val, *([z3.IntSort()] * (len(a) + 1)))(*a)
            atom = True
        else:
            nm = '%s!%d' % (op, t.id)
            r = z3.Real(nm) if t.sort == 'R' else (z3.Int(nm) if t.sort == 'I' else z3.Bool(nm))
            self.ax[t.id] = self.axioms(t, r, a)
            atom = True
        if atom:
            d = d | {t.id}
        self.deps[t.id] = d
        self.zc[t.id] = r
        return r

    def axioms(self, t, r, a):
        op = t.op
        pi = z3.Q(PI.numerator, PI.denominator)
        if op in ('sin', 'cos'):
            ax = [r <= 1, r >= -1]
            other = tm.cos(t.args[0]) if op == 'sin' else tm.sin(t.args[0])
            z = self.zc.get(other.id)
            if z is not None:
                ax.append(('nl', r * r + z * z == 1, other.id))
            return ax
        if op == 'sqrt':
            return [r >= 0, z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] <= 0, r == 0),
                    ('nl', z3.Implies(a[0] >= 0, r * r == a[0]), None)]
        if op == 'atan2':
            y, x = a
            return [r <= pi, r >= -pi, z3.Implies(y > 0, r > 0), z3.Implies(y < 0, r < 0),
                    z3.Implies(z3.And(y == 0, x >= 0), r == 0), z3.Implies(z3.And(y == 0, x < 0), r == pi),
                    z3.Implies(x > 0, z3.And(r < pi / 2, r > -pi / 2)),
                    z3.Implies(z3.And(x >= 0), z3.And(r <= pi / 2, r >= -pi / 2)),
                    z3.Implies(z3.And(x < 0, y >= 0), r > pi / 2), z3.Implies(z3.And(x < 0, y < 0), r < -pi / 2)]
        if op == 'exp':
            return [r > 0, z3.Implies(a[0] <= 0, r <= 1), z3.Implies(a[0] >= 0, r >= 1)]
        if op == 'log':
            return [z3.Implies(a[0] > 1, r > 0), z3.Implies(z3.And(a[0] < 1, a[0] > 0), r < 0)]
        if op == 'pow':
            return [z3.Implies(a[0] > 0, r > 0)]
        if op == 'fmod':
            k = z3.Int('k!%d' % t.id)
            x, m = a
            return [z3.Implies(m > 0, z3.And(x == m * z3.ToReal(k) + r if not _isq(t.args[1]) else x == m * z3.ToReal(k) + r,
                                             z3.Implies(x >= 0, z3.And(r >= 0, r < m, k >= 0)),
                                             z3.Implies(x <= 0, z3.And(r <= 0, r > -m, k <= 0))))]
        return []

    def assemble(self, terms, nl=True):
        zs = [self.z(t) for t in terms]
        need = set()
        for t in terms:
            need |= self.deps[t.id]
        ax = []
        done = set()
        todo = list(need)
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            for x in self.ax.get(i, ()):
                if isinstance(x, tuple):
                    if nl and (x[2] is None or x[2] in need):
                        ax.append(x[1])
                else:
                    ax.append(x)
        return zs + ax

    def add_pairs(self, terms):
        """make sure sin/cos of one argument are linked when both occur"""
        pass

    def check(self, terms, timeout, nl=True):
        self.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.set('random_seed', 1)
        for x in self.assemble(terms, nl):
            s.add(x)
        for f in self.facts:
            s.add(self.z(f))
        r = s.check()
        self.time += time.time() - t0
        return r, s

    def feasible(self, conds):
        conds = [c for c in conds if not (tm.isc(c) and c.val)]
        if any(tm.isc(c) and not c.val for c in conds):
            return False
        conds = prop_reduce([self.canon(c) for c in conds])
        if conds is None:
            return False
        key = frozenset(c.id for c in conds)
        r = self.cache.get(key)
        if r is None:
            res, _ = self.check(conds, self.ftimeout)
            if res == z3.unknown:
                res, _ = self.check(conds, self.ftimeout, nl=False)
            r = res != z3.unsat
            self.cache[key] = r
        return r

    # -- comparisons that are the same up to algebra become the same term -----------------
    def canon(self, c):
        r = self.cmemo.get(c.id)
        if r is not None:
            return r
        r = c
        if c.op in ('and', 'not'):
            a = [self.canon(x) for x in c.args]
            r = tm.and_(*a) if c.op == 'and' else tm.not_(a[0])
        elif c.op in ('<', '<=', '==') and c.args[0].sort == 'R':
            r = self.canon_cmp(c)
        self.cmemo[c.id] = r
        return r

    def canon_cmp(self, c):
        from .norm import Norm, Blowup, Decimal
        a, b = c.args
        if self.cnorm is None:
            self.cnorm = Norm(self.ctol, limit=3000)
        n = self.cnorm
        n.deadline = time.time() + 0.3
        try:
            num, den = n.norm(a - b)
        except (Blowup, ArithmeticError, RecursionError):
            return c
        if not num:
            return tm.const(c.op != '<')
        if len(num) == 1 and () in num and not den:
            return c
        k = num[min(num)][0]
        p = {m: (v / abs(k), x / float(abs(k))) for m, (v, x) in num.items()}
        key = (tuple(sorted(num)), den)
        for q, ra, rb in self.creg.get(key, ()):
            for sg in (1, -1):
                if all(abs(v - sg * q[m][0]) <= Decimal(self.ctol) * Decimal(x + q[m][1]) for m, (v, x) in p.items()):
                    x, y = (ra, rb) if sg == 1 else (rb, ra)
                    return {'<': tm.lt, '<=': tm.le, '==': tm.eq}[c.op](x, y) if c.op != '==' else tm.eq(ra, rb)
        self.creg.setdefault(key, []).append((p, a, b))
        return c

    def implied(self, hyps, c):
        c = tm.const(c)
        if tm.isc(c):
            return c.val
        if self.bounds(hyps).holds(c):
            return True
        return not self.feasible(list(hyps) + [tm.not_(c)])

    def prove(self, hyps, goal, timeout=None):
        """'proved' | 'refuted' (with abstract model) | 'unknown'"""
        goal = tm.const(goal)
        if tm.isc(goal) and goal.val:
            return 'proved', None
        for h in hyps:
            if h is goal:
                return 'proved', None
        self.by = 'z3'
        if self.bounds(hyps).holds(goal):
            self.by = 'interval'
            return 'proved', None
        ts = [h for h in hyps if not (tm.isc(h) and h.val)] + [tm.not_(goal)]
        # relevance: try with all hypotheses first
        r, s = self.check(ts, timeout or self.timeout)
        if r == z3.unsat:
            return 'proved', None
        if r == z3.unknown:
            r2, s2 = self.check(ts, (timeout or self.timeout) / 2, nl=False)
            if r2 == z3.unsat:
                return 'proved', None
            if r2 == z3.sat:
                return 'unknown', self.extract(s2)
            self.unknowns += 1
            return 'unknown', None
        return 'refuted', self.extract(s)

    def bounds(self, hyps):
        from .intarith import Bounds
        k = tuple(h.id for h in hyps)
        if getattr(self, '_bk', None) != k:
            self._bk = k
            self._b = Bounds(hyps)
        return self._b

    def model(self, conds, timeout=1500):
        r, s = self.check(conds, timeout)
        if r == z3.sat:
            return self.extract(s)
        if r == z3.unknown:
            r, s = self.check(conds, timeout, nl=False)
            if r == z3.sat:
                return self.extract(s)
        return None

    def extract(self, s):
        m = s.model()
        out = {}
        for d in m.decls():
            nm = d.name()
            if '#' not in nm:
                continue
            v = m[d]
            name = nm.rsplit('#', 1)[0]
            try:
                if z3.is_int_value(v):
                    out[name] = v.as_long()
                elif z3.is_rational_value(v):
                    out[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    q = v.approx(30)
                    out[name] = Fraction(q.numerator_as_long(), q.denominator_as_long())
                elif z3.is_true(v) or z3.is_false(v):
                    out[name] = z3.is_true(v)
            except Exception:
                pass
        return out


def _isq(t):
    return tm.isc(t)


def prop_reduce(conds):
    """propositional simplification: conjunctions split, literals propagated, implied conditions dropped;
    None when contradictory"""
    lits = {}
    comp = []
    todo = list(conds)
    while todo:
        c = todo.pop()
        if tm.isc(c):
            if not c.val:
                return None
            continue
        if c.op == 'and':
            todo.extend(c.args)
        elif c.op == 'not' and c.args[0].op == 'and':
            comp.append(c)
        else:
            lits[c.id] = c
    changed = True
    while changed:
        changed = False
        rest = []
        for c in comp:
            unk = []
            sat = False
            for a in c.args[0].args:            # not (a1 & a2 & ...)
                v = _pval(a, lits)
                if v is False:
                    sat = True
                    break
                if v is None:
                    unk.append(a)
            if sat:
                changed = True
                continue
            if not unk:
                return None
            if len(unk) == 1:
                n = tm.not_(unk[0])
                changed = True
                st = [n]
                while st:
                    x = st.pop()
                    if x.op == 'and':
                        st.extend(x.args)
                    elif x.op == 'not' and x.args[0].op == 'and':
                        rest.append(x)
                    else:
                        lits[x.id] = x
                continue
            rest.append(c)
        comp = rest
    for c in lits.values():
        if tm.not_(c).id in lits:
            return None
    return list(lits.values()) + comp


def _pval(a, lits):
    if tm.isc(a):
        return a.val
    if a.id in lits:
        return True
    if tm.not_(a).id in lits:
        return False
    if a.op == 'and':
        vs = [_pval(x, lits) for x in a.args]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
        return None
    if a.op == 'not':
        v = _pval(a.args[0], lits)
        return None if v is None else not v
    return None
