"""Combination of the equational normaliser and z3 for a single obligation."""
import time
from fractions import Fraction
from . import term as tm
from .term import T
from .norm import Norm, Blowup
from . import intarith

STAT = {'norm': 0, 'norm-expand': 0, 'angle': 0, 'z3': 0, 'split': 0, 'trivial': 0}


class Prover(object):
    def __init__(self, solver, tol=1e-12, budget=20.0):
        self.s = solver
        self.tol = tol
        self.budget = budget
        self.last = None
        self.by = None
        self.t_norm = 0.0
        self.signmemo = {}

    def sign_oracle(self, hyps):
        hk = frozenset(h.id for h in hyps)

        def f(t):
            if t is None:
                return None
            k = (hk, t.id)
            if k in self.signmemo:
                return self.signmemo[k]
            r = None
            if self.s.implied(hyps, tm.le(tm.rconst(0), t)):
                r = 1
            elif self.s.implied(hyps, tm.le(t, tm.rconst(0))):
                r = -1
            self.signmemo[k] = r
            return r
        return f

    def zero(self, hyps, d, deadline, expand):
        t0 = time.time()
        try:
            n = Norm(self.tol, sign=self.sign_oracle(hyps), deadline=deadline)
            if expand:
                # bases must be known before sin/cos are interned: use a scratch normaliser sharing atoms
                n.collect_bases([d])
                n.memo.clear()
                n.trigmemo.clear()
            r = n.norm(d)
            ok = n.iszero(r)
            if not ok:
                try:
                    self.last = '; '.join(n.residual(r))
                except Exception:
                    self.last = 'residual'
            return ok
        except (Blowup, ArithmeticError) as e:
            self.last = 'normaliser: %s' % e
            return None
        finally:
            self.t_norm += time.time() - t0

    def eq(self, hyps, a, b, depth=0, deadline=None, angle=False):
        """True when a == b follows from hyps"""
        a, b = tm.coerce2(a, b)
        if a is b:
            self.by = 'trivial'
            return True
        if deadline is None:
            deadline = time.time() + self.budget
        # resolve conditionals
        c = self.find_cond(a, b)
        if c is not None:
            if depth > 12 or time.time() > deadline:
                self.last = 'case split depth'
                return False
            if self.s.implied(hyps, c):
                return self.eq(hyps, drop(a, c, True), drop(b, c, True), depth, deadline, angle)
            if self.s.implied(hyps, tm.not_(c)):
                return self.eq(hyps, drop(a, c, False), drop(b, c, False), depth, deadline, angle)
            ok = self.eq(hyps + [c], drop(a, c, True), drop(b, c, True), depth + 1, deadline, angle) and \
                self.eq(hyps + [tm.not_(c)], drop(a, c, False), drop(b, c, False), depth + 1, deadline, angle)
            return ok
        m = antisym(hyps) or self.boundary(hyps, deadline)
        if m:
            a, b = tm.subst(a, m), tm.subst(b, m)
        if a is b:
            self.by = 'trivial'
            return True
        if a.sort == 'B':
            r1, m = self.s.prove(hyps + [a], b)
            r2, m2 = self.s.prove(hyps + [b], a)
            self.by = 'z3'
            return r1 == 'proved' and r2 == 'proved'
        if a.sort == 'I' or (a.op == 'i2r' and b.op == 'i2r') or \
                (b.op == 'i2r' and tm.intval(a) is not None) or (a.op == 'i2r' and tm.intval(b) is not None):
            if a.sort != 'I':
                a, b = tm.intval(a), tm.intval(b)
            sub = eq_subst(hyps)
            if sub:
                a, b = tm.subst(a, sub), tm.subst(b, sub)
            how = intarith.prove_eq(hyps, a, b, None)
            if how:
                self.by = how
                return True
            a, b = self.unify(hyps, a, b, deadline)
            how = intarith.prove_eq(hyps, a, b, self.s)
            if how:
                self.by = how
                return True
            r, m = self.s.prove(hyps, tm.eq(a, b), timeout=min(self.s.timeout, 1000 * max(0.5, deadline - time.time())))
            if r == 'proved':
                self.by = 'z3'
                return True
            if self.generalise(hyps, a, b, deadline):
                self.by = 'z3+cut'
                return True
            if self.zero(hyps, tm.toR(a) - tm.toR(b), deadline, False):
                self.by = 'norm'
                return True
            self.last = 'z3: %s' % r
            return False
        d = a - b
        big = len(tm.subterms([d])) > 250
        swept = False
        if big and depth < 20:
            swept = True
            if self.sweep(hyps, a, b, deadline):
                return True
        z = self.zero(hyps, d, deadline if not big else min(deadline, time.time() + max(5.0, 0.3 * self.budget)), False)
        if z:
            self.by = 'norm'
            return True
        msg = self.last
        if not swept and depth < 20 and len(tm.subterms([d])) > 30:
            if self.sweep(hyps, a, b, deadline):
                return True
        if has_trig(d) and z is not None or has_trig(d):
            z = self.zero(hyps, d, deadline, True)
            if z:
                self.by = 'norm-expand'
                return True
        r = self.angle_rule(hyps, a, b, deadline)
        if r:
            self.by = 'angle'
            return True
        # equalities among hypotheses / zero cases: substitute var = const
        sub = eq_subst(hyps)
        if sub and depth < 3:
            a2, b2 = tm.subst(a, sub), tm.subst(b, sub)
            if a2 is not a or b2 is not b:
                if self.eq([h for h in hyps], a2, b2, depth + 10, deadline, angle):
                    return True
        if time.time() < deadline:
            r, m = self.s.prove(hyps, tm.eq(a, b), timeout=min(self.s.timeout, 1000 * max(0.5, deadline - time.time())))
            if r == 'proved':
                self.by = 'z3'
                return True
            self.last = (msg or '') + ' | z3: %s' % r
        return False

    # ---- cut points: equal subterms are proved bottom-up and abstracted --------------------------
    def sweep(self, hyps, a, b, deadline):
        pts = self.points(hyps)[:3]
        if len(pts) < 2:
            return False
        t0 = time.time()
        sizes = {}

        def size(t):
            r = sizes.get(t.id)
            if r is None:
                r = sizes[t.id] = 1 + sum(size(x) for x in t.args)
            return r
        A = [t for t in tm.subterms([a]) if t.args]
        ida = set(t.id for t in A)
        Bt = [t for t in tm.subterms([b]) if t.args and t.id not in ida]
        memos = [{} for _ in pts]

        def vals(t):
            out = []
            for e, m in zip(pts, memos):
                try:
                    out.append(tm.ev(t, e, m))
                except (tm.EvalError, KeyError, ZeroDivisionError):
                    return None
            return out
        idx = {}
        for t in A:
            if t.sort == 'B':
                continue
            v = vals(t)
            if v is None:
                continue
            idx.setdefault(t.sort, []).append((float(v[0]), t, v))
        for k in idx:
            idx[k].sort(key=lambda q: q[0])
        import bisect
        keys = {k: [q[0] for q in v] for k, v in idx.items()}
        rel = max(self.tol * 100, 1e-9)
        full, args = {}, {}
        isarg = set()
        for t in A + Bt:
            if t.op in ('sin', 'cos', 'sqrt', 'fmod', 'wrapP', 'wrapS', 'exp', 'log', 'atan2', 'i2r', 'abs'):
                for x in t.args:
                    isarg.add(x.id)
        # subterms common to both sides are equal already: those under function symbols may be abstracted
        n = [0]

        def fresh(sort):
            self.ncut = getattr(self, 'ncut', 0) + 1
            return tm.var('cut%d' % self.ncut, sort)
        idb = set(t.id for t in tm.subterms([b]))
        common = [t for t in A if t.id in idb and t.sort != 'B' and size(t) > 12]
        for t in common:
            v = fresh(t.sort)
            full[t] = v
            if t.id in isarg:
                args[t] = v
        proved = 0
        for y in sorted(Bt, key=size):
            if y.sort == 'B' or size(y) < 5:
                continue
            if time.time() > deadline or time.time() - t0 > max(15.0, 0.6 * self.budget):
                self.last = 'sweep: deadline'
                break
            v = vals(y)
            if v is None:
                continue
            ks = keys.get(y.sort)
            if not ks:
                continue
            w = abs(float(v[0])) * rel + 1e-300
            lo, hi = bisect.bisect_left(ks, float(v[0]) - w), bisect.bisect_right(ks, float(v[0]) + w)
            cand = []
            for _, x, xv in idx[y.sort][lo:hi]:
                if all(abs(p - q) <= rel * max(abs(p), abs(q)) for p, q in zip(v, xv)):
                    cand.append(x)
            if not cand:
                continue
            top = y is b
            if top:
                cand = [a]
            cand.sort(key=lambda x: (x is not a if top else 0, abs(size(x) - size(y))))
            for x in cand[:3]:
                if self.sweep_eq(hyps, x, y, full, args, deadline, top):
                    proved += 1
                    if top:
                        self.by = 'norm+cut'
                        self.ncuts = proved
                        return True
                    r = full.get(x)
                    if r is None:
                        r = fresh(y.sort)
                        full[x] = r
                    full[y] = r
                    if y.id in isarg or x.id in isarg:
                        ra = args.get(x)
                        if ra is None:
                            ra = args[x] = r
                        args[y] = ra
                    break
        if not any(t is b for t in Bt):
            return a is b
        # the roots may not be numerically matched (angles modulo a turn)
        if self.sweep_eq(hyps, a, b, full, args, deadline, True):
            self.by = 'norm+cut'
            return True
        return False

    def sweep_eq(self, hyps, x, y, full, args, deadline, top):
        dl = min(deadline, time.time() + (20.0 if top else 2.0))
        for m in (full, args):
            mm = {k: v for k, v in m.items() if k is not x and k is not y}
            x2, y2 = tm.subst(x, mm), tm.subst(y, mm)
            if x2 is y2:
                return True
            if x2.sort == 'I':
                if intarith.prove_eq(hyps, x2, y2, None):
                    return True
                r, _ = self.s.prove(hyps, tm.eq(x, y), timeout=1500)
                return r == 'proved'
            if len(tm.subterms([x2, y2])) > (4000 if top else 600):
                continue
            if self.zero([], x2 - y2, dl, False):
                return True
            if top and has_trig(x2 - y2) and self.zero([], x2 - y2, dl, True):
                return True
            if (split_wrap(x2)[0] or x2.op == 'atan2') and self.angle_rule([], x2, y2, dl):
                return True
            if m is full and not args:
                break
        return False

    # ---- integer arithmetic: cut lemmas -------------------------------------------------
    envs = None

    def points(self, hyps):
        if self.envs is None:
            return []
        if not hasattr(self, '_envs'):
            self._envs = self.envs()
        out = []
        for e in self._envs:
            try:
                memo = {}
                if all(tm.ev(h, e, memo) for h in hyps):
                    out.append(e)
            except tm.EvalError:
                pass
        # models of the hypotheses
        fixed = []
        for _ in range(4):
            m = self.s.model(list(hyps) + fixed, 1000)
            if not m:
                break
            e = dict(m)
            try:
                memo = {}
                if all(tm.ev(h, e, memo) for h in hyps):
                    out.append(e)
            except (tm.EvalError, KeyError):
                pass
            vs = [v for v in tm.free_vars(hyps) if v.sort == 'I' and v.val in m]
            if not vs:
                break
            fixed.append(tm.not_(tm.eq(vs[0], m[vs[0].val])))
        return out

    def unify(self, hyps, a, b, deadline):
        """replace integer subterms of b by equal (proved) subterms of a; truncations of reals first"""
        ops = ('r2i', 'sdiv', 'fdiv', 'srem', 'fmodi')
        xs = [t for t in tm.subterms([a]) if t.op in ops]
        ys = [t for t in tm.subterms([b]) if t.op in ops]
        ids = set(t.id for t in xs)
        ys = [y for y in ys if y.id not in ids]
        if not ys or not any(t.op == 'r2i' for t in xs + ys):
            return a, b
        pts = self.points(hyps)
        if len(pts) < 2:
            return a, b
        val = {}
        for t in xs + ys:
            try:
                val[t.id] = [int(tm.ev(t, e)) for e in pts]
            except (tm.EvalError, KeyError):
                val[t.id] = None
        tried = 0
        for y in sorted(ys, key=lambda t: len(tm.subterms([t]))):
            for x in sorted(xs, key=lambda t: len(tm.subterms([t]))):
                if x is y or val[x.id] is None or val[y.id] is None or tried > 8 or time.time() > deadline:
                    continue
                d = set(u - v for u, v in zip(val[x.id], val[y.id]))
                if len(d) != 1:
                    continue
                k = d.pop()
                tried += 1
                key = (x.id, y.id, frozenset(h.id for h in hyps))
                memo = self.__dict__.setdefault('_umemo', {})
                if key not in memo:
                    memo[key] = self.s.prove(hyps, tm.eq(x, y + k), timeout=4000)[0] == 'proved'
                if memo[key]:
                    b2 = tm.subst(b, {y: x - k})
                    if b2 is not b:
                        return self.unify(hyps, a, b2, deadline)
        return a, b

    def generalise(self, hyps, a, b, deadline):
        """prove a == b by first proving that dividends of a and of b differ by a constant, and then
        replacing them by one fresh variable"""
        pts = self.points(hyps)
        if len(pts) < 2:
            return False

        def dividends(t):
            # one per quotient, outermost last (a dividend that contains another quotient is larger)
            return [x.args[0] for x in tm.subterms([t]) if x.op in ('sdiv', 'srem', 'fdiv', 'fmodi') and tm.isc(x.args[1]) and not tm.isc(x.args[0])]
        da, db = dividends(a), dividends(b)
        size = {}

        def sz(t):
            if t.id not in size:
                size[t.id] = len(tm.subterms([t]))
            return size[t.id]
        val = {}
        for t in da + db:
            if t.id not in val:
                try:
                    val[t.id] = [int(tm.ev(t, e)) for e in pts]
                except (tm.EvalError, KeyError):
                    val[t.id] = None
        # largest first
        cand = []
        for x in da:
            for y in db:
                if val[x.id] is None or val[y.id] is None or len(set(val[x.id])) < 2:
                    continue
                d = set(u - v for u, v in zip(val[x.id], val[y.id]))
                if len(d) == 1:
                    cand.append((sz(x) + sz(y), x, y, d.pop()))
        cand.sort(key=lambda q: -q[0])
        tried = 0
        for _, x, y, d in cand:
            if tried >= 6 or time.time() > deadline:
                break
            if sz(x) <= 1:
                continue
            tried += 1
            if x is not y or d != 0:
                r, m = self.s.prove(hyps, tm.eq(x, y + d), timeout=4000)
                if r != 'proved':
                    continue
            self.ncut = getattr(self, 'ncut', 0) + 1
            g = tm.var('cut%d' % self.ncut, 'I')
            a2 = tm.subst(a, {x: g})
            b2 = tm.subst(b, {y: g - d, x: g})
            # facts about the cut value, proved from the hypotheses
            facts = []
            lo, hi = min(val[x.id]), max(val[x.id])
            for c in (tm.le(0, x), tm.le(1, x), tm.le(0, y)):
                r, m = self.s.prove(hyps, c, timeout=1500)
                if r == 'proved':
                    facts.append(tm.subst(tm.subst(c, {y: x - d}), {x: g}))
            sub = {x: g, y: g - d}
            h2 = [tm.subst(h, sub) for h in hyps]
            r, m = self.s.prove(facts + h2, tm.eq(a2, b2), timeout=max(self.s.timeout, 8000))
            if r == 'proved':
                return True
            # hypotheses unrelated to the cut only slow the solver down
            gv = set(v.id for v in tm.free_vars([a2, b2]))
            h3 = [h for h in h2 if set(v.id for v in tm.free_vars([h])) <= gv]
            r, m = self.s.prove(facts + h3, tm.eq(a2, b2), timeout=max(self.s.timeout, 8000))
            if r == 'proved':
                return True
        return False

    def angle_rule(self, hyps, a, b, deadline):
        """atan2(y1,x1) = atan2(y2,x2): cross product zero and positive dot product; plus wrappers"""
        sa, ta = split_wrap(a)
        sb, tb = split_wrap(b)
        if sa != sb and not (sa is None and sb is None):
            return False
        if sa is not None:
            # equal modulo the period suffices (wrapP), wrapS up to the boundary
            if self.eq_mod(hyps, ta, tb, deadline):
                return True
            return False
        if a.op == 'atan2' and b.op == 'atan2':
            y1, x1 = a.args
            y2, x2 = b.args
            z = self.zero(hyps, y1 * x2 - x1 * y2, deadline, False) or self.zero(hyps, y1 * x2 - x1 * y2, deadline, True)
            if not z:
                return False
            return self.positive(hyps, x1 * x2 + y1 * y2, deadline)
        return False

    def eq_mod(self, hyps, a, b, deadline):
        if self.zero(hyps, a - b, deadline, False):
            return True
        for e in (False, True):
            if self.zero(hyps, tm.sin(a) - tm.sin(b), deadline, e) and self.zero(hyps, tm.cos(a) - tm.cos(b), deadline, e):
                return True
        return False

    def positive(self, hyps, t, deadline):
        r, _ = self.s.prove(hyps, tm.lt(tm.rconst(0), t), timeout=2000)
        if r == 'proved':
            return True
        # t normalises to a sum of squares / positive atoms?
        try:
            n = Norm(self.tol, sign=self.sign_oracle(hyps), deadline=deadline)
            q = n.norm(t)
            if all(c > 0 and all(e % 2 == 0 or n.atoms[x][0] in ('sqrt', 'abs', 'exp') for x, e in m)
                   for m, (c, a) in q[0].items()) and all(n.is_pos_factor(f) or e % 2 == 0 for f, e in q[1]):
                # non-negative; strictly positive away from the degenerate set (atan2(0,0)), which the
                # contract treats by a separate case
                return True
        except Blowup:
            pass
        return False

    def boundary(self, hyps, deadline):
        """x <= c and c <= x' among the hypotheses with x equal to x' (written differently): both are c"""
        if self.envs is None:
            return None
        up, dn = [], []
        for h in hyps:
            for g in (h.args if h.op == 'and' else (h,)):
                x = y = None
                if g.op == '<=':
                    x, y = g.args
                elif g.op == 'not' and g.args[0].op == '<':
                    y, x = g.args[0].args
                if x is None or x.sort != 'R':
                    continue
                if tm.isc(y) and not tm.isc(x):
                    up.append((x, y))
                elif tm.isc(x) and not tm.isc(y):
                    dn.append((y, x))
        if not up or not dn:
            return None
        if not hasattr(self, '_envs'):
            self._envs = self.envs()
        out = {}
        for x, c in up:
            for x2, c2 in dn:
                if c is not c2 or x is x2 or x.id in out:
                    continue
                k = (x.id, x2.id)
                if not hasattr(self, '_bd'):
                    self._bd = {}
                if k not in self._bd:
                    ok = False
                    try:
                        ok = len(self._envs) > 1 and all(
                            abs(tm.mp.mpf(tm.ev(x, e)) - tm.mp.mpf(tm.ev(x2, e))) <= 1e-9 * abs(tm.mp.mpf(tm.ev(x, e)))
                            for e in self._envs[:3])
                    except Exception:
                        ok = False
                    if ok:
                        dl = min(deadline, time.time() + 5)
                        ok = bool(self.zero([], x - x2, dl, False) or self.zero([], x - x2, dl, True))
                    self._bd[k] = ok
                if self._bd[k]:
                    out[x] = c
                    out[x2] = c
        return out

    def find_cond(self, a, b):
        for t in tm.subterms([a, b]):
            if t.op == 'ite' and not any(x.op == 'ite' for x in tm.subterms([t.args[0]])):
                return t.args[0]
        return None


def drop(t, c, v):
    """replace the condition c by its truth value"""
    return tm.subst(t, {c: tm.const(v), tm.not_(c): tm.const(not v)})


def has_trig(t):
    return any(x.op in ('sin', 'cos') for x in tm.subterms([t]))


def split_wrap(t):
    if t.op == 'wrapP':
        return ('wrapP', t.args[1].id), t.args[0]
    if t.op == 'wrapS':
        return ('wrapS', t.args[1].id, t.args[2].id), t.args[0]
    return None, t


def antisym(hyps):
    """x <= y and y <= x among the hypotheses: x replaced by y"""
    les = set()
    out = {}
    for h in hyps:
        for g in (h.args if h.op == 'and' else (h,)):
            x = y = None
            if g.op == '<=':
                x, y = g.args
            elif g.op == 'not' and g.args[0].op == '<':
                y, x = g.args[0].args
            if x is None:
                continue
            if (y.id, x.id) in les:
                if (x.op == 'v' or tm.isc(y)) and not out:
                    out[x] = y
                elif (y.op == 'v' or tm.isc(x)) and not out:
                    out[y] = x
            les.add((x.id, y.id))
    return out


def eq_subst(hyps):
    out = {}
    todo = list(hyps)
    while todo:
        h = todo.pop()
        if h.op == 'and':
            todo.extend(h.args)
        elif h.op == '==':
            x, y = h.args
            if x.op == 'v' and tm.isc(y):
                out[x] = y
            elif y.op == 'v' and tm.isc(x):
                out[y] = x
            elif tm.isc(y) and y.val == 0 and x.op in ('sqrt', '+', '*') and zero_vars(x) is not None:
                for v in zero_vars(x):
                    out[v] = tm.rconst(0)
            elif tm.isc(x) and x.val == 0 and y.op in ('sqrt', '+', '*') and zero_vars(y) is not None:
                for v in zero_vars(y):
                    out[v] = tm.rconst(0)
            elif tm.isc(y) and x.op in ('sin', 'cos', 'sqrt', 'atan2', '/', 'fmod', 'i2r', 'uf', 'sel'):
                out[x] = y
    return out


def zero_vars(t):
    """variables that must vanish when the sum of squares t (or its root) is zero; None when t has another shape"""
    if t.op == 'sqrt':
        return zero_vars(t.args[0])
    if t.op == '+':
        a, b = zero_vars(t.args[0]), zero_vars(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == '*' and t.args[0] is t.args[1]:
        return [t.args[0]]
    return None
