"""Contract DSL and function-by-function verification."""
import math
import random
import re
import struct
import time
import traceback
from fractions import Fraction
from . import term as tm
from .term import T, const, rconst, mp, Forker, EvalError
from .ir import Unsupported, F32, F64, PTR, I8, I32
from .symex import Executor, Ptr, NULL, Abort, State, _M1
from .smt import Solver
from .prove import Prover
from .native import expand_layout, SZ
from .norm import Norm, Blowup

ALL = {}
# ill-conditioned next to a singularity or a wrap of the angle: rounding decides there, so no runs at such points
BYCALL = ('refro',)
NO_EDGES = {'dmat', 'smat', 'polmo', 'unpcd', 'pda2h', 'pdq2h', 'dcmpf', 'earth', 'moon', 'evp', 'epco'}
SCALE = 1.0          # multiplier of every prover budget
TYPE = {'d': F64, 'f': F32, 'i': I32, 'b': I8, 'c': I8, 'p': PTR, 'l': ('int', 64)}
RANGE = {'i': (-2**31, 2**31 - 1), 'c': (-128, 127), 'l': (-2**63, 2**63 - 1)}


class Param(object):
    def __init__(self, kind, name, layout, **kw):
        self.kind = kind
        self.name = name
        self.layout = layout
        self.kw = kw
        if kind in ('in', 'out', 'io'):
            self.cells, self.size = expand_layout(layout)


def D(n): return Param('s', n, 'd')
def F(n): return Param('s', n, 'f')
def I(n): return Param('s', n, 'i')
def C(n): return Param('s', n, 'c')
def B(n): return Param('s', n, 'b')
def IN(n, l): return Param('in', n, l)
def OUT(n, l): return Param('out', n, l)
def IO(n, l): return Param('io', n, l)
def STR(n, maxlen): return Param('str', n, 'c', maxlen=maxlen)
def SV2(n): return Param('sv2', n, 'f')
def K(n, v, k='i'): return Param('s', n, k, const=v)      # argument held at a constant


def sc(p_t, name):
    """scalar of floating type p_t ('d' or 'f')"""
    return Param('s', name, p_t)


class Contract(object):
    def __init__(self, name, ret, params, spec, pre=None, aliases=(), dom=None, tol=None, ntol=None, skip=(),
                 angles=(), fp=None, sig=None, trusted=None, deps=(), nsamples=None, nopre_samples=False,
                 maxpaths=3000, timeout=None, variants=None, note=None, budget=20.0, loops=None, cases=None, tolerate=(), fn=None, bound=None):
        self.name = name
        self.ret = ret
        self.params = params
        self.spec = spec
        self.pre = pre
        self.aliases = list(aliases)
        self.dom = dom or {}
        isf = any(p.layout and 'f' in p.layout for p in params) or ret == 'f'
        self.isfloat = isf if fp is None else (fp == 'f')
        self.tol = tol or (3e-6 if self.isfloat else 1e-12)
        self.ntol = ntol or (5e-5 if self.isfloat else 1e-11)
        self.angles = set(angles)
        self.sig = sig
        self.trusted = trusted      # not verified here; reason
        self.nsamples = nsamples
        self.maxpaths = maxpaths
        self.timeout = timeout
        self.note = note
        self.budget = budget
        self.loops = loops
        self.tolerate = tolerate    # obligations (substrings) known to be beyond the provers: reported, never an alarm
        self.cases = cases          # complete case split of the inputs, verified case by case
        self.fn = fn or name        # the function (a contract of an instance, e.g. fitxy@3, names it here)
        self.bound = bound          # stated bound of an instance
        ALL[name] = self

    # ---- naming ----------------------------------------------------------------
    def matches(self, mangled):
        """overload resolution: same arity of the declared parameter list is enough except where sig is given"""
        if self.sig is not None:
            return mangled.endswith(self.sig)
        return True

    def layout_of(self, p, inp):
        if p.kind == 'arr':
            return p.kw['layout'](inp)
        return p.cells, p.size

    # ---- symbolic inputs -----------------------------------------------------------
    def inputs(self):
        out = {}
        for p in self.params:
            if p.kind == 's' and p.kw.get('const') is not None:
                out[p.name] = const(p.kw['const'])
            elif p.kind == 's':
                out[p.name] = mkvar(p.name, p.layout)
            elif p.kind in ('in', 'io'):
                out[p.name] = [mkvar('%s.%d' % (p.name, k), c[0]) for k, c in enumerate(p.cells)]
            elif p.kind == 'sv2':
                out[p.name] = [mkvar(p.name + '.0', 'f'), mkvar(p.name + '.1', 'f')]
            elif p.kind == 'str':
                out[p.name] = [mkvar('%s.%d' % (p.name, k), 'c') for k in range(p.kw['maxlen'])]
            elif p.kind == 'arr':
                out[p.name] = p.kw['view'](p.name)
        return out

    def preconds(self, inp):
        out = []
        for p in self.params:
            vals = inp.get(p.name)
            if vals is None or p.kind == 'arr':
                continue
            vs = vals if isinstance(vals, list) else [vals]
            ks = [c[0] for c in p.cells] if p.kind in ('in', 'io') else [p.layout] * len(vs)
            for k, v in zip(ks, vs):
                if k in RANGE and isinstance(v, T) and v.sort == 'I':
                    lo, hi = RANGE[k]
                    if not tm.isc(v):
                        out.append(tm.and_(tm.le(lo, v), tm.le(v, hi)))
        if self.pre:
            r = self.pre(**inp)
            out.extend(r if isinstance(r, (list, tuple)) else [r])
        return [x for x in out if not (tm.isc(x) and x.val)]

    def user_pre(self, inp):
        if not self.pre:
            return []
        r = self.pre(**inp)
        return [const(x) for x in (r if isinstance(r, (list, tuple)) else [r])]

    def spec_num(self, inp):
        return tm.NumForker(lambda: self.spec(**inp))

    def spec_paths(self, inp, feasible):
        return Forker(feasible).run(lambda: self.spec(**inp))

    # ---- call-site use ----------------------------------------------------------------
    def apply_call(self, ex, st, args, cargs):
        inp = {}
        ptrs = {}
        ai = 0
        for p in self.params:
            a = args[ai]
            ai += 1
            if p.kind == 's':
                if isinstance(a, T) and p.layout == 'b' and a.sort == 'I':
                    a = ex.to_i1(a)
                if isinstance(a, T) and p.layout in ('i', 'c') and a.sort == 'B':
                    a = tm.ite(a, 1, 0)
                inp[p.name] = a
            elif p.kind == 'sv2':
                inp[p.name] = list(a)
            elif p.kind == 'str':
                s = []
                k = 0
                for k in range(p.kw['maxlen']):
                    c = ex.load_cell(st, Ptr(a.obj, a.off + k), I8, _M1)
                    s.append(c)
                    if tm.isc(c) and c.val == 0:
                        break
                s += [const(0)] * (p.kw['maxlen'] - len(s))
                inp[p.name] = s
            elif p.kind == 'arr':
                raise Unsupported('call of %s with symbolic array' % self.name)
            else:
                if not isinstance(a, Ptr) or a.obj is None:
                    raise Abort('null pointer passed to ' + self.name)
                ptrs[p.name] = a
                if p.kind in ('in', 'io'):
                    vals = []
                    for k, off in p.cells:
                        v = ex.load_cell(st, Ptr(a.obj, ex.addoff(a.off, const(1), off)), TYPE[k], _M1)
                        if k == 'b':
                            v = ex.to_i1(v)
                        vals.append(v)
                    inp[p.name] = vals
                else:
                    o = ex.objs[a.obj]
                    if o.shape is None and not isinstance(a.off, T) and a.off + p.cells[-1][1] + SZ[p.cells[-1][0]] > o.size:
                        raise Abort('%s writes past the end of %s' % (self.name, o.name))
        for c in self.user_pre(inp):
            if not (tm.isc(c) and c.val):
                st.obls.append(('pre', c, 'precondition of %s' % self.name))
        base = list(st.pc)
        paths = self.spec_paths(inp, lambda cs: ex.solver.feasible(base + cs))
        alts = []
        for conds, res in paths:
            def eff(s, res=res):
                for p in self.params:
                    if p.kind in ('out', 'io') and p.name in res:
                        a = ptrs[p.name]
                        for (k, off), v in zip(p.cells, res[p.name]):
                            if v is None:
                                v = ex.fresh('unspec_%s_%s_' % (self.name, p.name), 'R' if k in 'df' else 'I')
                            if v is KEEP:
                                continue
                            v = const(v)
                            if k in 'df':
                                v = tm.toR(v)
                            elif k == 'b' and v.sort == 'B':
                                v = tm.ite(v, 1, 0)
                            ex.store_cell(s, Ptr(a.obj, ex.addoff(a.off, const(1), off)), TYPE[k], v, _M1)
                if self.ret is not None:
                    v = res['ret']
                    if v is None:
                        return ex.fresh('unspec_%s_ret' % self.name, 'R' if self.ret in 'df' else 'I')
                    v = const(v)
                    if self.ret in 'df':
                        v = tm.toR(v)
                    if self.ret == 'b' and v.sort == 'I':
                        v = tm.not_(tm.eq(v, 0))
                    return v
                return None
            alts.append((conds, eff))
        return alts


class _Keep(object):
    def __repr__(self):
        return 'KEEP'


KEEP = _Keep()      # "output cell keeps its previous content"


def mkvar(name, k):
    if k in 'df':
        return tm.var(name, 'R')
    if k == 'b':
        return tm.var(name, 'B')
    return tm.var(name, 'I')


# ---------------------------------------------------------------------------
# sampling of inputs
SPECIALS_D = [0.0, 1.0, -1.0, 0.5, -0.5, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 1e-8, -1e-8, 3.0,
              1e-3, -1e-3, 100.0]


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def default_value(k, rng):
    if k in 'df':
        u = rng.random()
        if u < 0.12:
            v = rng.choice(SPECIALS_D)
        elif u < 0.75:
            v = rng.uniform(-7, 7)
        elif u < 0.9:
            v = rng.uniform(-1, 1)
        else:
            v = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 2)
        return f32(v) if k == 'f' else v
    if k == 'b':
        return rng.random() < 0.5
    if k == 'c':
        return rng.choice([0, 65, 66, 74, 98, 106, 120, 88, 90, 49, 50, 51, rng.randrange(-128, 128)])
    u = rng.random()
    if u < 0.3:
        return rng.randrange(-3, 14)
    if u < 0.7:
        return rng.randrange(-100, 400)
    return rng.randrange(-5000, 5000)


class Sampler(object):
    def __init__(self, con, seed):
        self.con = con
        self.rng = random.Random(seed * 7919 + hash_str(con.name))
        self.inp = con.inputs()
        self.pre = con.preconds(self.inp)

    def raw(self):
        rng = self.rng
        con = self.con
        if '*' in con.dom:
            out = con.dom['*'](rng)
            return self.fix(out)
        out = {}
        for p in con.params:
            g = con.dom.get(p.name)
            if p.kind == 's':
                k = p.kw.get('const')
                out[p.name] = k if k is not None else g(rng) if g else default_value(p.layout, rng)
            elif p.kind in ('in', 'io'):
                if g:
                    v = g(rng)
                    out[p.name] = v if isinstance(v, list) else [v] * len(p.cells)
                else:
                    out[p.name] = [default_value(c[0], rng) for c in p.cells]
            elif p.kind == 'sv2':
                out[p.name] = [default_value('f', rng), default_value('f', rng)]
            elif p.kind == 'str':
                n = p.kw['maxlen']
                v = g(rng) if g else [default_value('c', rng) for _ in range(n - 1)] + [0]
                out[p.name] = v
            elif p.kind == 'arr':
                out[p.name] = g(rng)
        return self.fix(out)

    def fix(self, out):
        for p in self.con.params:
            if p.kw.get('const') is not None:
                out[p.name] = p.kw['const']
            if p.name not in out:
                continue
            v = out[p.name]
            ks = None
            if p.kind in ('in', 'io'):
                ks = [c[0] for c in p.cells]
            elif p.kind == 'sv2':
                ks = ['f', 'f']
            if ks:
                out[p.name] = [cast(k, x) for k, x in zip(ks, v)]
            elif p.kind == 's':
                out[p.name] = cast(p.layout, v)
        return out

    def env(self, x):
        e = {}
        for p in self.con.params:
            if p.name not in x:
                continue
            v = x[p.name]
            if p.kind == 's':
                e[p.name] = v
            elif p.kind == 'arr':
                p.kw['bind'](e, p.name, v)
            else:
                vs = list(v) + ([0] * (p.kw['maxlen'] - len(v)) if p.kind == 'str' else [])
                for k, y in enumerate(vs):
                    e['%s.%d' % (p.name, k)] = y
        return e

    def from_model(self, m):
        """complete a z3 model to an input (values rounded to the machine type)"""
        x = self.raw()
        for p in self.con.params:
            if p.kind == 's':
                if p.name in m:
                    x[p.name] = cast(p.layout, m[p.name])
            elif p.kind in ('in', 'io', 'sv2', 'str'):
                ks = [c[0] for c in p.cells] if p.kind in ('in', 'io') else ['f', 'f'] if p.kind == 'sv2' else ['c'] * p.kw['maxlen']
                vals = list(x[p.name]) + [0] * (len(ks) - len(x[p.name]))
                for j, k in enumerate(ks):
                    nm = '%s.%d' % (p.name, j)
                    if nm in m:
                        vals[j] = cast(k, m[nm])
                x[p.name] = vals
        return x

    def draw(self, n, tries=40):
        out = []
        for _ in range(n * tries):
            x = self.raw()
            try:
                e = self.env(x)
                if all(tm.ev(c, e) for c in self.pre):
                    out.append(x)
            except EvalError:
                pass
            if len(out) >= n:
                break
        return out


    def edges(self, n):
        """inputs where a formula that is right in real arithmetic can lose its digits: nearly equal or opposite
        arguments, values next to 0 and to multiples of pi/2, vectors next to an axis"""
        rng, con = self.rng, self.con
        out = []
        for x in self.draw(n):
            groups = []
            for p in con.params:
                if p.kind in ('in', 'io') and p.name in x and all(c[0] in 'df' for c in p.cells):
                    groups.append((p.name, [c[0] for c in p.cells]))
                elif p.kind == 'sv2':
                    groups.append((p.name, ['f', 'f']))
            scal = [(p.name, p.layout) for p in con.params if p.kind == 's' and p.layout in 'df' and p.kw.get('const') is None]
            small = any('f' in ks for _, ks in groups) or any(k == 'f' for _, k in scal)
            h = 10.0 ** rng.uniform(*((-5, -2) if small else (-11, -5)))
            x = {k: (list(v) if isinstance(v, list) else v) for k, v in x.items()}
            near = lambda: rng.choice((0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi)) + rng.choice((-1, 1)) * h
            todo = []
            pairs = [(a, b) for i, a in enumerate(groups) for b in groups[i + 1:] if len(a[1]) == len(b[1])]
            if pairs:
                todo.append('pair')
            if groups:
                todo += ['axis', 'cell']
            if scal:
                todo.append('scal')
            if not todo:
                break
            t = rng.choice(todo)
            if t == 'pair':
                (a, _), (b, ks) = rng.choice(pairs)
                u = x[a]
                s = rng.choice((1, -1))
                v = [(c if s > 0 else -c) + h * rng.uniform(-1, 1) for c in u]
                if len(u) == 2 and s < 0:
                    v[0] = u[0] + math.pi + h * rng.uniform(-1, 1)
                x[b] = [cast(k, c) for k, c in zip(ks, v)]
            elif t == 'axis':
                a, ks = rng.choice(groups)
                keep = rng.randrange(len(ks))
                x[a] = [cast(k, c if i == keep else c * h) for i, (k, c) in enumerate(zip(ks, x[a]))]
            elif t == 'cell':
                a, ks = rng.choice(groups)
                i = rng.randrange(len(ks))
                x[a][i] = cast(ks[i], near())
            else:
                for a, k in scal:
                    if rng.random() < 0.5:
                        x[a] = cast(k, near())
            try:
                e = self.env(x)
                if all(tm.ev(c, e) for c in self.pre):
                    out.append(x)
            except EvalError:
                pass
        return out


def cast(k, v):
    if k == 'd':
        return float(v)
    if k == 'f':
        v = float(v)
        return f32(max(-3e38, min(3e38, v)))
    if k == 'b':
        return bool(v)
    if k in RANGE:
        lo, hi = RANGE[k]
        return max(lo, min(hi, int(v)))
    return v


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000000007
    return h


# ---------------------------------------------------------------------------
def flat_outs(con, res):
    """list of (label, kind, value) of a spec/native/code result"""
    out = []
    if con.ret is not None and 'ret' in res:
        out.append(('ret', con.ret, res['ret']))
    for p in con.params:
        if p.kind in ('out', 'io') and p.name in res:
            for j, ((k, off), v) in enumerate(zip(p.cells, res[p.name])):
                out.append(('%s[%d]' % (p.name, j), k, v))
    return out


def spec_at(con, paths, env):
    """numeric value of the contract at env: dict label -> value (None = unspecified)"""
    memo = {}
    res = paths.at(env, memo)
    out = {}
    for lab, k, v in flat_outs(con, res):
        if v is None or v is KEEP:
            out[lab] = (k, v)
        else:
            out[lab] = (k, tm.ev(const(v), env, memo))
    return out


def differs(a, b, tol, angle=False):
    """numeric disagreement beyond tol (relative to magnitude)"""
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, int) and isinstance(b, int)):
        return int(a) != int(b)
    a, b = mp.mpf(a), mp.mpf(b)
    if mp.isnan(a) or mp.isnan(b) or mp.isinf(a) or mp.isinf(b):
        return True
    d = abs(a - b)
    if angle:
        d = abs(mp.fmod(d + mp.pi, 2 * mp.pi) - mp.pi)
    return d > tol * max(abs(a), abs(b), mp.mpf(10) ** -300)


class Obl(object):
    """one proof obligation"""
    __slots__ = ('fn', 'what', 'status', 'by', 'detail', 'time')

    def __init__(self, fn, what, status, by='', detail='', time=0.0):
        self.fn, self.what, self.status, self.by, self.detail, self.time = fn, what, status, by, detail, time

    def as_dict(self):
        return {'function': self.fn, 'obligation': self.what, 'status': self.status, 'by': self.by,
                'detail': self.detail[:600], 's': round(self.time, 3)}


class Report(object):
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.violations = []        # dicts: obligation, input, details, confirmed(bool)
        self.used = []
        self.inlined = []
        self.builtins = []
        self.paths = 0
        self.mode = 'proof'
        self.reason = ''
        self.native_samples = 0
        self.distinct = 0
        self.wall = 0.0
        self.solver_s = 0.0
        self.norm_s = 0.0
        self.queries = 0
        self.samples = []
        self.undef = []
        self.case = ''
        self.canaries = 0
        self.canary_done = False
        self.searches = 0


def verify(con, prog, native, seed=1, tier='quick', contracts=ALL, deadline=None):
    """verify the function against its contract: all alias variants"""
    t0 = time.time()
    rep = Report(con.name)
    budget = SCALE * (con.timeout or (240 if tier == 'quick' else 900))
    dl = t0 + budget
    if deadline:
        dl = min(dl, deadline)
    variants = [()] + [a if isinstance(a[0], tuple) else (a,) for a in con.aliases]
    smp = Sampler(con, seed)
    inp = smp.inp
    pre = smp.pre
    solver = Solver()
    solver.ctol = con.tol
    if SCALE != 1:
        solver.timeout *= SCALE
        solver.ftimeout *= SCALE
    prover = Prover(solver, con.tol, con.budget * SCALE)
    prover.envs = lambda: [smp.env(x) for x in smp.draw(60)]
    paths = con.spec_num(inp)
    # vacuity: the precondition must be satisfiable
    if not solver.feasible(pre):
        raise RuntimeError('contract of %s has an unsatisfiable precondition' % con.name)
    f = prog.find_short(con.fn)
    if f is None:
        rep.mode = 'bounded'
        rep.reason = 'function not found in the compiled sources'
    else:
        todo = []
        if con.cases is None:
            todo = [(var, inp, pre, paths, '') for var in variants]
        else:
            conds = []
            for lab, bind, extra in con.cases(inp):
                inp2 = dict(inp)
                inp2.update({k: const(v) for k, v in bind.items()})
                cs = [tm.eq(inp[k], v) for k, v in bind.items()] + list(extra)
                conds.append(tm.and_(*cs) if len(cs) != 1 else cs[0])
                pre2 = con.preconds(inp2) + cs
                if not solver.feasible(pre2):
                    continue
                todo += [(var, inp2, pre2, paths, ' [%s]' % lab) for var in variants]
            t1 = time.time()
            r, m = solver.prove(pre, tm.or_(*conds))
            rep.obls.append(Obl(con.name, 'case split is complete', 'discharged' if r == 'proved' else 'undischarged', 'z3', '', time.time() - t1))
        for var, inp2, pre2, p2, clab in todo:
            if any(v.get('confirmed') for v in rep.violations):
                break
            try:
                rep.case = clab
                verify_variant(con, prog, f, var, rep, solver, prover, inp2, pre2, p2, contracts, dl, smp, native, tier)
            except (Unsupported, RecursionError) as e:
                rep.mode = 'bounded'
                rep.reason = '%s: %s' % (type(e).__name__, e)
                rep.obls.append(Obl(con.name, 'extraction%s' % (alias_txt(var)), 'undischarged', 'none', rep.reason))
            except Blowup as e:
                rep.mode = 'bounded'
                rep.reason = 'normaliser: %s' % e
                rep.obls.append(Obl(con.name, 'extraction%s' % (alias_txt(var)), 'undischarged', 'none', rep.reason))
    # native differential run against the contract (validates extraction; stands in where the proof is missing)
    if native is not None:
        native_check(con, native, rep, smp, paths, variants, tier)
    rep.wall = time.time() - t0
    rep.solver_s = solver.time
    rep.norm_s = prover.t_norm
    rep.queries = solver.queries
    return rep


def alias_txt(var):
    return '' if not var else ' [aliased: %s]' % ', '.join('%s=%s' % x for x in var)


def setup_call(con, ex, inp, var):
    mem = {}
    args = []
    objs = {}
    amap = dict((o, i) for i, o in var)
    for p in con.params:
        if p.kind == 's':
            v = inp[p.name]
            args.append(v)
        elif p.kind == 'sv2':
            args.append(list(inp[p.name]))
        elif p.kind == 'str':
            o = ex.new_obj(p.name, p.kw['maxlen'], 'param', writable=False)
            mem[o.id] = {k: (1, v) for k, v in enumerate(inp[p.name])}
            objs[p.name] = o
            args.append(Ptr(o.id, 0))
        elif p.kind == 'arr':
            o = ex.new_obj(p.name, None, 'param', writable=p.kw.get('writable', False))
            o.shape = p.kw['shape'](inp)
            mem[o.id] = {}
            objs[p.name] = o
            args.append(Ptr(o.id, 0))
        elif p.kind == 'out' and p.name in amap:
            o = objs[amap[p.name]]
            o.writable = True
            objs[p.name] = o
            args.append(Ptr(o.id, 0))
        else:
            o = ex.new_obj(p.name, p.size, 'param', writable=p.kind != 'in')
            cells = {}
            if p.kind in ('in', 'io'):
                for (k, off), v in zip(p.cells, inp[p.name]):
                    cells[off] = (SZ[k], tm.ite(v, 1, 0) if k == 'b' else v)
            mem[o.id] = cells
            objs[p.name] = o
            args.append(Ptr(o.id, 0))
    return args, mem, objs


def code_outs(con, path, objs, var):
    """outputs of a code path: list of (label, kind, term|None)"""
    res = {}
    if con.ret is not None:
        res['ret'] = path.ret
    for p in con.params:
        if p.kind in ('out', 'io'):
            cells = path.mem.get(objs[p.name].id, {})
            vals = []
            for k, off in p.cells:
                c = cells.get(off)
                v = None
                if c is not None and c[0] == SZ[k]:
                    v = c[1]
                    if isinstance(v, T) and k == 'b' and v.sort == 'I':
                        v = tm.not_(tm.eq(v, 0))
                elif c is not None and isinstance(c[1], T) and tm.isc(c[1]) and c[1].val == 0:
                    v = rconst(0) if k in 'df' else const(0)
                else:
                    for q, cc in cells.items():
                        if isinstance(q, int) and q <= off and off + SZ[k] <= q + cc[0] and isinstance(cc[1], T) and tm.isc(cc[1]) and cc[1].val == 0:
                            v = rconst(0) if k in 'df' else const(0)
                if isinstance(v, T) and tm.isc(v) and k in 'df' and v.sort == 'I' and v.val == 0:
                    v = rconst(0)
                vals.append(v)
            res[p.name] = vals
    return res


def verify_variant(con, prog, f, var, rep, solver, prover, inp, pre, paths, contracts, dl, smp, native, tier):
    from .loops import LoopExecutor
    ex = LoopExecutor(prog, contracts, solver, maxpaths=con.maxpaths, deadline=dl)
    ex.exclude = {con.fn}
    ex.loopspec = con.loops
    ex.narrow = not con.isfloat and con.tol < 1e-9
    args, mem, objs = setup_call(con, ex, inp, var)
    st = ex.start(f, args, mem, pre)
    results = ex.explore(st)
    rep.paths += len(results)
    rep.used = sorted(set(rep.used) | ex.used_contracts)
    rep.inlined = sorted(set(rep.inlined) | ex.inlined)
    rep.builtins = sorted(set(rep.builtins) | ex.builtins_used)
    A = alias_txt(var) + rep.case
    seen_side = {}
    if not results:
        raise Unsupported('no paths')
    for pi, path in enumerate(results):
        hyps = list(path.pc)
        ptxt = 'path %d%s' % (pi, A)
        if path.abort:
            t1 = time.time()
            r, m = solver.prove(hyps, tm.FALSE)
            if r == 'proved':
                rep.obls.append(Obl(con.name, '%s: abnormal end (%s) unreachable' % (ptxt, path.abort), 'discharged', solver.by, '', time.time() - t1))
            else:
                fail(con, rep, '%s: abnormal end reachable: %s' % (ptxt, path.abort), hyps, None, None, smp, solver,
                     native, var, paths, abort=True)
            continue
        for kind, what in path.events:
            if kind == 'frame':
                fail(con, rep, '%s: frame: %s' % (ptxt, what), hyps, None, None, smp, solver, native, var, paths, frame=True)
            elif kind == 'uninit':
                pass
        # side obligations
        for kind, cond, what in path.obls:
            key = (cond.id,)
            done = seen_side.get(key)
            if done is not None and any(set(h.id for h in hs) <= set(x.id for x in hyps) for hs in done):
                continue
            t1 = time.time()
            r, m = solver.prove(hyps, cond)
            if r == 'proved':
                seen_side.setdefault(key, []).append(hyps)
                rep.obls.append(Obl(con.name, '%s: %s: %s' % (ptxt, kind, what), 'discharged', solver.by, '', time.time() - t1))
            else:
                fail(con, rep, '%s: %s: %s' % (ptxt, kind, what), hyps + [tm.not_(cond)], None, None, smp, solver,
                     native, var, paths, side=True, model=m)
        outs = code_outs(con, path, objs, var)
        for si, (sconds, sres) in enumerate(con.spec_paths(inp, lambda cs: solver.feasible(hyps + cs))):
            H = hyps + sconds
            sl = flat_outs(con, sres)
            cl = {lab: (k, v) for lab, k, v in flat_outs(con, outs)}
            scr = Screen(con, rep, smp, solver, native, var, paths, H)
            for lab, k, sv in sl:
                if sv is None:
                    continue
                what = '%s, case %d: %s equals contract' % (ptxt, si, lab)
                cv = cl.get(lab, (k, None))[1]
                t1 = time.time()
                if sv is KEEP:
                    if cv is None or (var and True):
                        rep.obls.append(Obl(con.name, what + ' (unchanged)', 'discharged', 'frame'))
                    else:
                        fail(con, rep, what + ' (must be left unchanged)', H, None, None, smp, solver, native, var, paths, lab=lab)
                    continue
                if not isinstance(cv, T):
                    fail(con, rep, what + ': output not written', H, None, None, smp, solver, native, var, paths, lab=lab)
                    continue
                sv = const(sv)
                if k in 'df':
                    cv, sv = tm.toR(cv), tm.toR(sv)
                elif k == 'b':
                    cv = cv if cv.sort == 'B' else tm.not_(tm.eq(cv, 0))
                    sv = sv if sv.sort == 'B' else tm.not_(tm.eq(sv, 0))
                if any(x.val and str(x.val).startswith('?uninit') for x in tm.free_vars([cv])):
                    fail(con, rep, what + ': depends on uninitialised memory', H, cv, sv, smp, solver, native, var, paths, lab=lab)
                    continue
                if scr.refuted(lab, cv, sv, what):
                    return
                ok = prover.eq(H, cv, sv)
                if ok and k in 'df' and not rep.canary_done and not var and prover.by != 'trivial':
                    # vacuity guard: a perturbed contract must not be provable
                    by = prover.by
                    rep.canary_done = True
                    save, prover.budget = prover.budget, 5.0
                    if prover.eq(H, cv, sv * rconst(Fraction(1001, 1000)) + rconst(Fraction(1, 1000))):
                        if scr.points():
                            raise RuntimeError('vacuous obligation: %s of %s' % (what, con.name))
                        rep.canary_done = False         # no point known to satisfy these hypotheses: try another path
                    else:
                        rep.canaries += 1
                    prover.budget = save
                    prover.by = by
                if ok:
                    rep.obls.append(Obl(con.name, what, 'discharged', prover.by, '', time.time() - t1))
                else:
                    fail(con, rep, what, H, cv, sv, smp, solver, native, var, paths, lab=lab, detail=prover.last or '')
                    if any(v.get('confirmed') for v in rep.violations):
                        return
                    continue
                defined(con, rep, prover, solver, H, cv, sv, what, smp, native, var, paths)


class Screen(object):
    """before an obligation goes to the provers: a few points of its hypotheses, where code and contract terms are
    evaluated; a difference there that the real code shows as well settles the obligation at once"""

    def __init__(self, con, rep, smp, solver, native, var, paths, H):
        self.con, self.rep, self.smp, self.solver, self.native = con, rep, smp, solver, native
        self.var, self.paths, self.H = var, paths, H
        self.pts = None

    def holds(self, x):
        try:
            e = self.smp.env(x)
            memo = {}
            if all(tm.ev(c, e, memo) for c in self.smp.pre) and all(tm.ev(c, e, memo) for c in self.H):
                return (x, e, memo)
        except (EvalError, KeyError):
            pass
        return None

    def points(self):
        if self.pts is None:
            self.pts = []
            if not hasattr(self.rep, '_scr'):
                self.rep._scr = self.smp.draw(25)
            for x in self.rep._scr:
                p = self.holds(x)
                if p:
                    self.pts.append(p)
                if len(self.pts) >= 3:
                    break
            if len(self.pts) < 2:
                m = self.solver.model(self.H, 700)
                for _ in range(2 if m else 0):
                    p = self.holds(self.smp.from_model(m))
                    if p:
                        self.pts.append(p)
        return self.pts

    def refuted(self, lab, cv, sv, what):
        con = self.con
        if self.native is None or cv is sv:
            return False
        good = []
        for x, e, memo in self.points():
            try:
                c, s = tm.ev(cv, e, memo), tm.ev(sv, e, memo)
            except EvalError:
                continue
            if differs(c, s, (30 if con.isfloat else 300) * con.tol):
                good.append((x, c, s))
        if not good:
            return False
        r = confirm(con, self.native, [g[0] for g in good], self.var, self.smp, self.paths) or \
            confirm_exact(con, self.native, good, self.var, lab) or \
            confirm_term(con, self.native, good, self.var, lab, self.smp, self.paths)
        if not r:
            return False
        self.rep.violations.append({'function': con.name, 'obligation': what, 'confirmed': True, 'input': r[0], 'native': r[1],
                                    'contract': r[2], 'alias': list(self.var), 'output': r[3], 'prover': 'refuted by evaluation'})
        self.rep.obls.append(Obl(con.name, what, 'violated', 'native replay', 'refuted by evaluation'))
        return True


def denominators(t):
    return [x.args[1] for x in tm.subterms([t]) if x.op == '/']


def defined(con, rep, prover, solver, H, cv, sv, what, smp, native, var, paths):
    """every denominator of the code's result is non-zero, or is also one of the contract's"""
    sd = denominators(sv)
    ids = set(x.id for x in sd)
    for d in denominators(cv):
        if d.id in ids or tm.isc(d):
            continue
        key = (d.id, frozenset(h.id for h in H))
        if not hasattr(rep, '_def'):
            rep._def = {}
        if key in rep._def:
            continue
        t1 = time.time()
        ok = False
        by = ''
        m = None
        if d.op == 'cos':
            ok, by = True, 'machine cosine'     # odd multiples of pi/2 are not machine numbers
        if not ok:
            r, m = solver.prove(H, tm.not_(tm.eq(d, rconst(0))), timeout=1500)
            if r == 'proved':
                ok, by = True, 'z3'
        if not ok:
            try:
                n = Norm(con.tol, deadline=time.time() + 3)
                nd = n.norm(d)
                fs = set()
                for x in sd:
                    nx = n.rinv(n.norm(x))
                    fs.update(f for f, e in nx[1])
                nf = n.rinv(nd)
                if all(f in fs for f, e in nf[1]):
                    ok, by = True, 'norm'
            except Blowup:
                pass
        if not ok:
            pts = prover.points(H)[:2]
            for x in sd:
                try:
                    if not pts or any(differs(tm.ev(x, e), tm.ev(d, e), 1e3 * con.tol) for e in pts):
                        continue
                except EvalError:
                    continue
                save, prover.budget = prover.budget, 6.0
                e = prover.eq(H, d, x)
                prover.budget = save
                if e:
                    ok, by = True, prover.by
                    break
        rep._def[key] = ok
        if ok:
            rep.obls.append(Obl(con.name, what + ': division defined', 'discharged', by, '', time.time() - t1))
        else:
            fail(con, rep, what + ': division by (%s) defined' % tm.show(d, 3), H + [tm.eq(d, rconst(0))], cv, sv, smp,
                 solver, native, var, paths, side=True, model=m, quietdef=True)


def fail(con, rep, what, hyps, cv, sv, smp, solver, native, var, paths, lab=None, detail='', abort=False, frame=False,
         side=False, model=None, quietdef=False):
    """an obligation was not discharged: look for a failing input on the real code"""
    cands = []
    if model:
        cands.append(smp.from_model(model))
    if cv is not None and not side:
        m = solver.model(hyps + [tm.not_(tm.eq(cv, sv))], 1500)
        if m:
            cands.append(smp.from_model(m))
    m = solver.model(hyps, 1000)
    if m:
        for _ in range(6):
            cands.append(smp.from_model(m))
    # models of the path condition with some variables pinned to random values
    names = list(tm.free_vars(hyps + ([cv, sv] if cv is not None else [])))
    for _ in range(6):
        x = smp.raw()
        e = smp.env(x)
        fix = [tm.eq(v, const(Fraction(e[v.val])) if v.sort == 'R' else const(e[v.val])) for v in names
               if v.val in e and not isinstance(e[v.val], float) or (v.val in e and smp.rng.random() < 0.6)]
        m = solver.model(hyps + fix, 300)
        if m:
            cands.append(smp.from_model(m))
    cands += smp.draw(300)
    good = []
    box = {}

    def consider(cands):
        for x in cands:
            try:
                e = smp.env(x)
                memo = {}
                if not all(tm.ev(c, e, memo) for c in smp.pre):
                    continue
                if not all(tm.ev(c, e, memo) for c in hyps):
                    continue
            except EvalError:
                if not side and not abort:
                    continue
            if cv is not None and not side:
                try:
                    c = tm.ev(cv, e, memo)
                except EvalError as ee:
                    c = None
                try:
                    s = tm.ev(sv, e, memo)
                except EvalError:
                    continue
                if c is not None and not differs(c, s, (30 if con.isfloat else 300) * con.tol):
                    continue
                box['t'] = (x, c, s)
                good.append((x, c, s))
            else:
                good.append((x, None, None))
            if len(good) >= 40:
                break
    consider(cands)
    confirmed = None

    def attempt():
        if native is None or not good:
            return None
        r = confirm(con, native, [g[0] for g in good], var, smp, paths, frame=frame)
        if r is None and lab is not None:
            r = confirm_exact(con, native, good, var, lab) or confirm_term(con, native, good, var, lab, smp, paths)
        return r
    confirmed = attempt()
    if confirmed is None and rep.searches < 6:
        rep.searches += 1
        from . import search
        del good[:]
        consider(search.find(smp, smp.pre + hyps + ([tm.not_(tm.eq(cv, sv))] if cv is not None and not side else []), 4.0))
        confirmed = attempt()
    termdiff = box.get('t')
    if confirmed:
        rep.violations.append({'function': con.name, 'obligation': what, 'confirmed': True, 'input': confirmed[0],
                               'native': confirmed[1], 'contract': confirmed[2], 'alias': list(var), 'output': confirmed[3],
                               'prover': detail})
        rep.obls.append(Obl(con.name, what, 'violated', 'native replay', detail))
        return
    if termdiff is not None:
        rep.violations.append({'function': con.name, 'obligation': what, 'confirmed': False, 'input': termdiff[0],
                               'code_term': str(termdiff[1]), 'contract': str(termdiff[2]), 'alias': list(var),
                               'prover': detail})
        rep.obls.append(Obl(con.name, what, 'violated', 'term evaluation', detail))
        return
    if frame:
        rep.violations.append({'function': con.name, 'obligation': what, 'confirmed': False, 'alias': list(var), 'prover': detail})
        rep.obls.append(Obl(con.name, what, 'violated', 'frame', detail))
        return
    rep.obls.append(Obl(con.name, what, 'undischarged', 'none', detail))


def confirm(con, native, xs, var, smp, paths, frame=False):
    """an input on which the real code disagrees with the contract"""
    res = native.batch(con, xs, var)
    for x, r in zip(xs, res):
        bad = compare(con, x, r, smp, paths, 1.0, var)
        if bad:
            return (x, r, bad[1], bad[0])
    if frame:
        # hidden state: same call repeated with other calls in between
        seq = []
        for i in range(len(xs)):
            seq += [xs[i], xs[(i * 7 + 3) % len(xs)], xs[i]]
        r = native.batch(con, seq, var)
        for i in range(0, len(seq), 3):
            if i + 2 < len(r) and repr(r[i]) != repr(r[i + 2]):
                return ({'history': seq[i:i + 3]}, [r[i], r[i + 2]], 'first and third call identical', 'history')
    return None


def nice(x):
    """inputs whose values carry few significant bits (exact boundaries, not accidents of rounding)"""
    for v in x.values():
        for y in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(y, float):
                if y != y or abs(y) > 1e15:
                    return False
                m, e = math.frexp(y)
                if m * 2.0 ** 22 != int(m * 2.0 ** 22):
                    return False
    return True


def confirm_exact(con, native, good, var, lab):
    """at an exact boundary value: the real code returns what its extracted term says, not what the contract says"""
    xs = [g for g in good if g[1] is not None and nice(g[0])]
    if not xs:
        return None
    res = native.batch(con, [g[0] for g in xs], var)
    for (x, c, s), r in zip(xs, res):
        if 'crash' in r or r.get('missing'):
            continue
        for l, k, n in flat_outs(con, r):
            if l == lab and k == 'b' and c is not None and bool(n) == bool(c) != bool(s):
                return (x, r, 'contract: %s, native: %r' % (s, n), lab)
            if l == lab and k in 'dfi' and n == n and abs(n) < 1e300 and \
                    not differs(n, c, con.tol) and differs(n, s, 100 * con.tol) and abs(mp.mpf(n) - mp.mpf(s)) > (1e-4 if con.isfloat else 1e-8):
                return (x, r, 'contract: %s, native: %r' % (mp.nstr(mp.mpf(s), 17), n), lab)
    return None


def confirm_term(con, native, good, var, lab, smp, paths):
    """the real code returns what its extracted term says; the contract's value is outside any rounding of it"""
    xs = [g for g in good if g[1] is not None]
    if not xs:
        return None
    eps = 2.0 ** -23 if con.isfloat else 2.0 ** -52
    res = native.batch(con, [g[0] for g in xs], var)
    for (x, c, s), r in zip(xs, res):
        if 'crash' in r or r.get('missing'):
            continue
        for l, k, n in flat_outs(con, r):
            if l != lab or k not in 'df' or not n == n or abs(n) > 1e300:
                continue
            c, s, n = mp.mpf(c), mp.mpf(s), mp.mpf(n)
            gap = abs(c - s)
            if abs(n - c) > gap * 0.1 or gap < 1000 * eps * max(abs(c), abs(s)):
                continue
            try:
                base, sens = amplify(con, smp, x, paths)
            except EvalError:
                continue
            if base is None or gap < 100 * sens.get(lab, 0.0):
                continue
            return (x, r, 'contract: %s, native: %s' % (mp.nstr(s, 17), mp.nstr(n, 17)), lab)
    return None


def amplify(con, smp, x, paths, mags=(4,)):
    """local sensitivity of each contract output to one-ulp changes of the inputs (floating-point headroom)"""
    eps = 2.0 ** -23 if con.isfloat else 2.0 ** -52
    e = smp.env(x)
    base = spec_at(con, paths, e)
    out = {}
    if base is None:
        return None, out
    for nm, v in list(e.items()):
        if not isinstance(v, float):
            continue
        for s in [g * d / 4 for g in mags for d in (4, -4)]:
            e2 = dict(e)
            e2[nm] = v * (1 + s * eps) if v != 0 else s * eps * 1e-3
            try:
                o = spec_at(con, paths, e2)
            except EvalError:
                o = None
            for lab, (k, b) in base.items():
                if b is None or b is KEEP:
                    continue
                if o is None or lab not in o or o[lab][1] is None or o[lab][1] is KEEP:
                    out[lab] = float('inf')
                    continue
                d = abs(mp.mpf(int(o[lab][1]) if isinstance(o[lab][1], bool) else o[lab][1]) - mp.mpf(int(b) if isinstance(b, bool) else b))
                out[lab] = max(out.get(lab, 0.0), float(d))
    return base, out


def compare(con, x, r, smp, paths, strict, var):
    """None when native result r agrees with the contract at x, else (label, detail)"""
    if r.get('missing'):
        return None
    if '@stray' in r:
        return ('frame', r['@stray'])
    try:
        base, sens = amplify(con, smp, x, paths)
    except EvalError:
        return None
    if base is None:
        return None
    if 'crash' in r:
        return ('call', 'contract defines a result; the call died with %s' % r['crash'])
    nat = {}
    for lab, k, v in flat_outs(con, r):
        nat[lab] = v
    for lab, (k, s) in base.items():
        if s is None:
            continue
        n = nat.get(lab)
        if n is None:
            continue
        if s is KEEP:
            pat = b'\xa5' * SZ[k]
            import struct as _s
            keepv = _s.unpack('<' + {'d': 'd', 'f': 'f', 'i': 'i', 'b': 'B'}[k], pat)[0]
            if not var and n != keepv:
                return (lab, 'must be left unchanged')
            continue
        sn = sens.get(lab, 0.0)
        if k in 'df':
            if n != n or n in (float('inf'), float('-inf')):
                if sn == float('inf'):
                    continue
                return (lab, 'contract: %s, native: %s' % (mp.nstr(s, 17), n))
            d = abs(mp.mpf(n) - s)
            if sn > 1e-3 and (lab in con.angles or lab.split('[')[0] in con.angles):
                d = abs(mp.fmod(d + mp.pi, 2 * mp.pi) - mp.pi)
            scale = max(abs(s), mp.mpf(n).__abs__())
            tol = con.ntol * scale + 1e3 * sn + con.ntol * 1e-3
            if callable(con.dom.get('tol:' + lab)):
                tol = con.dom['tol:' + lab](x)
            if d > tol:
                return (lab, 'contract: %s, native: %r' % (mp.nstr(s, 17), n))
        else:
            if sn != 0.0:
                continue            # within rounding of a discontinuity
            if int(s) != int(n):
                e = smp.env(x)
                memo = {}
                res = paths.at(e, memo)
                mg = tm.margin(paths.path + [const(v) for l2, k2, v in flat_outs(con, res) if l2 == lab and isinstance(v, T)], e, memo)
                if mg < (1e-5 if con.isfloat else 1e-13):
                    continue        # decided by rounding
            if int(s) != int(n):
                # a digit of a finer field may by chance be the same four units away
                if amplify(con, smp, x, paths, (0.3, 0.6, 0.9, 1.3, 2.2, 3.1))[1].get(lab, 0.0) != 0.0:
                    continue
                return (lab, 'contract: %s, native: %r' % (s, n))
    return None


def native_check(con, native, rep, smp, paths, variants, tier):
    n = con.nsamples or (60 if tier == 'quick' else 600)
    if rep.mode != 'proof' or any(o.status == 'undischarged' for o in rep.obls):
        n *= 8
    for var in variants:
        xs = smp.draw(n) + ([] if '*' in con.dom or con.name.split('@')[0] in NO_EDGES else smp.edges(n // 2))
        rs = native.batch(con, xs, var)
        rep.native_samples += len(xs)
        keys = set()
        for x, r in zip(xs, rs):
            bad = compare(con, x, r, smp, paths, 1.0, var)
            keys.add(repr(r))
            if bad:
                rep.violations.append({'function': con.name, 'obligation': 'native run%s: %s agrees with contract' % (alias_txt(var), bad[0]),
                                       'confirmed': True, 'input': x, 'native': r, 'contract': bad[1], 'alias': list(var),
                                       'output': bad[0], 'prover': 'differential run'})
                break
        rep.distinct += len(keys)
        if xs and len(rep.samples) < 2:
            rep.samples.append({'function': con.name, 'input': xs[0], 'output': rs[0]})
