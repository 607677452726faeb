"""Combination and permutation generators; observatory table."""
from .base import *
from engine.contract import K
from engine.loops import Spec
from itertools import combinations, permutations

OK, NO_MORE, INVALID = 0, 1, 2


# ---- combinations: next subset in co-lexicographic order ------------------------------------
def combn_spec(k):
    def spec(ncand, list, **_):
        if ncand < k:
            return {'ret': INVALID, 'list': list}
        first = [const(i + 1) for i in range(k)]
        if list[0] < 1:
            return {'ret': OK, 'list': first}
        for i in range(k):
            # the first element that can move up by one without meeting its successor
            if list[i] + 1 < (list[i + 1] if i + 1 < k else ncand + 1):
                return {'ret': OK, 'list': first[:i] + [list[i] + 1] + list[i + 1:]}
        return {'ret': NO_MORE, 'list': first}
    return spec


def subset(k):
    def pre(ncand, list, **_):
        # a first element below 1 starts the enumeration; otherwise a subset of 1..ncand in ascending order
        asc = and_(*[lt(list[i], list[i + 1]) for i in range(k - 1)]) if k > 1 else const(True)
        return [or_(lt(list[0], 1), lt(ncand, k), and_(asc, le(list[k - 1], ncand))), le(ncand, 2147483646)]
    return pre


def combn_dom(k):
    def f(r):
        if r.random() < 0.2:
            return [r.choice([0, -1, -5])] + [r.randrange(0, 9) for _ in range(k - 1)]
        return sorted(r.sample(range(1, 3 + k), k))
    return f


KMAX = 6
for k in range(1, KMAX + 1):
    Contract('combn@%d' % k, 'i', [K('nsel', k), I('ncand'), IO('list', 'i%d' % k)], combn_spec(k), pre=subset(k), fn='combn', nsamples=80,
             bound='subset size %d (any number of candidates)' % k, dom={'list': combn_dom(k), 'ncand': lambda r, k=k: r.randrange(k - 1, k + 4)})


@contract('combn@bad', 'i', [I('nsel'), I('ncand'), IO('list', 'i2')], fn='combn', nsamples=60, pre=lambda nsel, ncand, list: [or_(lt(nsel, 1), lt(ncand, 1), lt(ncand, nsel))],
          dom={'nsel': lambda r: r.randrange(-2, 6), 'ncand': lambda r: r.randrange(-2, 3)})
def _(nsel, ncand, list):
    return {'ret': INVALID, 'list': list}


def binom(x, k):
    r = rconst(1)
    for i in range(k):
        r = r * (x - i) / rconst(i + 1)
    return r


@lemma('C36', 'each call advances the co-lexicographic rank by one and the last subset ends the sequence')
def _():
    # rank(l) = SUM C(l_i - 1, i + 1): a bijection of the k-subsets of 1..n onto 0..C(n,k)-1
    out = []
    n = V('n')[0]
    for k in range(1, KMAX + 1):
        rank = lambda l: sum_(binom(l[i] - 1, i + 1) for i in range(k))
        out.append(('first subset has rank 0 (%d)' % k, rank([rconst(i + 1) for i in range(k)]), rconst(0)))
        for i in range(k):
            # elements 0..i-1 could not move: they are consecutive and end just below element i
            x = [V('l%d' % j)[0] for j in range(k)]
            l = [x[i] - (i - j) for j in range(i)] + list(x[i:])
            nx = [rconst(j + 1) for j in range(i)] + [x[i] + 1] + list(x[i + 1:])
            out.append(('step at element %d of %d' % (i, k), rank(nx) - rank(l), rconst(1)))
        out.append(('last subset has rank C(n,%d)-1' % k, rank([n - (k - 1 - j) for j in range(k)]), binom(n, k) - 1))
    return out


# ---- permutations -------------------------------------------------------------------------
def permutation(digits):
    """the order for mixed-radix digits d[0..n-1] (d[l-1] < l): item l goes to the (d+1)-th free slot, item 1 to the last"""
    n = len(digits)
    o = [None] * n
    for l in range(n, 0, -1):
        free = [i for i in range(n) if o[i] is None]
        o[free[digits[l - 1] if l > 1 else 0]] = l
    return o


def permut_spec(n):
    def spec(state, order=None, **_):
        d = list_(state)
        start = False
        if d[0] < 0:
            start = True
            d = [const(-1)] + [const(0)] * (n - 1)
        c = 1
        out = []
        # count up by one
        carry = True
        for j in range(n):
            v = d[j] + 1 if carry else d[j]
            carry_next = False
            if carry and v >= j + 1:
                v = const(0)
                carry_next = True
            out.append(v)
            carry = carry_next
        # enumerate the digits' values to place the items
        vals = []
        for j in range(n):
            v = out[j]
            for x in range(j + 1):
                if v == x:
                    vals.append(x)
                    break
            else:
                vals.append(0)
        return {'ret': NO_MORE if carry else OK, 'state': out, 'order': [const(x) for x in permutation(vals)]}
    return spec


list_ = lambda s: [x for x in s]


def permut_pre(n):
    def pre(state, **_):
        return [or_(lt(state[0], 0), and_(*[and_(le(0, state[j]), le(state[j], j)) for j in range(n)]))]
    return pre


def permut_dom(n):
    def f(r):
        if r.random() < 0.2:
            return [r.choice([-1, -7])] + [r.randrange(0, 9) for _ in range(n - 1)]
        return [r.randrange(0, j + 1) if r.random() < 0.6 else j for j in range(n)]
    return f


PMAX = 5
for n in range(1, PMAX + 1):
    Contract('permut@%d' % n, 'i', [K('n', n), IO('state', 'i%d' % n), OUT('order', 'i%d' % n)], permut_spec(n), pre=permut_pre(n), fn='permut', nsamples=80,
             bound='%d items' % n, dom={'state': permut_dom(n)}, maxpaths=5000)


@contract('permut@bad', 'i', [I('n'), IO('state', 'i2'), IO('order', 'i2')], fn='permut', nsamples=40, pre=lambda n, state, order: [lt(n, 1)],
          dom={'n': lambda r: r.randrange(-5, 1)})
def _(n, state, order):
    return {'ret': INVALID, 'state': state, 'order': order}


# ---- combinations, every size -------------------------------------------------------------
def combn_pre(e):
    e.cap = tm.var('cap', 'I')
    e.obj['list'].shape['rows'] = e.cap
    return [le(-2 ** 31, e.nsel), le(e.nsel, 2 ** 31 - 1), le(-2 ** 31, e.ncand), le(e.ncand, 2 ** 31 - 2), le(1, e.cap), le(e.nsel, e.cap), le(e.cap, 2 ** 31 - 1)]


def combn_facts(e):
    """a first element below 1 starts the enumeration; otherwise the elements are a subset of 1..ncand"""
    l0 = sel('list', 0, sort='I')
    f = lambda x: [le(-2 ** 31, x), le(x, 2 ** 31 - 1), or_(lt(l0, 1), le(e.ncand, 0), le(e.nsel, x.args[0]), and_(le(1, x), le(x, e.ncand)))]
    return {'list': f}


def combn_post(e, r):
    from engine.loops import Unsupported, canon
    q = tm.var('?q', 'I')
    n, c = e.nsel, e.ncand
    L = lambda i: sel('list', i, sort='I')
    valid = and_(le(1, n), le(1, c), le(n, c))
    get = lambda H: e.read('list', q, hyps=H)
    ret = r.ret
    if not tm.isc(ret):
        raise Unsupported('status')
    inside, beyond = [le(0, q), lt(q, n)], [le(0, q), le(n, q), lt(q, e.cap)]
    everywhere = [le(0, q), lt(q, e.cap)]
    if ret.val == INVALID:
        yield 'refused only when invalid', [], not_(valid), tm.TRUE
        yield 'refused: nothing changed', everywhere, get(everywhere), L(q)
        return
    yield 'arguments are valid', [], valid, tm.TRUE
    search = [x[1] for x in r.events if x[0] == 'search']
    if not search:
        yield 'start', [], lt(L(0), 1), tm.TRUE
        yield 'start status', [], ret, const(OK)
        yield 'first subset', inside, get(inside), q + 1
        yield 'beyond the subset', beyond, get(beyond), L(q)
        return
    (w, k, keep), = search
    yield 'the item is one of the list', [], and_(le(0, w), lt(w, n)), tm.TRUE
    yield 'not at the start', [], le(1, L(0)), tm.TRUE
    H = [le(0, q), lt(q, w), canon(tm.subst(keep, {k: q}))]
    yield 'the earlier items cannot move up', H, le(canon(L(q + 1)) - L(q), 1), tm.TRUE
    last = canon(L(w + 1))
    if ret.val == OK:
        yield 'the item can move up', [lt(w, n - 1)], lt(L(w) + 1, last), tm.TRUE
        yield 'the last item can move up', [eq(w, n - 1)], le(L(w), c - 1), tm.TRUE
        for lab, H, v in (('before', [le(0, q), lt(q, w)], q + 1), ('after', [lt(w, q), lt(q, e.cap)], L(q))):
            yield 'items %s it' % lab, H, get(H), v
        yield 'the item moves up by one', [], e.read('list', w), L(w) + 1
        return
    yield 'end status', [], ret, const(NO_MORE)
    yield 'all items tried', [], eq(w, n - 1), tm.TRUE
    yield 'the last item cannot move up', [], le(c, L(w)), tm.TRUE
    yield 'the first subset again', inside, get(inside), q + 1
    yield 'beyond the subset', beyond, get(beyond), L(q)


allsizes('combn@all', 'combn', [('int', 'nsel'), ('int', 'ncand'), ('arr', 'list', 0, None, True, 'i')], combn_pre, combn_post, 'any subset size', facts=combn_facts, runs='combn#runs')


# ---- permutations, every size -------------------------------------------------------------
# Counting up: with E the digits as the loop finds them (the lowest already one higher) and the ghost carry c,
#   c(0) = 0, c(k+1) = 1 if E(k) + c(k) > k else 0, new digit(k) = 0 if E(k) + c(k) > k else E(k) + c(k)
# before step k the digits below k are new, digit k is E(k) + c(k) and the others are E; no more states iff c(n) = 1.
# Placing: with U(p) the number of free places (value 1) before p at the start of the step for item l, U(n) = l; the item
# goes to the free place p with U(p) = digit(l).
class Invariant(Spec):
    def only(self, e):
        """the loop stores in no other array"""
        if any(e.ex.objs[o].name not in self.arrays for o in e.arrs):
            e.ex.refuse(e.st, 'the loop stores in another array')

    def __init__(self, rep, name):
        self.rep, self.name = rep, name

    def need(self, e, lab, hyps, goal):
        import time
        from engine.contract import Obl
        t = time.time()
        if not e.ex.solver.feasible(list(hyps)):
            return
        if not e.ex.valid(list(hyps), goal):
            e.ex.refuse(e.st, 'not discharged: ' + lab)
            return
        self.rep.obls.append(Obl(self.name, lab, 'discharged', 'loop invariant', '', time.time() - t))


imp = lambda a, b: or_(not_(a), b)
PN = tm.var('n', 'I')


class Count(Invariant):
    first = True
    arrays = ('state',)

    def E(self, e, q, pc):
        return e.decide(list(pc), e.entry('state', q, pc=list(pc)))

    def c(self, k):
        return sel('?carry', k, sort='I')

    def ghost(self, k, E):
        """what is known of the carries at step k"""
        return [or_(eq(self.c(k), 0), eq(self.c(k), 1)), imp(eq(k, 0), eq(self.c(k), 0)), eq(self.c(k + 1), ite(lt(k, E + self.c(k)), 1, 0)),
                le(0, E), or_(le(E, k), and_(eq(k, 0), le(E, 1)))]

    def during(self, e, nm):
        if nm != 'state':
            return None

        def f(x):
            q = x.args[0]
            H = list(e.st.pc) + [le(0, q), lt(q, PN)]
            E = self.E(e, q, H)
            k = e.k
            inr = and_(le(0, q), lt(q, PN))
            r = [imp(inr, z) for z in self.ghost(q, E)]
            return r + [imp(and_(inr, eq(q, k)), eq(x, E + self.c(q))), imp(and_(inr, lt(k, q)), eq(x, E)), imp(and_(inr, lt(q, k)), and_(le(0, x), le(x, q)))]
        return f

    def init(self, e, st):
        q = tm.var('?q', 'I')
        pc = list(st.pc) + [le(0, q), lt(q, PN)]
        s = lambda j: sel('state', j, sort='I')
        pc += permut_fact(s(q)) + permut_fact(s(const(0)))
        self.only(e)
        self.need(e, 'the digits are counted once each', st.pc, eq(e.N, PN))
        for lab, h, w in (('given digits', [le(0, s(const(0)))], s(q) + ite(eq(q, 0), 1, 0)), ('start: digits zero', [lt(s(const(0)), 0)], const(0))):
            if not e.ex.solver.feasible(pc + h):
                continue
            E = self.E(e, q, pc + h)
            self.need(e, lab, pc + h, eq(E, w))
            self.need(e, lab + ' in range', pc + h, and_(le(0, E), or_(le(E, q), and_(eq(q, 0), le(E, 1)))))

    def both(self, e, r):
        k, q = e.k, tm.var('?q', 'I')
        f = self.during(e, 'state')
        pc = list(r.pc) + f(e.before('state', k))
        E = self.E(e, k, pc)
        now = E + self.c(k)
        new = e.after(r, 'state', k)
        self.need(e, 'the digit', pc, eq(new, ite(lt(k, now), 0, now)))
        self.need(e, 'the digit is in range', pc, and_(le(0, new), le(new, k)))
        H = [lt(k + 1, PN)]
        if e.ex.solver.feasible(pc + H):
            self.need(e, 'the next digit takes the carry', pc + H + f(e.before('state', k + 1)), eq(e.after(r, 'state', k + 1, hyps=H), self.E(e, k + 1, pc + H) + ite(lt(k, now), 1, 0)))
        for lab, H in (('earlier', [le(0, q), lt(q, k)]), ('later', [lt(k + 1, q), lt(q, PN)])):
            if e.ex.solver.feasible(pc + H):
                self.need(e, lab + ' digits are kept', pc + H, eq(e.after(r, 'state', q, hyps=H), e.before('state', q)))
        return pc, now

    def step(self, e, r):
        pc, now = self.both(e, r)
        self.need(e, 'a carry out of the last digit is reported', pc + [eq(e.k, PN - 1)], le(now, e.k))

    def flagged(self, e, r):
        pc, now = self.both(e, r)
        self.need(e, 'the end is reported at the last digit', pc, eq(e.k, PN - 1))
        self.need(e, 'the end is reported only with a carry out of the last digit', pc, lt(e.k, now))

    def exit(self, e, st, hs):
        return {'state': permut_fact_of(lambda j: tm.FALSE)}

    flag_exit = exit


class Place(Invariant):
    arrays = ('order',)
    nests = True

    def __init__(self, rep, name):
        Invariant.__init__(self, rep, name)
        self.inner = [Skip(rep, name)]

    U = staticmethod(lambda p: sel('?free', p, sort='I'))

    def assume(self, e):
        return [eq(self.U(PN), PN - e.k), eq(self.U(const(0)), 0)]

    def during(self, e, nm):
        if nm != 'order':
            return None
        return lambda x: [or_(lt(x.args[0], 0), le(PN, x.args[0]), eq(x, 1), and_(lt(PN - e.k, x), le(x, PN)))]

    def init(self, e, st):
        q = tm.var('?q', 'I')
        H = list(st.pc) + [le(0, q), lt(q, PN)]
        self.only(e)
        self.need(e, 'items from n to 2', st.pc, eq(e.N, PN - 1))
        self.need(e, 'every place is free at first', H, eq(e.entry('order', q, pc=H), 1))

    def step(self, e, r):
        o = e.byname['order']
        ups = r.mem[o.id]['upd']
        if len(ups) != 2 or ups[0] is not e.arrs[o.id] or ups[1].vars or ups[1].conds:
            e.ex.refuse(e.st, 'one item is placed in each step')
            return
        p, item = ups[1].loc[0], PN - e.k
        f = self.during(e, 'order')
        pc = list(r.pc) + f(e.before('order', p)) + self.assume(e)
        digit = e.entry('state', item - 1, pc=pc)
        self.need(e, 'the item', pc, eq(ups[1].val, item))
        self.need(e, 'in range', pc, and_(le(0, p), lt(p, PN)))
        self.need(e, 'the place was free', pc, eq(e.before('order', p), 1))
        self.need(e, 'it is the free place that the digit says', pc, eq(self.U(p), digit))
        # the free places after this step, by induction over the places
        q, u = tm.var('?q', 'I'), tm.var('?u', 'I')
        H = pc + [le(0, q), lt(q, PN)] + f(e.before('order', q))
        one = lambda x: ite(le(x, 1), 1, 0)
        a = e.after(r, 'order', q, hyps=[le(0, q), lt(q, PN)])
        less = lambda z: ite(lt(p, z), 1, 0)
        self.need(e, 'one free place less', H, eq(self.U(q) - less(q) + one(a), self.U(q) + one(e.before('order', q)) - less(q + 1)))
        self.need(e, 'places free or holding this or an earlier item', H, or_(eq(a, 1), and_(lt(PN - (e.k + 1), a), le(a, PN))))

    def exit(self, e, st, hs):
        return {'order': lambda x: [or_(lt(x.args[0], 0), le(PN, x.args[0]), and_(le(1, x), le(x, PN)))]}


class Skip(Invariant):
    eager = True

    def __init__(self, rep, name):
        Invariant.__init__(self, rep, name)
        self.inner = [Seek(rep, name)]

    def slot(self, e):
        cs = [(c, w) for c, w in e.cells.items() if w[0] == 'hv' and w[1].sort == 'I']
        return cs[0] if len(cs) == 1 else (None, None)

    def inv(self, e, s, k):
        U, o = Place.U, e.entry('order', s - 1)
        return [le(0, s), le(s, PN), eq(U(s), k), or_(and_(eq(k, 0), eq(s, 0)), and_(le(1, k), le(1, s), le(o, 1), eq(U(s - 1), k - 1)))]

    def assume(self, e):
        c, w = self.slot(e)
        return self.inv(e, w[1], e.k) if c else []

    def init(self, e, st):
        c, w = self.slot(e)
        if c is None:
            return e.ex.refuse(e.st, 'the place is not one variable')
        self.only(e)
        self.need(e, 'the search starts before the first place', list(st.pc), eq(w[2], 0))

    def step(self, e, r):
        c, w = self.slot(e)
        if c is None:
            return
        s = r.mem[c[0]][c[1]][1]
        p = s - 1
        pc = list(r.pc) + [eq(Place.U(s), Place.U(p) + ite(le(e.entry('order', p), 1), 1, 0))]
        for i, g in enumerate(self.inv(e, s, e.k + 1)):
            self.need(e, 'the next free place (%d)' % i, pc, g)

    def flagged(self, e, r):
        e.ex.refuse(e.st, 'a flag')

    def exit(self, e, st, hs):
        c, w = self.slot(e)
        if c is not None:
            for x in self.inv(e, st.mem[c[0]][c[1]][1], e.N):
                st.pc.append(x)
                e.ex.learn(st, x)
        return {}


class Seek(Invariant):
    eager = 'search'

    def slot(self, e):
        cs = [w for c, w in e.cells.items()]
        return cs[0] if len(cs) == 1 and cs[0][0] == 'ind' and cs[0][2] == 1 else None

    def inv(self, e, w, k):
        p = w[1] - 1
        return [le(0, p + k), le(p + k, PN), eq(Place.U(p + k), Place.U(p))]

    def assume(self, e):
        w = self.slot(e)
        return self.inv(e, w, e.k) if w else []

    def init(self, e, st):
        w = self.slot(e)
        if w is None:
            return e.ex.refuse(e.st, 'the search does not go place by place')
        for g in self.inv(e, w, const(0)):
            self.need(e, 'the search starts in range', list(st.pc), g)

    def step(self, e, r):
        w = self.slot(e)
        if w is None:
            return
        p = w[1] - 1 + e.k
        o = e.entry('order', p)
        pc = list(r.pc) + [eq(Place.U(p + 1), Place.U(p) + ite(le(o, 1), 1, 0)), or_(not_(eq(p, PN)), eq(Place.U(p), Place.U(PN)))]
        for g in self.inv(e, w, e.k + 1):
            self.need(e, 'places passed over are taken', pc, g)


def permut_fact(x):
    """the digits are those of a state unless the first is negative"""
    q = x.args[0]
    s0 = sel('state', 0, sort='I')
    return [le(-2 ** 31, x), le(x, 2 ** 31 - 1), or_(lt(s0, 0), lt(q, 0), le(PN, q), and_(le(0, x), le(x, q)))]


def permut_fact_of(start):
    return lambda x: [or_(lt(x.args[0], 0), le(PN, x.args[0]), and_(le(0, x), le(x, x.args[0])))]


def permut_allpre(e):
    for nm in ('state', 'order'):
        e.obj[nm].shape['rows'] = e.n
    return [le(-2 ** 31, e.n), le(e.n, 2 ** 31 - 2)]


def permut_post(e, r):
    from engine.loops import Unsupported
    q = tm.var('?q', 'I')
    n = e.n
    inside, everywhere = [le(0, q), lt(q, n)], [le(0, q)]
    done = [x[1] for x in r.events if x[0] == 'spec']
    if tm.isc(r.ret) and r.ret.val == INVALID:
        yield 'refused only when invalid', [], lt(n, 1), tm.TRUE
        yield 'refused', [], r.ret, const(INVALID)
        for nm in ('state', 'order'):
            yield nm + ' is kept', everywhere, e.read(nm, q, hyps=everywhere), sel(nm, q, sort='I')
        return
    yield 'arguments are valid', [], le(1, n), tm.TRUE
    if not done or not isinstance(done[0][0], Count):
        raise Unsupported('the digits are not counted up')
    yield 'status', [], r.ret, const(OK if done[0][1] else NO_MORE)
    yield 'the state is the next one', inside, e.read('state', q, hyps=inside), sel(done[0][2]['state'].name, q, sort='I')
    done = done[1:]
    if not done:
        yield 'no items to place', [], eq(n, 1), tm.TRUE
        yield 'the one item', [eq(q, 0)], e.read('order', q, hyps=[eq(q, 0)]), const(1)
    else:
        if not isinstance(done[0][0], Place) or not done[0][1] or len(done) > 1:
            raise Unsupported('the items are not placed')
        yield 'the order is the one placed', inside, e.read('order', q, hyps=inside), sel(done[0][2]['order'].name, q, sort='I')


allsizes('permut@all', 'permut', [('int', 'n'), ('arr', 'state', 0, None, True, 'i'), ('arr', 'order', 0, None, True, 'i')], permut_allpre, permut_post, 'any number of items',
         facts=lambda e: {'state': permut_fact}, runs='permut#runs', specs=lambda se, rep: [Count(rep, 'permut@all'), Place(rep, 'permut@all')])


# ---- whole histories ------------------------------------------------------------------------
def combn_gen(rng, count):
    """every state of every enumeration up to the bound"""
    top = 9 if count < 1000 else 12
    for n in range(1, top + 1):
        for k in range(1, n + 1):
            for first in (0, -3):
                yield {'nsel': k, 'ncand': n, 'list': [first] + [5] * (k - 1) + [777]}
            for c in combinations(range(1, n + 1), k):
                yield {'nsel': k, 'ncand': n, 'list': list(c) + [777]}
    for k, n in ((0, 3), (-1, 3), (4, 3), (1, 0), (2, -1), (0, 0), (40, 39)):
        yield {'nsel': k, 'ncand': n, 'list': [0, 1, 2, 3]}
    for _ in range(400):
        if rng.random() < 0.5:
            n = pick(rng, lambda: rng.randrange(10, 60), 2000)
            k = rng.randrange(1, min(n, 25) + 1)
        else:
            k = pick(rng, lambda: rng.randrange(10, 60), 400)
            n = k + rng.choice([0, 1, 2, 5, 50, 1000])
        z = rng.random()
        if z < 0.2:
            c = list(range(n - k + 1, n + 1))                       # the last subset
        elif z < 0.4:
            c = [rng.choice([0, -5])] + [rng.randrange(9) for _ in range(k - 1)]
        else:
            # the first j items cannot move up, or are random
            c = sorted(rng.sample(range(1, n + 1), k))
            if z < 0.8:
                j = rng.choice([k, k - 1, rng.randrange(k + 1)])
                c = [c[0] + i for i in range(j)] + c[j:] if j == k and c[0] + k - 1 <= n else list(range(c[j] - j - 1, c[j] - 1)) + c[j:] if j < k and c[j] > j + 1 else c
        yield {'nsel': k, 'ncand': n, 'list': c + [777]}


def combn_next(k, n, l):
    if k < 1 or n < 1 or k > n:
        return INVALID, l
    if l[0] < 1:
        return OK, list(range(1, k + 1)) + l[k:]
    for i in range(k):
        if l[i] + 1 < (l[i + 1] if i + 1 < k else n + 1):
            return OK, list(range(1, i + 1)) + [l[i] + 1] + l[i + 1:]
    return NO_MORE, list(range(1, k + 1)) + l[k:]


def combn_check(x, r):
    e = combn_next(x['nsel'], x['ncand'], x['list'])
    return None if (r['ret'], r['list']) == e else 'expected %s' % (e,)


sampled('combn#runs', 'combn', 'i', [I('nsel'), I('ncand'), ARR('list', 'i', lambda x: len(x['list']))], combn_gen, combn_check, 400, 4000,
        'every state of every enumeration with up to 9 candidates (12 thorough), and sampled larger ones', 'the next subset and status')


def permut_gen(rng, count):
    top = 6 if count < 1000 else 8
    import itertools
    for n in range(1, top + 1):
        for first in (-1, -9):
            yield {'n': n, 'state': [first] + [3] * (n - 1) + [777], 'order': [9] * n + [777]}
        for d in itertools.product(*[range(j + 1) for j in range(n)]):
            yield {'n': n, 'state': list(d) + [777], 'order': [9] * n + [777]}
    for n in (0, -1, -100):
        yield {'n': n, 'state': [-1, 5], 'order': [3, 4]}
    for _ in range(400):
        n = pick(rng, lambda: rng.randrange(7, 30), 400)
        d = [rng.choice([rng.randrange(j + 1), j]) for j in range(n)]
        z = rng.random()
        if z < 0.4:
            # a carry through many digits
            for j in range(rng.choice([n, n, n - 1, rng.randrange(n + 1)])):
                d[j] = j
        elif z < 0.6:
            d = [rng.choice([-1, -9])] + [rng.randrange(9) for _ in range(n - 1)]
        yield {'n': n, 'state': d + [777], 'order': [9] * n + [777]}


def permut_next(n, s, o):
    if n < 1:
        return INVALID, s, o
    d = list(s[:n])
    if d[0] < 0:
        d = [-1] + [0] * (n - 1)
    st = OK
    d[0] += 1
    for j in range(n):
        if d[j] <= j:
            break
        d[j] = 0
        if j + 1 < n:
            d[j + 1] += 1
        else:
            st = NO_MORE
    return st, d + s[n:], permutation(d) + o[n:]


def permut_check(x, r):
    e = permut_next(x['n'], x['state'], x['order'])
    return None if (r['ret'], r['state'], r['order']) == e else 'expected %s' % (e,)


sampled('permut#runs', 'permut', 'i', [I('n'), ARR('state', 'i', lambda x: len(x['state'])), ARR('order', 'i', lambda x: len(x['order']))], permut_gen, permut_check, 400, 4000,
        'every state of every enumeration with up to 6 items (8 thorough), and sampled larger ones', 'the next permutation, state and status')


@lemma('C36', 'mixed-radix counting visits every permutation once')
def _():
    out = []
    for n in range(1, 7):
        s, seen = [-1] + [0] * (n - 1), []
        while True:
            st, s, o = permut_next(n, s, [0] * n)
            if st == NO_MORE:
                break
            seen.append(tuple(o))
        f = math.factorial(n)
        out.append(('%d items: %d different permutations' % (n, f), rconst(len(set(seen)) + len(seen)), rconst(2 * f)))
        out.append(('%d items: from n..1 to 1..n and back' % n, rconst(int(seen[0] == tuple(range(n, 0, -1)) and seen[-1] == tuple(range(1, n + 1)) and tuple(o) == seen[0])), rconst(1)))
    return out


# ---- observing stations -----------------------------------------------------------------------
from .tables.stations import STATIONS


def station_values(s):
    def rad(x):
        return x[0] * AS2Rd * (3600 * x[1] + 60 * x[2] + x[3])
    return [s[0], s[1], rad(s[2]), rad(s[3]), s[4]]


def station(n, ident):
    """(found, values): by number for n >= 0, otherwise the first station whose identifier starts with the one given"""
    if n >= 0:
        return station_values(STATIONS[n]) if n < len(STATIONS) else None
    if ident is not None:
        for s in STATIONS:
            if s[0].startswith(ident):
                return station_values(s)
    return None


def obs_gen(rng, count):
    enc = lambda t: None if t is None else [ord(c) for c in t] + [0]
    ids = [s[0] for s in STATIONS]
    for n in list(range(0, 130)) + [2 ** 31 - 1, 1000, 84, 85, 86]:
        yield {'n': n, 'id': enc(rng.choice([None, '', 'AAT', rng.choice(ids)]))}
    for s in ids:
        for k in range(len(s) + 1):
            yield {'n': rng.choice([-1, -1, -2, -2 ** 31]), 'id': enc(s[:k])}
        for t in (s + ' ', s + 'X', s + s, s.lower(), ' ' + s, s[1:], s[:-1] + chr(ord(s[-1]) + 1), s[:-1] + '~', s.replace('1', 'I'), '?'):
            yield {'n': -1, 'id': enc(t)}
    for n in (-1, -5):
        yield {'n': n, 'id': None}
    al = sorted(set(''.join(ids))) + list('abz? ')
    for _ in range(count):
        yield {'n': -1, 'id': enc(''.join(rng.choice(al) for _ in range(rng.randrange(0, 5))))}
        s = list(rng.choice(ids))
        s[rng.randrange(len(s))] = rng.choice(al)
        yield {'n': -1, 'id': enc(''.join(s))}


def obs_check(x, r):
    e = station(x['n'], None if x['id'] is None else ''.join(map(chr, x['id'][:-1])))
    want = e or ['?', '?', 0.0, 0.0, 0.0]
    got = r['obs']
    if r['ret'] != (e is not None):
        return 'found: %s, expected %s' % (r['ret'], e is not None)
    if got[:2] != want[:2] or any(not abs(p - q) <= 1e-9 for p, q in zip(got[2:], want[2:])):
        return 'station %s, expected %s' % (got, want)
    return None


def obs_post(p, out):
    import ctypes
    if p.name == 'obs':
        out['obs'] = [ctypes.string_at(a).decode('latin1') if a else None for a in out['obs'][:2]] + list(out['obs'][2:])


sampled('obs', 'obs', 'b', [I('n'), ARR('id', 'c', lambda x: len(x['id'])), OUT('obs', 'ppddd')], obs_gen, obs_check, 3000, 60000,
        'native cross-check of obs@0..5, where every number and every identifier is proved', 'the station and status found')
ALL['obs'].post_native = obs_post


@lemma('C37', 'every station is reachable by its number and its identifier')
def _():
    out = []
    for i, s in enumerate(STATIONS):
        a, b = station(i, None), station(-1, s[0])
        out.append(('station %d %s' % (i, s[0]), rconst(int(a == b)), rconst(1)))
    return out
