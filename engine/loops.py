"""Loops whose trip count is a parameter: summarised for every trip count.

At the exit test of a natural loop the body is run once from an arbitrary iteration k (every memory cell the body
writes is havocked, except those shown to be `start + step*k`).  What the run shows is the loop's invariant:

* a cell that grows by the same constant at every iteration is `start + step*k` (checked by the run itself);
* a cell whose new value is `old + g(k)` holds `start + sum of g over the earlier iterations`;
* a cell whose new value does not depend on havocked cells holds that value of the last iteration;
* stores to an array become quantified updates `for all k: a[loc(k)] = val(k)`, provided no later iteration can
  store elsewhere in the list order at the same place;
* anything else is an unknown value.

Every obligation met in the run (bounds, overflow, divisors) is discharged for an arbitrary k; a loop outside this
shape raises Unsupported."""
from . import term as tm
from .term import T, const
from .ir import Unsupported
from .symex import Executor, Ptr, State, sort_of



class RegionEnd(Exception):
    pass


class Early(Unsupported):
    """a loop that is left in the middle, or after a number of iterations that depends on data"""


class Carried(Unsupported):
    """a loop-carried dependence through an array"""


class Mark(object):
    """what the iterations before k have stored: upds (their first variable is the iteration)"""
    def __init__(self, k, upds, hv):
        self.k, self.upds = k, []
        for u in upds:
            u = Upd(u.vars, [c for c in u.conds if not mentions(c, hv)], u.loc, None)
            if any(mentions(x, hv) for x in u.loc):
                raise Unsupported('a loop stores at places that depend on earlier iterations')
            self.upds.append(u)

    def sig(self):
        out = []
        for u in self.upds:
            m = {v: tm.var('@v%d' % i, 'I') for i, v in enumerate(u.vars)}
            out.append((tuple(tm.subst(c, m).id for c in u.conds), tuple(tm.subst(x, m).id for x in u.loc)))
        return out


class Havoc(object):
    """an array with unknown contents, about which fact(location, value) holds"""
    def __init__(self, name, sort, fact=None):
        self.name, self.sort, self.fact = name, sort, fact


class Upd(object):
    """for all vars with conds: array[loc] = val"""
    __slots__ = ('vars', 'conds', 'loc', 'val')

    def __init__(self, vars, conds, loc, val):
        self.vars, self.conds, self.loc, self.val = vars, conds, loc, val

    def rename(self, ex):
        m = {v: ex.fresh('k', 'I') for v in self.vars}
        s = lambda t: tm.subst(t, m)
        return Upd([m[v] for v in self.vars], [s(c) for c in self.conds], tuple(s(x) for x in self.loc), self.val)


def poly(t):
    """integer term as {sorted tuple of atom terms: coefficient}"""
    if tm.isc(t):
        return {(): t.val} if t.val else {}
    if t.op == '+':
        r = {}
        for a in t.args:
            for m, c in poly(a).items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if t.op == '*':
        a, b = poly(t.args[0]), poly(t.args[1])
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=lambda x: x.id))
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}
    return {(t,): 1}


def unpoly(p):
    r = const(0)
    for m, c in p.items():
        x = const(c)
        for a in m:
            x = x * a
        r = r + x
    return r


def canon(t):
    """indices of array elements as canonical polynomials"""
    m = {}
    for x in tm.subterms([t]):
        if x.op == 'sel':
            y = tm._mk('sel', tuple(unpoly(dict(sorted(poly(tm.subst(a, m) if m else a).items(), key=lambda z: [q.id for q in z[0]]))) for a in x.args), x.sort, x.val)
            if y is not x:
                m[x] = y
    return tm.subst(t, m) if m else t


def mentions(t, vs):
    return any(x.id in vs for x in tm.free_vars([t]))


class LoopExecutor(Executor):
    sums = False
    specs = ()              # invariants of the loops the summaries do not cover, in order of appearance
    facts = {}

    # ---- arrays of symbolic extent -------------------------------------------------
    def locate(self, st, o, off, size, what):
        sh = o.shape
        if size != sh['elem']:
            raise Unsupported('access of another width in ' + o.name)
        idx = self.div_index(const(off), size)
        cols = sh.get('cols')
        rows = sh['rows']
        if cols is None:
            loc = (idx,)
            st.obls.append(('bounds', tm.and_(tm.le(0, idx), tm.lt(idx, rows)), '%s of %s in bounds' % (what, o.name)))
            return loc
        cols = const(cols)
        p = poly(idx)
        row, col = {}, {}
        for m, c in p.items():
            if tm.isc(cols):
                if c % cols.val == 0 or m == ():
                    row[m] = c // cols.val
                    if c % cols.val:
                        col[m] = c % cols.val
                else:
                    col[m] = c
            elif any(x is cols for x in m):
                n = list(m)
                del n[[x is cols for x in n].index(True)]
                row[tuple(n)] = row.get(tuple(n), 0) + c
            else:
                col[m] = c
        r, c = unpoly(row), unpoly(col)
        if not tm.isc(cols) and row.get(()) and not self.valid(st.pc, tm.and_(tm.le(0, c), tm.lt(c, cols))):
            # a column counted from the end of the row
            r2, c2 = r - row[()], c + cols * row[()]
            if self.valid(st.pc, tm.and_(tm.le(0, c2), tm.lt(c2, cols))):
                r, c = r2, c2
        st.obls.append(('bounds', tm.and_(tm.le(0, r), tm.lt(r, rows), tm.le(0, c), tm.lt(c, cols)), '%s of %s in bounds' % (what, o.name)))
        return (r, c)

    def load_symbolic(self, st, o, off, rt, size):
        if o.shape is None or 'rows' not in o.shape:
            return Executor.load_symbolic(self, st, o, off, rt, size)
        v = self.read(st.pc, st.mem.get(o.id, {}).get('upd') or [], o, self.locate(st, o, off, size, 'read'))
        if self.facts:
            for x in tm.subterms([v]):
                if x.op == 'sel' and x.val in self.facts:
                    for c in self.facts[x.val](x):
                        if not tm.isc(c) and c.id not in st.known:
                            st.pc.append(c)
                            self.learn(st, c)
        return v

    def shape_store(self, st, o, off, size, v):
        if 'rows' not in o.shape:
            return Executor.shape_store(self, st, o, off, size, v)
        loc = self.locate(st, o, off, size, 'write')
        cells = st.mem.setdefault(o.id, {})
        cells['upd'] = list(cells.get('upd') or []) + [Upd([], [], loc, v)]

    def read(self, pc, ups, o, loc):
        if not ups:
            return tm.sel(o.name, *loc, sort=o.shape.get('sort', 'R'))
        e = ups[-1]
        if isinstance(e, Mark):
            for u in e.upds:
                u = u.rename(self)
                cs = list(pc) + u.conds + [tm.le(0, u.vars[0]), tm.lt(u.vars[0], e.k)] + [tm.eq(x, y) for x, y in zip(u.loc, loc)]
                if not any(tm.isc(x) and not x.val for x in cs) and self.solver.prove(cs, tm.FALSE)[0] != 'proved':
                    raise Carried('%s is read where the loop may have written it' % o.name)
            return self.read(pc, ups[:-1], o, loc)
        if isinstance(e, Havoc):
            return tm.sel(e.name, *loc, sort=e.sort)
        c, m = self.match(pc, e, loc)
        if c is False:
            return self.read(pc, ups[:-1], o, loc)
        v = tm.subst(e.val, m) if m else e.val
        if c is True:
            return v
        return tm.ite(c, v, self.read(list(pc) + [tm.not_(c)], ups[:-1], o, loc))

    def match(self, pc, e, loc):
        m = {}
        left = list(zip(e.loc, loc))
        todo = set(v.id for v in e.vars)
        byid = {v.id: v for v in e.vars}
        while todo:
            for i, (a, b) in enumerate(left):
                p = poly(tm.subst(a, m) - b if m else a - b)
                un = [(q, c) for q, c in p.items() if any(x.id in todo for x in q)]
                if len(un) == 1 and len(un[0][0]) == 1 and un[0][1] in (1, -1):
                    v = un[0][0][0]
                    c = un[0][1]
                    rest = unpoly({q: d for q, d in p.items() if q is not un[0][0]})
                    m[v] = rest * (-c)
                    todo.discard(v.id)
                    del left[i]
                    break
            else:
                raise Unsupported('the location does not determine the iteration')
        cs = [tm.subst(c, m) if m else c for c in e.conds]
        cs += [tm.eq(tm.subst(a, m) if m else a, b) for a, b in left]
        out = []
        for c in cs:
            if tm.isc(c):
                if not c.val:
                    return False, m
                continue
            if self.valid(pc, c):
                continue
            out.append(c)
        if not out:
            return True, m
        if not self.solver.feasible(list(pc) + out):
            return False, m
        return tm.and_(*out) if len(out) > 1 else out[0], m

    def valid(self, pc, c):
        c = const(c)
        if tm.isc(c):
            return c.val
        if c.op == 'and':
            return all(self.valid(pc, x) for x in c.args)
        return self.solver.prove(list(pc) + self.products(pc, c), c)[0] == 'proved'

    def products(self, pc, c):
        """0 <= r < R and 0 <= c < C: r*C + c < R*C, as facts for the linear solver"""
        return []

    # ---- loops ---------------------------------------------------------------------------
    def natural_loops(self, f):
        r = getattr(f, '_loops', None)
        if r is not None:
            return r
        succ = {}
        for b, ins in f.blocks.items():
            out = []
            if ins:
                d = self.decode(f.module, ins[-1])
                if d[0] == 'br':
                    out = [d[1]]
                elif d[0] == 'cbr':
                    out = [d[2], d[3]]
                elif d[0] in ('ret', 'unreachable', 'resume'):
                    out = []
                else:
                    out = [x for x in f.blocks if any(x == y for y in flat(d))]
            succ[b] = [x for x in out if x in f.blocks]
        # back edges by dominators
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(f.entry)
        pred = {b: [] for b in seen}
        for b in seen:
            for y in succ[b]:
                pred[y].append(b)
        dom = {b: set(seen) for b in seen}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if b == f.entry:
                    continue
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in seen:
            for h in succ[b]:
                if h in dom[b]:
                    body = {h, b}
                    w = [b] if b != h else []
                    while w:
                        x = w.pop()
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                w.append(p)
                    loops.setdefault(h, set()).update(body)
        f._loops = loops
        return loops

    def goto(self, st, lab):
        reg = st.visits.get('regions')
        if reg and len(st.frames) == reg[-1][0] and st.frames[-1].f is reg[-1][1]:
            mode = reg[-1][4]
            if lab == reg[-1][2]:
                if mode == 'exit':
                    st.visits['discard'] = True
                raise RegionEnd()
            if lab not in reg[-1][3]:
                if mode == 'search':
                    st.visits['left'] = True
                    raise RegionEnd()
                if mode != 'exit':
                    raise Early('loop left early')
                st.visits['regions'] = reg[:-1]
                return self.goto(st, lab)
        Executor.goto(self, st, lab)
        if self.sums:
            fr = st.frames[-1]
            body = self.natural_loops(fr.f).get(lab)
            if body is not None:
                d = self.decode(fr.f.module, fr.f.blocks[lab][-1])
                if d[0] != 'cbr' or (d[2] in body) == (d[3] in body):
                    self.search_loop(st, fr, body)

    def branch(self, st, cond, work, mk):
        def mk2(s2, tv):
            try:
                mk(s2, tv)
            except RegionEnd:
                s2.visits['ended'] = True
        return Executor.branch(self, st, cond, work, mk2)

    def run_path(self, st, work):
        if not st.visits.get('ended'):
            try:
                return Executor.run_path(self, st, work)
            except RegionEnd:
                pass
        if st.visits.get('discard'):
            return None
        r = self.finish(st)
        r.ended = True
        r.visits = st.visits
        return r

    def loop_hook(self, st, fr, inst, c, d, work):
        if not self.sums:
            return False
        loops = self.natural_loops(fr.f)
        body = loops.get(fr.block)
        if body is None or (d[2] in body) == (d[3] in body):
            return False
        stay = d[2] in body
        inside, outside = (d[2], d[3]) if stay else (d[3], d[2])
        sc = c if stay else tm.not_(c)
        reg = st.visits.get('regions')
        if reg and reg[-1][0] == len(st.frames) and reg[-1][1] is fr.f and reg[-1][2] == fr.block:
            if reg[-1][4]:
                return False
            st.visits['cond'] = st.visits.get('cond', ()) + (sc,)
            st.pc.append(sc)
            self.learn(st, sc)
            Executor.goto(self, st, inside)
            return True
        sp = self.specs if st.visits.get('specs') is None else st.visits['specs']
        if sp and sp[0].eager:
            st.visits['specs'] = sp[1:]
            if sp[0].eager == 'search':
                fr.i = 0
                self.search_loop(st, fr, body, sp[0])
            else:
                self.spec_loop(st, fr, body, sc, outside, work, sp[0])
            return True
        if sp and sp[0].first:
            try:
                self.stated(st, body, sc, outside, work, sp)
                return True
            except Unsupported:
                pass
        s2, w2 = st.copy(), []
        try:
            try:
                self.summarise(s2, s2.frames[-1], body, sc, outside, w2)
            except Unsupported as x:
                # no summary: the next stated invariant, if it is one for this kind of loop
                raise Carried(str(x)) if sp and sp[0].nests and not isinstance(x, Early) else x
        except Early:
            if any(i[0] in ('store', 'call', 'invoke') for i in fr.f.blocks[fr.block]):
                raise Unsupported('the test of a loop has effects')
            fr.i = 0
            self.search_loop(st, fr, body)
            return True
        except Carried:
            if not sp:
                raise
            self.stated(st, body, sc, outside, work, sp)
            return True
        except RegionEnd:
            work.extend(w2)
            st.__dict__.update(s2.__dict__)
            raise
        work.extend(w2)
        st.__dict__.update(s2.__dict__)
        return True

    def stated(self, st, body, sc, outside, work, sp):
        """the next invariant on this loop; st is left alone when it fails"""
        s2, w2 = st.copy(), []
        s2.visits['specs'] = sp[1:]
        n = len(sp[0].rep.obls)
        try:
            self.spec_loop(s2, s2.frames[-1], body, sc, outside, w2, sp[0])
        except Unsupported:
            del sp[0].rep.obls[n:]
            raise
        work.extend(w2)
        st.__dict__.update(s2.__dict__)

    def region(self, st, setup, mode=None):
        s = st.copy()
        fr = s.frames[-1]
        s.visits['regions'] = s.visits.get('regions', ()) + ((len(s.frames), fr.f, fr.block, st.visits['@body'], mode),)
        depth = len(s.visits.get('cond', ()))
        s.obls, s.events = [], []
        setup(s)
        if fr.f.blocks[fr.block][0][0] == 'phi':
            raise Unsupported('phi at a loop header')
        fr.i = 0
        base = {o: dict(c) for o, c in s.mem.items()}
        npc = len(s.pc)
        ends = []
        for r in self.explore(s):
            if r.abort:
                if self.solver.feasible(r.pc):
                    raise Unsupported('a loop iteration may end abnormally: %s' % (r.abort,))
                continue
            if mode and (not getattr(r, 'ended', False) or r.visits.get('left')):
                continue
            if not getattr(r, 'ended', False):
                raise Early('a loop iteration leaves the loop')
            r.cond = r.visits['cond'][depth] if mode is None else None
            r.path = [x for x in r.pc[npc:] if x is not r.cond]
            ends.append(r)
        if not ends:
            raise Unsupported('no loop iteration completes')
        return base, ends

    def fixpoint(self, st, body, k, havoc, mode=None, spec=None, e=None):
        """the cells and arrays the body writes, and its ends, from an arbitrary iteration k"""
        st.visits['@body'] = body
        cells = {} if e is None else e.cells
        arrs = {} if e is None else e.arrs
        size = {}

        def unknown(o):
            h = arrs[o] = Havoc('%s!%d' % (self.objs[o].name, self.next()), self.objs[o].shape.get('sort', 'R'))
            if spec is not None:
                f = spec.during(e, self.objs[o].name)
                if f is not None:
                    self.facts = dict(self.facts)
                    self.facts[h.name] = f
        for nm in spec.arrays if spec is not None else ():
            unknown(e.byname[nm].id)
        n0 = len(spec.rep.obls) if spec is not None else 0
        for rnd in range(14):
            if spec is not None:
                del spec.rep.obls[n0:]
            def setup(s):
                s.pc.append(tm.le(0, k))
                self.learn(s, tm.le(0, k))
                for (o, off), w in cells.items():
                    m = s.mem[o] = dict(s.mem[o])
                    if w[0] == 'ind':
                        m[off] = (size[o, off], step(w[1], w[2], k))
                    elif w[0] == 'hv':
                        m[off] = (size[o, off], w[1])
                    else:
                        m.pop(off, None)
                for o, h in arrs.items():
                    m = s.mem[o] = dict(s.mem.get(o, {}))
                    m['upd'] = ([] if havoc else list(m.get('upd') or [])) + [h]
                s.visits['specs'] = tuple(spec.inner) if spec is not None else ()
                if spec is not None:
                    for x in spec.assume(e):
                        s.pc.append(x)
                        self.learn(s, x)
            base, ends = self.region(st, setup, mode)
            hv = set(w[1].id for w in cells.values() if w[0] == 'hv')
            changed = False
            touched = set()
            for r in ends:
                for o, m in r.mem.items():
                    b = base.get(o)
                    if b is None:
                        ob = self.objs[o]
                        if ob.kind == 'global':
                            g = self.global_cells(ob)
                            if set(g) != set(m) or any(g[z][0] != m[z][0] or not eqv(g[z][1], m[z][1]) for z in m):
                                raise Unsupported('a loop writes ' + ob.name)
                        elif ob.shape is not None and m.get('upd'):
                            touched.add(o)
                        continue
                    for off in set(m) | set(b):
                        if off == 'upd':
                            if len(m.get('upd') or ()) != len(b.get('upd') or ()):
                                touched.add(o)
                            continue
                        x, y = b.get(off), m.get(off)
                        if x is y or (x is not None and y is not None and x[0] == y[0] and eqv(x[1], y[1])) or (o, off) in cells:
                            continue
                        if y is None:
                            raise Unsupported('a loop overlays memory')
                        if x is not None and x[0] != y[0]:
                            raise Unsupported('a loop stores with another width')
                        v0 = x[1] if x is not None else None
                        size[o, off] = y[0]
                        s = None
                        for q in ends:
                            z = q.mem[o].get(off)
                            d = delta(v0, z[1]) if z is not None and v0 is not None else None
                            if d is None or (s is not None and s != d):
                                s = None
                                break
                            s = d
                        if s:
                            cells[o, off] = ('ind', v0, s)
                        elif v0 is None or isinstance(v0, Ptr):
                            cells[o, off] = ('dead', None, v0)
                        else:
                            cells[o, off] = ('hv', self.fresh('h', v0.sort), v0)
                        changed = True
            for o in touched:
                if havoc:
                    if o not in arrs:
                        unknown(o)
                        changed = True
                    continue
                n = len(base.get(o, {}).get('upd') or ())
                mk = Mark(k, [Upd([k] + u.vars, r.path + u.conds, u.loc, None) for r in ends for u in (r.mem[o].get('upd') or ())[n:]], hv)
                if o not in arrs or (mk.sig() != arrs[o].sig() and not changed):
                    changed = True
                    arrs[o] = mk
            for (o, off), w in list(cells.items()):
                if w[0] == 'ind' and not changed:
                    for q in ends:
                        z = q.mem[o].get(off)
                        if z is None or delta(step(w[1], w[2], k), z[1]) != w[2]:
                            cells[o, off] = ('hv', self.fresh('h', w[1].sort), w[1]) if isinstance(w[1], T) else ('dead', None, w[1])
                            changed = True
                            break
            if not changed:
                return cells, arrs, size, ends, hv
        raise Unsupported('no loop summary')

    def next(self):
        self.names = getattr(self, 'names', 0) + 1
        return self.names

    def exit_test(self, ends, hv, k):
        c = ends[0].cond
        if any(r.cond is not c for r in ends) or mentions(c, hv):
            raise Early('loop condition')
        N = trips(c, k)
        if N is None or mentions(N, hv | {k.id}):
            raise Early('trip count')
        return N

    def refuse(self, st, what):
        """an obligation of a loop fails: for good, or for this round of an enclosing loop's fixpoint"""
        if not st.visits.get('regions'):
            raise Unsupported(what)
        st.obls.append(('loop', tm.FALSE, what))

    def body_obligations(self, ends, st=None):
        for r in ends:
            for e in r.events:
                if e[0] in ('frame', 'uninit'):
                    raise Unsupported('in a loop: %s %s' % (e[0], e[1]))
            for o in r.obls:
                if not self.valid(r.pc, o[1]):
                    if st is not None:
                        self.refuse(st, 'in a loop, not discharged: %s' % (o[2],))
                        continue
                    raise Unsupported('in a loop, not discharged: %s' % (o[2],))
                self.loop_obls = getattr(self, 'loop_obls', 0) + 1

    def enter(self, st, c0, N, outside, work):
        """fork off the case of no iteration; st goes on with N >= 1"""
        n0 = tm.not_(c0)
        if self.solver.feasible(st.pc + [n0]):
            s2 = st.copy()
            s2.pc.append(n0)
            self.learn(s2, n0)
            self.leave(s2, outside)
            work.append(s2)
        st.pc.append(c0)
        self.learn(st, c0)
        if not self.valid(st.pc, tm.le(1, N)):
            raise Unsupported('trip count may be negative')

    def leave(self, st, outside):
        try:
            self.goto(st, outside)
        except RegionEnd:
            st.visits['ended'] = True

    def choice(self, st, k, N, cells, ends, hv):
        """cells either left alone or set together to g(k) under a condition on themselves: {cell: g}, or None"""
        if not any(mentions(x, hv) for r in ends for x in r.path):
            return None
        val = lambda r, c: (r.mem[c[0]].get(c[1]) or (0, None))[1]
        ch = {}
        for c, w in cells.items():
            if w[0] != 'hv':
                continue
            vs = [val(r, c) for r in ends]
            new = [v for v in vs if v is not w[1]]
            if len(new) < len(vs) and new and all(isinstance(v, T) and v is new[0] and not mentions(v, hv) for v in new):
                ch[c] = new[0]
        hs = set(cells[c][1].id for c in ch)
        sets = [r for r in ends if any(val(r, c) is not cells[c][1] for c in ch)]
        if not ch or any(val(r, c) is cells[c][1] for r in sets for c in ch):
            raise Unsupported('a branch depends on earlier iterations')
        if any(mentions(x, hv - hs) for r in ends for x in r.path):
            raise Unsupported('a branch depends on earlier iterations')
        return ch, sets

    def search_loop(self, st, fr, body, spec=None):
        """a loop whose iterations store nothing and that is left in an iteration w, unknown but for what every earlier
        iteration has shown; st goes on from there"""
        k = self.fresh('k', 'I')
        fr.i = 0
        e = SpecEnv(self, k, None, st, {}, {}) if spec else None
        cells, arrs, size, ends, hv = self.fixpoint(st, body, k, False, 'search', spec, e)
        if arrs:
            raise Carried('a loop that is left early stores')
        self.body_obligations(ends, st if spec else None)
        if spec:
            spec.init(e, st)
            for r in ends:
                spec.step(e, r)
        for r in ends if spec is None else ():
            ns = [trips(c, k) for x in r.path for c in (x.args if x.op == 'and' else (x,))]
            if not any(n is not None and not mentions(n, hv | {k.id}) for n in ns):
                raise Unsupported('no bound on the iterations')
        w = self.fresh('w', 'I')
        st.pc.append(tm.le(0, w))
        self.learn(st, tm.le(0, w))
        for (o, off), z in cells.items():
            m = st.mem[o] = dict(st.mem[o])
            if z[0] == 'ind':
                m[off] = (size[o, off], step(z[1], z[2], w))
            elif z[0] == 'hv':
                m[off] = (size[o, off], z[1])
            else:
                m.pop(off, None)
        if spec:
            for x in spec.assume(e):
                x = tm.subst(x, {k: w})
                st.pc.append(x)
                self.learn(st, x)
        keep = [tm.and_(*[x for x in r.path if not mentions(x, hv)]) for r in ends]
        if all(x is not tm.TRUE for x in keep):
            c = tm.or_(*keep) if len(keep) > 1 else keep[0]
            st.events = st.events + [('search', (w, k, c))]
            # the iteration before w went on
            c = tm.not_(tm.and_(tm.le(1, w), tm.not_(canon(tm.subst(c, {k: w - 1})))))
            st.pc.append(c)
            self.learn(st, c)
        st.visits['regions'] = st.visits.get('regions', ()) + ((len(st.frames), fr.f, fr.block, body, 'exit'),)

    def spec_loop(self, st, fr, body, c0, outside, work, spec):
        """a loop proved against a stated invariant: cells and arrays it writes are unknown at an arbitrary iteration"""
        k = self.fresh('k', 'I')
        e = SpecEnv(self, k, None, st, {}, {})
        cells, arrs, size, ends, hv = self.fixpoint(st, body, k, True, None, spec, e)
        N = e.N = self.exit_test(ends, hv, k)
        self.body_obligations(ends, st)
        # flags: left alone or set to one constant other than the initial one, for good
        flags = {}
        for c, w in cells.items():
            if w[0] == 'hv' and tm.isc(w[2]):
                vs = [(r.mem[c[0]].get(c[1]) or (0, None))[1] for r in ends]
                new = [v for v in vs if v is not w[1]]
                if new and all(v is not None and tm.isc(v) and v.val == new[0].val for v in new) and new[0].val != w[2].val and w[1].sort != 'R':
                    flags[c] = new[0]
        self.enter(st, c0, N, outside, work)
        spec.init(e, st)
        for r in ends:
            if not self.solver.feasible(r.pc):
                continue
            fl = [c for c in flags if r.mem[c[0]][c[1]][1] is flags[c]]
            if fl:
                spec.flagged(e, r)
            else:
                spec.step(e, r)

        def out(s, bad):
            ex = {}
            for (o, off), w in cells.items():
                m = s.mem[o] = dict(s.mem[o])
                if (o, off) in flags:
                    if bad is None:
                        m[off] = (size[o, off], w[2])
                    else:
                        m[off] = (size[o, off], self.fresh('flag', w[1].sort))
                elif w[0] == 'ind':
                    m[off] = (size[o, off], step(w[1], w[2], N))
                elif w[0] == 'hv':
                    m[off] = (size[o, off], self.fresh('unknown', w[1].sort))
                else:
                    m.pop(off, None)
            for o, h in arrs.items():
                m = s.mem[o] = dict(s.mem.get(o, {}))
                n = Havoc('%s!%d' % (self.objs[o].name, self.next()), h.sort)
                m['upd'] = [n]
                ex[self.objs[o].name] = n
            return ex
        if flags:
            s2 = st.copy()
            hs = out(s2, True)
            # some flag has left its initial value
            c = tm.not_(tm.and_(*[tm.eq(s2.mem[o][off][1], cells[o, off][2]) for o, off in flags]))
            s2.pc.append(c)
            self.learn(s2, c)
            s2.pc += [tm.not_(tm.and_(tm.not_(tm.eq(s2.mem[o][off][1], cells[o, off][2])), tm.not_(tm.eq(s2.mem[o][off][1], v)))) for (o, off), v in flags.items()]
            s2.events = s2.events + [('spec', (spec, False, hs))]
            self.facts = dict(self.facts)
            for nm, f in spec.flag_exit(e, s2, hs).items():
                self.facts[hs[nm].name] = f
            self.leave(s2, outside)
            work.append(s2)
        hs = out(st, None)
        self.facts = dict(self.facts)
        for nm, f in spec.exit(e, st, hs).items():
            self.facts[hs[nm].name] = f
        st.events = st.events + [('spec', (spec, True, hs))]
        self.goto(st, outside)

    def summarise(self, st, fr, body, c0, outside, work):
        k = self.fresh('k', 'I')
        cells, arrs, size, ends, hv = self.fixpoint(st, body, k, False)
        N = self.exit_test(ends, hv, k)
        self.body_obligations(ends)
        cho = self.choice(st, k, N, cells, ends, hv)
        self.enter(st, c0, N, outside, work)
        last = {k: N - 1}

        def merge(vals):
            r = vals[-1]
            for e, v in list(zip(ends, vals))[:-1][::-1]:
                if v is not r:
                    if any(mentions(x, hv) for x in e.path):
                        return None
                    r = tm.ite(tm.and_(*e.path) if len(e.path) != 1 else e.path[0], v, r)
            return r
        for (o, off), w in cells.items():
            m = st.mem[o] = dict(st.mem[o])
            if w[0] == 'ind':
                m[off] = (size[o, off], step(w[1], w[2], N))
                continue
            if cho and (o, off) in cho[0]:
                continue
            vals = [r.mem[o].get(off) for r in ends]
            v = None
            if all(x is not None for x in vals):
                vals = [x[1] for x in vals]
                if all(isinstance(x, Ptr) for x in vals):
                    if all(eqv(x, vals[0]) for x in vals):
                        p = vals[0]
                        if not (isinstance(p.off, T) and mentions(p.off, hv)) and p.obj in st.mem:
                            v = Ptr(p.obj, tm.subst(p.off, last) if isinstance(p.off, T) else p.off)
                elif all(isinstance(x, T) for x in vals) and len(set(x.sort for x in vals)) == 1:
                    if not any(mentions(x, hv) for x in vals):
                        v = merge(vals)
                        v = tm.subst(v, last) if v is not None else None
                    elif w[0] == 'hv' and w[1].sort == 'R':
                        gs = [minus(x, w[1]) for x in vals]
                        if all(g is not None and not mentions(g, hv) for g in gs):
                            g = merge(gs)
                            v = w[2] + tm.SUM(k, 0, N, g) if g is not None else None
                    if v is None:
                        v = self.fresh('unknown', vals[0].sort)
            if v is None:
                m.pop(off, None)
                m[off] = (size[o, off], self.fresh('unknown', 'I')) if w[2] is not None and isinstance(w[2], T) and w[2].sort == 'I' else None
                if m[off] is None:
                    del m[off]
                continue
            m[off] = (size[o, off], v)
        for o in arrs:
            old = st.mem.get(o, {}).get('upd') or []
            new = []
            for r in ends:
                ups = r.mem[o]['upd']
                j = len(old) + 1
                assert ups[j - 1] is arrs[o]
                for e in ups[j:]:
                    if any(mentions(x, hv) for x in e.conds) or any(mentions(x, hv) for x in e.loc) or not isinstance(e.val, T) or mentions(e.val, hv):
                        raise Unsupported('a stored value depends on earlier iterations')
                    if any(mentions(x, hv) for x in r.path):
                        raise Unsupported('a store depends on earlier iterations')
                    new.append(Upd([k] + e.vars, [tm.le(0, k), tm.lt(k, N)] + r.path + e.conds, e.loc, e.val))
            for i, a in enumerate(new):
                for b in new[:i]:
                    # a stands after b: no later iteration's b at the place of a
                    a2, b2 = a.rename(self), b.rename(self)
                    cs = st.pc + a2.conds + b2.conds + [tm.lt(a2.vars[0], b2.vars[0])] + [tm.eq(x, y) for x, y in zip(a2.loc, b2.loc)]
                    if not any(tm.isc(x) and not x.val for x in cs) and self.solver.prove(cs, tm.FALSE)[0] != 'proved':
                        raise Unsupported('iterations store at the same place')
            m = st.mem[o] = dict(st.mem.get(o, {}))
            m['upd'] = list(old) + new
        if cho:
            self.choose(st, k, N, cells, size, ends, cho, outside, work)
        self.goto(st, outside)

    def choose(self, st, k, N, cells, size, ends, cho, outside, work):
        """after the loop the choice cells hold their initial values, or those of some iteration w"""
        ch, sets = cho
        w = self.fresh('w', 'I')
        up = []
        for c, g in ch.items():
            h = cells[c][1]
            if h.sort == 'R' and all(self.valid(r.pc, tm.le(h, g) if r in sets else tm.le(g, h)) for r in ends):
                up.append(c)

        def put(s, vals):
            for (o, off), v in vals.items():
                m = s.mem[o] = dict(s.mem[o])
                m[off] = (size[o, off], v)
            for c in up:
                s.visits['max'] = s.visits.get('max', ()) + ((vals[c], k, ch[c], N, cells[c][2]),)
        s2 = st.copy()
        for x in (tm.le(0, w), tm.lt(w, N)):
            s2.pc.append(x)
            self.learn(s2, x)
        put(s2, {c: tm.subst(g, {k: w}) for c, g in ch.items()})
        self.leave(s2, outside)
        work.append(s2)
        put(st, {c: cells[c][2] for c in ch})


class Spec(object):
    """a stated loop invariant.  init/step/flagged emit the obligations; assume and during are what the invariant says
    of an arbitrary iteration (cells, and elements of the arrays); inner: the invariants of the loops inside"""
    eager = False           # True: use it without trying a summary; 'search': a loop left early
    first = False           # try it before a summary
    nests = False           # use it when the summary fails for any reason
    arrays = ()
    inner = ()

    def assume(self, e):
        return []

    def during(self, e, nm):
        return None

    def flag_exit(self, e, st, hs):
        return {}


class SpecEnv(object):
    """what an invariant can talk about: the arrays and parameter cells before an arbitrary iteration k and after it"""
    def __init__(self, ex, k, N, st, cells, arrs):
        self.ex, self.k, self.N, self.cells, self.arrs, self.st = ex, k, N, cells, arrs, st
        self.byname = {}
        for o in list(st.mem) + list(arrs):
            ob = ex.objs[o]
            if ob.kind == 'param':
                self.byname[ob.name] = ob
        self.entry_mem = {o: dict(m) for o, m in st.mem.items()}

    def before(self, nm, *loc):
        o = self.byname[nm]
        h = self.arrs.get(o.id)
        if h is None:
            return self.entry(nm, *loc)
        return tm.sel(h.name, *loc, sort=h.sort)

    def entry(self, nm, *loc, pc=()):
        o = self.byname[nm]
        return self.ex.read(list(pc), self.entry_mem.get(o.id, {}).get('upd') or [], o, tuple(const(x) for x in loc))

    def after(self, r, nm, *loc, hyps=()):
        o = self.byname[nm]
        pc = list(r.pc) + list(hyps)
        return self.decide(pc, self.ex.read(pc, r.mem.get(o.id, {}).get('upd') or [], o, tuple(const(x) for x in loc)))

    def cell0(self, nm, off=0):
        w = self.cells.get((self.byname[nm].id, off))
        return w[1] if w is not None else self.entry_mem[self.byname[nm].id][off][1]

    def cell1(self, r, nm, off=0):
        return r.mem[self.byname[nm].id][off][1]

    def decide(self, pc, t):
        """conditions of t that pc settles"""
        while True:
            for x in tm.subterms([t]):
                if x.op == 'ite' and not any(y.op == 'ite' for y in tm.subterms([x.args[0]])):
                    c = x.args[0]
                    if self.ex.valid(pc, c):
                        t = tm.subst(t, {x: x.args[1]})
                        break
                    if self.ex.valid(pc, tm.not_(c)):
                        t = tm.subst(t, {x: x.args[2]})
                        break
            else:
                return t


def flat(d):
    for x in d:
        if isinstance(x, (list, tuple)):
            for y in flat(x):
                yield y
        else:
            yield x


def eqv(a, b):
    """the same value"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and const(a.off) is const(b.off) if a.obj is not None else b.obj is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] == 'fn' and a == b
    return False


def delta(a, b):
    """b - a when a constant integer"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            return None
        a, b = const(a.off), const(b.off)
    if not isinstance(a, T) or not isinstance(b, T) or a.sort != 'I' or b.sort != 'I':
        return None
    p = poly(b - a)
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


def step(v0, s, k):
    if isinstance(v0, Ptr):
        r = const(v0.off) + k * s
        return Ptr(v0.obj, r.val if tm.isc(r) else r)
    return v0 + k * s


def minus(x, h):
    """x - h for a sum x with the summand h once"""
    if x is h:
        return tm.rconst(0)
    if x.op == '+':
        a, b = x.args
        for u, v in ((a, b), (b, a)):
            if mentions(u, {h.id}):
                g = minus(u, h)
                return None if g is None or mentions(v, {h.id}) else g + v
    if x.op == 'ite' and not mentions(x.args[0], {h.id}):
        g1, g2 = minus(x.args[1], h), minus(x.args[2], h)
        if g1 is not None and g2 is not None:
            return tm.ite(x.args[0], g1, g2)
    return None


def trips(c, k):
    """number of k = 0, 1, ... before c fails first, given that c holds at 0"""
    neg = False
    if c.op == 'not':
        neg = True
        c = c.args[0]
    if c.op not in ('<', '<=', '==') or c.args[0].sort != 'I':
        return None
    a, b = c.args
    op = c.op
    if neg and op in ('<', '<='):
        a, b = b, a
        op = '<=' if op == '<' else '<'
    elif not neg and op == '==':
        return None
    p = poly(b - a)
    s = p.pop((k,), 0)
    if any(x is k for m in p for x in m):
        return None
    d0 = unpoly(p)
    if op == '==':
        return d0 if s == -1 else d0 * -1 if s == 1 else None
    if s != -1:
        return None
    return d0 if op == '<' else d0 + 1


def square_sum(t):
    if tm.isc(t):
        return t.val >= 0
    if t.op == '+':
        return all(square_sum(a) for a in t.args)
    if t.op == '*':
        a, b = t.args
        return a is b or square_sum(a) and square_sum(b)
    return t.op in ('abs', 'sqrt')


# ---- equality of terms with sums --------------------------------------------------------------
def expand(t, lim=400):
    """real term as {sorted tuple of atoms: Fraction}; None when too large"""
    if tm.isc(t):
        return {(): t.val} if t.val else {}
    if t.op == '+':
        r = {}
        for a in t.args:
            p = expand(a, lim)
            if p is None:
                return None
            for m, c in p.items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if t.op == '*':
        a, b = expand(t.args[0], lim), expand(t.args[1], lim)
        if a is None or b is None or len(a) * len(b) > lim:
            return None
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=lambda x: x.id))
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}
    if t.op == '/' and tm.isc(t.args[1]) and t.args[1].val:
        a = expand(t.args[0], lim)
        return None if a is None else {m: c / t.args[1].val for m, c in a.items()}
    if t.op == '/' and not (tm.isc(t.args[0]) and t.args[0].val == 1):
        a = expand(t.args[0], lim)
        inv = tm.rconst(1) / t.args[1]
        return None if a is None else {tuple(sorted(m + (inv,), key=lambda x: x.id)): c for m, c in a.items()}
    if t.op == 'i2r' and t.args[0].op in ('+', '*'):
        return {tuple(tm.toR(x) for x in m): tm.rconst(c).val for m, c in poly(t.args[0]).items()}
    return {(t,): tm.rconst(1).val}


def split(t):
    """sums of polynomials as polynomials of sums of monomials"""
    m = {}
    for x in tm.subterms([t]):
        if x.op != 'sum':
            continue
        k = tm.var(x.val, 'I')
        body = tm.subst(x.args[0], m) if m else x.args[0]
        p = expand(body)
        if p is None:
            continue
        r = tm.rconst(0)
        for mon, c in p.items():
            dep = [a for a in mon if mentions(a, {k.id})]
            y = tm.rconst(c)
            for a in mon:
                if not any(a is b for b in dep):
                    y = y * a
            if dep:
                g = tm.rconst(1)
                for a in dep:
                    g = g * a
                y = y * tm._mk('sum', (g, x.args[1], x.args[2]), 'R', x.val)
            else:
                y = y * tm.toR(x.args[2] - x.args[1])
            r = r + y
        m[x] = r
    return tm.subst(t, m) if m else t


class SumEq(object):
    def __init__(self, ex, prover):
        self.ex, self.prover = ex, prover
        self.n = 0
        self.lin = False

    def outer(self, ts):
        out = []
        seen = set()

        def go(x):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.op == 'sum':
                out.append(x)
                return
            for a in x.args:
                go(a)
        for t in ts:
            go(t)
        return out

    def abstract(self, hyps, ts):
        """the sums of ts replaced by variables, equal ones by the same variable"""
        cls = []
        m = {}
        for s in self.outer(ts):
            for rep, v in cls:
                if self.same(hyps, s, rep):
                    m[s] = v
                    break
            else:
                self.n += 1
                v = tm.var('?sum%d' % self.n)
                cls.append((s, v))
                m[s] = v
        return [tm.subst(t, m) if m else t for t in ts]

    def same(self, hyps, s, t):
        if s is t:
            return True
        for i in (1, 2):
            if not self.ex.valid(hyps, tm.eq(s.args[i], t.args[i])):
                return False
        k = self.ex.fresh('s', 'I')
        f = lambda x: tm.subst(x.args[0], {tm.var(x.val, 'I'): k})
        return self.eq(list(hyps) + [tm.le(s.args[1], k), tm.lt(k, s.args[2])], f(s), f(t))

    def eq(self, hyps, a, b):
        a, b = tm.coerce2(a, b)
        if a is b:
            return True
        if self.lin:
            a, b = split(a), split(b)
        # conditions outside the sums first
        c = self.cond([a, b])
        if c is not None:
            for h, v in ((c, True), (tm.not_(c), False)):
                if not self.ex.solver.feasible(list(hyps) + [h]):
                    continue
                m = {c: const(v), tm.not_(c): const(not v)}
                if not self.eq(list(hyps) + [h], tm.subst(a, m), tm.subst(b, m)):
                    return False
            return True
        a, b = self.abstract(hyps, [a, b])
        return bool(self.prover.eq(list(hyps), a, b))

    def implies(self, hyps, goal):
        hs = [h for h in hyps if not (tm.isc(h) and h.val)]
        for s in self.outer(hs + [goal]):
            if square_sum(s.args[0]):
                hs.append(tm.le(tm.rconst(0), s))
        if self.lin:
            hs, goal = [split(h) for h in hs], split(goal)
        ts = self.abstract(list(hyps), hs + [goal])
        return self.ex.solver.prove(ts[:-1], ts[-1])[0] == 'proved'

    def member(self, hyps, goal, gens, mult=()):
        """goal is a combination of the terms gens (each zero), with rational coefficients, or multiplied by a term of mult"""
        ts = self.abstract(list(hyps), [split(t) for t in [goal] + list(gens) + list(mult)])
        goal, gens, mult = ts[0], ts[1:1 + len(gens)], ts[1 + len(gens):]
        g = expand(goal, 4000)
        rows = [expand(x * y, 4000) for x in gens for y in [tm.rconst(1)] + list(mult)]
        if g is None or any(r is None for r in rows):
            return False
        key = lambda m: tuple(x.id for x in m)
        g = {key(m): c for m, c in g.items()}
        rows = [{key(m): c for m, c in r.items()} for r in rows]
        done = []
        for r in rows:
            r = self.reduce(dict(r), done)
            if r:
                p = min(r)
                done.append((p, {m: c / r[p] for m, c in r.items()}))
        return not self.reduce(g, done)

    def reduce(self, r, done):
        for p, q in done:
            c = r.get(p)
            if c:
                for m, d in q.items():
                    v = r.get(m, 0) - c * d
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r

    def cond(self, ts):
        seen = set()
        found = []

        def go(x):
            if x.id in seen or found:
                return
            seen.add(x.id)
            if x.op == 'sum':
                return
            if x.op == 'ite' and not any(y.op == 'ite' for y in tm.subterms([x.args[0]])):
                found.append(x.args[0])
                return
            for a in x.args:
                go(a)
        for t in ts:
            go(t)
        return found[0] if found else None
