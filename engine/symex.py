"""Symbolic execution of the LLVM IR of the real code (all paths, no bound on inputs).

Calls to functions that have a contract are replaced by that contract; everything else
(helpers, lambdas, accessors, std:: templates) is inlined.  Every path yields: path condition,
return value, final memory, side obligations (overflow, bounds, ...) and frame events.
"""
import os
import re
import subprocess
import time
from fractions import Fraction
from . import term as tm
from .term import T, const, rconst, toR, TRUE, FALSE
from .ir import Module, P, tokenize, Unsupported, F32, F64, PTR, I8, I32, I64

CXX = 'clang++'
SRC = os.environ.get('VERIF_SRC', '/repo/src')
CXXFLAGS = ['-std=c++17', '-O0', '-S', '-emit-llvm', '-ffp-contract=off', '-fno-discard-value-names', '-w',
            '-fno-math-errno', '-I' + SRC]


class Program(object):
    """lazily compiled translation units of /repo/src"""

    def __init__(self, workdir, src=SRC):
        self.src = src
        self.work = workdir
        self.mods = {}
        self.index = {}
        self.globidx = {}
        self.allc = False
        self.errors = {}

    def load(self, stem):
        if stem in self.mods:
            return self.mods[stem]
        path = os.path.join(self.src, stem + '.cc')
        if not os.path.exists(path):
            self.mods[stem] = None
            return None
        out = os.path.join(self.work, stem + '.ll')
        p = subprocess.run([CXX] + CXXFLAGS + ['-o', out, path], capture_output=True, text=True)
        if p.returncode != 0:
            self.errors[stem] = p.stderr[-2000:]
            self.mods[stem] = None
            return None
        m = Module(open(out).read(), path)
        self.mods[stem] = m
        for f in m.funcs.values():
            if not f.internal:
                self.index.setdefault(f.name, f)
        return m

    def loadmany(self, stems):
        from concurrent.futures import ThreadPoolExecutor
        stems = [s for s in stems if s not in self.mods]
        if not stems:
            return
        with ThreadPoolExecutor(8) as ex:
            def comp(stem):
                path = os.path.join(self.src, stem + '.cc')
                out = os.path.join(self.work, stem + '.ll')
                if not os.path.exists(path):
                    return stem, None, 'no such file'
                p = subprocess.run([CXX] + CXXFLAGS + ['-o', out, path], capture_output=True, text=True)
                return stem, (out if p.returncode == 0 else None), p.stderr
            for stem, out, err in ex.map(comp, stems):
                if out is None:
                    self.mods[stem] = None
                    self.errors[stem] = err[-2000:]
                    continue
                m = Module(open(out).read(), os.path.join(self.src, stem + '.cc'))
                self.mods[stem] = m
                for f in m.funcs.values():
                    if not f.internal:
                        self.index.setdefault(f.name, f)

    def loadall(self):
        if not self.allc:
            self.allc = True
            self.loadmany(sorted(x[:-3] for x in os.listdir(self.src) if x.endswith('.cc')))

    def find_short(self, short):
        """function sla::<short> (free function)"""
        pat = re.compile(r'^@_ZN3sla%d%s(E|I)' % (len(short), re.escape(short)))
        pat = re.compile(r'^@_ZN3sla%d%sE' % (len(short), re.escape(short)))
        m = self.load(short)
        if m:
            for n, f in m.funcs.items():
                if pat.match(n):
                    return f
        self.loadmany(['slalib'])
        for n, f in self.index.items():
            if pat.match(n):
                return f
        self.loadall()
        for n, f in self.index.items():
            if pat.match(n):
                return f
        return None

    def find(self, name, frm):
        if name in frm.funcs:
            return frm.funcs[name]
        if name in self.index:
            return self.index[name]
        sh = short_name(name)
        if sh:
            self.load(sh)
            if name in self.index:
                return self.index[name]
            self.loadall()
        return self.index.get(name)


def short_name(mangled):
    m = re.match(r'^@_ZN3sla(\d+)([A-Za-z0-9_]+)', mangled)
    if not m:
        return None
    n = int(m.group(1))
    nm = m.group(2)[:n]
    rest = m.group(2)[n:]
    if not rest.startswith('E'):
        return None
    return nm


class Ptr(object):
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(None, 0)


class Obj(object):
    """static description of a memory object; the contents live in State.mem[id]"""
    __slots__ = ('id', 'name', 'size', 'kind', 'writable', 'zero', 'shape', 'g', 'elem', 'open')

    def __init__(self, id, name, size, kind, writable=True, zero=False):
        self.id = id
        self.name = name
        self.size = size
        self.kind = kind
        self.writable = writable
        self.zero = zero
        self.shape = None
        self.open = False        # a prefix of a larger object
        self.g = None
        self.elem = None


class Frame(object):
    __slots__ = ('f', 'block', 'prev', 'i', 'regs', 'retreg', 'invoke_to', 'allocas')

    def copy(self):
        o = Frame()
        o.f, o.block, o.prev, o.i = self.f, self.block, self.prev, self.i
        o.regs = dict(self.regs)
        o.retreg = self.retreg
        o.invoke_to = self.invoke_to
        o.allocas = self.allocas
        return o


class State(object):
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.obls = []
        self.events = []
        self.steps = 0
        self.known = {}
        self.calls = []
        self.visits = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc = list(self.pc)
        s.obls = list(self.obls)
        s.events = list(self.events)
        s.steps = self.steps
        s.known = dict(self.known)
        s.calls = list(self.calls)
        s.visits = dict(self.visits)
        return s


class PathResult(object):
    pass


class Abort(Exception):
    """path ends (assert failure, undefined behaviour); carries reason"""


class Timeout(Unsupported):
    pass


def sort_of(t):
    if t[0] == 'int':
        return 'B' if t[1] == 1 else 'I'
    if t[0] in ('float', 'double'):
        return 'R'
    return None


class Executor(object):
    def __init__(self, prog, contracts, solver, maxpaths=3000, maxsteps=6000000, deadline=None):
        self.prog = prog
        self.contracts = contracts
        self.solver = solver
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.deadline = deadline
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.gcells = {}
        self.inlined = set()
        self.used_contracts = set()
        self.builtins_used = set()
        self.nforks = 0
        self.nofork_contracts = set()
        self.nfresh = 0
        self.exclude = set()
        self.icache = {}
        self.total_steps = 0
        self.narrow = False
        self.sums = False

    # ---- objects ------------------------------------------------------------
    def new_obj(self, name, size, kind, writable=True, zero=False):
        self.nobj += 1
        o = Obj(self.nobj, name, size, kind, writable, zero)
        self.objs[o.id] = o
        return o

    def fresh(self, name, sort):
        self.nfresh += 1
        return tm.var('?%s%d' % (name, self.nfresh), sort)

    # ---- memory ---------------------------------------------------------------
    def resolve_off(self, st, p, size, what):
        """concrete offset for p, forking on symbolic offsets handled by caller"""
        return p.off

    def load_cell(self, st, p, ty, mod):
        if p.obj is None:
            raise Abort('null pointer load')
        o = self.objs[p.obj]
        rt = mod.resolve(ty)
        size = mod.size(rt)
        off = p.off
        if isinstance(off, T):
            if tm.isc(off):
                off = off.val
            else:
                return self.load_symbolic(st, o, off, rt, size)
        if o.shape is None and o.open and off + size > o.size:
            raise Unsupported('read beyond the known part of %s' % o.name)
        if o.shape is None and not (0 <= off and off + size <= o.size):
            raise Abort('out-of-bounds read of %s at byte %s' % (o.name, off))
        if rt[0] in ('arr', 'struct', 'vec'):
            n = rt[1] if rt[0] in ('arr', 'vec') else len(rt[1])
            out = []
            for k in range(n):
                fo, ft = mod.field_off(rt, k)
                out.append(self.load_cell(st, Ptr(p.obj, off + fo), ft, mod))
            return out
        if o.kind == 'global':
            cells = st.mem.get(o.id)
            if cells is None:
                cells = self.global_cells(o)
        else:
            cells = st.mem.get(o.id)
        if o.shape is not None:
            return self.load_symbolic(st, o, const(off), rt, size)
        c = cells.get(off) if cells is not None else None
        if c is not None and c[0] == size:
            v = c[1]
            want = sort_of(rt)
            if isinstance(v, T):
                if want == 'B' and v.sort == 'I':
                    return self.to_i1(v)
                if want == 'I' and v.sort == 'B':
                    return tm.ite(v, 1, 0)
                if want is None or (v.sort != want):
                    # type punning: only zero is safe
                    if tm.isc(v) and v.val == 0:
                        return NULL if rt[0] == 'ptr' else (rconst(0) if want == 'R' else const(0))
                    raise Unsupported('type-punned load')
            elif rt[0] != 'ptr':
                raise Unsupported('type-punned pointer load')
            return v
        # possible partial overlap
        for q in range(off - 15, off + size):
            d = cells.get(q) if cells else None
            if d is not None and q < off + size and q + d[0] > off:
                v = self.pun_load(cells, off, size, rt)
                if v is not None:
                    return v
                raise Unsupported('partial load at %s of %s' % (off, o.name))
        if o.zero or o.kind == 'global':
            return NULL if rt[0] == 'ptr' else (rconst(0) if sort_of(rt) == 'R' else (FALSE if sort_of(rt) == 'B' else const(0)))
        st.events.append(('uninit', '%s+%s' % (o.name, off)))
        if rt[0] == 'ptr':
            raise Abort('load of uninitialised pointer from %s' % o.name)
        return self.fresh('uninit_%s_%s_' % (o.name, off), sort_of(rt))

    def pun_load(self, cells, off, size, rt):
        # all bytes zero: zero of any type
        ov = [(q, c) for q, c in cells.items() if isinstance(q, int) and q < off + size and q + c[0] > off]
        if ov and all(isinstance(c[1], T) and tm.isc(c[1]) and c[1].val == 0 for q, c in ov):
            cov = set()
            for q, c in ov:
                cov.update(range(q, q + c[0]))
            if all(b in cov for b in range(off, off + size)):
                return NULL if rt[0] == 'ptr' else (rconst(0) if sort_of(rt) == 'R' else (FALSE if sort_of(rt) == 'B' else const(0)))
        # i64 load of constant bytes etc.: only for all-constant integer cells
        if rt[0] != 'int':
            return None
        v = 0
        q = off
        while q < off + size:
            c = cells.get(q)
            if c is None or not isinstance(c[1], T) or c[1].sort != 'I' or not tm.isc(c[1]):
                return None
            v |= (c[1].val & ((1 << (8 * c[0])) - 1)) << (8 * (q - off))
            q += c[0]
        if v >= 1 << (8 * size - 1):
            v -= 1 << (8 * size)
        return const(v)

    def load_symbolic(self, st, o, off, rt, size):
        if o.shape is not None:
            # symbolic-length array: shape = (elemsize, minor) ; element address = off
            st.obls.append(('bounds', tm.and_(tm.le(0, off), tm.le(off + size, o.shape['bytes'])),
                            'read of %s in bounds' % o.name))
            return self.shape_select(st, o, off, size)
        cand = self.sym_offsets(st, o, off, size, 'read')
        # table lookup: build an ite chain (or fork)
        vals = []
        for k in cand:
            v = self.load_cell(st, Ptr(o.id, k), rt, _M1)
            vals.append(v)
        if all(isinstance(v, T) for v in vals):
            r = vals[-1]
            for k, v in list(zip(cand, vals))[:-1][::-1]:
                r = tm.ite(tm.eq(off, k), v, r)
            return r
        raise ForkOff(off, cand)

    def sym_offsets(self, st, o, off, size, what):
        ok = tm.and_(tm.le(0, off), tm.le(off + size, o.size))
        st.obls.append(('bounds', ok, '%s of %s in bounds' % (what, o.name)))
        cand = []
        for k in range(0, o.size - size + 1, size):
            if self.solver.feasible(st.pc + [tm.eq(off, k)]):
                cand.append(k)
            if len(cand) > 400:
                raise Unsupported('symbolic index into large object ' + o.name)
        if not cand:
            raise Abort('symbolic %s of %s never in bounds' % (what, o.name))
        return cand

    def shape_select(self, st, o, off, size):
        es = o.shape['elem']
        # stored symbolic updates are handled by the loop summariser
        idx = self.div_index(off, es)
        ups = st.mem.get(o.id, {}).get('upd')
        base = o.shape['base'](idx)
        if ups:
            for (kind, data) in ups:
                base = data(idx, base)
        return base

    def div_index(self, off, es):
        r = exact_div(off, es)
        if r is None:
            raise Unsupported('symbolic array index')
        return r

    def store_cell(self, st, p, ty, v, mod):
        if p.obj is None:
            raise Abort('null pointer store')
        o = self.objs[p.obj]
        rt = mod.resolve(ty)
        off = p.off
        if isinstance(off, T) and tm.isc(off):
            off = off.val
        if rt[0] in ('arr', 'struct', 'vec'):
            n = rt[1] if rt[0] in ('arr', 'vec') else len(rt[1])
            for k in range(n):
                fo, ft = mod.field_off(rt, k)
                self.store_cell(st, Ptr(p.obj, off + fo), ft, v[k], mod)
            return
        size = mod.size(rt)
        if not o.writable and not (st.visits.get('ginit') and o.kind == 'global' and o.g is not None and not o.g[0]['const']):
            st.events.append(('frame', 'store to %s (%s)' % (o.name, o.kind)))
        if isinstance(off, T):
            if o.shape is not None:
                if 'bytes' in o.shape:
                    st.obls.append(('bounds', tm.and_(tm.le(0, off), tm.le(off + size, o.shape['bytes'])),
                                'write of %s in bounds' % o.name))
                self.shape_store(st, o, off, size, v)
                return
            cand = self.sym_offsets(st, o, off, size, 'write')
            if len(cand) == 1:
                off = cand[0]
            else:
                cells = self.cells_of(st, o)
                for k in cand:
                    old = self.load_cell(st, Ptr(o.id, k), rt, mod)
                    cells[k] = (size, tm.ite(tm.eq(off, k), v, old))
                return
        if o.shape is not None:
            self.shape_store(st, o, const(off), size, v)
            return
        if not (0 <= off and off + size <= o.size):
            raise Abort('out-of-bounds write of %s at byte %s' % (o.name, off))
        cells = self.cells_of(st, o)
        c = cells.get(off)
        if c is None or c[0] != size:
            for q in range(off - 15, off + size):
                d = cells.get(q)
                if d is not None and q + d[0] > off:
                    del cells[q]
        cells[off] = (size, v)

    def shape_store(self, st, o, off, size, v):
        idx = self.div_index(off, o.shape['elem'])
        cells = st.mem.setdefault(o.id, {})
        ups = list(cells.get('upd') or [])
        ups.append(('elem', (lambda i, base, idx=idx, v=v: tm.ite(tm.eq(i, idx), v, base))))
        cells['upd'] = ups
        st.events.append(('symstore', (o.id, idx, v)))

    def cells_of(self, st, o):
        cells = st.mem.get(o.id)
        if cells is None:
            cells = dict(self.global_cells(o)) if o.kind == 'global' else {}
            st.mem[o.id] = cells
        return cells

    # ---- globals ---------------------------------------------------------------
    def global_ptr(self, name, mod):
        g = mod.globals.get(name)
        if g is None:
            f = self.prog.find(name, mod)
            if f is not None or name in BUILTINS:
                return ('fn', name)
            # defined in another TU
            self.prog.loadall()
            for m2 in self.prog.mods.values():
                if m2 and name in m2.globals and not m2.globals[name].get('external'):
                    g = m2.globals[name]
                    break
            if g is None:
                return ('fn', name)
        if g.get('external'):
            self.prog.loadall()
            for m2 in self.prog.mods.values():
                if m2 and name in m2.globals and not m2.globals[name].get('external'):
                    g = m2.globals[name]
                    break
        key = (g['module'].path, g['name'])
        if key in self.gobj:
            return Ptr(self.gobj[key], 0)
        if g.get('unsupported') or g.get('kind') == 'alias':
            raise Unsupported('global ' + name)
        if g.get('external'):
            o = self.new_obj(name, 1 << 20, 'global', False)
            o.g = None
            self.gobj[key] = o.id
            return Ptr(o.id, 0)
        p = P(tokenize(g['init']), g['module'])
        ty = p.type()
        val = p.value(ty)
        o = self.new_obj(name, g['module'].size(ty), 'global', writable=False)
        o.g = (g, ty, val)
        self.gobj[key] = o.id
        return Ptr(o.id, 0)

    def global_cells(self, o):
        c = self.gcells.get(o.id)
        if c is None:
            c = {}
            if o.g is not None:
                g, ty, val = o.g
                self.fill(c, 0, ty, val, g['module'])
            self.gcells[o.id] = c
        return c

    def fill(self, c, off, ty, val, mod):
        rt = mod.resolve(ty)
        k = val[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(val[1]):
                c[off + i] = (1, const(b if b < 128 else b - 256))
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(val[1]):
                fo, ft = mod.field_off(rt, i)
                self.fill(c, off + fo, ft, ev, mod)
            return
        c[off] = (mod.size(rt), self.constval(val, rt, mod))

    def constval(self, v, rt, mod):
        k = v[0]
        if k == 'const':
            s = sort_of(rt)
            if s == 'R':
                x = v[1]
                if isinstance(x, float):
                    return tm.var('?nonfinite', 'R')
                return rconst(x)
            if s == 'B':
                return TRUE if v[1] else FALSE
            return const(int(v[1]))
        if k == 'zero' or k == 'undef':
            s = sort_of(rt)
            if s == 'R':
                return rconst(0)
            if s == 'B':
                return FALSE
            if s == 'I':
                return const(0)
            if rt[0] == 'ptr':
                return NULL
            n = rt[1] if rt[0] in ('arr', 'vec') else len(rt[1])
            return [self.constval(v, mod.resolve(mod.field_off(rt, i)[1]), mod) for i in range(n)]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(v[1], mod)
        if k == 'gep':
            base = self.constval(v[2], PTR, mod)
            idx = [self.constval(i, I64, mod) for i in v[3]]
            return self.gep(base, v[1], idx, mod)
        if k == 'agg':
            return [self.constval(ev, mod.resolve(et), mod) for et, ev in v[1]]
        raise Unsupported('constant %r' % (v,))

    def gep(self, base, bt, idx, mod):
        if isinstance(base, tuple):
            raise Unsupported('gep on function')
        if base.obj is None:
            raise Abort('arithmetic on null pointer')
        off = base.off
        t = bt
        for n, i in enumerate(idx):
            if n == 0:
                s = mod.size(t)
                off = self.addoff(off, i, s)
            else:
                rt = mod.resolve(t)
                if rt[0] == 'struct':
                    fo, t = mod.field_off(rt, i.val)
                    off = self.addoff(off, const(1), fo)
                else:
                    t = rt[2]
                    off = self.addoff(off, i, mod.size(t))
        return Ptr(base.obj, off)

    def addoff(self, off, i, s):
        if tm.isc(i) and not isinstance(off, T):
            return off + i.val * s
        r = const(off) + i * s
        if tm.isc(r):
            return r.val
        return r

    # ---- expression helpers -----------------------------------------------------
    def to_i1(self, v):
        if v.sort == 'B':
            return v
        if tm.isc(v):
            return TRUE if v.val & 1 else FALSE
        if v.op == 'ite' and tm.isc(v.args[1]) and tm.isc(v.args[2]):
            return tm.ite(v.args[0], bool(v.args[1].val & 1), bool(v.args[2].val & 1))
        return tm.not_(tm.eq(tm.srem(v, 2), 0))

    def val(self, st, v, rt, mod):
        if v[0] == 'reg':
            return st.frames[-1].regs[v[1]]
        return self.constval(v, rt, mod)

    # ---- running ------------------------------------------------------------------
    def start(self, f, args, mem, pc=()):
        st = State()
        st.mem = mem
        st.pc = list(pc)
        for c in pc:
            self.learn(st, c)
        self.push(st, f, args, None)
        return st

    def learn(self, st, c):
        st.known[c.id] = True
        st.known[tm.not_(c).id] = False

    def push(self, st, f, args, retreg, invoke_to=None):
        mod = f.module
        mod.parse_function(f)
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        fr = Frame()
        fr.f = f
        fr.block = f.entry
        fr.prev = None
        fr.i = 0
        fr.regs = {}
        fr.retreg = retreg
        fr.invoke_to = invoke_to
        fr.allocas = []
        for (nm, t, attrs), a in zip(f.params, args):
            if 'byval' in attrs:
                # copy
                o = self.new_obj('byval' + nm, mod.size(attrs['byval']), 'stack')
                st.mem[o.id] = {}
                self.memcpy(st, Ptr(o.id, 0), a, mod.size(attrs['byval']))
                a = Ptr(o.id, 0)
            fr.regs[nm] = a
        st.frames.append(fr)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        do, so = self.objs[d.obj], self.objs[s.obj]
        if isinstance(d.off, T) or isinstance(s.off, T) or do.shape or so.shape:
            raise Unsupported('symbolic memcpy')
        if d.off + n > do.size or s.off + n > so.size or d.off < 0 or s.off < 0:
            raise Abort('memcpy out of bounds')
        if not do.writable:
            st.events.append(('frame', 'memcpy to %s (%s)' % (do.name, do.kind)))
        src = self.cells_of(st, so) if so.kind != 'global' or so.id in st.mem else self.global_cells(so)
        items = [(o, c) for o, c in src.items() if s.off <= o and o + c[0] <= s.off + n]
        dst = self.cells_of(st, do)
        for o in [o for o, c in dst.items() if d.off < o + c[0] and o < d.off + n]:
            del dst[o]
        if so.kind == 'global' or so.zero:
            # unfilled bytes are zero: materialise when the destination is not zero-filled
            have = set()
            for o, c in items:
                have.update(range(o, o + c[0]))
            if not do.zero:
                q = s.off
                while q < s.off + n:
                    if q not in have:
                        dst[d.off + q - s.off] = (1, const(0))
                        # widened zero cells so that 4/8 byte loads work
                    q += 1
                self.widen_zero(dst, d.off, n, have, s.off)
        for o, c in items:
            dst[d.off + o - s.off] = c

    def widen_zero(self, dst, off, n, have, soff):
        # replace runs of 8 (or 4) zero bytes with a wide zero cell marked 0
        q = 0
        while q < n:
            for w in (8, 4):
                if q + w <= n and (off + q) % w == 0 and all((soff + q + j) not in have for j in range(w)):
                    for j in range(w):
                        dst.pop(off + q + j, None)
                    dst[off + q] = (w, const(0))
                    q += w
                    break
            else:
                q += 1

    def memset(self, st, d, byte, n):
        do = self.objs[d.obj]
        if isinstance(d.off, T) or do.shape:
            raise Unsupported('symbolic memset')
        if d.off + n > do.size or d.off < 0:
            raise Abort('memset out of bounds')
        if not do.writable:
            st.events.append(('frame', 'memset to %s (%s)' % (do.name, do.kind)))
        if byte != 0:
            raise Unsupported('memset non-zero')
        dst = self.cells_of(st, do)
        for o in [o for o, c in dst.items() if d.off < o + c[0] and o < d.off + n]:
            del dst[o]
        q = 0
        while q < n:
            for w in (8, 4, 1):
                if q + w <= n and (d.off + q) % w == 0:
                    dst[d.off + q] = (w, const(0))
                    q += w
                    break

    def explore(self, st0):
        """depth-first over all feasible paths"""
        out = []
        work = [st0]
        while work:
            st = work.pop()
            r = self.run_path(st, work)
            if r is not None:
                out.append(r)
            if len(out) > self.maxpaths:
                raise Unsupported('path limit')
        return out

    def finish(self, st, ret=None, abort=None):
        r = PathResult()
        r.pc, r.ret, r.abort = st.pc, ret, abort
        r.mem, r.obls, r.events, r.calls = st.mem, st.obls, st.events, st.calls
        return r

    def run_path(self, st, work):
        try:
            while True:
                fr = st.frames[-1]
                inst = fr.f.blocks[fr.block][fr.i]
                st.steps += 1
                self.total_steps += 1
                if (self.total_steps & 1023) == 0:
                    if self.total_steps > self.maxsteps:
                        raise Unsupported('step limit')
                    if self.deadline and time.time() > self.deadline:
                        raise Timeout('symbolic execution deadline')
                fr.i += 1
                try:
                    r = self.step(st, fr, inst, work)
                except ForkOff as fo:
                    fr.i -= 1
                    # fork on the value of a symbolic offset, then re-execute
                    for k in fo.cand[1:]:
                        s2 = st.copy()
                        self.assume_off(s2, fo.off, k)
                        work.append(s2)
                    self.assume_off(st, fo.off, fo.cand[0])
                    continue
                if r is not None:
                    return r[0]
        except Abort as e:
            return self.finish(st, abort=str(e))

    def assume_off(self, st, off, k):
        c = tm.eq(off, k)
        st.pc.append(c)
        self.learn(st, c)
        # specialise: substitute in all pointers held in registers / memory
        for fr in st.frames:
            for n, v in fr.regs.items():
                if isinstance(v, Ptr) and isinstance(v.off, T) and v.off is off:
                    fr.regs[n] = Ptr(v.obj, k)
        for cells in st.mem.values():
            for o, c2 in list(cells.items()):
                if isinstance(c2, tuple) and isinstance(c2[1], Ptr) and c2[1].off is off:
                    cells[o] = (c2[0], Ptr(c2[1].obj, k))

    def branch(self, st, cond, work, mk):
        """mk(state, bool) continues; returns chosen truth for st"""
        if tm.isc(cond):
            return cond.val
        k = st.known.get(cond.id)
        if k is not None:
            return k
        ft = self.solver.feasible(st.pc + [cond])
        if not ft:
            self.learn(st, tm.not_(cond))
            return False
        ff = self.solver.feasible(st.pc + [tm.not_(cond)])
        if not ff:
            self.learn(st, cond)
            return True
        self.nforks += 1
        if self.nforks > 20000:
            raise Unsupported('fork limit')
        s2 = st.copy()
        nc = tm.not_(cond)
        s2.pc.append(nc)
        self.learn(s2, nc)
        mk(s2, False)
        work.append(s2)
        st.pc.append(cond)
        self.learn(st, cond)
        return True

    def goto(self, st, lab):
        fr = st.frames[-1]
        fr.prev = fr.block
        fr.block = lab
        fr.i = 0
        # phis evaluated in parallel
        blk = fr.f.blocks[lab]
        new = {}
        while fr.i < len(blk) and blk[fr.i][0] == 'phi':
            op, res, rest = blk[fr.i]
            d = self.decode(fr.f.module, blk[fr.i])
            for v, l in d[2]:
                if l == fr.prev:
                    new[res] = self.val(st, v, d[1], fr.f.module)
                    break
            else:
                raise Unsupported('phi')
            fr.i += 1
        fr.regs.update(new)

    def decode(self, mod, inst):
        d = self.icache.get(id(inst))
        if d is None:
            d = (decode(mod, inst), inst)
            self.icache[id(inst)] = d
        return d[0]

    def step(self, st, fr, inst, work):
        mod = fr.f.module
        d = self.decode(mod, inst)
        k = d[0]
        res = inst[1]
        R = fr.regs
        if k == 'load':
            p = self.val(st, d[2], PTR, mod)
            R[res] = self.load_cell(st, p, d[1], mod)
            return None
        if k == 'store':
            v = self.val(st, d[2], mod.resolve(d[1]), mod)
            p = self.val(st, d[3], PTR, mod)
            self.store_cell(st, p, d[1], v, mod)
            return None
        if k == 'alloca':
            o = self.new_obj(res, mod.size(d[1]) * d[2], 'stack')
            st.mem[o.id] = {}
            R[res] = Ptr(o.id, 0)
            return None
        if k == 'gep':
            base = self.val(st, d[2], PTR, mod)
            idx = [self.val(st, v, t, mod) for t, v in d[3]]
            R[res] = self.gep(base, d[1], idx, mod)
            return None
        if k == 'br':
            self.goto(st, d[1])
            return None
        if k == 'cbr':
            c = self.val(st, d[1], ('int', 1), mod)
            if not tm.isc(c) and (self.sums or st.known.get(c.id) is None):
                hook = self.loop_hook(st, fr, inst, c, d, work)
                if hook:
                    return None
            b = self.branch(st, c, work, lambda s2, tv: self.goto(s2, d[2] if tv else d[3]))
            self.goto(st, d[2] if b else d[3])
            return None
        if k == 'fbin':
            a = self.val(st, d[3], d[2], mod)
            b = self.val(st, d[4], d[2], mod)
            o = d[1]
            if o == 'fadd':
                r = tm.add(a, b)
            elif o == 'fsub':
                r = tm.sub(a, b)
            elif o == 'fmul':
                r = tm.mul(a, b)
            elif o == 'fdiv':
                r = tm.div(a, b)
            else:
                r = tm.fmod(a, b)
            R[res] = r
            return None
        if k == 'fneg':
            R[res] = tm.neg(self.val(st, d[2], d[1], mod))
            return None
        if k == 'ibin':
            R[res] = self.ibin(st, d, mod)
            return None
        if k == 'icmp':
            R[res] = self.icmp(st, d, mod)
            return None
        if k == 'fcmp':
            a = self.val(st, d[3], d[2], mod)
            b = self.val(st, d[4], d[2], mod)
            o = d[1][1:]
            if d[1] in ('ord',):
                r = TRUE
            elif d[1] in ('uno',):
                r = FALSE
            elif d[1] in ('true', 'false'):
                r = const(d[1] == 'true')
            elif o == 'eq':
                r = tm.eq(a, b)
            elif o == 'ne':
                r = tm.not_(tm.eq(a, b))
            elif o == 'lt':
                r = tm.lt(a, b)
            elif o == 'le':
                r = tm.le(a, b)
            elif o == 'gt':
                r = tm.lt(b, a)
            elif o == 'ge':
                r = tm.le(b, a)
            else:
                raise Unsupported('fcmp ' + d[1])
            R[res] = r
            return None
        if k == 'cast':
            R[res] = self.cast(st, d, mod)
            return None
        if k == 'call':
            return self.call(st, fr, d, res, work, mod)
        if k == 'ret':
            v = self.val(st, d[2], mod.resolve(d[1]), mod) if d[1] is not None else None
            st.frames.pop()
            if not st.frames:
                return (self.finish(st, v),)
            up = st.frames[-1]
            if fr.retreg is not None:
                up.regs[fr.retreg] = v
            if fr.invoke_to is not None:
                self.goto(st, fr.invoke_to)
            return None
        if k == 'select':
            c = self.val(st, d[1], ('int', 1), mod)
            a = self.val(st, d[3], d[2], mod)
            b = self.val(st, d[4], d[2], mod)
            if isinstance(a, T) and isinstance(b, T):
                R[res] = tm.ite(c, a, b)
            else:
                tv = self.branch(st, c, work, lambda s2, tv: s2.frames[-1].regs.__setitem__(res, a if tv else b))
                R[res] = a if tv else b
            return None
        if k == 'switch':
            v = self.val(st, d[2], d[1], mod)
            if tm.isc(v):
                for cv, lab in d[4]:
                    if cv == v.val:
                        self.goto(st, lab)
                        return None
                self.goto(st, d[3])
                return None
            # group by target
            groups = {}
            for cv, lab in d[4]:
                groups.setdefault(lab, []).append(cv)
            alts = [(lab, tm.or_(*[tm.eq(v, c) for c in cs])) for lab, cs in groups.items() if lab != d[3]]
            other = tm.and_(*[tm.not_(c) for _, c in alts])
            alts.append((d[3], other))
            feas = [(lab, c) for lab, c in alts if self.solver.feasible(st.pc + [c])]
            if not feas:
                raise Abort('infeasible switch')
            for lab, c in feas[1:]:
                s2 = st.copy()
                s2.pc.append(c)
                self.learn(s2, c)
                self.goto(s2, lab)
                work.append(s2)
            st.pc.append(feas[0][1])
            self.learn(st, feas[0][1])
            self.goto(st, feas[0][0])
            return None
        if k == 'extractvalue':
            v = self.val(st, d[2], d[1], mod)
            for i in d[3]:
                v = v[i]
            R[res] = v
            return None
        if k == 'insertvalue':
            v = self.val(st, d[2], d[1], mod)
            if v is None:
                raise Unsupported('insertvalue')
            v = list(v)
            if len(d[5]) != 1:
                raise Unsupported('insertvalue nested')
            v[d[5][0]] = self.val(st, d[4], d[3], mod)
            R[res] = v
            return None
        if k == 'extractelement':
            v = self.val(st, d[2], d[1], mod)
            i = self.val(st, d[3], I64, mod)
            R[res] = v[i.val]
            return None
        if k == 'insertelement':
            v = list(self.val(st, d[2], mod.resolve(d[1]), mod))
            i = self.val(st, d[5], I64, mod)
            v[i.val] = self.val(st, d[4], d[3], mod)
            R[res] = v
            return None
        if k == 'unreachable':
            raise Abort('unreachable executed')
        if k == 'freeze':
            R[res] = self.val(st, d[2], d[1], mod)
            return None
        if k == 'fence':
            return None
        raise Unsupported('instruction ' + k)

    # overridable: symbolic loops
    def loop_hook(self, st, fr, inst, c, d, work):
        return False

    def ibin(self, st, d, mod):
        _, op, flags, ty, a, b = d
        bits = ty[1]
        a = self.val(st, a, ty, mod)
        b = self.val(st, b, ty, mod)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        if bits == 1:
            a, b = self.to_i1(a), self.to_i1(b)
            if op == 'and':
                return tm.and_(a, b)
            if op == 'or':
                return tm.or_(a, b)
            if op in ('xor', 'add', 'sub'):
                if tm.isc(b):
                    return tm.not_(a) if b.val else a
                if tm.isc(a):
                    return tm.not_(b) if a.val else b
                return tm.not_(tm.eq(tm.ite(a, 1, 0), tm.ite(b, 1, 0)))
            raise Unsupported('i1 ' + op)
        if a.sort == 'B':
            a = tm.ite(a, 1, 0)
        if b.sort == 'B':
            b = tm.ite(b, 1, 0)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            r = tm.add(a, b) if op == 'add' else tm.sub(a, b) if op == 'sub' else tm.mul(a, b)
            if tm.isc(r):
                if not lo <= r.val <= hi:
                    if 'nsw' in flags:
                        raise Abort('signed overflow: %s' % r.val)
                    v = r.val & ((1 << bits) - 1)
                    return const(v if v <= hi else v - (1 << bits))
                return r
            st.obls.append(('overflow', tm.and_(tm.le(lo, r), tm.le(r, hi)), 'no i%d overflow in %s' % (bits, op)))
            return r
        if op in ('sdiv', 'srem'):
            if tm.isc(b) and b.val == 0:
                raise Abort('integer division by zero')
            if not tm.isc(b):
                st.obls.append(('divzero', tm.not_(tm.eq(b, 0)), 'integer divisor non-zero'))
                st.obls.append(('overflow', tm.not_(tm.and_(tm.eq(a, lo), tm.eq(b, -1))), 'no division overflow'))
            return tm.sdiv(a, b) if op == 'sdiv' else tm.srem(a, b)
        if op in ('udiv', 'urem'):
            if tm.isc(a) and tm.isc(b):
                ua, ub = a.val & ((1 << bits) - 1), b.val & ((1 << bits) - 1)
                r = ua // ub if op == 'udiv' else ua % ub
                return const(r if r <= hi else r - (1 << bits))
            st.obls.append(('unsigned', tm.and_(tm.le(0, a), tm.lt(0, b)), 'unsigned operands non-negative'))
            return tm.sdiv(a, b) if op == 'udiv' else tm.srem(a, b)
        if tm.isc(a) and tm.isc(b):
            m = (1 << bits) - 1
            x, y = a.val & m, b.val & m
            if op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'shl':
                r = (x << y) & m
            elif op == 'lshr':
                r = x >> y
            elif op == 'ashr':
                r = (a.val >> y) & m
            return const(r if r <= hi else r - (1 << bits))
        if op == 'shl' and tm.isc(b):
            r = tm.mul(a, 1 << b.val)
            st.obls.append(('overflow', tm.and_(tm.le(lo, r), tm.le(r, hi)), 'no i%d overflow in shl' % bits))
            return r
        if op in ('ashr', 'lshr') and tm.isc(b):
            if op == 'lshr':
                st.obls.append(('unsigned', tm.le(0, a), 'unsigned operand non-negative'))
            return tm.fdiv_(a, 1 << b.val)
        if op == 'and' and (tm.isc(b) or tm.isc(a)):
            if tm.isc(a):
                a, b = b, a
            m = b.val
            if m >= 0 and (m & (m + 1)) == 0:
                return tm.fmodi(a, m + 1)
            if m < 0 and ((-m) & (-m - 1)) == 0:     # clear low bits
                return a - tm.fmodi(a, -m)
        if op == 'xor' and tm.isc(b) and b.val == -1:
            return tm.sub(-1, a)
        raise Unsupported('symbolic bit operation ' + op)

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return const(a.off) - const(b.off)
        raise Unsupported('pointer arithmetic')

    def icmp(self, st, d, mod):
        _, pred, ty, a, b = d
        a = self.val(st, a, ty, mod)
        b = self.val(st, b, ty, mod)
        if ty[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) or isinstance(b, tuple):
                r = const(a == b)
                return r if pred == 'eq' else tm.not_(r)
            if a.obj != b.obj:
                r = FALSE
                if pred not in ('eq', 'ne'):
                    raise Unsupported('pointer ordering across objects')
            else:
                x, y = const(a.off), const(b.off)
                if pred == 'eq' or pred == 'ne':
                    r = tm.eq(x, y)
                else:
                    return {'ult': tm.lt(x, y), 'ule': tm.le(x, y), 'ugt': tm.lt(y, x), 'uge': tm.le(y, x)}[pred]
            return r if pred == 'eq' else tm.not_(r)
        if isinstance(a, T) and a.sort == 'B' or isinstance(b, T) and b.sort == 'B':
            if tm.isc(a) and a.sort == 'I':
                a = const(bool(a.val & 1))
            if tm.isc(b) and b.sort == 'I':
                b = const(bool(b.val & 1))
            if a.sort != b.sort:
                a, b = [tm.ite(x, 1, 0) if x.sort == 'B' else x for x in (a, b)]
        if pred == 'eq':
            return tm.eq(a, b)
        if pred == 'ne':
            return tm.not_(tm.eq(a, b))
        if a.sort == 'B':
            a, b = tm.ite(a, 1, 0), tm.ite(b, 1, 0)
        if pred[0] == 'u':
            if tm.isc(a) and tm.isc(b):
                m = (1 << ty[1]) - 1
                x, y = a.val & m, b.val & m
                return const({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            # unsigned comparison of (possibly negative) mathematical integers: x mod 2^n
            def u(x):
                if tm.isc(x):
                    return const(x.val & ((1 << ty[1]) - 1))
                if self.solver.implied(st.pc, tm.le(0, x)):
                    return x
                return tm.ite(tm.lt(x, 0), x + (1 << ty[1]), x)
            a, b = u(a), u(b)
        p = pred[1:]
        if p == 'lt':
            return tm.lt(a, b)
        if p == 'le':
            return tm.le(a, b)
        if p == 'gt':
            return tm.lt(b, a)
        if p == 'ge':
            return tm.le(b, a)
        raise Unsupported('icmp ' + pred)

    def cast(self, st, d, mod):
        _, op, t1, v, t2 = d
        v = self.val(st, v, t1, mod)
        if op in ('fpext', 'fptrunc'):
            # a double-precision function must not pass its values through single precision
            return tm.f32(v) if self.narrow and F32 in (t1, t2) else v
        if op == 'sitofp':
            if v.sort == 'B':
                return tm.ite(v, rconst(-1), rconst(0))
            return toR(v)
        if op == 'uitofp':
            if v.sort == 'B':
                return tm.ite(v, rconst(1), rconst(0))
            if not tm.isc(v):
                st.obls.append(('unsigned', tm.le(0, v), 'unsigned operand non-negative'))
            elif v.val < 0:
                return rconst(v.val + (1 << t1[1]))
            return toR(v)
        if op in ('fptosi', 'fptoui'):
            r = tm.r2i(v)
            bits = t2[1]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if op == 'fptosi' else (0, (1 << bits) - 1)
            if tm.isc(r):
                if not lo <= r.val <= hi:
                    raise Abort('float to int conversion out of range')
            else:
                st.obls.append(('fptosi', tm.and_(tm.lt(rconst(lo - 1), v), tm.lt(v, rconst(hi + 1))),
                                'float to i%d conversion in range' % bits))
            return r
        if op in ('sext', 'zext', 'trunc'):
            if isinstance(v, Ptr):
                raise Unsupported('int cast of pointer')
            if op == 'sext':
                if v.sort == 'B':
                    return tm.ite(v, -1, 0)
                return v
            if op == 'zext':
                if v.sort == 'B':
                    return tm.ite(v, 1, 0)
                if tm.isc(v):
                    return const(v.val & ((1 << t1[1]) - 1))
                if v.op == 'ite' and tm.isc(v.args[1]) and tm.isc(v.args[2]) and v.args[1].val >= 0 and v.args[2].val >= 0:
                    return v
                if self.solver.implied(st.pc, tm.le(0, v)):
                    return v
                return tm.ite(tm.lt(v, 0), v + (1 << t1[1]), v)
            if t2[1] == 1:
                return self.to_i1(v)
            if tm.isc(v):
                x = v.val & ((1 << t2[1]) - 1)
                return const(x if x < (1 << (t2[1] - 1)) else x - (1 << t2[1]))
            lo, hi = -(1 << (t2[1] - 1)), (1 << (t2[1] - 1)) - 1
            if t2[1] == 8 and not self.solver.implied(st.pc, tm.and_(tm.le(lo, v), tm.le(v, hi))) and \
                    self.solver.implied(st.pc, tm.and_(tm.le(0, v), tm.le(v, 255))):
                return tm.ite(tm.lt(127, v), v - 256, v)
            st.obls.append(('overflow', tm.and_(tm.le(lo, v), tm.le(v, hi)), 'no loss in truncation to i%d' % t2[1]))
            return v
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr' and isinstance(v, Ptr):
            return v
        raise Unsupported('cast ' + op)

    # ---- calls --------------------------------------------------------------------
    def call(self, st, fr, d, res, work, mod):
        _, rt, callee, cargs, normal = d
        if callee[0] == 'reg':
            c = fr.regs[callee[1]]
            if not (isinstance(c, tuple) and c[0] == 'fn'):
                raise Unsupported('indirect call')
            name = c[1]
        else:
            name = callee[1]
        if name.startswith('@llvm.'):
            base = name[6:]
            if base.startswith(('dbg.', 'lifetime.', 'assume', 'donothing', 'experimental.noalias', 'stackrestore')):
                return None
        args = [self.val(st, v, mod.resolve(t), mod) for t, v, a in cargs]

        def done(s, v):
            f2 = s.frames[-1]
            if res is not None:
                f2.regs[res] = v
            if normal is not None:
                self.goto(s, normal)
        # contracts
        sh = short_name(name)
        if sh is not None and sh not in self.exclude and args and isinstance(args[0], T) and tm.isc(args[0]) and \
                '%s@%s' % (sh, args[0].val) in self.contracts:
            sh = '%s@%s' % (sh, args[0].val)
        if sh is not None and sh in self.contracts and sh not in self.exclude:
            con = self.contracts[sh]
            if con.matches(name):
                self.used_contracts.add(sh)
                alts = con.apply_call(self, st, args, cargs)
                st.calls.append(sh)
                if not alts:
                    raise Abort('contract of %s has no applicable case' % sh)
                for conds, eff in alts[1:]:
                    s2 = st.copy()
                    for c in conds:
                        s2.pc.append(c)
                        self.learn(s2, c)
                    v = eff(s2)
                    done(s2, v)
                    work.append(s2)
                conds, eff = alts[0]
                for c in conds:
                    st.pc.append(c)
                    self.learn(st, c)
                v = eff(st)
                done(st, v)
                return None
        f = self.prog.find(name, mod)
        b = self.builtin(name, f)
        if b is not None:
            self.builtins_used.add(name)
            v = b(self, st, args, cargs, work, done)
            if v is not FORKED:
                done(st, v)
            return None
        if f is None:
            raise Unsupported('call to ' + name)
        self.inlined.add(name)
        self.push(st, f, args, res, normal)
        return None

    def builtin(self, name, f):
        b = BUILTINS.get(name)
        if b is not None:
            return b
        m = re.match(r'^@llvm\.([a-z0-9_]+)', name)
        if m:
            nm = m.group(1)
            k = '@llvm.' + nm
            if k in BUILTINS:
                return BUILTINS[k]
            if nm == 'memcpy' or nm == 'memmove':
                return bi_memcpy
            if nm == 'memset':
                return bi_memset
            raise Unsupported('intrinsic ' + name)
        if re.match(r'^@_ZSt3maxI[dfixlmj]ERKT_', name):
            return lambda ex, st, a, ca, w, dn: bi_minmax(ex, st, a, name, True)
        if re.match(r'^@_ZSt3minI[dfixlmj]ERKT_', name):
            return lambda ex, st, a, ca, w, dn: bi_minmax(ex, st, a, name, False)
        return None


class ForkOff(Exception):
    def __init__(self, off, cand):
        self.off = off
        self.cand = cand


def exact_div(t, k):
    """t / k for a linear integer term with all coefficients divisible by k"""
    if tm.isc(t):
        return const(t.val // k) if t.val % k == 0 else None
    if t.op == '+':
        a, b = exact_div(t.args[0], k), exact_div(t.args[1], k)
        return None if a is None or b is None else a + b
    if t.op == '*' and tm.isc(t.args[0]):
        c = t.args[0].val
        if c % k == 0:
            return const(c // k) * t.args[1]
        a = exact_div(t.args[1], k)
        return None if a is None else t.args[0] * a
    if t.op == 'ite':
        a, b = exact_div(t.args[1], k), exact_div(t.args[2], k)
        return None if a is None or b is None else tm.ite(t.args[0], a, b)
    return None


class _MiniMod(object):
    """layout of primitive types only"""

    def resolve(self, t):
        return t

    def size(self, t):
        if t[0] == 'int':
            return max(1, (t[1] + 7) // 8)
        return 4 if t[0] == 'float' else 8


_M1 = _MiniMod()
FORKED = object()

# ---------------------------------------------------------------------------
BUILTINS = {}


def bi(*names):
    def deco(fn):
        for n in names:
            BUILTINS['@' + n] = fn
        return fn
    return deco


def _u(fn):
    return lambda ex, st, a, ca, w, dn: fn(*a)


for _n, _f in [('sin', tm.sin), ('cos', tm.cos), ('tan', tm.tan), ('asin', tm.asin), ('acos', tm.acos),
               ('atan', tm.atan), ('sqrt', tm.sqrt), ('exp', tm.exp), ('log', tm.log), ('fabs', tm.abs_),
               ('floor', tm.floor), ('ceil', tm.ceil), ('trunc', tm.trunc), ('round', tm.round_)]:
    for _s in ('', 'f', 'l'):
        BUILTINS['@' + _n + _s] = _u(_f)
    BUILTINS['@llvm.' + _n] = _u(_f)
for _n, _f in [('atan2', tm.atan2), ('fmod', tm.fmod), ('pow', tm.pow_), ('hypot', tm.hypot),
               ('fmax', tm.max_), ('fmin', tm.min_)]:
    for _s in ('', 'f', 'l'):
        BUILTINS['@' + _n + _s] = _u(_f)
BUILTINS['@llvm.pow'] = _u(tm.pow_)
BUILTINS['@llvm.powi'] = _u(tm.pow_)
BUILTINS['@llvm.maxnum'] = _u(tm.max_)
BUILTINS['@llvm.minnum'] = _u(tm.min_)
BUILTINS['@llvm.smax'] = _u(tm.max_)
BUILTINS['@llvm.smin'] = _u(tm.min_)
BUILTINS['@llvm.abs'] = lambda ex, st, a, ca, w, dn: tm.abs_(a[0])
BUILTINS['@llvm.fmuladd'] = _u(lambda a, b, c: tm.add(tm.mul(a, b), c))
BUILTINS['@llvm.fma'] = BUILTINS['@llvm.fmuladd']
BUILTINS['@fma'] = BUILTINS['@fmaf'] = BUILTINS['@llvm.fmuladd']
BUILTINS['@fdim'] = BUILTINS['@fdimf'] = _u(lambda a, b: tm.max_(tm.sub(a, b), rconst(0)))
BUILTINS['@abs'] = BUILTINS['@labs'] = BUILTINS['@llabs'] = _u(tm.abs_)
BUILTINS['@lround'] = BUILTINS['@lroundf'] = BUILTINS['@llround'] = BUILTINS['@llroundf'] = \
    _u(lambda a: tm.r2i(tm.round_(a)))
BUILTINS['@llvm.copysign'] = BUILTINS['@copysign'] = BUILTINS['@copysignf'] = \
    _u(lambda a, b: tm.ite(tm.lt(b, rconst(0)), tm.neg(tm.abs_(a)), tm.abs_(a)))
BUILTINS['@log10'] = BUILTINS['@log10f'] = BUILTINS['@llvm.log10'] = _u(lambda a: tm.div(tm.log(a), tm.log(rconst(10))))
BUILTINS['@exp2'] = _u(lambda a: tm.pow_(rconst(2), a))
BUILTINS['@cbrt'] = _u(lambda a: tm.ite(tm.lt(a, rconst(0)), -tm.pow_(-a, rconst(Fraction(1, 3))), tm.pow_(a, rconst(Fraction(1, 3)))))


@bi('sincosf')
def _sincosf(ex, st, a, ca, w, dn):
    ex.store_cell(st, a[1], F32, tm.sin(a[0]), _M1)
    ex.store_cell(st, a[2], F32, tm.cos(a[0]), _M1)


@bi('sincos')
def _sincos(ex, st, a, ca, w, dn):
    t = F64
    ex.store_cell(st, a[1], t, tm.sin(a[0]), _M1)
    ex.store_cell(st, a[2], t, tm.cos(a[0]), _M1)


@bi('remainder', 'remainderf')
def _remainder(ex, st, a, ca, w, dn):
    x, y = a
    q = x / y
    # round half to even: agreement with half-away except on exact ties
    return x - y * tm.round_(q)


@bi('modf')
def _modf(ex, st, a, ca, w, dn):
    ip = tm.trunc(a[0])
    ex.store_cell(st, a[1], F64, ip, _M1)
    return a[0] - ip


@bi('modff')
def _modff(ex, st, a, ca, w, dn):
    ip = tm.trunc(a[0])
    ex.store_cell(st, a[1], F32, ip, _M1)
    return a[0] - ip


def bi_memcpy(ex, st, a, ca, w, dn):
    if not tm.isc(a[2]):
        raise Unsupported('symbolic memcpy size')
    ex.memcpy(st, a[0], a[1], a[2].val)
    return a[0]


def bi_memset(ex, st, a, ca, w, dn):
    if not tm.isc(a[2]) or not tm.isc(a[1]):
        raise Unsupported('symbolic memset')
    ex.memset(st, a[0], a[1].val, a[2].val)
    return a[0]


BUILTINS['@memcpy'] = BUILTINS['@memmove'] = bi_memcpy
BUILTINS['@memset'] = bi_memset


def bi_minmax(ex, st, a, name, mx):
    c = re.match(r'^@_ZSt3m..I(.)', name).group(1)
    ty = {'d': F64, 'f': F32, 'i': I32, 'x': I64, 'l': I64, 'm': I64, 'j': I32}[c]
    x = ex.load_cell(st, a[0], ty, _M1)
    y = ex.load_cell(st, a[1], ty, _M1)
    r = tm.max_(x, y) if mx else tm.min_(x, y)
    if not tm.isc(r):
        if ex.solver.implied(st.pc, tm.le(x, y)):
            r = y if mx else x
        elif ex.solver.implied(st.pc, tm.le(y, x)):
            r = x if mx else y
    o = ex.new_obj('minmax', 8, 'stack')
    st.mem[o.id] = {0: (_M1.size(ty), r)}
    return Ptr(o.id, 0)


@bi('__assert_fail')
def _assert_fail(ex, st, a, ca, w, dn):
    raise Abort('assertion failed')


@bi('abort', '_ZSt9terminatev', '__cxa_pure_virtual')
def _abort(ex, st, a, ca, w, dn):
    raise Abort('abort called')


@bi('__cxa_guard_acquire')
def _ga(ex, st, a, ca, w, dn):
    # first call: the initialiser runs on symbolic state exactly once; initialisation stores to the
    # guarded static are part of "initialise once" and not frame violations
    st.visits['guard'] = st.visits.get('guard', 0) + 1
    st.visits['ginit'] = st.visits.get('ginit', 0) + 1
    for o in ex.objs.values():
        if o.kind == 'global' and o.g is not None and not o.g[0]['const']:
            o.writable = True
    g = ex.objs[a[0].obj].name
    tgt = g.replace('_ZGV', '_Z', 1)
    ex.static_init = getattr(ex, 'static_init', set())
    ex.static_init.add(tgt)
    return const(1)


@bi('__cxa_guard_release', '__cxa_guard_abort')
def _gr(ex, st, a, ca, w, dn):
    st.visits['ginit'] = st.visits.get('ginit', 1) - 1
    for o in ex.objs.values():
        if o.kind == 'global' and o.g is not None and not o.g[0]['const']:
            o.writable = False
    return None


@bi('__cxa_atexit')
def _atexit(ex, st, a, ca, w, dn):
    return const(0)


def _chars(ex, st, p, limit=4096):
    """yield successive char terms from a C string pointer"""
    o = ex.objs[p.obj]
    off = p.off
    while True:
        yield ex.load_cell(st, Ptr(p.obj, off), I8, _M1)
        off += 1


def cstring(ex, st, p):
    out = []
    for c in _chars(ex, st, p):
        if not tm.isc(c):
            return None
        if c.val == 0:
            return bytes(x & 255 for x in out)
        out.append(c.val)


@bi('strlen')
def _strlen(ex, st, a, ca, w, dn):
    p = a[0]
    if p.obj is None:
        raise Abort('strlen(null)')
    n = 0
    o = ex.objs[p.obj]
    while True:
        if p.off + n >= o.size and o.open:
            # a string whose rest is arbitrary: at least this long
            r = ex.fresh('strlen', 'I')
            st.pc.append(tm.le(n, r))
            return r
        if p.off + n >= o.size:
            raise Abort('strlen reads past the end of %s' % o.name)
        c = ex.load_cell(st, Ptr(p.obj, p.off + n), I8, _M1)
        z = tm.eq(c, 0)
        kn = z.val if tm.isc(z) else st.known.get(z.id)
        if kn is None:
            if not ex.solver.feasible(st.pc + [z]):
                kn = False
            elif not ex.solver.feasible(st.pc + [tm.not_(z)]):
                kn = True
        if kn is True:
            return const(n)
        if kn is False:
            n += 1
            continue
        s2 = st.copy()
        s2.pc.append(z)
        ex.learn(s2, z)
        dn(s2, const(n))
        w.append(s2)
        nz = tm.not_(z)
        st.pc.append(nz)
        ex.learn(st, nz)
        n += 1


def _ctype(fn):
    def g(ex, st, a, ca, w, dn):
        return fn(a[0])
    return g


BUILTINS['@tolower'] = _ctype(lambda c: tm.ite(tm.and_(tm.le(65, c), tm.le(c, 90)), c + 32, c))
BUILTINS['@toupper'] = _ctype(lambda c: tm.ite(tm.and_(tm.le(97, c), tm.le(c, 122)), c - 32, c))


def decide(ex, st, c):
    """True / False / None (both feasible)"""
    if tm.isc(c):
        return bool(c.val)
    k = st.known.get(c.id)
    if k is None:
        if not ex.solver.feasible(st.pc + [c]):
            k = False
        elif not ex.solver.feasible(st.pc + [tm.not_(c)]):
            k = True
    return k


def _strcmp_generic(ex, st, p, q, limit, fold, w, dn):
    """comparison of two C strings (the sign of the result is what callers may rely on)"""
    i = 0

    def branch(c):
        """assume c on a copy that is returned, not c on st"""
        s2 = st.copy()
        s2.pc.append(c)
        ex.learn(s2, c)
        st.pc.append(tm.not_(c))
        ex.learn(st, tm.not_(c))
        return s2

    def low(x):
        x = tm.ite(tm.lt(x, 0), x + 256, x)
        return tm.ite(tm.and_(tm.le(65, x), tm.le(x, 90)), x + 32, x) if fold else x
    while True:
        if limit is not None:
            end = tm.le(limit, i)
            k = decide(ex, st, end)
            if k is None:
                s2 = branch(end)
                dn(s2, const(0))
                w.append(s2)
            elif k:
                return const(0)
        x = low(ex.load_cell(st, Ptr(p.obj, p.off + i), I8, _M1))
        y = low(ex.load_cell(st, Ptr(q.obj, q.off + i), I8, _M1))
        df = tm.not_(tm.eq(x, y))
        k = decide(ex, st, df)
        r = tm.ite(tm.lt(x, y), const(-1), const(1))
        if k is None:
            s2 = branch(df)
            dn(s2, r)
            w.append(s2)
        elif k:
            return r
        z = tm.eq(x, 0)
        k = decide(ex, st, z)
        if k is None:
            s2 = branch(z)
            dn(s2, const(0))
            w.append(s2)
        elif k:
            return const(0)
        i += 1


BUILTINS['@strcmp'] = lambda ex, st, a, ca, w, dn: _strcmp_generic(ex, st, a[0], a[1], None, False, w, dn)
BUILTINS['@strcasecmp'] = lambda ex, st, a, ca, w, dn: _strcmp_generic(ex, st, a[0], a[1], None, True, w, dn)
BUILTINS['@strncmp'] = lambda ex, st, a, ca, w, dn: _strcmp_generic(ex, st, a[0], a[1], a[2], False, w, dn)
BUILTINS['@strncasecmp'] = lambda ex, st, a, ca, w, dn: _strcmp_generic(ex, st, a[0], a[1], a[2], True, w, dn)
BUILTINS['@memcmp'] = lambda ex, st, a, ca, w, dn: _memcmp(ex, st, a)


def _memcmp(ex, st, a):
    for i in range(a[2].val):
        x = ex.load_cell(st, Ptr(a[0].obj, a[0].off + i), I8, _M1)
        y = ex.load_cell(st, Ptr(a[1].obj, a[1].off + i), I8, _M1)
        if not (tm.isc(x) and tm.isc(y)):
            raise Unsupported('symbolic memcmp')
        if x.val != y.val:
            return const(-1 if (x.val & 255) < (y.val & 255) else 1)
    return const(0)


# ---------------------------------------------------------------------------
def decode(mod, inst):
    op, res, rest = inst
    if op in ('load',):
        if rest.startswith('atomic '):
            rest = re.sub(r'^atomic ', '', rest)
            rest = re.sub(r' (acquire|monotonic|seq_cst|unordered)\b', '', rest)
        rest = rest.replace('volatile ', '')
        p = P(tokenize(rest), mod)
        t = p.type()
        p.eat(',')
        p.type()
        return ('load', t, p.value(PTR))
    if op == 'store':
        rest = re.sub(r'^(atomic |volatile )+', '', rest)
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.type()
        return ('store', t, v, p.value(PTR))
    if op == 'alloca':
        p = P(tokenize(rest), mod)
        t = p.type()
        n = 1
        if p.at(','):
            p.next()
            if p.kind() == 'word' and p.peek()[1].startswith('i') and p.peek()[1] != 'inalloca':
                it = p.type()
                v = p.value(it)
                if v[0] != 'const':
                    raise Unsupported('variable length array')
                n = v[1]
        return ('alloca', t, n)
    if op == 'getelementptr':
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        bt = p.type()
        p.eat(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.at(','):
            p.next()
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', bt, base, idx)
    if op == 'br':
        p = P(tokenize(rest), mod)
        if p.at('label'):
            p.next()
            return ('br', p.next()[1])
        t = p.type()
        c = p.value(t)
        p.eat(',')
        p.next()
        a = p.next()[1]
        p.eat(',')
        p.next()
        b = p.next()[1]
        return ('cbr', c, a, b)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.eat(',')
        b = p.value(t)
        if t[0] not in ('float', 'double'):
            raise Unsupported('vector fp')
        return ('fbin', op, t, a, b)
    if op == 'fneg':
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        t = p.type()
        return ('fneg', t, p.value(t))
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        p = P(tokenize(rest), mod)
        flags = set()
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            flags.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.eat(',')
        b = p.value(t)
        if t[0] != 'int':
            raise Unsupported('vector int')
        return ('ibin', op, flags, t, a, b)
    if op == 'icmp' or op == 'fcmp':
        p = P(tokenize(rest), mod)
        if op == 'fcmp':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
        if p.at('samesign'):
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.eat(',')
        b = p.value(t)
        return (op, pred, t, a, b)
    if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
              'ptrtoint', 'inttoptr'):
        p = P(tokenize(rest), mod)
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.eat('to')
        t2 = p.type()
        return ('cast', op, t, v, t2)
    if op in ('call', 'invoke'):
        rest = re.sub(r'\s+#\d+$', '', rest)
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        rt = p.type()
        p.skip_attrs()
        if p.at('('):            # function type
            dpt = 0
            while True:
                x = p.next()[1]
                if x == '(':
                    dpt += 1
                elif x == ')':
                    dpt -= 1
                    if dpt == 0:
                        break
        k, nm = p.next()
        if k == 'word' and nm == 'asm':
            raise Unsupported('inline asm')
        callee = ('glob', nm) if k == 'glob' else ('reg', nm)
        p.eat('(')
        args = []
        while not p.at(')'):
            t, attrs = p.type_attrs()
            if t[0] == 'metadata':
                # skip metadata operand
                dpt = 0
                while not (dpt == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    if x == '(':
                        dpt += 1
                    if x == ')':
                        dpt -= 1
                args.append((PTR, ('null',), attrs))
            else:
                args.append((t, p.value(t), attrs))
            if p.at(','):
                p.next()
        p.eat(')')
        normal = None
        if op == 'invoke':
            while not p.at('to'):
                p.next()
            p.next()
            p.next()
            normal = p.next()[1]
        return ('call', rt, callee, args, normal)
    if op == 'ret':
        p = P(tokenize(rest), mod)
        t = p.type()
        if t[0] == 'void':
            return ('ret', None, None)
        return ('ret', t, p.value(t))
    if op == 'phi':
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        t = p.type()
        inc = []
        while p.at('['):
            p.next()
            v = p.value(t)
            p.eat(',')
            lab = p.next()[1]
            p.eat(']')
            inc.append((v, lab))
            if p.at(','):
                p.next()
        return ('phi', mod.resolve(t), inc)
    if op == 'select':
        p = P(tokenize(rest), mod)
        p.skip_attrs()
        ct = p.type()
        c = p.value(ct)
        p.eat(',')
        t = p.type()
        a = p.value(t)
        p.eat(',')
        t = p.type()
        b = p.value(t)
        return ('select', c, mod.resolve(t), a, b)
    if op == 'switch':
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.next()
        dflt = p.next()[1]
        p.eat('[')
        cases = []
        while not p.at(']'):
            ct = p.type()
            cv = p.value(ct)
            p.eat(',')
            p.next()
            cases.append((cv[1], p.next()[1]))
        return ('switch', t, v, dflt, cases)
    if op == 'extractvalue':
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        idx = []
        while p.at(','):
            p.next()
            idx.append(int(p.next()[1]))
        return ('extractvalue', mod.resolve(t), v, idx)
    if op == 'insertvalue':
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        p.eat(',')
        et = p.type()
        evv = p.value(et)
        idx = []
        while p.at(','):
            p.next()
            idx.append(int(p.next()[1]))
        return ('insertvalue', mod.resolve(t), v, mod.resolve(et), evv, idx)
    if op == 'extractelement':
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        p.eat(',')
        it = p.type()
        return ('extractelement', t, v, p.value(it))
    if op == 'insertelement':
        p = P(tokenize(rest), mod)
        t = p.type()
        v = p.value(t)
        p.eat(',')
        et = p.type()
        e = p.value(et)
        p.eat(',')
        it = p.type()
        return ('insertelement', t, v, et, e, p.value(it))
    if op in ('unreachable', 'resume', 'landingpad'):
        return (op,)
    if op == 'freeze':
        p = P(tokenize(rest), mod)
        t = p.type()
        return ('freeze', t, p.value(t))
    if op == 'fence':
        return ('fence',)
    raise Unsupported('instruction ' + op)
