"""Frame conditions and purity of every library function, decided modularly on the IR.

Each function gets a summary (what it may write and read, in terms of its parameters and the globals) computed from its own
instructions and the summaries of its callees, to a fixpoint over the call graph.  The summaries over-approximate every
execution: flow-insensitive, field-insensitive, all branches taken.
"""
import re
import subprocess
from .ir import Unsupported, PTR
from .symex import decode

# external functions: indexes of the pointer arguments they write through; everything else they do is a function of the arguments
PURE = set('''sin cos tan asin acos atan atan2 sinh cosh tanh exp log log10 log2 exp2 expm1 log1p pow sqrt cbrt hypot fabs fmod remainder
 floor ceil trunc round rint nearbyint lround llround lrint llrint ldexp scalbn copysign fmin fmax fdim fma nextafter nexttoward logb ilogb
 erf erfc tgamma strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr toupper tolower isalpha isdigit isspace isupper islower abs labs llabs
 __gxx_personality_v0 __errno_location'''.split())
PURE |= set(x + s for x in list(PURE) for s in 'fl')
OUTS = {'modf': [1], 'modff': [1], 'frexp': [1], 'frexpf': [1], 'sincos': [1, 2], 'sincosf': [1, 2], 'remquo': [2],
        'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0]}
NORETURN = {'__assert_fail', '_ZSt9terminatev', 'abort', '__cxa_begin_catch', '__cxa_end_catch', '__clang_call_terminate', '_Unwind_Resume',
            '__cxa_throw', '__cxa_rethrow', '__cxa_call_unexpected'}


class Summary(object):
    def __init__(self):
        self.writes = {}      # token -> text of one site
        self.reads = set()    # globals read
        self.stores = set()   # (dst token, src token): pointer src may be stored in memory dst
        self.ret = set()      # roots of a returned pointer
        self.unknown = {}     # unknown callee -> site
        self.tainted_ret = False

    def key(self):
        return (len(self.writes), len(self.reads), len(self.stores), len(self.ret), len(self.unknown))


class Analysis(object):
    def __init__(self, prog):
        self.prog = prog
        prog.loadall()
        self.funcs = {}
        self.body = {}
        self.bad = {}
        for m in prog.mods.values():
            if m is None:
                continue
            for f in m.funcs.values():
                self.funcs[(m.path, f.name)] = f
        self.sum = {k: Summary() for k in self.funcs}
        for k, f in self.funcs.items():
            try:
                f.module.parse_function(f)
                self.body[k] = [(b, i, inst[1], decode(f.module, inst)) for b, ins in f.blocks.items() for i, inst in enumerate(ins)
                                if inst[0] not in ('landingpad', 'resume')]
            except Unsupported as e:
                self.bad[k] = str(e)
                self.body[k] = []
        # parameters that point at plain numbers hold no further pointers
        self.plain = {}
        names = [k for k in self.funcs if k[1].startswith('@_ZN3sla')]
        for k, sig in zip(names, demangle([k[1] for k in names])):
            if k in self.bad:
                continue
            try:
                for j, (txt, w) in writable_params(self.funcs[k], sig).items():
                    if re.match(r'^(double|float|int|bool|char|long|short|unsigned)\b( const)?\s*[*&(\[]', txt) and txt.count('*') + txt.count('&') == 1:
                        self.plain.setdefault(k, set()).add(j)
            except ValueError:
                pass
        self.users = {}
        for k in self.funcs:
            for b, i, res, d in self.body[k]:
                if d[0] == 'call' and d[2][0] == 'glob':
                    c = self.callee(k, d[2][1])
                    if c:
                        self.users.setdefault(c, set()).add(k)
        todo = list(self.funcs)
        while todo:
            k = todo.pop()
            before = self.sum[k].key()
            self.analyse(k)
            if self.sum[k].key() != before:
                for u in self.users.get(k, ()):
                    if u not in todo:
                        todo.append(u)

    def callee(self, k, name):
        m = self.funcs[k].module
        if (m.path, name) in self.funcs:
            return (m.path, name)
        f = self.prog.index.get(name)
        return (f.module.path, name) if f is not None else None

    def gtoken(self, k, name):
        m = self.funcs[k].module
        g = m.globals.get(name)
        if g is not None and ('internal' in g['text'].split('=')[0][:40] or 'private' in g['text'][:40]):
            return ('g', m.path, name)
        return ('g', '', name)

    def ginit(self, tok, k):
        """globals whose address the initialiser of a global holds"""
        m = self.funcs[k].module
        g = m.globals.get(tok[2])
        if g is None:
            return set()
        return {self.gtoken(k, x) for x in re.findall(r'@(?:"[^"]*"|[-A-Za-z0-9$._]+)', g.get('init', ''))}

    def analyse(self, k):
        f = self.funcs[k]
        S = self.sum[k]
        if k in self.bad:
            S.unknown.setdefault('instruction outside the analysis (%s)' % self.bad[k], f.name)
            return
        reg = {}
        cont = {}
        local = set()
        for j, (nm, t, attrs) in enumerate(f.params):
            if t == PTR:
                tok = ('p', j)
                reg[nm] = {tok}
                if j not in self.plain.get(k, ()):
                    cont[tok] = {('pd', j)}
                    cont[('pd', j)] = {('pd', j)}
                if 'byval' in attrs:
                    local.add(tok)

        def val(v):
            if v[0] == 'reg':
                return reg.get(v[1], set())
            if v[0] == 'glob':
                return {self.gtoken(k, v[1])}
            if v[0] == 'gep':
                return val(v[2])
            if v[0] == 'agg':
                r = set()
                for _, x in v[1]:
                    r |= val(x)
                return r
            return set()

        def content(toks):
            r = set()
            for t in toks:
                if t[0] == 'g':
                    r |= self.ginit(t, k)
                r |= cont.get(t, set())
            return r

        def reach(toks):
            r = set(content(toks))
            while True:
                n = content(r) - r
                if not n:
                    return r
                r |= n

        def put(toks, src, site):
            for t in toks:
                if src - cont.get(t, set()):
                    cont.setdefault(t, set()).update(src)
                if t[0] != 'a' and t not in local:
                    S.writes.setdefault(t, site)
                    for s in src:
                        if s[0] != 'a':
                            S.stores.add((t, s))

        def sub(toks, args):
            r = set()
            for t in toks:
                if t[0] == 'p':
                    r |= args[t[1]] if t[1] < len(args) else set()
                elif t[0] == 'pd':
                    r |= reach(args[t[1]]) if t[1] < len(args) else set()
                else:
                    r.add(t)
            return r
        short = f.name[1:]
        while True:
            before = (sum(map(len, reg.values())), sum(map(len, cont.values())), S.key())
            for b, i, res, d in self.body[k]:
                op = d[0]
                site = '%s, block %s' % (short, b)
                if op == 'alloca':
                    reg.setdefault(res, set()).add(('a', res))
                elif op == 'load':
                    src = val(d[2])
                    for t in src:
                        if t[0] == 'g':
                            S.reads.add(t)
                    reg.setdefault(res, set()).update(content(src))
                elif op == 'store':
                    put(val(d[3]), val(d[2]), site)
                elif op == 'gep':
                    reg.setdefault(res, set()).update(val(d[2]))
                elif op == 'phi':
                    for v, _ in d[2]:
                        reg.setdefault(res, set()).update(val(v))
                elif op == 'select':
                    reg.setdefault(res, set()).update(val(d[3]) | val(d[4]))
                elif op in ('cast', 'freeze'):
                    reg.setdefault(res, set()).update(val(d[3] if op == 'cast' else d[2]))
                elif op == 'ibin':
                    reg.setdefault(res, set()).update(val(d[4]) | val(d[5]))
                elif op in ('extractvalue', 'extractelement'):
                    reg.setdefault(res, set()).update(val(d[2]))
                elif op in ('insertvalue', 'insertelement'):
                    reg.setdefault(res, set()).update(val(d[2]) | val(d[4]))
                elif op == 'ret':
                    if d[1] is not None:
                        S.ret |= {t for t in val(d[2]) if t[0] != 'a'}
                elif op == 'call':
                    args = [val(x[1]) for x in d[3]]
                    if d[2][0] != 'glob':
                        S.unknown.setdefault('call through a pointer', site)
                        continue
                    nm = d[2][1]
                    c = self.callee(k, nm)
                    if c is not None:
                        Q = self.sum[c]
                        for t, st in list(Q.writes.items()):
                            put(sub({t}, args), set(), st)
                        for dst, src in list(Q.stores):
                            put(sub({dst}, args), sub({src}, args), site)
                        for t in Q.reads:
                            S.reads.add(t)
                        for u, st in Q.unknown.items():
                            S.unknown.setdefault(u, st)
                        if res:
                            reg.setdefault(res, set()).update(sub(Q.ret, args))
                        continue
                    n = nm[1:]
                    if n.startswith('llvm.'):
                        if res:
                            for a in args:
                                reg.setdefault(res, set()).update(a)
                        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                            for t in args[1]:
                                if t[0] == 'g':
                                    S.reads.add(t)
                            put(args[0], content(args[1]), site)
                        elif n.startswith('llvm.memset'):
                            put(args[0], set(), site)
                    elif n in OUTS:
                        for j in OUTS[n]:
                            put(args[j], set(), site)
                    elif n in PURE or n in NORETURN or n.startswith('__cxa_guard_'):
                        if n.startswith('str') and res:
                            reg.setdefault(res, set()).update(args[0])
                    elif n == '__dynamic_cast':
                        pass
                    else:
                        S.unknown.setdefault('call of %s' % n, site)
            if (sum(map(len, reg.values())), sum(map(len, cont.values())), S.key()) == before:
                break

    # ---- one-time initialisation of function-local statics -----------------------------------
    def guarded(self, tok, k):
        """None if every write of the static happens under its guard and does not depend on arguments; otherwise the reason"""
        g = tok[2]
        guard = '@_ZGV' + g[3:] if g.startswith('@_Z') else None
        m = self.funcs[k].module
        for x in self.prog.mods.values():
            if x is not None and x.path == tok[1]:
                m = x
        if guard is None or guard not in m.globals:
            return 'it is not a once-initialised constant'
        for q in self.funcs:
            if q[0] != m.path:
                continue
            r = self.guarded_in(tok, guard, q)
            if r:
                return r
        return None

    def guarded_in(self, tok, guard, k):
        f = self.funcs[k]
        body = self.body[k]
        direct = {}
        # registers that may address the static, by this function's own instructions
        reg = set()

        def hits(v):
            if v[0] == 'reg':
                return v[1] in reg
            if v[0] == 'glob':
                return self.gtoken(k, v[1]) == tok
            if v[0] == 'gep':
                return hits(v[2])
            return False
        spilled = set()
        while True:
            n = (len(reg), len(spilled))
            for b, i, res, d in body:
                if d[0] == 'call' and d[2][0] == 'glob' and d[2][1].startswith('@llvm.threadlocal') and hits(d[3][0][1]):
                    reg.add(res)
                elif d[0] == 'gep' and hits(d[2]) or d[0] == 'phi' and any(hits(v) for v, _ in d[2]) or d[0] == 'select' and (hits(d[3]) or hits(d[4])):
                    reg.add(res)
                elif d[0] == 'load' and d[2][0] == 'reg' and d[2][1] in spilled:
                    reg.add(res)
                elif d[0] == 'store' and hits(d[2]) and d[3][0] == 'reg':
                    spilled.add(d[3][1])
            if n == (len(reg), len(spilled)):
                break
        writes = []
        for b, i, res, d in body:
            if d[0] == 'store' and hits(d[3]):
                writes.append((b, [d[2]]))
            elif d[0] == 'call' and d[2][0] == 'glob':
                c = self.callee(k, d[2][1])
                aw = []
                if c is not None:
                    aw = [j for (t, j) in [(t[0], t[1]) for t in self.sum[c].writes] if t == 'p']
                    if tok in self.sum[c].writes and not any(hits(x[1]) for x in d[3]):
                        continue
                elif d[2][1].startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset', '@memcpy', '@memset')):
                    aw = [0]
                if any(j < len(d[3]) and hits(d[3][j][1]) for j in aw):
                    writes.append((b, [x[1] for x in d[3]]))
        if not writes:
            return None
        # blocks reachable without winning the guard
        acq = {res for b, i, res, d in body if d[0] == 'call' and d[2] == ('glob', '@__cxa_guard_acquire') and d[3][0][1] == ('glob', guard)}
        cmp_ = {res: d for b, i, res, d in body if d[0] == 'icmp' and any(x[0] == 'reg' and x[1] in acq for x in (d[3], d[4]))}
        succ = {}
        won = set()
        for b, i, res, d in body:
            s = succ.setdefault(b, set())
            if d[0] == 'br':
                s.add(d[1])
            elif d[0] == 'cbr':
                if d[1][0] == 'reg' and d[1][1] in cmp_:
                    pred = cmp_[d[1][1]][1]
                    won.add(d[2] if pred == 'ne' else d[3])
                    s.add(d[3] if pred == 'ne' else d[2])
                else:
                    s |= {d[2], d[3]}
            elif d[0] == 'switch':
                s.add(d[3])
                s |= {x[1] for x in d[4]}
            elif d[0] == 'call' and d[4]:
                s.add(d[4])
        seen, todo = set(), [f.entry]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo += list(succ.get(b, ()))
        for b, vs in writes:
            if b in seen or not won:
                return 'it is written outside its one-time initialisation'
        # dependence of the written values on arguments (flow-insensitive)
        taint = {p[0] for p in f.params}

        def tv(v):
            if v[0] == 'reg':
                return v[1] in taint
            if v[0] == 'gep':
                return tv(v[2]) or any(tv(x) for x in v[3])
            if v[0] == 'agg':
                return any(tv(x) for _, x in v[1])
            return False
        mem = set()

        def ops(d):
            for x in d:
                if isinstance(x, tuple) and x and x[0] in ('reg', 'gep', 'agg'):
                    yield x
                elif isinstance(x, list):
                    for y in x:
                        for z in (y if isinstance(y, tuple) else ()):
                            if isinstance(z, tuple) and z and z[0] in ('reg', 'gep', 'agg'):
                                yield z
        while True:
            n = len(taint) + len(mem)
            for b, i, res, d in body:
                if d[0] == 'store' and tv(d[2]) and d[3][0] == 'reg':
                    mem.add(d[3][1])
                elif d[0] == 'load':
                    if tv(d[2]) or (d[2][0] == 'reg' and d[2][1] in mem):
                        taint.add(res)
                elif res and any(tv(x) or (x[0] == 'reg' and d[0] in ('call', 'gep') and x[1] in mem) for x in ops(d)):
                    taint.add(res)
                    if d[0] == 'gep':
                        mem.add(res)
            if n == len(taint) + len(mem):
                break
        for b, vs in writes:
            if any(tv(v) for v in vs):
                return 'its one-time initialisation depends on the arguments of the first call'
        return None

    # ---- public functions ----------------------------------------------------------------------
    def public(self):
        out = []
        for k, f in self.funcs.items():
            if re.match(r'^@_ZN3sla\d', f.name) and not f.internal and 'linkonce_odr' not in f.head.split('@')[0]:
                out.append(k)
        return sorted(out, key=lambda k: k[1])


def demangle(names):
    p = subprocess.run(['c++filt'] + [n.lstrip('@') for n in names], capture_output=True, text=True)
    return p.stdout.splitlines()


def split_args(sig):
    i = sig.index('(', sig.rindex('sla::', 0, sig.index('(')) if 'sla::' in sig[:sig.index('(')] else 0)
    depth = 0
    args = []
    cur = ''
    for c in sig[i:]:
        if c in '(<[':
            depth += 1
            if depth == 1 and c == '(':
                continue
        elif c in ')>]':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            args.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        args.append(cur.strip())
    return args


def writable_params(f, sig):
    """IR parameter index -> (source text, may be written)"""
    src = [a for a in split_args(sig) if '*' in a or '&' in a or '[' in a]
    ptr = [j for j, (nm, t, attrs) in enumerate(f.params) if t == PTR and 'byval' not in attrs and 'sret' not in attrs]
    out = {}
    for j, (nm, t, attrs) in enumerate(f.params):
        if 'sret' in attrs:
            out[j] = ('result', True)
    for j, a in zip(ptr, src):
        base = re.split(r'[*&(\[]', a)[0]
        out[j] = (a, not re.search(r'\bconst\s*$', base.strip()))
    return out
