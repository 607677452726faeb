"""Parser for the textual LLVM IR that clang -O0 emits for /repo's translation units."""
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-A-Za-z0-9$._]+))
 | (?P<glob>@(?:"[^"]*"|[-A-Za-z0-9$._]+))
 | (?P<meta>!(?:"[^"]*"|[-A-Za-z0-9$._]*))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[A-Za-z]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<str>"[^"]*")
 | (?P<word>[A-Za-z_$.][A-Za-z0-9_$.]*)
 | (?P<p><\{|\}>|\.\.\.|[-=,(){}\[\]<>*|:])
 )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token: ' + s[i:i + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)
F32 = ('float',)
F64 = ('double',)
PTR = ('ptr',)
VOID = ('void',)

PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
         'returned', 'immarg', 'inreg', 'nofree', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'mustprogress',
         'tail', 'notail', 'musttail', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp',
         'hidden', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'external', 'available_externally', 'weak',
         'linkonce', 'cold', 'swiftself', 'nest', 'allocalign', 'extern_weak', 'common', 'protected', 'default',
         'noext', 'writable', 'dead_on_unwind', 'inbounds', 'nuw', 'nusw'}


class Function(object):
    pass


class Module(object):
    def __init__(self, text, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.ctors = None
        self._parse(text)

    # ---- layout -----------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            return max(1, min(16, (t[1] + 7) // 8)) if t[1] in (1, 8, 16, 32, 64, 128) else 8
        if k == 'float':
            return 4
        if k in ('double', 'ptr'):
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            return max(1, (t[1] + 7) // 8)
        if k == 'float':
            return 4
        if k in ('double', 'ptr'):
            return 8
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                o = (o + a - 1) // a * a
                o += self.size(f)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        o = 0
        for j, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            if j == i:
                return o, f
            o += self.size(f)
        raise Unsupported('field')

    # ---- parsing ------------------------------------------------------------
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    p = P(tokenize(rest), self)
                    self.types[nm] = p.type()
            elif ln.startswith('@'):
                self._global(ln)
            i += 1

    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+)) = (.*)', ln)
        nm, rest = m.group(1), m.group(2)
        g = {'name': nm, 'text': rest, 'const': False, 'parsed': False, 'module': self, 'tls': 'thread_local' in rest}
        head = re.match(r'((?:[a-z_]+(?:\([a-z]*\))? )*?)(constant|global|alias) ', rest)
        if not head:
            g['unsupported'] = True
        else:
            g['kind'] = head.group(2)
            g['const'] = head.group(2) == 'constant'
            g['external'] = 'external' in head.group(1)
            g['init'] = rest[head.end():]
        self.globals[nm] = g

    def _define(self, head, body):
        m = re.search(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+))\(', head)
        nm = m.group(1)
        f = Function()
        f.name = nm
        f.module = self
        f.head = head
        f.body = body
        f.parsed = False
        f.internal = ' internal ' in head[:m.start()]
        self.funcs[nm] = f

    def parse_function(self, f):
        if f.parsed:
            return f
        head = f.head
        m = re.search(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+))\(', head)
        pre = head[len('define '):m.start()]
        p = P(tokenize(pre), self)
        p.skip_attrs()
        f.ret = p.type()
        # parameters
        rest = head[m.end():]
        p = P(tokenize(rest), self)
        f.params = []
        while not p.at(')'):
            if p.at('...'):
                raise Unsupported('varargs definition')
            t, attrs = p.type_attrs()
            if p.kind() == 'loc':
                nmv = p.next()[1]
            else:
                nmv = '%' + str(len(f.params))
            f.params.append((nmv, t, attrs))
            if p.at(','):
                p.next()
        f.blocks = {}
        cur = None
        nparams = len(f.params)
        # implicit entry label
        f.entry = None
        joined = []
        # join continuation lines (switch, invoke)
        k = 0
        b = f.body
        while k < len(b):
            ln = b[k]
            if ln.startswith('  switch ') or ' switch ' in ln[:12]:
                while ']' not in b[k]:
                    k += 1
                    ln += ' ' + b[k].strip()
            elif 'invoke ' in ln and k + 1 < len(b) and b[k + 1].strip().startswith('to label'):
                k += 1
                ln += ' ' + b[k].strip()
            elif 'landingpad' in ln:
                while k + 1 < len(b) and b[k + 1].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    k += 1
            joined.append(ln)
            k += 1
        for ln in joined:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            lm = re.match(r'^("[^"]*"|[-A-Za-z0-9$._]+):', ln)
            if lm:
                cur = '%' + lm.group(1)
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = '%entry'
                # first unnamed block is numbered after the params
                cnt = sum(1 for q in f.params if re.match(r'%\d+$', q[0]))
                cur = '%' + str(cnt)
                f.entry = cur
                f.blocks[cur] = []
            f.blocks[cur].append(self._inst(s))
        f.parsed = True
        return f

    def _inst(self, s):
        c = s.find(', !')
        if c >= 0 and 'switch' not in s:
            s = s[:c]
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9$._]+)) = (.*)', s)
        if m:
            res, s = m.group(1), m.group(2)
        w = s.split(' ', 1)
        op = w[0]
        rest = w[1] if len(w) > 1 else ''
        if op in ('tail', 'musttail', 'notail'):
            op, rest = rest.split(' ', 1)
        return (op, res, rest)


class P(object):
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def kind(self):
        return self.peek()[0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, s):
        return self.peek()[1] == s

    def eat(self, s):
        if not self.at(s):
            raise Unsupported('expected %s got %r in %r' % (s, self.peek(), self.t[:12]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)

    def skip_attrs(self):
        attrs = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR:
                attrs[v] = True
                self.i += 1
            elif k == 'word' and v == 'align':
                self.i += 1
                if self.at('('):
                    self.i += 3
                else:
                    self.i += 1
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'nofpclass',
                                       'comdat', 'cc', 'addrspace', 'initializes'):
                self.i += 1
                if self.at('('):
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
            elif k == 'word' and v in ('byval', 'sret', 'elementtype', 'preallocated', 'inalloca'):
                self.i += 1
                self.eat('(')
                attrs[v] = self.type()
                self.eat(')')
            else:
                return attrs

    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.match(r'i(\d+)$', v)
            if m:
                return ('int', int(m.group(1)))
            if v == 'float':
                return F32
            if v == 'double':
                return F64
            if v == 'ptr':
                return PTR
            if v == 'void':
                return VOID
            if v in ('label', 'metadata', 'token'):
                return (v,)
            raise Unsupported('type ' + v)
        if k == 'loc':
            return ('named', v)
        if v == '[':
            n = int(self.next()[1])
            self.eat('x')
            t = self.type()
            self.eat(']')
            return ('arr', n, t)
        if v == '<':
            n = int(self.next()[1])
            self.eat('x')
            t = self.type()
            self.eat('>')
            return ('vec', n, t)
        if v == '{' or v == '<{':
            fs = []
            close = '}' if v == '{' else '}>'
            while not self.at(close):
                fs.append(self.type())
                if self.at(','):
                    self.next()
            self.next()
            return ('struct', tuple(fs), v == '<{')
        raise Unsupported('type token %r' % v)

    def type_attrs(self):
        a0 = self.skip_attrs()
        t = self.type()
        a = self.skip_attrs()
        a0.update(a)
        return t, a0

    def value(self, t):
        """value of type t -> ('reg',n) | ('const',v) | ('glob',n) | ('gep',...) | ('agg',[..]) | ('undef',)"""
        k, v = self.next()
        if k == 'loc':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v)
        rt = self.m.resolve(t)
        if k == 'num':
            if rt[0] == 'int':
                return ('const', int(v))
            return ('const', Fraction(float(v)) if rt[0] == 'double' else Fraction(float(v)))
        if k == 'hex':
            h = v[2:]
            if h[0] in 'KLMHR':
                raise Unsupported('hex float ' + v)
            d = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return ('const', d)
            return ('const', Fraction(d))
        if k == 'word':
            if v == 'true':
                return ('const', 1)
            if v == 'false':
                return ('const', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                self.skip_attrs()
                self.eat('(')
                bt = self.type()
                self.eat(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.at(','):
                    self.next()
                    self.skip_attrs()
                    it = self.type()
                    idx.append(self.value(it))
                self.eat(')')
                return ('gep', bt, base, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast'):
                raise Unsupported('constexpr ' + v)
        if k == 'cstr':
            return ('bytes', _cstr(v))
        if v in ('[', '{', '<', '<{'):
            close = {'[': ']', '{': '}', '<': '>', '<{': '}>'}[v]
            out = []
            while not self.at(close):
                et, _ = self.type_attrs()
                out.append((et, self.value(et)))
                if self.at(','):
                    self.next()
            self.next()
            return ('agg', out)
        raise Unsupported('value %r %r' % (k, v))

    def tv(self):
        t, a = self.type_attrs()
        return t, self.value(t), a


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)
