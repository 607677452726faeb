"""The real code, natively: all of /repo/src compiled with g++ -O2 into a shared object, called through ctypes."""
import ctypes
import os
import pickle
import re
import signal
import struct
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

CT = {'d': ctypes.c_double, 'f': ctypes.c_float, 'i': ctypes.c_int, 'b': ctypes.c_uint8, 'c': ctypes.c_char,
      'p': ctypes.c_void_p, 'l': ctypes.c_long}
SZ = {'d': 8, 'f': 4, 'i': 4, 'b': 1, 'c': 1, 'p': 8, 'l': 8}


def build(src, work):
    """returns path of the shared object or raises"""
    out = os.path.join(work, 'libsla.so')
    objs = []
    files = sorted(x for x in os.listdir(src) if x.endswith('.cc'))

    def comp(f):
        o = os.path.join(work, f[:-3] + '.o')
        p = subprocess.run(['g++', '-std=c++17', '-O1', '-fPIC', '-w', '-I' + src, '-c', os.path.join(src, f), '-o', o],
                           capture_output=True, text=True)
        return f, o, p
    with ThreadPoolExecutor(8) as ex:
        for f, o, p in ex.map(comp, files):
            if p.returncode != 0:
                raise RuntimeError('compiling %s failed: %s' % (f, p.stderr[-1500:]))
            objs.append(o)
    subprocess.run(['g++', '-shared', '-o', out] + objs, check=True)
    syms = subprocess.run(['nm', '-D', '--defined-only', out], capture_output=True, text=True).stdout
    return out, [l.split()[-1] for l in syms.splitlines()]


def expand_layout(s):
    """'d3iib' -> [('d',0),...]; returns (cells, size)"""
    cells = []
    off = 0
    mx = 1
    for m in re.finditer(r'([dfibcpl])(\d*)', s):
        k = m.group(1)
        n = int(m.group(2) or 1)
        a = SZ[k]
        mx = max(mx, a)
        for _ in range(n):
            off = (off + a - 1) // a * a
            cells.append((k, off))
            off += a
    size = (off + mx - 1) // mx * mx
    return cells, size


class Native(object):
    def __init__(self, path, syms):
        self.path = path
        self.syms = syms
        self.lib = None

    def symbol(self, short, n=None):
        pat = re.compile(r'^_ZN3sla%d%sE' % (len(short), re.escape(short)))
        c = [s for s in self.syms if pat.match(s)]
        return c

    def _call(self, con, inp, alias):
        if self.lib is None:
            self.lib = ctypes.CDLL(self.path)
        sym = [s for s in self.symbol(con.fn) if con.matches('@' + s)]
        if not sym:
            return {'missing': True}
        fn = self.lib[sym[0]]
        args = []
        bufs = {}
        amap = dict((o, i) for i, o in alias)
        for p in con.params:
            if p.kind == 's':
                v = inp[p.name]
                if p.layout == 'b':
                    args.append(ctypes.c_bool(bool(v)))
                elif p.layout == 'c':
                    args.append(ctypes.c_byte(int(v)))
                else:
                    args.append(CT[p.layout](v))
            elif p.kind == 'str':
                s = bytes((int(x) & 255) for x in inp[p.name])
                b = ctypes.create_string_buffer(s, len(s) + 1)
                bufs[p.name] = b
                args.append(b)
            elif p.kind == 'sv2':
                class S2(ctypes.Structure):
                    _fields_ = [('a', ctypes.c_float), ('b', ctypes.c_float)]
                args.append(S2(*inp[p.name]))
            else:
                if p.name in amap and p.kind == 'out':
                    bufs[p.name] = bufs[amap[p.name]]
                    args.append(bufs[p.name])
                    continue
                if p.kind == 'arr' and inp[p.name] is None:
                    args.append(ctypes.c_void_p(None))
                    continue
                cells, size = con.layout_of(p, inp)
                b = ctypes.create_string_buffer(bytes([0xA5]) * max(size, 1) + bytes([0xFF]) * 32, max(size, 1) + 32)
                if p.kind in ('in', 'io', 'arr'):
                    vals = inp[p.name]
                    for (k, off), v in zip(cells, vals):
                        if k == 'b':
                            v = int(v)
                        struct.pack_into('<' + {'d': 'd', 'f': 'f', 'i': 'i', 'b': 'B', 'c': 'b', 'p': 'Q', 'l': 'q'}[k], b, off, v)
                bufs[p.name] = b
                args.append(b)
        fn.restype = None if con.ret is None else ({'b': ctypes.c_bool, 'p': ctypes.c_char_p}.get(con.ret) or CT[con.ret])
        before = {p.name: bufs[p.name].raw for p in con.params if p.kind in ('in', 'str') and p.name in bufs and p.name not in amap.values()}
        r = fn(*args)
        out = {}
        for p in con.params:
            if p.name in before and bufs[p.name].raw != before[p.name]:
                out['@stray'] = 'input %s is modified' % p.name
            elif p.kind in ('in', 'out', 'io', 'arr') and p.name in bufs and p.name not in amap:
                if bufs[p.name].raw[-32:] != b'\xff' * 32:
                    out['@stray'] = 'memory behind %s is written' % p.name
        if con.ret is not None:
            out['ret'] = r
        for p in con.params:
            if p.kind in ('in', 'out', 'io', 'arr') and p.name in bufs:
                cells, size = con.layout_of(p, inp)
                out[p.name] = [struct.unpack_from('<' + {'d': 'd', 'f': 'f', 'i': 'i', 'b': 'B', 'c': 'b', 'p': 'Q', 'l': 'q'}[k],
                                                  bufs[p.name], off)[0] for k, off in cells]
                if p.kind == 'out' and hasattr(con, 'post_native'):
                    con.post_native(p, out)
        return out

    def batch(self, con, inputs, alias=(), timeout=60):
        """list of result dicts; {'crash': why} when the call dies"""
        res = []
        i = 0
        while i < len(inputs):
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    dn = os.open('/dev/null', os.O_WRONLY)
                    os.dup2(dn, 2)
                    os.dup2(dn, 1)
                    signal.alarm(timeout)
                    f = os.fdopen(w, 'wb')
                    for x in inputs[i:]:
                        o = self._call(con, x, alias)
                        pickle.dump(o, f)
                        f.flush()
                    f.close()
                finally:
                    os._exit(0)
            os.close(w)
            f = os.fdopen(r, 'rb')
            n = 0
            while True:
                try:
                    res.append(pickle.load(f))
                    n += 1
                except EOFError:
                    break
                except Exception:
                    break
            f.close()
            _, st = os.waitpid(pid, 0)
            i += n
            if i < len(inputs):
                why = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
                res.append({'crash': why})
                i += 1
        return res
