"""Matrix inversion, linear systems, singular value decomposition."""
from .base import *
from engine.contract import K
from engine.loops import Spec

EPS = 1e-20


def minor(m, n, rows, cols):
    """determinant of the selected rows and columns of a flat n x n matrix"""
    if not rows:
        return rconst(1)
    r, rest = rows[0], rows[1:]
    t = rconst(0)
    for k, c in enumerate(cols):
        x = m[r * n + c] * minor(m, n, rest, cols[:k] + cols[k + 1:])
        t = t + x if k % 2 == 0 else t - x
    return t


def det_of(m, n):
    return minor(m, n, list(range(n)), list(range(n)))


def adjugate(m, n):
    ix = list(range(n))
    out = []
    for i in ix:
        for j in ix:
            x = minor(m, n, [r for r in ix if r != j], [c for c in ix if c != i])
            out.append(x if (i + j) % 2 == 0 else -x)
    return out


def singular(m, n, eps):
    """partial pivoting meets a pivot, or a running product of pivots, below eps in magnitude"""
    a = [list(m[i * n:i * n + n]) for i in range(n)]
    det = rconst(1)
    bad = False
    for k in range(n):
        big, ib = abs_(a[k][k]), k
        for i in range(k + 1, n):
            if abs_(a[i][k]) > big:
                big, ib = abs_(a[i][k]), i
        if big < eps:
            return True
        if ib != k:
            a[k], a[ib] = a[ib], a[k]
            det = -det
        p = a[k][k]
        det = det * p
        if abs_(det) < eps:
            return True
        r = 1 / p
        row = [x * r for x in a[k]]
        for i in range(k + 1, n):
            f = a[i][k]
            a[i] = [x - f * y for x, y in zip(a[i], row)]
    return False


def matspec(n, eps):
    def spec(n_=n, **k):
        m, v = k['mat'], k['vec']
        if singular(m, n, eps):
            return {'ret': True, 'mat': [None] * (n * n), 'vec': [None] * n, 'det': [rconst(0)], 'ws': [None] * n}
        d = det_of(m, n)
        inv = [x / d for x in adjugate(m, n)]
        return {'ret': False, 'mat': inv, 'vec': [sum_(inv[i * n + j] * v[j] for j in range(n)) for i in range(n)],
                'det': [d], 'ws': [None] * n}
    return lambda **k: spec(**{x: y for x, y in k.items() if x != 'n'})


def square(n):
    def f(r):
        m = [r.uniform(-3, 3) for _ in range(n * n)]
        u = r.random()
        if u < 0.15:
            m = [float(r.randrange(-2, 3)) for _ in range(n * n)]
        elif u < 0.25 and n > 1:
            m[n:2 * n] = [2 * x for x in m[:n]]
        elif u < 0.35:
            m[0] = 0.0
        elif u < 0.4:
            m = [x * 1e-8 for x in m]
        return m
    return f


for T_, nm in (('d', 'dmat'), ('f', 'smat')):
    for n in (1, 2, 3):
        Contract('%s@%d' % (nm, n), 'b', [K('n', n), IO('mat', '%s%d' % (T_, n * n)), IO('vec', '%s%d' % (T_, n)), OUT('det', T_), OUT('ws', 'i%d' % n)],
                 matspec(n, EPS), fn=nm, sig='EiPdS0_RdPi' if T_ == 'd' else None, dom={'mat': square(n)}, nsamples=80, maxpaths=20000,
                 bound='order %d' % n, ntol=1e-9 if T_ == 'd' else 1e-3, timeout=600)


@lemma('C32', 'inverse times original is the identity and the solution satisfies the equations')
def _():
    out = []
    for n in (2, 3):
        m = [var('m%d' % k) for k in range(n * n)]
        v = [var('v%d' % k) for k in range(n)]
        d = det_of(m, n)
        inv = [x / d for x in adjugate(m, n)]
        sol = [sum_(inv[i * n + j] * v[j] for j in range(n)) for i in range(n)]
        for i in range(n):
            out.append(('equation %d of order %d' % (i, n), sum_(m[i * n + j] * sol[j] for j in range(n)), v[i]))
            for j in range(n):
                out.append(('identity (%d,%d) of order %d' % (i, j, n), sum_(inv[i * n + k] * m[k * n + j] for k in range(n)), rconst(int(i == j))))
    return out


# ---- any order: bounded runs of the real code -------------------------------------------
def general_square(rng, n, T_):
    u = rng.random()
    m = [rng.uniform(-3, 3) for _ in range(n * n)]
    kind = 'regular'
    if u < 0.12:
        # zeros on the diagonal: rows must be exchanged
        for i in range(n):
            m[i * n + i] = 0.0
        kind = 'regular' if n > 1 else 'singular'
    elif u < 0.2:
        # a permuted triangular matrix with the determinant known to be large
        p = list(range(n))
        rng.shuffle(p)
        m = [0.0] * (n * n)
        for i in range(n):
            for j in range(i, n):
                m[p[i] * n + j] = 1.0 + rng.random() if i == j else rng.uniform(-1, 1)
    elif u < 0.3:
        # exactly singular whatever the rounding: an empty row or column
        m = [float(rng.randrange(-3, 4)) for _ in range(n * n)]
        k = rng.randrange(n)
        w = rng.random()
        if w < 0.5:
            for j in range(n):
                m[k * n + j] = 0.0
        else:
            for i in range(n):
                m[i * n + k] = 0.0
        kind = 'singular'
    elif u < 0.36:
        m = [x * 1e-4 for x in m]
    elif u < 0.36 + (0.4 if n > 8 else 0.05):
        # rows of a nearly diagonal matrix in any order: well conditioned at every order
        p = list(range(n))
        rng.shuffle(p)
        m = [rng.uniform(-0.3, 0.3) / n for _ in range(n * n)]
        for i in range(n):
            m[i * n + p[i]] = rng.choice([-1, 1]) * rng.uniform(0.8, 1.25)
    return m, kind


def matcheck(T_):
    import numpy as np
    eps = 2.3e-16 if T_ == 'd' else 1.2e-7

    def check(x, r):
        n = x['n']
        a = np.array(x['mat'][:n * n]).reshape(n, n)
        v = np.array(x['vec'][:n])
        if x['mat'][n * n:] != r['mat'][n * n:] or x['vec'][n:] != r['vec'][n:] or x['ws'][n:] != r['ws'][n:]:
            return 'storage beyond order %d changed' % n
        sv = np.linalg.svd(a, compute_uv=False) if n else np.ones(1)
        cond = sv[0] / sv[-1] if sv[-1] > 0 else float('inf')
        if x['kind'] == 'singular':
            if not r['ret'] or r['det'][0] != 0:
                return 'a singular matrix is not flagged'
            return None
        if cond * eps > 1e-5:
            return None
        # products of pivots below 1e-20 count as singular
        if abs(np.prod(sv)) < 1e-18 and r['ret']:
            return None
        if r['ret']:
            return 'a regular matrix (condition %.3g, determinant %.3g) is flagged singular' % (cond, np.prod(sv))
        inv = np.array(r['mat'][:n * n]).reshape(n, n)
        tol = 200 * n * n * eps * cond
        if not np.abs(inv @ a - np.eye(n)).max() <= tol * 10:
            return 'the inverse times the matrix differs from the identity'
        sol = np.array(r['vec'][:n])
        if not np.abs(a @ sol - v).max() <= tol * 10 * max(1.0, np.abs(v).max(), sv[0] * np.abs(sol).max()):
            return 'the solution does not satisfy the equations'
        d = np.linalg.det(a)
        if not abs(r['det'][0] - d) <= tol * max(abs(d), 1e-300) * 10:
            return 'determinant %r, expected %r' % (r['det'][0], d)
        return None
    return check


def matgen(T_):
    def gen(rng, count):
        for k in range(count):
            n = pick(rng, lambda: rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 10]), 45)
            m, kind = general_square(rng, n, T_)
            pad = [7.25] * 3
            rd = f32 if T_ == 'f' else float
            yield {'n': n, 'mat': [rd(x) for x in m] + pad, 'vec': [rd(rng.uniform(-5, 5)) for _ in range(n)] + pad, 'det': [0.0], 'ws': [-77] * (n + 3), 'kind': kind}
    return gen


for T_, nm in (('d', 'dmat'), ('f', 'smat')):
    sampled(nm + '#runs', nm, 'b', [I('n'), ARR('mat', T_, lambda x: len(x['mat'])), ARR('vec', T_, lambda x: len(x['vec'])), ARR('det', T_, lambda x: 1),
                                    ARR('ws', 'i', lambda x: len(x['ws']))],
            matgen(T_), matcheck(T_), 3000, 60000, 'orders 4 and above: sampled systems up to order 10, not proved',
            'inverse, solution, determinant and singularity flag of sampled systems', sig='EiPdS0_RdPi' if T_ == 'd' else None, mut=('mat', 'vec'))


# ---- singular value decomposition ------------------------------------------------------
def svd_matrix(rng):
    import numpy as np
    g = np.random.default_rng(rng.randrange(1 << 30))
    m = pick(rng, lambda: int(g.integers(1, 8)), 45)
    n = pick(rng, lambda: int(g.integers(1, m + 1)), m) if rng.random() < 0.5 else int(g.integers(1, m + 1))
    kind = int(g.integers(0, 9))
    A = g.normal(size=(m, n))
    if kind == 1:
        A[:, g.integers(0, n)] = 0
    elif kind == 2:
        A = np.round(A)
    elif kind == 3:
        k = int(g.integers(0, n))
        A = g.normal(size=(m, k + 1)) @ g.normal(size=(k + 1, n))
    elif kind == 4:
        A[:, 0] = 0
    elif kind == 5:
        A[g.integers(0, m), :] = 0
    elif kind == 6:
        A *= 10.0 ** g.uniform(-8, 8)
    elif kind == 7:
        A = np.eye(m, n) * float(g.integers(-2, 3))
    elif kind == 8:
        A = np.triu(A)
    return m, n, A


def svdgen(rng, count):
    import numpy as np
    for _ in range(count):
        m, n, A = svd_matrix(rng)
        if rng.random() < 0.03:
            # refused: fewer rows than columns
            n = m + 1 + rng.randrange(3)
            A = np.array([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(m)])
        pad = rng.randrange(3)
        mp, np_ = m + pad, n + pad + rng.randrange(2)
        a = np.full((mp, np_), 7.25)
        a[:m, :n] = A
        yield {'m': m, 'n': n, 'mp': mp, 'np': np_, 'a': a.ravel().tolist(), 'w': [7.25] * (np_ + 1), 'v': [7.25] * (np_ * np_), 'ws': [7.25] * (np_ + 1)}


def svdcheck(x, r):
    import numpy as np
    m, n, mp, q = x['m'], x['n'], x['mp'], x['np']
    A = np.array(x['a']).reshape(mp, q)[:m, :n]
    a, w, v = np.array(r['a']).reshape(mp, q), np.array(r['w']), np.array(r['v']).reshape(q, q)
    if m < n:
        return None if r['ret'] == -1 and all(r[z] == x[z] for z in 'avw') else 'fewer rows than columns: status %s' % r['ret']
    if r['ret'] != 0:
        return 'status %d' % r['ret']
    if (a[m:, :] != 7.25).any() or (a[:, n:] != 7.25).any() or (v[n:] != 7.25).any() or (v[:, n:] != 7.25).any() or (w[n:] != 7.25).any():
        return 'storage outside the logical dimensions changed'
    U, W, V_ = a[:m, :n], w[:n], v[:n, :n]
    sc = max(np.abs(A).max(), 1e-300)
    if not np.abs(U @ np.diag(W) @ V_.T - A).max() <= 1e-10 * sc:
        return 'U W V^T differs from the matrix by %g' % np.abs(U @ np.diag(W) @ V_.T - A).max()
    if not np.abs(V_.T @ V_ - np.eye(n)).max() <= 1e-10:
        return 'V is not orthogonal'
    nz = W > 1e-12 * max(W.max(), 1e-300)
    G = (U.T @ U - np.eye(n))[np.ix_(nz, nz)]
    if nz.any() and not np.abs(G).max() <= 1e-10:
        return 'the columns of U are not orthonormal'
    if not (W >= 0).all():
        return 'negative singular value'
    if not np.abs(np.sort(W)[::-1] - np.linalg.svd(A, compute_uv=False)).max() <= 1e-10 * sc:
        return 'singular values %s, expected %s' % (np.sort(W)[::-1], np.linalg.svd(A, compute_uv=False))
    return None


sampled('svd', 'svd', 'i', [I('m'), I('n'), I('mp'), I('np')] + [ARR(z, 'd', lambda x, z=z: len(x[z])) for z in ('a', 'w', 'v', 'ws')], svdgen, svdcheck, 6000, 120000,
        'iteration ends on convergence: sampled matrices up to 7 x 7 (rank-deficient, integer, triangular, padded, scaled), not proved',
        'U diag(w) V^T reproduces the matrix with orthonormal factors and non-negative w', mut=('a',))


def svd_pre(e):
    return [le(1, e.m), le(1, e.n), le(e.m, e.mp), le(e.n, e.np), le(e.mp, 1 << 15), le(e.np, 1 << 15)]


def svd_bad_post(e, r):
    i, j = tm.var('i', 'I'), tm.var('j', 'I')
    yield 'refused', [], r.ret, const(-1)
    for nm, ix in (('a', (i, j)), ('w', (i,)), ('v', (i, j))):
        yield nm + ' is left alone', [], e.read(nm, *ix), sel(nm, *ix)


SVDARGS = [('int', 'm'), ('int', 'n'), ('int', 'mp'), ('int', 'np'), ('arr', 'a', 'mp', 'np', True), ('arr', 'w', 'n', None, True), ('arr', 'v', 'np', 'np', True), ('arr', 'ws', 'n', None, True)]
allsizes('svd@bad', 'svd', SVDARGS, lambda e: svd_pre(e) + [lt(e.m, e.n)], svd_bad_post, 'fewer rows than columns', runs='svd')


def svd_column_post(e, r):
    """one column: a = u w v with v = +-1, w >= 0 its norm; hence |u| = 1 where w is not zero"""
    i, k = tm.var('i', 'I'), tm.var('k', 'I')
    w, v = e.read('w', 0), e.read('v', 0, 0)
    a = lambda k: sel('a', k, 0)
    S = SUM(k, 0, e.m, abs_(a(k)))
    Q = SUM(k, 0, e.m, a(k) / S * (a(k) / S))
    N2 = SUM(k, 0, e.m, a(k) * a(k))
    zero = eq(S, rconst(0))
    # sums of terms that are not negative vanish only when every term does
    L = [le(0, S), le(0, Q), or_(not_(zero), eq(a(const(0)), 0)), or_(not_(zero), eq(a(i), 0)), or_(not_(zero), eq(N2, 0)), or_(zero, lt(0, Q))]
    yield 'status', [], r.ret, const(0)
    yield 'the singular value is not negative', L, le(0, w), tm.TRUE
    yield 'v is orthogonal', [], v * v, rconst(1)
    for lab, at, h in (('first row', const(0), []), ('other rows', i, nonneg(i, e.m) + [le(1, i)])):
        yield lab, L + h, e.read('a', at, 0, hyps=L + h) * w * v, a(at)
    H = L + [not_(zero)]
    yield 'scaled sum of squares', H, S * S * Q, N2
    yield 'the singular value is the norm of the column', H, w * w, S * S * Q
    yield 'the singular value of a null column', L + [zero], w, rconst(0)


allsizes('svd@column', 'svd', [('int', 'm'), ('const', 'n', 1)] + SVDARGS[2:], lambda e: svd_pre(e), svd_column_post, 'one column', runs='svd', lin=True)


# ---- solution and covariance from the decomposition -------------------------------------
def wval(r):
    return 0.0 if r.random() < 0.3 else r.uniform(0.1, 3)


def svdsol_instance(m, n, mp, np_):
    def spec(**k):
        b, u, w, v = k['b'], k['u'], k['w'], k['v']
        y = [ite(eq(w[j], rconst(0)), rconst(0), sum_(u[i * np_ + j] * b[i] for i in range(m)) / w[j]) for j in range(n)]
        return {'ws': [None] * n, 'x': [sum_(v[i * np_ + j] * y[j] for j in range(n)) for i in range(n)]}
    nm = 'svdsol@%dx%d/%dx%d' % (m, n, mp, np_)
    Contract(nm, None, [K('m', m), K('n', n), K('mp', mp), K('np', np_), IN('b', 'd%d' % m), IN('u', 'd%d' % (mp * np_)), IN('w', 'd%d' % n), IN('v', 'd%d' % (np_ * np_)),
                        OUT('ws', 'd%d' % n), OUT('x', 'd%d' % n)], spec, fn='svdsol', nsamples=60, bound='%d x %d system stored in %d x %d' % (m, n, mp, np_),
             dom={'w': lambda r: [wval(r) for _ in range(n)]})
    return nm


def svdcov_instance(n, np_, nc):
    def spec(**k):
        w, v = k['w'], k['v']
        g = [ite(eq(x, rconst(0)), rconst(0), 1 / (x * x)) for x in w]
        c = list(k['cvm'])
        for i in range(n):
            for j in range(n):
                c[i * nc + j] = sum_(v[i * np_ + q] * v[j * np_ + q] * g[q] for q in range(n))
        return {'ws': [None] * n, 'cvm': c}
    nm = 'svdcov@%d/%d/%d' % (n, np_, nc)
    Contract(nm, None, [K('n', n), K('np', np_), K('nc', nc), IN('w', 'd%d' % n), IN('v', 'd%d' % (np_ * np_)), OUT('ws', 'd%d' % n), IO('cvm', 'd%d' % (nc * nc))],
             spec, fn='svdcov', nsamples=60, bound='order %d stored in %d, result in %d' % (n, np_, nc), dom={'w': lambda r: [wval(r) for _ in range(n)]})
    return nm


SVDSOL = [svdsol_instance(*q) for q in ((1, 1, 1, 1), (2, 2, 2, 2), (3, 2, 3, 2), (3, 2, 4, 3), (3, 3, 3, 4))]
SVDCOV = [svdcov_instance(*q) for q in ((1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 3, 4), (3, 4, 3))]


def svdsol_gen(rng, count):
    for _ in range(count):
        m = pick(rng, lambda: rng.randrange(1, 9), 60)
        n = pick(rng, lambda: rng.randrange(1, m + 1), m) if rng.random() < 0.5 else rng.randrange(1, m + 1)
        mp, q = m + rng.randrange(3), n + rng.randrange(3)
        f = lambda c: [rng.uniform(-2, 2) for _ in range(c)]
        yield {'m': m, 'n': n, 'mp': mp, 'np': q, 'b': f(m), 'u': f(mp * q), 'w': [wval(rng) for _ in range(n)], 'v': f(q * q), 'ws': [7.25] * (n + 2), 'x': [7.25] * (n + 2)}


def svdsol_check(x, r):
    import numpy as np
    m, n, q = x['m'], x['n'], x['np']
    U = np.array(x['u']).reshape(-1, q)[:m, :n]
    V_ = np.array(x['v']).reshape(q, q)[:n, :n]
    w = np.array(x['w'])
    y = np.where(w == 0, 0, (U.T @ np.array(x['b'])) / np.where(w == 0, 1, w))
    if any(r[z] != x[z] for z in 'buwv') or r['x'][n:] != x['x'][n:] or r['ws'][n:] != x['ws'][n:]:
        return 'an input or storage beyond the solution changed'
    e = V_ @ y
    if not np.abs(np.array(r['x'][:n]) - e).max() <= 1e-9 * (1 + np.abs(e).max()):
        return 'solution %s, expected %s' % (r['x'][:n], e.tolist())
    return None


AR = lambda *z: [ARR(n, 'd', lambda x, n=n: len(x[n])) for n in z]
sampled('svdsol#runs', 'svdsol', None, [I('m'), I('n'), I('mp'), I('np')] + AR('b', 'u', 'w', 'v', 'ws', 'x'), svdsol_gen, svdsol_check, 2000, 40000,
        'larger sizes: sampled systems up to 8 x 8 with padding, not proved', 'the solution is V diag(1/w) U^T b over non-zero singular values', mut=('b', 'u', 'w', 'v'))


def svdcov_gen(rng, count):
    for _ in range(count):
        n = pick(rng, lambda: rng.randrange(1, 8), 45)
        q, nc = n + rng.randrange(3), n + rng.randrange(3)
        yield {'n': n, 'np': q, 'nc': nc, 'w': [wval(rng) for _ in range(n)], 'v': [rng.uniform(-2, 2) for _ in range(q * q)], 'ws': [7.25] * (n + 2), 'cvm': [7.25] * (nc * nc)}


def svdcov_check(x, r):
    import numpy as np
    n, q, nc = x['n'], x['np'], x['nc']
    V_ = np.array(x['v']).reshape(q, q)[:n, :n]
    w = np.array(x['w'])
    g = np.where(w == 0, 0, 1 / np.where(w == 0, 1, w) ** 2)
    e = np.full((nc, nc), 7.25)
    e[:n, :n] = V_ @ np.diag(g) @ V_.T
    if any(r[z] != x[z] for z in 'wv') or r['ws'][n:] != x['ws'][n:]:
        return 'an input or storage beyond the result changed'
    if not np.abs(np.array(r['cvm']).reshape(nc, nc) - e).max() <= 1e-9 * (1 + np.abs(e).max()):
        return 'covariance differs from %s' % e.tolist()
    return None


sampled('svdcov#runs', 'svdcov', None, [I('n'), I('np'), I('nc')] + AR('w', 'v', 'ws', 'cvm'), svdcov_gen, svdcov_check, 2000, 40000,
        'larger sizes: sampled orders up to 7 with padding, not proved', 'the covariance is V diag(1/w^2) V^T over non-zero singular values', mut=('w', 'v'))


def svdsol_pre(e):
    return [le(1, e.n), le(e.n, e.m), le(e.m, e.mp), le(e.n, e.np), le(e.mp, 1 << 15), le(e.np, 1 << 15)]


def nonneg(i, n):
    return [le(0, i), lt(i, n)]


def svdsol_post(e, path):
    k, l, i = [tm.var(x, 'I') for x in ('k', 'l', 'i')]
    y = lambda j: ite(eq(sel('w', j), rconst(0)), rconst(0), SUM(k, 0, e.m, sel('u', k, j) * sel('b', k)) / sel('w', j))
    H = nonneg(i, e.n)
    yield 'x[i]', H, e.read('x', i, hyps=H), SUM(l, 0, e.n, sel('v', i, l) * y(l))


allsizes('svdsol@all', 'svdsol', [('int', 'm'), ('int', 'n'), ('int', 'mp'), ('int', 'np'), ('arr', 'b', 'm', None, False), ('arr', 'u', 'mp', 'np', False),
                                  ('arr', 'w', 'n', None, False), ('arr', 'v', 'np', 'np', False), ('arr', 'ws', 'n', None, True), ('arr', 'x', 'n', None, True)],
         svdsol_pre, svdsol_post, 'any dimensions', runs='svdsol#runs')


def svdcov_post(e, path):
    k, i, j = [tm.var(x, 'I') for x in ('k', 'i', 'j')]
    g = lambda q: ite(eq(sel('w', q), rconst(0)), rconst(0), 1 / (sel('w', q) * sel('w', q)))
    for lab, h in (('lower', le(j, i)), ('upper', lt(i, j))):
        H = nonneg(i, e.n) + nonneg(j, e.n) + [h]
        yield 'cvm[i][j], %s triangle' % lab, H, e.read('cvm', i, j, hyps=H), SUM(k, 0, e.n, sel('v', i, k) * sel('v', j, k) * g(k))
    for lab, h in (('row', le(e.n, i)), ('column', le(e.n, j))):
        H = nonneg(i, e.nc) + nonneg(j, e.nc) + [h]
        yield 'cvm unchanged beyond the order (%s)' % lab, H, e.read('cvm', i, j, hyps=H), sel('cvm', i, j)


allsizes('svdcov@all', 'svdcov', [('int', 'n'), ('int', 'np'), ('int', 'nc'), ('arr', 'w', 'n', None, False), ('arr', 'v', 'np', 'np', False),
                                  ('arr', 'ws', 'n', None, True), ('arr', 'cvm', 'nc', 'nc', True)],
         lambda e: [le(1, e.n), le(e.n, e.np), le(e.n, e.nc), le(e.np, 1 << 15), le(e.nc, 1 << 15)], svdcov_post, 'any dimensions', runs='svdcov#runs')


@lemma('C33', 'with all singular values non-zero the solution solves a square system and satisfies the normal equations')
def _():
    # 2 columns: U = two orthonormal columns of length 3 given through rotations, V a rotation
    a, b, c, t, w1, w2 = V('a b c t w1 w2')
    u1 = [cos(a) * cos(b), sin(a) * cos(b), sin(b)]
    e1, e2 = [-sin(a), cos(a), rconst(0)], [-cos(a) * sin(b), -sin(a) * sin(b), cos(b)]
    u2 = [cos(c) * p + sin(c) * q for p, q in zip(e1, e2)]
    vm = [[cos(t), -sin(t)], [sin(t), cos(t)]]
    A = [[w1 * u1[i] * vm[j][0] + w2 * u2[i] * vm[j][1] for j in range(2)] for i in range(3)]
    rhs = V('b0 b1 b2')
    y = [sum_(u1[i] * rhs[i] for i in range(3)) / w1, sum_(u2[i] * rhs[i] for i in range(3)) / w2]
    x = [vm[j][0] * y[0] + vm[j][1] * y[1] for j in range(2)]
    res = [sum_(A[i][j] * x[j] for j in range(2)) - rhs[i] for i in range(3)]
    return [('normal equation %d' % j, sum_(A[i][j] * res[i] for i in range(3)), rconst(0)) for j in range(2)]


# ---- dmat and smat, every order --------------------------------------------------------
# Gauss-Jordan elimination in place.  Ghosts: an arbitrary vector x, z = M x, the given right-hand side v, and the
# sequences z(k, .), v(k, .) that result from exchanging the elements k and ws[k] for each step.  Before step k,
#   R_i = sum_{j>=k} A_ij x_j - sum_{j<k} A_ij z(k,j) - (z(k,i) if i >= k else -x_i) = 0
#   S_i = y_i - sum_{j<k} A_ij v(k,j) - (v(k,i) if i >= k else 0) = 0
# hold for every row i; at the end A z(n) = x and y = A v(n), and undoing the exchanges on the columns of A gives
# A M x = x for every x, that is A M = 1 (so M A = 1), and y = A v, that is M y = v.
class Elimination(Spec):
    def __init__(self, se, rep, name, lo, hi):
        self.se, self.rep, self.name, self.lo, self.hi = se, rep, name, lo, hi

    def need(self, e, lab, hyps, code, want=None):
        import time
        from engine.contract import Obl
        from engine.loops import Unsupported
        t = time.time()
        if not e.ex.solver.feasible(list(hyps)):
            return
        ok = self.se.ex.valid(hyps, code) if want is None else self.se.eq(list(hyps), code, want)
        if not ok:
            raise Unsupported('invariant not preserved: ' + lab)
        self.rep.obls.append(Obl(self.name, lab, 'discharged', 'loop invariant', '', time.time() - t))

    def sum(self, e, pc, lo, hi, f):
        j = e.ex.fresh('j', 'I')
        if not e.ex.solver.feasible(list(pc) + [le(lo, j), lt(j, hi)]):
            return rconst(0)
        return SUM(j, lo, hi, e.decide(list(pc) + [le(lo, j), lt(j, hi)], f(j, [le(lo, j), lt(j, hi)])))

    def init(self, e, st):
        i, n = tm.var('?i', 'I'), tm.var('n', 'I')
        H = list(st.pc) + nonneg(i, n)
        self.need(e, 'the loop runs once per column', H, eq(e.N, n))
        x = lambda j: sel('?x', j)
        M = self.sum(e, H, const(0), n, lambda j, h: e.entry('mat', i, j, pc=H + h) * x(j))
        self.need(e, 'at the start: the given matrix', H, M, self.sum(e, H, const(0), n, lambda j, h: sel('mat', i, j) * x(j)))
        self.need(e, 'at the start: the given vector', H, e.entry('vec', i, pc=H), sel('vec', i))
        self.need(e, 'at the start: determinant 1', H, e.entry_mem[e.byname['det'].id][0][1], rconst(1))

    def step(self, e, r):
        k, n = e.k, tm.var('n', 'I')
        any_ = tm.var('?i', 'I')
        pc = list(r.pc)
        p = e.after(r, 'ws', k)
        self.need(e, 'the recorded row is at or below the pivot row', pc, tm.and_(le(k, p), lt(p, n)))
        q = tm.var('?q', 'I')
        self.need(e, 'earlier records are kept', pc + [le(0, q), lt(q, k)], tm.eq(e.after(r, 'ws', q, hyps=[le(0, q), lt(q, k)]), e.before('ws', q)))
        A = lambda i, j: e.before('mat', i, j)
        akk = A(p, k)
        self.need(e, 'the pivot is not small', pc, le(self.lo, abs_(akk)))
        d0, d1 = e.cell0('det'), e.cell1(r, 'det')
        for lab, h, s in (('kept', eq(p, k), 1), ('exchanged', not_(eq(p, k)), -1)):
            self.need(e, 'determinant, rows %s' % lab, pc + [h], d1, d0 * akk * s)
        self.need(e, 'the product of the pivots is not small', pc, le(self.lo, abs_(d1)))
        x = lambda j: sel('?x', j)
        z = lambda j: sel('?z', k, j)
        v = lambda j: sel('?v', k, j)
        y = lambda j: e.before('vec', j)
        swap = lambda f: lambda j: ite(eq(j, k), f(p), ite(eq(j, p), f(k), f(j)))
        z1, v1 = swap(z), swap(v)
        for case, i, h, src in (('pivot row', k, [], p), ('exchanged row', p, [lt(k, p)], k),
                                ('rows above', any_, [lt(any_, k)], any_), ('rows below', any_, [lt(k, any_), not_(eq(any_, p))], any_)):
            H = pc + h + nonneg(i, n)
            if not e.ex.solver.feasible(H):
                continue
            A1 = lambda j, hh: e.after(r, 'mat', i, j, hyps=h + nonneg(i, n) + hh)
            at = A1(k, [])
            up = case != 'rows above'

            def R(i, up):
                return A(i, k) * x(k) + self.sum(e, H, k + 1, n, lambda j, hh: A(i, j) * x(j)) \
                    - self.sum(e, H, const(0), k, lambda j, hh: A(i, j) * z(j)) - (z(i) if up else -x(i))

            def S(i, up):
                return y(i) - self.sum(e, H, const(0), k, lambda j, hh: A(i, j) * v(j)) - (v(i) if up else rconst(0))
            below = case in ('exchanged row', 'rows below')
            R1 = self.sum(e, H, k + 1, n, lambda j, hh: A1(j, hh) * x(j)) - self.sum(e, H, const(0), k, lambda j, hh: A1(j, hh) * z1(j)) \
                - at * e.decide(H, z1(k)) - (e.decide(H, z1(i)) if below else -x(i))
            S1 = e.after(r, 'vec', i, hyps=h + nonneg(i, n)) - self.sum(e, H, const(0), k, lambda j, hh: A1(j, hh) * v1(j)) \
                - at * e.decide(H, v1(k)) - (e.decide(H, v1(i)) if below else rconst(0))
            for lab, F, F1 in (('matrix', R, R1), ('vector', S, S1)):
                want = F(p, True) / akk if case == 'pivot row' else F(src, up) - A(src, k) / akk * F(p, True)
                self.need(e, '%s, %s' % (lab, case), H, F1, want)

    def flagged(self, e, r):
        from engine.loops import canon
        k, n, i = e.k, tm.var('n', 'I'), tm.var('?i', 'I')
        pc = list(r.pc)
        if e.ex.valid(pc, lt(abs_(e.cell1(r, 'det')), self.hi)):
            self.need(e, 'reported singular: the product of the pivots is small', pc, lt(abs_(e.cell1(r, 'det')), self.hi))
            return
        for row, H in ((k, list(pc)), (i, pc + [lt(k, i), lt(i, n)])):
            for big, w, g, N, ini in r.visits.get('max', ()):
                H.append(le(ini, big))
                for t in (row - k - 1, row - k):
                    H.append(tm.not_(tm.and_(le(0, t), lt(t, N), lt(big, canon(tm.subst(g, {w: t}))))))
            self.need(e, 'reported singular: the column has only small elements', H, lt(abs_(canon(e.before('mat', row, k))), self.hi))

    def exit(self, e, st, hs):
        n = tm.var('n', 'I')
        self.out, self.det = hs, st.mem[e.byname['det'].id][0][1]
        return {'ws': lambda x: [tm.not_(tm.and_(le(0, x.args[0]), lt(x.args[0], n), tm.not_(tm.and_(le(x.args[0], x), lt(x, n)))))]}


class Unscramble(Elimination):
    def __init__(self, first):
        Elimination.__init__(self, first.se, first.rep, first.name, first.lo, first.hi)
        self.first = first

    def init(self, e, st):
        i, j, n = tm.var('?i', 'I'), tm.var('?j', 'I'), tm.var('n', 'I')
        H = list(st.pc) + nonneg(i, n) + nonneg(j, n)
        self.need(e, 'the second loop runs once per column', H, eq(e.N, n))
        self.need(e, 'the second loop starts from the eliminated matrix', H, e.entry('mat', i, j, pc=H), sel(self.first.out['mat'].name, i, j))

    def step(self, e, r):
        n, i = tm.var('n', 'I'), tm.var('?i', 'I')
        m = n - 1 - e.k
        p = sel(self.first.out['ws'].name, m, sort='I')
        pc = list(r.pc) + nonneg(i, n) + e.ex.facts[self.first.out['ws'].name](p) + [le(m, p), lt(p, n)]
        self.need(e, 'the record is in range', list(r.pc) + e.ex.facts[self.first.out['ws'].name](p), tm.and_(le(m, p), lt(p, n)))
        z = lambda j: sel('?z', m, j)
        A = lambda j: e.before('mat', i, j)
        A1 = lambda j, h: e.after(r, 'mat', i, j, hyps=pc + h)
        # sum f = f(m) + f(p) + the rest (m != p), both for A z(m+1) and A' z(m)
        for lab, h in (('kept', [eq(p, m)]), ('exchanged', [not_(eq(p, m))])):
            H = pc + h
            if not e.ex.solver.feasible(H):
                continue
            zn = z if lab == 'kept' else lambda j: ite(eq(j, m), z(p), ite(eq(j, p), z(m), z(j)))
            j = tm.var('?j', 'I')
            hj = h + nonneg(j, n) + [not_(eq(j, m)), not_(eq(j, p))]
            self.need(e, 'columns %s: the others' % lab, pc + hj, A1(j, hj) * z(j), e.decide(pc + hj, A(j) * zn(j)))
            two = lambda f: f(m) + f(p) if lab == 'exchanged' else f(m)
            self.need(e, 'columns %s: the two' % lab, H, two(lambda j: A1(j, h) * z(j)), e.decide(H, two(lambda j: A(j) * zn(j))))

    def flagged(self, e, r):
        from engine.loops import Unsupported
        raise Unsupported('a flag in the second loop')

    def exit(self, e, st, hs):
        self.out = hs
        return {}


def dmat_specs(name, eps, slack):
    def specs(se, rep):
        a = Elimination(se, rep, name, rconst(eps * (1 - slack)), rconst(eps * (1 + slack)))
        return [a, Unscramble(a)]
    return specs


def dmat_post(e, r):
    from engine.loops import Unsupported
    done = [z for k, z in [(x[0], x[1]) for x in r.events] if k == 'spec']
    if not done or not isinstance(done[0][0], Elimination):
        raise Unsupported('the elimination loop was not met')
    if not done[0][1]:
        yield 'a singular matrix is reported', [], r.ret, tm.TRUE
        yield 'determinant of a singular matrix', [], e.cell('det'), rconst(0)
        return
    if len(done) != 2 or not done[1][1]:
        raise Unsupported('the loop that restores the order of the columns was not met')
    i, j = tm.var('?i', 'I'), tm.var('?j', 'I')
    H = nonneg(i, e.n) + nonneg(j, e.n)
    yield 'not reported singular', [], r.ret, tm.FALSE
    yield 'inverse', H, e.read('mat', i, j, hyps=H), sel(done[1][2]['mat'].name, i, j)
    yield 'solution', H, e.read('vec', i, hyps=H), sel(done[0][2]['vec'].name, i)
    yield 'determinant', [], e.cell('det'), done[0][0].det


for T_, nm in (('d', 'dmat'), ('f', 'smat')):
    allsizes(nm + '@all', nm, [('int', 'n'), ('arr', 'mat', 'n', 'n', True, T_), ('arr', 'vec', 'n', None, True, T_), ('out', 'det', T_), ('arr', 'ws', 'n', None, True, 'i')],
             lambda e: [le(1, e.n), le(e.n, 1 << 15)], dmat_post, 'any order', lin=True, runs=nm + '#runs', specs=dmat_specs(nm + '@all', EPS, 0 if T_ == 'd' else 1e-6))
