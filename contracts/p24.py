"""P24: the positive-definiteness test and repair are correct"""
from pydv.worlds import contract
from contracts.common import *

DP, PD, NEAR = OPT + 'dpofa', OPT + 'is_pd', OPT + 'nearest_pd'
FNS = ['optimization.py:dpofa', 'optimization.py:is_pd']


@contract('P24', 'the test accepts exactly the matrices with a Cholesky factor', trials=60, functions=FNS, scope='matrices of order 1 and 2')
def scoped(w):
    n = w.choose('order', [1, 2])
    A = w.mat('A', n, n)
    M = w.build((n, n), lambda i, j: (A[i, j] + A[j, i]) / 2)
    info, R = w.fn(DP)(M)
    yes = w.holds(w.fn(PD)(M))
    w.ensure('the test is that of the factorisation', w.eq(info, 0) if yes else w.Not(w.eq(info, 0)))
    if yes:
        for i in range(n):
            w.ensure('positive diagonal %d' % i, w.lt(0, R[i, i]))
            for j in range(i, n):
                w.ensure_eq('factor %d %d' % (i, j), sum([R[k, i] * R[k, j] for k in range(i + 1)]), M[i, j])
    else:
        # a direction where the quadratic form is not positive: no factor with a positive diagonal exists
        a, b, c = M[0, 0], M[0, n - 1], M[n - 1, n - 1]
        t = 0 if w.symbolic else 1e-9 * (abs(a) + abs(b) + abs(c)) ** n
        w.ensure('no factor', w.Or(w.le(a, t), w.le(a * c - b * b, t)) if n == 2 else w.le(a, 0))


def sample(w):
    """symmetric matrices: definite, singular, indefinite, of integers, badly scaled"""
    np = w.np
    n = int(w.rng.randint(1, 8))
    kind = w.choose('kind', ['definite', 'any', 'semidefinite', 'integers', 'negative', 'almost', 'zero', 'scaled'])
    A = w.rng.randn(n, n)
    if kind == 'definite':
        M = A @ A.T + np.eye(n) * w.rng.choice([1e-3, 1])
    elif kind == 'any':
        M = A + A.T
    elif kind == 'semidefinite':
        B = w.rng.randint(-3, 4, (n, max(n - 1, 1))).astype(float)
        M = B @ B.T
    elif kind == 'integers':
        B = w.rng.randint(-2, 3, (n, n))
        M = B @ B.T + (np.eye(n, dtype=int) if w.rng.rand() < .5 else 0)
    elif kind == 'negative':
        M = -(A @ A.T)
    elif kind == 'almost':
        v = w.rng.rand(n)
        M = np.outer(v, v) + np.eye(n) * w.rng.choice([1e-10, -1e-10, 1e-6])
    elif kind == 'zero':
        M = np.zeros((n, n))
    else:
        d = 10.0 ** w.rng.randint(-4, 5, n)
        M = (A @ A.T + np.eye(n)) * np.outer(d, d)
    M = M if kind == 'integers' else (M + M.T) / 2
    w.rec('M', M.tolist())
    return np, n, M


def pivots(M):
    """exact leading pivots of the factorisation, up to the first that is not positive"""
    from fractions import Fraction as F
    n = len(M)
    a = [[F(float(x)) for x in r] for r in M.tolist()]
    out = []
    for k in range(n):
        out.append(a[k][k])
        if a[k][k] <= 0:
            return out
        for i in range(k + 1, n):
            f = a[i][k] / a[k][k]
            for j in range(k, n):
                a[i][j] -= f * a[k][j]
    return out


@contract('P24', 'the test of generated matrices', trials=400, bounded='symmetric matrices of order up to 7', functions=FNS)
def test(w):
    np, n, M = sample(w)
    M0 = M.copy()
    info, R = w.fn(DP)(M)
    yes = w.fn(PD)(M)
    w.ensure('argument unchanged', np.array_equal(M, M0) and M.dtype == M0.dtype and R is not M)
    w.ensure('the test is that of the factorisation', bool(yes) == (info == 0))
    p = pivots(M0)
    scale = max(np.abs(M0).max(), 1e-300)
    ok = all(x > 0 for x in p)
    clear = abs(float(p[-1]) / scale) > 1e-9 if not ok else min(float(x) / float(M0[i, i]) for i, x in enumerate(p)) > 1e-9
    exact = all(x == int(x) for x in M0.ravel()) and (not ok and (M0[0, 0] <= 0 or len(p) == 1))
    if clear or exact:
        w.ensure('accepted exactly when there is a factor', bool(yes) == ok)
        if not ok:
            w.ensure('order of the first minor that is not positive', info == len(p))
    if yes:
        U = np.triu(R)
        w.ensure('positive diagonal', (np.diag(U) > 0).all())
        w.ensure('factor', np.allclose((U.T @ U) / scale, M0 / scale, rtol=1e-7, atol=1e-9))


@contract('P24', 'the repair of generated matrices', trials=300, bounded='symmetric matrices of order up to 7', functions=['optimization.py:nearest_pd'])
def repair(w):
    np, n, M = sample(w)
    M = M.astype(float)
    M0 = M.copy()
    N = w.fn(NEAR)(M)
    scale = max(np.abs(M0).max(), 1e-300)
    w.ensure('argument unchanged', np.array_equal(M, M0))
    w.ensure('symmetric', N.shape == (n, n) and np.array_equal(N, N.T))
    w.ensure('passes the test', bool(w.fn(PD)(N)))
    val, vec = np.linalg.eigh(M0)
    want = (vec * np.maximum(val, 0)) @ vec.T
    w.ensure('nearest positive semidefinite matrix', np.abs(N - want).max() <= 1e-7 * scale)


def tested(w, n):
    """in the proof the test is an uninterpreted answer and the repair an uninterpreted matrix; their arguments are recorded"""
    asked = w.spy(PD, lambda w, a: w.tm.bapp('passes', ()))
    given = w.spy(NEAR, lambda w, a: w.arr('repaired', (n, n), track=False))
    return asked, given, (lambda: w.holds(w.tm.bapp('passes', ())))


def exact_when_it_passes(w, G, n, exact, asked, given, passes):
    """G is a positive multiple of the exact matrix when that passes the test, else what the repair made of it"""
    G = G if callable(G) else (lambda A: lambda i, j: A[i, j])(G)

    def multiple(A):
        u, v = w.int('row of the matrix', 0), w.int('column of the matrix', 0)
        w.assume(w.And(w.lt(u, n), w.lt(v, n)))
        return next((f for f in (2, 1) if provable(w, A(u, v), f * exact(u, v))), 2)
    src = G if passes() else (lambda i, j: first(given[-1])[i, j])
    w.ensure('the test is asked', len(asked) > 0)
    f = multiple(src)
    w.forall_eq('matrix of the test', (n, n), lambda i, j: (first(asked[-1])[i, j], f * exact(i, j)))
    if passes():
        w.forall_eq('the exact matrix is used', (n, n), lambda i, j: (G(i, j), f * exact(i, j)))
    else:
        w.ensure('the repair is asked', len(given) > 0)
        w.forall_eq('matrix given to the repair', (n, n), lambda i, j: (first(given[-1])[i, j], f * exact(i, j)))
        w.forall_eq('the repaired matrix is used', (n, n), lambda i, j: (G(i, j), w.tm.app('repaired', (w.tm.lift(i), w.tm.lift(j)))))


def first(args):
    return list(args.values())[0]


def provable(w, a, b):
    from pydv import smt
    return smt.prove_eq(w.tm.lift(a), w.tm.lift(b), w.it.pc, w.it.facts)[0]


@contract('P24', 'the repaired matrix is symmetric and passes the test', trials=30, functions=['optimization.py:nearest_pd'])
def repaired(w):
    """Any square matrix, any outcome of the test and of the singular value decomposition; if the iteration ends"""
    n = w.int('n', 1, typ=5)
    M = w.arr('M', (n, n), -2, 2)
    if not w.symbolic:
        if w.choose('kind', ['symmetric', 'any']) == 'symmetric':
            M[:] = (M + M.T) / 2
            w.inputs = [(x, a, a.copy()) for x, a, _ in w.inputs]
        N = w.fn(NEAR)(M)
        w.ensure('symmetric', N.shape == (n, n) and w.np.allclose(N, N.T, rtol=0, atol=1e-12))
        w.ensure('passes the test', bool(w.fn(PD)(N)))
        return
    asked = []

    def ask(w, args):
        A = first(args)
        asked.append((A.snap(), w.tm.bapp('passes', (w.tm.const(len(asked)),))))
        return asked[-1][1]
    w.spy(PD, ask)
    u, v = w.int('u', 0), w.int('v', 0)
    w.assume(w.And(w.lt(u, n), w.lt(v, n)))
    fresh = lambda S, k: {'A': w.build((n, n), lambda i, j: w.tm.app('state', (w.tm.lift(i), w.tm.lift(j))))}
    inv = w.loopinv('repair', {'A': lambda x: hasattr(x, 'snap') and x.ndim == 2}, lambda S, k: [('symmetric', w.eq(S.A[u, v], S.A[v, u]))], None, fresh)
    N = w.fn(NEAR)(M)
    w.ensure_eq('rows', w.axlen(N, 0), n)
    w.ensure_eq('columns', w.axlen(N, 1), n)
    w.ensure_eq('symmetric', N[u, v], N[v, u])
    f, yes = asked[-1]
    w.ensure('the last answer of the test is yes', yes)
    w.ensure_arr('the matrix returned is the one tested', N, (n, n), lambda i, j: f(((0, w.tm.lift(i)), (0, w.tm.lift(j)))))


@contract('P24', 'quadratic programmes receive their exact matrix when it passes', trials=100, functions=['optimization.py:compute_l2_param_train'])
def programmes(w):
    if w.symbolic:
        K, D = w.int('K', 2), w.int('D', 1)
        TD = w.arr('TD', (D, K))
        asked, given, passes = tested(w, K)
        G = w.tuple(w.fn(OPT + 'compute_l2_param_train')(TD, w.classes(K, strings=True)), 3)[0]
        exact_when_it_passes(w, G, K, lambda i, j: w.sum(D, lambda d: TD[d, i] * TD[d, j]), asked, given, passes)
        return
    np = w.np
    K, n = int(w.rng.randint(2, 6)), int(w.rng.randint(1, 7))
    cl = list(range(K))
    TD = w.rng.dirichlet(np.ones(n), K).T
    if w.rng.rand() < .3:
        TD[:, -1] = TD[:, 0]
    w.rec('TD', TD.tolist())
    G = w.fn(OPT + 'compute_l2_param_train')(TD, cl)[0]
    exact = TD[:, :-1] - TD[:, -1:] if G.shape[0] == K - 1 else TD
    exact = exact.T @ exact
    w.ensure('shape', G.shape == exact.shape)
    factor = next((f for f in (1, 2) if np.allclose(G, f * exact, rtol=1e-9, atol=1e-12)), None)
    if min(np.linalg.eigvalsh(exact)) > 1e-9:
        w.ensure('exact matrix', factor is not None)
    w.ensure('accepted matrix', bool(w.fn(PD)(G)) and np.allclose(G, G.T, rtol=0, atol=1e-12))


@contract('P24', 'the energy programme receives its exact matrix when it passes', trials=100, functions=['optimization.py:compute_ed_param_train'])
def energy(w):
    if w.symbolic:
        from contracts import p08
        from pydv.models import programs
        K, n, m, cl, X, y, Xt = p08.setup(w)
        d, ds = p08.distance(w)
        L = w.tm.lift(K) - 1
        asked, given, passes = tested(w, L)
        q = w.new(p08.EN + 'EDX', distance=d)
        w.call(q, 'fit', X, y)
        w.call(q, 'predict', Xt)
        W, T = p08.energy(w, n, m, K, y, lambda i, j: ds(X, i, X, j), lambda i, t: ds(X, i, Xt, t))
        exact_when_it_passes(w, programs(w.it)[-1]['G'], L, lambda i, j: W(i, L) + W(j, L) - W(i, j) - W(L, L), asked, given, passes)
        return
    np = w.np
    K, d = int(w.rng.randint(2, 6)), int(w.rng.randint(1, 4))
    cl = list(range(K))
    S = {c: np.round(w.rng.randn(int(w.rng.randint(1, 6)), d) + c * w.rng.rand(), 3) for c in cl}
    if w.rng.rand() < .2:
        S[K - 1] = S[0].copy()
    sizes = np.array([[len(S[c])] for c in cl])
    w.rec('samples', {c: S[c].tolist() for c in cl})
    power = w.choose('distance', [1, 2, 'L1'])
    dist = (lambda a, b: np.abs(a[:, None, :] - b[None]).sum(axis=2)) if power == 'L1' else (lambda a, b: np.sqrt(((a[:, None, :] - b[None]) ** 2).sum(axis=2)) ** power)
    k, G, C, b = w.fn(OPT + 'compute_ed_param_train')(dist, S, cl, sizes)
    mean = np.array([[dist(S[i], S[j]).mean() for j in cl] for i in cl])
    w.ensure('mean distances', np.allclose(k, mean))
    exact = np.array([[2 * (mean[i, -1] + mean[j, -1] - mean[i, j] - mean[-1, -1]) for j in cl[:-1]] for i in cl[:-1]])
    if min(np.linalg.eigvalsh(exact)) > 1e-9:
        w.ensure('exact matrix', np.allclose(G, exact, rtol=1e-9, atol=1e-12))
    w.ensure('accepted matrix', bool(w.fn(PD)(G)) and np.allclose(G, G.T, rtol=0, atol=1e-12))


@contract('P24', 'every matrix with a Cholesky factor is accepted', trials=60, functions=FNS)
def complete(w):
    """M = R'R for an arbitrary upper triangular R with a positive diagonal: the test returns that R (any order)"""
    n = w.int('n', 1, typ=5)
    U = w.arr('R', (n, n), .2, 2) if not w.symbolic else w.arr('R', (n, n))
    R = w.build((n, n), lambda i, j: w.ite(w.le(i, j), U[i, j], 0))
    if w.symbolic:
        w.fact('R', lambda i, j: w.implies(w.eq(i, j), w.lt(0, U[i, j])))
    M = w.build((n, n), lambda i, j: w.ite(w.le(i, j), w.sum(i + 1, lambda l: U[l, i] * U[l, j]), w.sum(j + 1, lambda l: U[l, i] * U[l, j])))
    if w.symbolic:
        a, b = w.int('a', 0), w.int('b', 0)
        w.assume(w.And(w.lt(a, n), w.lt(b, n)))
        col = {}

        def outer(S, k):
            col['k'] = k
            return {'r': w.build((n, n), lambda i, j: w.ite(w.And(w.le(i, j), w.lt(j, k)), U[i, j], M[i, j]))}

        def inner(S, i_):
            k = col['k']
            return {'r': w.build((n, n), lambda i, j: w.ite(w.And(w.eq(j, k), w.lt(i, i_)), U[i, k], S.r[i, j])), 's': w.sum(i_, lambda l: U[l, k] * U[l, k])}
        def split(i):
            k = col['k']
            return [w.eq(w.sum(i + 1, lambda l: U[l, i] * U[l, k]), w.sum(i, lambda l: U[l, i] * U[l, k]) + U[i, i] * U[i, k])]
        o = w.loopinv('columns', {'r': ((n, n), lambda i, j: M[i, j])}, lambda S, k: [('factor so far', w.eq(S.r[a, b], w.ite(w.And(w.le(a, b), w.lt(b, k)), U[a, b], M[a, b])))], None, outer,
                      lambda *x: 'k' not in col)
        i = w.loopinv('rows', {'r': lambda v: hasattr(v, 'snap') and v.ndim == 2, 's': 0},
                      lambda S, i: [('column so far', w.eq(S.r[a, b], inner(col['entry'], i)['r'][a, b])), ('squares', w.eq(S.s, inner(col['entry'], i)['s']))],
                      lambda S, i: col.__setitem__('entry', S) or [] if i is w.tm.ZERO else split(i) + split(col['k']), inner, lambda *x: 'k' in col)
    info, F = w.fn(DP)(M)
    w.ensure_eq('accepted', info, 0)
    if w.symbolic:
        w.need(o)
        col.clear()
    w.ensure('accepted by the test', w.holds(w.fn(PD)(M)))
    w.ensure_arr('the factor', F, (n, n), lambda i, j: w.ite(w.le(i, j), U[i, j], M[i, j]))


@contract('P24', 'an accepted matrix has the factor returned', trials=60, functions=FNS)
def sound(w):
    """Any symmetric M: when the test accepts it, the upper triangle R it returns has a positive diagonal and R'R = M (any order).
    In the proof U names, entry by entry, the values the loops store (each entry of U is fixed once, when it is stored)"""
    n = w.int('n', 1, typ=4)
    A = w.arr('A', (n, n), 0, 2)
    f = lambda i, j: w.ite(w.le(i, j), A[i, j], A[j, i]) + w.ite(w.eq(i, j), n, 0)
    M = w.build((n, n), f)
    if w.symbolic:
        tm = w.tm
        U = lambda i, j: tm.app('U', (tm.lift(i), tm.lift(j)))
        G = lambda i, j, m: w.sum(m, lambda l: U(l, i) * U(l, j))
        a, b = w.int('a', 0), w.int('b', 0)
        w.assume(w.And(w.lt(a, n), w.lt(b, n)))
        col = {}

        def so_far(S, k):
            return [('entries', w.eq(S.r[a, b], w.ite(w.And(w.le(a, b), w.lt(b, k)), U(a, b), M[a, b]))),
                    ('products', w.implies(w.And(w.le(a, b), w.lt(b, k)), w.eq(G(a, b, a + 1), M[a, b]))),
                    ('positive diagonal', w.implies(w.lt(b, k), w.lt(0, U(b, b))))]

        def outer(S, k):
            col['k'] = k
            return {'r': w.build((n, n), lambda i, j: w.ite(w.And(w.le(i, j), w.lt(j, k)), U(i, j), M[i, j]))}

        def stored(S, k):                     # after the column before k: its diagonal entry is the one stored
            j = k - 1
            return [w.eq(S.r[j, j], U(j, j)), w.eq(G(j, j, k), G(j, j, j) + U(j, j) * U(j, j))] if 'k' in col and k is not col['k'] and k is not tm.ZERO else []

        def inner(S, i_):
            k = col['k']
            return {'r': w.build((n, n), lambda i, j: w.ite(w.And(w.eq(j, k), w.lt(i, i_)), U(i, k), S.r[i, j])), 's': G(k, k, i_)}

        def column(S, i):
            k = col['k']
            return [('column entries', w.eq(S.r[a, b], w.ite(w.And(w.eq(b, k), w.lt(a, i)), U(a, k), col['entry'].r[a, b]))), ('squares', w.eq(S.s, G(k, k, i))),
                    ('column products', w.implies(w.lt(a, i), w.eq(G(a, k, a + 1), M[a, k])))]

        def lemmas(S, i):
            k = col['k']
            if i is tm.ZERO:
                col['entry'] = S
                return []
            j = i - 1
            return [w.implies(w.lt(i, k), w.lt(0, U(i, i))), w.eq(G(i, k, i + 1), G(i, k, i) + U(i, i) * U(i, k)), w.eq(S.r[j, k], U(j, k)),
                    w.implies(w.lt(0, i), w.eq(G(k, k, i), G(k, k, j) + U(j, k) * U(j, k)))]
        o = w.loopinv('columns', {'r': ((n, n), lambda i, j: M[i, j])}, so_far, stored, outer, lambda *x: 'k' not in col)
        w.loopinv('rows', {'r': lambda v: hasattr(v, 'snap') and v.ndim == 2, 's': 0}, column, lemmas, inner, lambda *x: 'k' in col)
    info, F = w.fn(DP)(M)
    if w.symbolic:
        w.need(o)
    w.ensure_arr('argument unchanged', M, (n, n), f)
    if w.holds(w.eq(info, 0)):
        if w.symbolic:
            if w.holds(w.le(a, b)):
                w.ensure_eq('product', w.sum(a + 1, lambda l: F[l, a] * F[l, b]), M[a, b])
            w.ensure('positive diagonal', w.lt(0, F[b, b]))
        else:
            R = w.np.triu(F)
            w.ensure('product', w.np.allclose(R.T @ R, M, atol=1e-8))
            w.ensure('positive diagonal', (w.np.diag(R) > 0).all())
