"""P08: energy distance methods"""
from pydv.worlds import contract
from contracts.common import *

EN = B + 'multiclass.energy.'


def row(w, A, i):
    from pydv.npmodel import lam
    from pydv.arrays import Arr
    f = A.snap()
    return lam(Arr(A.axes[1:], lambda idx: f(((0, w.tm.lift(i)),) + idx), A.kind))


def distance(w):
    """any symmetric distance d(x, y) = delta(x, y) + delta(y, x), delta uninterpreted;
    -> (the function given to the class, d as the specification uses it on rows)"""
    if w.symbolic:
        from pydv.arrays import Arr
        from pydv.npmodel import lam
        tm = w.tm
        dl = lambda x, y: tm.app('delta', (x, y)) + tm.app('delta', (y, x))

        def rl(A, i):
            f = A.snap()
            return lam(Arr(A.axes[1:], lambda idx: f((i,) + idx), A.kind))

        def d(A, Bm=None, **k):
            Bm = A if Bm is None else Bm
            return Arr([A.axes[0], Bm.axes[0]], lambda i: dl(rl(A, i[0]), rl(Bm, i[1])), 'num')
        return d, lambda A, i, Bm, j: dl(row(w, A, i), row(w, Bm, j))
    from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances
    d = w.choose('distance', [manhattan_distances, euclidean_distances, 'custom', None])
    np = w.np

    def custom(A, Bm=None):
        Bm = A if Bm is None else Bm
        return np.array([[np.max(np.abs(a - b)) for b in np.asarray(Bm)] for a in np.asarray(A)]).reshape(len(A), len(Bm))
    if d == 'custom':
        d = custom
    return d, None


def energy(w, n, m, K, y, within, cross):
    """p -> energy distance between the mixture and the test bag, up to the term within the test bag"""
    c = lambda k: w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)))
    W = lambda a, b: w.sum(n, lambda i: w.sum(n, lambda j: w.ind(w.eq(w.li(y, i), a)) * w.ind(w.eq(w.li(y, j), b)) * within(i, j))) / (c(a) * c(b))
    T = lambda a: w.sum(n, lambda i: w.sum(m, lambda t: w.ind(w.eq(w.li(y, i), a)) * cross(i, t))) / (c(a) * m)
    return W, T


def decide(w, K, n, m, y, r, within, cross, spy, known=None):
    W, T = energy(w, n, m, K, y, within, cross)
    if w.symbolic:
        tm = w.tm
        from pydv.models import programs, subst_apps
        ps = programs(w.it)
        w.ensure('a programme is solved', len(ps) > 0)
        P = ps[-1]
        L = w.tm.lift(K) - 1
        w.ensure_eq('one variable less than classes', P['dim'], L)
        w.ensure('feasible set: non-negative, sum at most one', P['set'] == 'subsimplex')
        x = lambda i: tm.app('qpvar', (tm.lift(i),))
        sol = lambda i: tm.app(P['sol'], (tm.lift(i),))
        w.ensure_eq('result: length', w.axlen(r, 0), K)
        w.forall_eq('result: the solution, completed', (L,), lambda i: (r[i], sol(i)))
        w.ensure_eq('result: last entry', r[L], 1 - w.sum(L, sol))
        # e(p) with p = (x, 1 - sum x), the within-class averages named D, the cross averages named A
        Bq = lambda i, j: W(i, L) + W(j, L) - W(i, j) - W(L, L)
        a = lambda i: 2 * (T(L) - T(i) + W(i, L) - W(L, L))
        w.forall_eq('linear term', (L,), lambda i: (P['a'][i], a(i)))
        if w.holds(tm.bapp('is_pd', ())):
            w.forall_eq('quadratic term', (L, L), lambda i, j: (P['G'][i, j], 2 * Bq(i, j)))
        else:
            G0 = spy[-1]['A']
            w.forall_eq('matrix given to the repair', (L, L), lambda i, j: (G0[i, j], 2 * Bq(i, j)))
            w.forall_eq('repaired matrix used', (L, L), lambda i, j: (P['G'][i, j], tm.app('Gpd', (tm.lift(i), tm.lift(j)))))
        return
    np = w.np
    Wm = np.array([[W(a, b) for b in range(K)] for a in range(K)])
    Tv = np.array([T(a) for a in range(K)])
    e = lambda p: 2 * p @ Tv - p @ Wm @ p
    is_prevalence(w, 'result', r, K, tol=1e-6)
    best = best_value(np, e, K, [r], w.rng)
    w.ensure('energy distance not improvable', e(np.asarray(r)) <= best + 1e-3 * max(1.0, abs(Wm).max()))


def spies(w):
    if not w.symbolic:
        return []
    w.spy(OPT + 'is_pd', lambda w, a: w.tm.bapp('is_pd', ()))
    return w.spy(OPT + 'nearest_pd', lambda w, a: w.arr('Gpd', (w.axlen(a['A'], 0), w.axlen(a['A'], 0)), track=False))


def mat_dist(w, d):
    """distance of single rows, concrete"""
    np = w.np
    return lambda A, i, Bm, j: float(np.sum(d(np.asarray(A)[i:i + 1], np.asarray(Bm)[j:j + 1])))


@contract('P08', 'energy programme is the energy distance', functions=[])
def algebra(w):
    """lemma: for symmetric W, the programme of the contracts below equals the energy distance of p = (x, 1 - sum x) up to a constant"""
    if not w.symbolic:
        return
    tm = w.tm
    L = w.int('L', 1)
    s = lambda i, j: tm.app('sW', (tm.lift(i), tm.lift(j)))
    W = lambda i, j: s(i, j) + s(j, i)
    T = lambda i: tm.app('sT', (tm.lift(i),))
    x = lambda i: tm.app('qpvar', (tm.lift(i),))
    S = w.sum(L, x)
    p = lambda f: w.sum(L, lambda i: x(i) * f(i)) + (1 - S) * f(L)
    e = 2 * p(T) - p(lambda i: p(lambda j: W(i, j)))
    G = lambda i, j: 2 * (W(i, L) + W(j, L) - W(i, j) - W(L, L))
    a = lambda i: 2 * (T(L) - T(i) + W(i, L) - W(L, L))
    obj = w.sum(L, lambda i: w.sum(L, lambda j: x(i) * G(i, j) * x(j))) / 2 - w.sum(L, lambda i: a(i) * x(i))
    w.ensure_eq('objective = energy distance up to a constant', e - (2 * T(L) - W(L, L)), obj)


def setup(w):
    K = w.nclasses('K', typ=2)
    n = w.int('n', K, typ=10)
    m = w.int('m', 1, typ=8)
    cl = w.classes(K, strings=True)
    return K, n, m, cl, w.mat('X', n, 2), w.labels('y', n, cl), w.mat('Xt', m, 2)


@contract('P08', 'EDX', trials=30)
def edx(w):
    K, n, m, cl, X, y, Xt = setup(w)
    d, ds = distance(w)
    spy = spies(w)
    q = w.new(EN + 'EDX') if d is None else w.new(EN + 'EDX', distance=d)
    if d is None:
        from sklearn.metrics.pairwise import euclidean_distances as d
    ds = ds or mat_dist(w, d)
    w.call(q, 'fit', X, y)
    if w.choose('history', ['direct', 'another bag before']) != 'direct':
        w.call(q, 'predict', w.mat('Xo', w.int('mo', 1, typ=5), 2))
    r = w.call(q, 'predict', Xt)
    decide(w, K, n, m, y, r, lambda i, j: ds(X, i, X, j), lambda i, t: ds(X, i, Xt, t), spy)


@contract('P08', 'EDy', trials=30)
def edy(w):
    K, n, m, cl, X, y, Xt = setup(w)
    d, ds = distance(w)
    spy = spies(w)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    P, Pt = w.stoch('P', n * r, K), w.stoch('Pt', m, K)
    q = w.new(EN + 'EDy') if d is None else w.new(EN + 'EDy', distance=d)
    if d is None:
        from sklearn.metrics.pairwise import manhattan_distances as d
    ds = ds or mat_dist(w, d)
    w.call(q, 'fit', X, y, P)
    res = w.call(q, 'predict', Xt, Pt)
    yy = Repeated(w, y, n, r)
    decide(w, K, n * r, m, yy, res, lambda i, j: ds(P, i, P, j), lambda i, t: ds(P, i, Pt, t), spy)


class Repeated:
    """labels of the training predictions: the label vector r times"""

    def __init__(self, w, y, n, r):
        self.y, self.n, self.w = y, n, w
        self.meta = {'ci': lambda i: y.meta['ci'](w.tm.lift(i) if r == 1 else w.mod(i, n))} if w.symbolic else None
        if not w.symbolic:
            w.meta[id(self)] = [w.li(y, i % n) for i in range(n * r)]


@contract('P08', 'CvMy', trials=30)
def cvmy(w):
    K, n, m, cl, X, y, Xt = setup(w)
    d, ds = distance(w)
    spy = spies(w)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    N = n * r
    P, Pt = (w.mat('P', N, K), w.mat('Pt', m, K)) if w.symbolic else (w.stoch('P', N, K), w.stoch('Pt', m, K))     # any matrices of predictions
    q = w.new(EN + 'CvMy') if d is None else w.new(EN + 'CvMy', distance=d)
    if d is None:
        from sklearn.metrics.pairwise import manhattan_distances as d
    ds = ds or mat_dist(w, d)
    w.call(q, 'fit', X, y, P)
    if w.choose('history', ['direct', 'another bag before']) != 'direct':
        mo = w.int('mo', 1, typ=5)
        w.call(q, 'predict', w.mat('Xo', mo, 2), w.stoch('Po', mo, K))
    res = w.call(q, 'predict', Xt, Pt)

    def rank(v, k):     # average rank among all predictions of column k
        f = lambda u: w.ind(w.lt(u, v)) + w.ind(w.eq(u, v)) / 2
        return w.sum(N, lambda i: f(P[i, k])) + w.sum(m, lambda t: f(Pt[t, k])) + 0.5
    if w.symbolic:
        from pydv.arrays import Arr
        from pydv.npmodel import lam
        pf, tf = P.snap(), Pt.snap()

        def Rk(v, k):       # rankdata (external) over the union of the column
            k = (0, w.tm.lift(k))
            u = w.it.np.concat([Arr([P.axes[0]], lambda i: pf((i[0], k)), 'num'), Arr([Pt.axes[0]], lambda i: tf((i[0], k)), 'num')])
            return w.tm.app('rank', (lam(u), v))
        A = w.build((N, K), lambda i, k: Rk(P[i, k], k))
        Bm = w.build((m, K), lambda t, k: Rk(Pt[t, k], k))
    else:
        A = w.build((N, K), lambda i, k: rank(P[i, k], k))
        Bm = w.build((m, K), lambda t, k: rank(Pt[t, k], k))
    yy = Repeated(w, y, n, r)
    decide(w, K, N, m, yy, res, lambda i, j: ds(A, i, A, j), lambda i, t: ds(A, i, Bm, t), spy)
