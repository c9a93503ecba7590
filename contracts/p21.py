"""P21: ordinal matching methods"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p05 import minimiser

ACO = B + 'ordinal.ac_ordinal.ACOrdinal'
PDF = B + 'ordinal.pdf.PDFOrdinaly'


def spies(w): return {s: spy_solve(w, s) for s in ('solve_hd', 'solve_l1', 'solve_l2')}


@contract('P21', 'ACOrdinal.fit', trials=60)
def aco_fit(w):
    K = w.int('K', 2, typ=4)
    n = w.int('n', K, typ=12)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.labels('P', n * r, cl, cover=False)
    q = w.new(ACO)
    w.call(q, 'fit', X, y, P)
    M = w.attr(q, 'train_distrib_')
    yi = lambda t: w.li(y, w.mod(t, n)) if not isinstance(r, int) or r != 1 else w.li(y, t)
    rate = lambda i, k: w.sum(n * r, lambda t: w.ind(w.eq(yi(t), k)) * w.ind(w.eq(w.li(P, t), i))) / (class_count(w, y, n, k) * r)
    w.ensure_arr('cumulative rates: predicted at most i, among class k', M, (K, K), lambda i, k: w.sum(i + 1, lambda a: rate(a, k)))
    w.ensure('no problem of an earlier fit', w.attr(q, 'problem_') is None)


@contract('P21', 'ACOrdinal.predict', trials=60)
def aco_predict(w):
    K = w.int('K', 2, typ=4)
    m = w.int('m', 1, typ=12)
    cl = w.classes(K, strings=True)
    src = w.choose('source', ['given', 'estimator'])
    est = w.estimator('est', cl)
    sp = spies(w)
    q = w.new(ACO)
    if w.symbolic:
        train = w.mat('train', K, K, 0, 1)
        for a, v in dict(classes_=cl, train_distrib_=train, problem_=None).items():
            w.setattr(q, a, v)
    else:
        n = w.int('n', K, typ=12)
        y = w.labels('y', n, cl)
        w.call(q, 'fit', w.mat('X', n, 2), y, w.labels('P', n, cl, cover=False))
        train = w.np.array(w.attr(q, 'train_distrib_'))
    if src == 'given':
        Pt = w.labels('Pt', m, cl, cover=False)
        pi = lambda t: w.li(Pt, t)
        r = w.call(q, 'predict', None, Pt)
    else:
        Xt = w.mat('Xt', m, 2)
        w.setattr(q, 'estimator_test', est)
        pi = lambda t: est.ci(Xt, t)
        r = w.call(q, 'predict', Xt)
    tv = w.flat(w.attr(q, 'test_distrib_'))
    w.ensure_eq('rows of the test distribution', w.axlen(tv, 0), K)
    w.forall_eq('proportion predicted at most k', (K,), lambda k: (tv[k], w.sum(k + 1, lambda a: w.sum(m, lambda t: w.ind(w.eq(pi(t), a)))) / m))
    minimiser(w, sp, 'L1', K, q, train, w.attr(q, 'test_distrib_'), r, {})
    if not w.symbolic:
        w.ensure('class distributions not modified', w.np.array_equal(train, w.attr(q, 'train_distrib_')))


def score(w, method, K, p):
    """p(t, k) posterior of example t; its ordinal score"""
    if method == 'full_probabilistic':
        return lambda t: w.sum(K, lambda k: (k + 1) * p(t, k))

    def path(t):        # the node of the decision path: the first of its two classes
        f = w.argmaxof(K, lambda k: w.ind(w.lt(0, p(t, k))))
        node = w.min(f, K - 2)
        if not w.symbolic:
            node = int(node)
        return node + 1 + p(t, node + 1)
    return path


def in_bin(w, s, b, nb, N):
    """score s >= 1 in bin b: nb equal bins per rank interval, the last one closed"""
    z = (s - 1) * nb
    return w.And(w.le(b, z), w.Or(w.lt(z, b + 1), w.And(w.eq(b, N - 1), w.eq(z, N))))


def setup(w):
    K = w.int('K', 3, typ=3)
    nb = w.int('n_bins', 2, typ=5)
    cl = w.classes(K, strings=True)
    dist = w.choose('distance', ['HD', 'L2', 'EMD'])
    method = w.choose('method', ['full_probabilistic', 'winner_node'])
    return K, nb, cl, dist, method


def paths(w, name, n, K, method):
    """posteriors; for the winner-node method at most two consecutive classes"""
    P = w.stoch(name, n, K)
    if not w.symbolic and method == 'winner_node':
        for t in range(n):
            j = w.rng.randint(K - 1)
            v = w.rng.choice([0, 1, w.rng.rand(), w.rng.rand()])
            P[t] = 0
            P[t, j], P[t, j + 1] = v, 1 - v
    elif not w.symbolic:
        P[:] = w.np.round(P * 16) / 16      # exactly representable scores
        P[:, -1] = 1 - P[:, :-1].sum(axis=1)
        for t in range(n):
            if P[t, -1] < 0 or w.rng.rand() < .3:
                P[t] = 0
                P[t, w.rng.randint(K)] = 1
    if not w.symbolic:
        w.inputs = [(a, b, b.copy() if b is P else c) for a, b, c in w.inputs]
    return P


def exact_bins(w, s, nb):
    """no score within rounding error of an inner edge it is not exactly on"""
    if not w.symbolic:
        for v in s:
            z = (v - 1) * nb
            w.assume(abs(z - round(z)) > 1e-9 or nb in (1, 2, 4) and z == round(z))


@contract('P21', 'PDFOrdinaly.fit', trials=80)
def pdf_fit(w):
    K, nb, cl, dist, method = setup(w)
    n = w.int('n', K, typ=12)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = paths(w, 'P', n * r, K, method)
    sc = score(w, method, K, lambda t, k: P[t, k])
    if not w.symbolic:
        exact_bins(w, [sc(t) for t in range(n * r)], nb)
    spy2 = spy_l2(w)
    q = w.new(PDF, n_bins=nb, distance=dist, method=method)
    w.call(q, 'fit', X, y, P)
    M = w.attr(q, 'train_distrib_')
    N = nb * (K - 1)
    yi = lambda t: w.li(y, w.mod(t, n)) if not isinstance(r, int) or r != 1 else w.li(y, t)
    f = lambda b, k: w.sum(n * r, lambda t: w.ind(w.eq(yi(t), k)) * w.ind(in_bin(w, sc(t), b, nb, N))) / (class_count(w, y, n, k) * r)
    w.ensure_arr('histogram of the scores of each class', M, (N, K),
                 (lambda b, k: w.sum(b + 1, lambda c: f(c, k))) if dist == 'EMD' else f)
    w.ensure('no problem of an earlier fit', w.attr(q, 'problem_') is None)
    if w.symbolic:
        w.ensure('L2 parameters exactly when the distance is L2', len(spy2) == (1 if dist == 'L2' else 0))
        if len(spy2):
            w.ensure_same('L2 parameters of these class distributions', spy2[0]['train_distrib'], M)


@contract('P21', 'PDFOrdinaly.predict', trials=80)
def pdf_predict(w):
    K, nb, cl, dist, method = setup(w)
    m = w.int('m', 1, typ=12)
    N = nb * (K - 1)
    sp = spies(w)
    q = w.new(PDF, n_bins=nb, distance=dist, method=method)
    opq = {}
    if w.symbolic:
        train = w.mat('train', N, K, 0, 1)
        opq = {'G_': w.opaque('G!', (K, K)), 'C_': w.opaque('C!', (K, K + 1)), 'b_': w.opaque('b!', (K + 1,))}
        for a, v in dict(opq, classes_=cl, train_distrib_=train, problem_=None).items():
            w.setattr(q, a, v)
    else:
        n = w.int('n', K, typ=12)
        y = w.labels('y', n, cl)
        w.call(q, 'fit', w.mat('X', n, 2), y, paths(w, 'P', n, K, method))
        train = w.np.array(w.attr(q, 'train_distrib_'))
    Pt = paths(w, 'Pt', m, K, method)
    sc = score(w, method, K, lambda t, k: Pt[t, k])
    if not w.symbolic:
        exact_bins(w, [sc(t) for t in range(m)], nb)
    r = w.call(q, 'predict', None, Pt)
    tv = w.flat(w.attr(q, 'test_distrib_'))
    f = lambda b: w.sum(m, lambda t: w.ind(in_bin(w, sc(t), b, nb, N))) / m
    w.ensure_eq('rows of the test distribution', w.axlen(tv, 0), N)
    w.forall_eq('histogram of the test scores', (N,), lambda b: (tv[b], w.sum(b + 1, f) if dist == 'EMD' else f(b)))
    is_prevalence(w, 'prediction', r, K, 1e-5)
    if dist != 'EMD' or not w.symbolic:
        minimiser(w, sp, 'L1' if dist == 'EMD' else dist, K, q, train, w.attr(q, 'test_distrib_'), r, opq)
    else:       # the last row (always one) is left out
        calls = {s: v for s, v in sp.items() if len(v)}
        w.ensure('L1 minimised, once', set(calls) == {'solve_l1'} and len(calls['solve_l1']) == 1)
        a = calls['solve_l1'][0]
        w.ensure_arr('class distributions without the last row', a['train_distrib'], (N - 1, K), lambda b, k: train[b, k])
        t2 = w.flat(a['test_distrib'])
        w.ensure_arr('test distribution without the last row', t2, (N - 1,), lambda b: tv[b])
        w.ensure('problem of this fit', a['problem'] is None)
        w.ensure('problem kept for the next bag', w.attr(q, 'problem_') == 'problem!')
        w.ensure_arr('result is the minimiser', r, (K,), lambda k: w.tm.app('solve_l1!', (k,)))
    if not w.symbolic:
        w.ensure('class distributions not modified', w.np.array_equal(train, w.attr(q, 'train_distrib_')))


@contract('P21', 'rejections', trials=30)
def rejections(w):
    n = w.int('n', 3, typ=8)
    X = w.mat('X', n, 2)
    c2, c3 = w.classes(2), w.classes(3)
    y2, P2 = w.labels('y2', n, c2), w.stoch('P2', n, 2)
    y3, P3 = w.labels('y3', n, c3), w.stoch('P3', n, 3)
    w.ensure('fewer than three classes rejected', w.raises(lambda: w.call(w.new(PDF), 'fit', X, y2, P2), 'TypeError'))
    w.ensure('unknown method rejected', w.raises(lambda: w.call(w.new(PDF, method='other'), 'fit', X, y3, P3), 'ValueError'))
