"""P05: distribution matching with histograms"""
from pydv.worlds import contract
from contracts.common import *

DF = B + 'multiclass.df.'


def edges_spec(w):
    """modular contract of compute_bincuts (verified in P06): proper edges, one array per column given"""
    def res(w, a):
        from pydv import npmodel
        from pydv.arrays import Arr, axis
        from pydv.npmodel import lam
        tm = w.tm
        npmodel.PROPER_EDGES.add('cut!')
        col = lam(a['x'])
        return Arr([axis(tm.lift(a['n_bins']) + 1)], lambda idx: tm.app('cut!', (col, idx[0][1])), 'num')
    return w.spy(DF + 'compute_bincuts', res)


def in_bin(w, nb, col, x, b):
    """indicator: x falls in bin b of the edges computed from column col"""
    from pydv.arrays import Arr, axis
    from pydv.npmodel import lam
    tm = w.tm
    e = lam(Arr([axis(tm.lift(nb) + 1)], lambda idx: tm.app('cut!', (lam(col), idx[0][1])), 'num'))
    return w.ind(w.eq(tm.app('binof', (e, x), True), b))


def column(w, P, d):
    from pydv.arrays import Arr
    f = P.snap()
    return Arr([P.axes[0]], lambda i: f((i[0], (0, w.tm.lift(d)))), 'num')


def np_hist(w, x, edges):
    np = w.np
    idx = np.clip(np.searchsorted(np.asarray(edges)[1:-1], x, side='right'), 0, len(edges) - 2)
    return np.bincount(idx, minlength=len(edges) - 1) / len(x)


def cum(w, cumulative, nb, f, whole):
    """f(d, b) the plain histogram of descriptor d; the representation at (d, b)"""
    if not cumulative:
        return f
    if whole:       # running sum over all descriptors
        return lambda d, b: w.sum(d, lambda e: w.sum(nb, lambda t: f(e, t))) + w.sum(b + 1, lambda t: f(d, t))
    return lambda d, b: w.sum(b + 1, lambda t: f(d, t))


def dfy(w, prob, K, how):
    """fit and predict of DFy and subclasses"""
    nb = w.int('n_bins', 2, typ=8)
    strat = 'any strategy' if w.symbolic else w.choose('strategy', ['equal_width', 'equal_count', 'normal'] + (['binormal'] if two(K) else []))
    n = w.int('n', K, typ=12)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    cumulative = w.choose('distribution_function', ['PDF', 'CDF'])
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    which = w.choose('class', ['DFy', 'HDy', 'MMy'])
    kw = {}
    if which == 'DFy':
        kw = dict(distribution_function=cumulative, distance=dist)
    else:
        cumulative, dist = ('PDF', 'HD') if which == 'HDy' else ('CDF', 'L1')
    cumulative = cumulative == 'CDF'
    if not w.symbolic:
        w.assume(strat != 'equal_count' or nb <= n)
    return nb, strat, n, cl, X, y, cumulative, dist, which, kw


@contract('P05', 'DFy/HDy/MMy.fit', trials=50)
def dfy_fit(w):
    K = w.nclasses('K', typ=3)
    nb, strat, n, cl, X, y, cumulative, dist, which, kw = dfy(w, True, K, 'fit')
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    P = w.stoch('P', n * r, K)
    N = n * r
    spy2, spyb = spy_l2(w), edges_spec(w)
    q = w.new(DF + which, n_bins=nb, bin_strategy=strat, **kw)
    w.call(q, 'fit', X, y, P)
    D = 1 if two(K) else K
    yi = lambda t: w.li(y, w.mod(t, n)) if not isinstance(r, int) or r != 1 else w.li(y, t)
    M = w.attr(q, 'train_distrib_')
    if w.symbolic:
        f = lambda d, b, k: w.sum(N, lambda t: w.ind(w.eq(yi(t), k)) * in_bin(w, nb, column(w, P, d), P[t, d], b)) / (class_count(w, y, n, k) * r)
    else:
        np = w.np
        ye = np.tile(y, r)
        cuts = [np.asarray(w.fn(DF + 'compute_bincuts')(x=P[:, d], y=ye, classes=cl, n_bins=nb, bin_strategy=strat, att_range=[0, 1])) for d in range(D)]
        H = [[np_hist(w, P[ye == cl[k], d], cuts[d]) for k in range(K)] for d in range(D)]
        f = lambda d, b, k: H[d][k][b]
    w.forall_eq('class distribution', (D, nb, K), lambda d, b, k: (M[d * nb + b, k], cum(w, cumulative, nb, lambda d, b: f(d, b, k), True)(d, b)))
    w.ensure_eq('rows', w.axlen(M, 0), nb * D)
    w.ensure_eq('columns', w.axlen(M, 1), K)
    if w.symbolic:
        w.ensure('L2 parameters exactly when the distance is L2', len(spy2) == (1 if dist == 'L2' else 0))
        if len(spy2):
            w.ensure_same('L2 parameters of these class distributions', spy2[0]['train_distrib'], M)
        for a in spyb:
            w.ensure('strategy and number of bins passed on', a['bin_strategy'] == strat and a['n_bins'] is nb)
            w.ensure_eq('labels aligned with the predictions they describe', w.axlen(a['y'], 0), w.axlen(a['x'], 0))
        w.ensure('no problem nor mixtures of an earlier fit', w.attr(q, 'problem_') is None and w.attr(q, 'mixtures_') is None)


def fitted_df(w, qual, K, cl, dist, cumulative, nb, train, **kw):
    q = w.new(qual, **kw)
    for a, v in (('classes_', cl), ('train_distrib_', train), ('problem_', None), ('mixtures_', None)):
        w.setattr(q, a, v)
    return q


def minimiser(w, spies, dist, K, q, train, test, r, opq):
    """the prediction minimises the configured distance between mixture and test distribution"""
    if not w.symbolic:
        is_prevalence(w, 'prediction', r, K, 1e-5)
        optimal(w, w.np.asarray(w.attr(q, 'train_distrib_')), w.np.ravel(w.attr(q, 'test_distrib_')), r, dist)
        return
    want = {'HD': 'solve_hd', 'L1': 'solve_l1', 'L2': 'solve_l2'}[dist]
    calls = {s: v for s, v in spies.items() if len(v)}
    w.ensure('the configured distance is minimised, once', set(calls) == {want} and len(calls[want]) == 1)
    a = calls[want][0]
    w.ensure_same('class distributions of the fit', a['train_distrib'], train)
    w.ensure_same('test distribution of this bag', w.attr(q, 'test_distrib_'), a['test_distrib'])
    if want == 'solve_l2':
        w.ensure('quadratic programme of the fit', a['G'] is opq['G_'] and a['C'] is opq['C_'] and a['b'] is opq['b_'])
    else:
        w.ensure('problem of this fit', a['problem'] is None)
        w.ensure_eq('number of classes', a['n_classes'], K)
        w.ensure('problem kept for the next bag', w.attr(q, 'problem_') == 'problem!')
    w.ensure_arr('result is the minimiser', r, (K,), lambda k: w.tm.app(want + '!', (k,)))


@contract('P05', 'DFy/HDy/MMy.predict', trials=40)
def dfy_predict(w):
    K = w.nclasses('K', typ=3)
    m = w.int('m', 1, typ=12)
    D = 1 if two(K) else K
    src = w.choose('source', ['given', 'estimator'])
    nb, strat, n, cl, X, y, cumulative, dist, which, kw = dfy(w, True, K, 'predict')
    est = w.estimator('est', cl)
    spies = {s: spy_solve(w, s) for s in ('solve_hd', 'solve_l1', 'solve_l2')}
    q = w.new(DF + which, n_bins=nb, bin_strategy=strat, **kw)
    opq = {}
    if w.symbolic:
        from pydv import npmodel
        npmodel.PROPER_EDGES.add('edges!')
        train = w.mat('train', nb * D, K, 0, 1)
        edges = w.arr('edges!', (D, nb + 1), track=False)
        opq = {'G_': w.opaque('G!', (K, K)), 'C_': w.opaque('C!', (K, K + 1)), 'b_': w.opaque('b!', (K + 1,))}
        for a, v in dict(opq, classes_=cl, train_distrib_=train, bincuts_=edges, problem_=None, mixtures_=None).items():
            w.setattr(q, a, v)
    else:
        w.call(q, 'fit', X, y, w.stoch('P', n, K))
        train = w.np.array(w.attr(q, 'train_distrib_'))
        edges = w.np.array(w.attr(q, 'bincuts_'))
    if src == 'given':
        Pt = w.stoch('Pt', m, K)
        pr = lambda t, d: Pt[t, d]
        r = w.call(q, 'predict', None, Pt)
    else:
        Xt = w.mat('Xt', m, 2)
        w.setattr(q, 'estimator_test', est)
        pr = lambda t, d: est.p(Xt, t, d)
        r = w.call(q, 'predict', Xt)
    if w.symbolic:
        f = lambda d, b: w.sum(m, lambda t: w.ind(bin_of(w, edges, d, pr(t, d), b))) / m
    else:
        H = [np_hist(w, w.np.array([pr(t, d) for t in range(m)]), edges[d]) for d in range(D)]
        f = lambda d, b: H[d][b]
    test = cum(w, cumulative, nb, f, True)
    tv = w.flat(w.attr(q, 'test_distrib_'))
    w.ensure_eq('rows of the test distribution', w.axlen(tv, 0), nb * D)
    w.forall_eq('proportion of test examples per bin', (D, nb), lambda d, b: (tv[d * nb + b], test(d, b)))
    minimiser(w, spies, dist, K, q, train, test, r, opq)
    if not w.symbolic:
        w.ensure('class distributions not modified', w.np.array_equal(train, w.attr(q, 'train_distrib_')))


def bin_of(w, edges, d, x, b):
    from pydv.arrays import Arr
    from pydv.npmodel import lam
    tm = w.tm
    f = edges.snap()
    row = Arr([edges.axes[1]], lambda i: f(((0, tm.lift(d)), i[0])), 'num')
    return w.eq(tm.app('binof', (lam(row), x), True), b)


def user_loss(w):
    np = w.np
    return w.choose('user distance', [lambda a, b: float(np.sum((np.ravel(a) - np.ravel(b)) ** 2)), lambda a, b: float(np.sum(np.abs(np.ravel(a) - np.ravel(b)))),
                                      lambda a, b: float(np.sqrt(np.sum((np.sqrt(np.ravel(a)) - np.sqrt(np.ravel(b))) ** 2)))])


def user_try(w, q, f, loss):
    np = w.np
    try:
        r = f()
    except ValueError as e:
        if 'infinite minima' not in str(e):
            raise
        tr, te = np.asarray(w.attr(q, 'train_distrib_')), np.asarray(w.attr(q, 'test_distrib_'))
        w.ensure('only a flat loss is rejected', np.ptp([loss(tr[:, 1:2] * p + tr[:, 0:1] * (1 - p), te) for p in np.arange(101) / 100]) < 1e-9)
        return
    user_min(w, q, r, loss)


def user_min(w, q, r, loss):
    """two-class search with a user distance: as good as a fine grid"""
    np = w.np
    tr, te = np.asarray(w.attr(q, 'train_distrib_')), np.asarray(w.attr(q, 'test_distrib_'))
    f = lambda p: loss(tr[:, 1:2] * p + tr[:, 0:1] * (1 - p), te)
    is_prevalence(w, 'prediction', r, 2)
    near = min(f(min(max(r[1] + d, 0), 1)) for d in (-3e-5, -1e-5, 0, 1e-5, 3e-5))      # the search stops when its bracket is below 1e-5
    w.ensure('user distance minimised', near <= min(f(p) for p in np.linspace(0, 1, 401)) + 1e-4)


def user_sym(w, q, fit, predict, test_of=None):
    """the search (P09) receives the user's distance, the mixtures of the class distributions and the distribution of the bag,
    and its answer is the estimate; mixtures kept from an earlier bag are those of the same class distributions"""
    calls = []
    preds = []

    def search(w_, a):
        calls.append(a)
        preds.append(simplex_result(w, 'pred%d!' % len(calls), 2))
        return ('mixtures %d' % len(calls), preds[-1])
    w.spy(B + 'search.global_search', search)
    loss = w.attr(q, 'distance')
    w.call(q, 'fit', *fit)
    M = w.attr(q, 'train_distrib_')
    f = M.snap()
    p = w.real('any prevalence', 0, 1)
    for i, bag in enumerate(predict):
        r = w.call(q, 'predict', *bag)
        w.ensure('one search per bag', len(calls) == i + 1)
        a = calls[i]
        w.ensure("the user's distance", a['distance_func'] is loss)
        w.ensure('tolerance of the quantifier', a['tol'] is w.attr(q, 'tol'))
        w.ensure('mixtures: none, or those of the class distributions', a['mixtures'] is None or i > 0 and a['mixtures'] == 'mixtures 1' and a['return_mixtures'] is True)
        w.ensure_same('distribution of the bag', a['test_distrib'], w.attr(q, 'test_distrib_'))
        if test_of:
            test_of(i, a['test_distrib'])
        mix = w.it.call(a['mixture_func'], [], dict(a['kwargs'], prevalence=p))
        nr = w.axlen(M, 0)
        w.ensure_eq('one entry per feature', w.axlen(mix, 0), nr)
        at = (lambda b: mix[b, 0]) if mix.ndim == 2 else (lambda b: mix[b])
        w.forall_eq('mixtures of the class distributions', (nr,), lambda b: (at(b), p * M[b, 1] + (1 - p) * M[b, 0]))
        w.ensure_arr('the estimate is the answer of the search', r, (2,), lambda k: preds[i][k])
    w.ensure_arr('class distributions not modified', M, (w.axlen(M, 0), 2), lambda b, k: w.tm.lift(f(((0, w.tm.lift(b)), (0, w.tm.lift(k))))))


@contract('P05', 'user distance', trials=40)
def user_distance(w):
    which = w.choose('class', ['DFy', 'DFX'])
    n, m, nb = w.int('n', 6, typ=20), w.int('m', 1, typ=20), w.int('n_bins', 2, typ=6)
    cl = w.classes(2, strings=True)
    loss = (lambda a, b: None) if w.symbolic else user_loss(w)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    kw = dict(distance=loss, n_bins=nb, distribution_function=w.choose('distribution_function', ['PDF', 'CDF']))
    q = w.new(DF + which, **kw)
    bags = [w.stoch('Pt%d' % i, m, 2) if which == 'DFy' else w.mat('Xt%d' % i, m, 2) for i in range(2)]
    if w.symbolic:
        edges_spec(w)
        D = 1 if which == 'DFy' else 2

        def test_of(i, t):
            tv, V = w.flat(t), bags[i]
            W = train[2] if which == 'DFy' else X
            h = lambda d, b: w.sum(m, lambda e: in_bin(w, nb, column(w, W, d), V[e, d], b)) / m
            w.ensure_eq('rows of the test distribution', w.axlen(tv, 0), nb * D)
            w.forall_eq('proportion of test examples per bin', (D, nb), lambda d, b: (tv[d * nb + b], cum(w, kw['distribution_function'] == 'CDF', nb, h, which == 'DFy')(d, b)))
        train = (X, y, w.stoch('P', n, 2)) if which == 'DFy' else (X, y)
        return user_sym(w, q, train, [(None, b) if which == 'DFy' else (b,) for b in bags], test_of)
    if which == 'DFy':
        P = w.stoch('P', n, 2)
        w.call(q, 'fit', X, y, P)
    else:
        w.call(q, 'fit', X, y)
    tr = w.np.asarray(w.attr(q, 'train_distrib_'))
    w.assume(w.np.abs(tr[:, 0] - tr[:, 1]).max() > 1e-9)
    for b in bags:
        user_try(w, q, lambda: w.call(q, 'predict', None, b) if which == 'DFy' else w.call(q, 'predict', b), loss)


@contract('P05', 'DFX/HDX.fit', trials=50)
def dfx_fit(w):
    K = w.int('K', 2, typ=3)
    nb, strat, n, cl, X_, y, cumulative, dist, which, kw = dfx(w, K)
    d = w.int('d', 1, typ=3)
    X = w.mat('Xf', n, d)
    spy2, spyb = spy_l2(w), edges_spec(w)
    q = w.new(DF + which, n_bins=nb, bin_strategy=strat, **kw)
    w.call(q, 'fit', X, y)
    M = w.attr(q, 'train_distrib_')
    if w.symbolic:
        f = lambda a, b, k: w.sum(n, lambda t: w.ind(w.eq(w.li(y, t), k)) * in_bin(w, nb, column(w, X, a), X[t, a], b)) / class_count(w, y, n, k)
    else:
        cuts = [w.np.asarray(w.fn(DF + 'compute_bincuts')(x=X[:, a], y=y, classes=cl, n_bins=nb, bin_strategy=strat)) for a in range(d)]
        H = [[np_hist(w, X[y == cl[k], a], cuts[a]) for k in range(K)] for a in range(d)]
        f = lambda a, b, k: H[a][k][b]
    w.forall_eq('class distribution', (d, nb, K), lambda a, b, k: (M[a * nb + b, k], cum(w, cumulative, nb, lambda a, b: f(a, b, k), False)(a, b)))
    w.ensure_eq('rows', w.axlen(M, 0), nb * d)
    if w.symbolic:
        w.ensure('L2 parameters exactly when the distance is L2', len(spy2) == (1 if dist == 'L2' else 0))
        if len(spy2):
            w.ensure_same('L2 parameters of these class distributions', spy2[0]['train_distrib'], M)
        for a in spyb:
            w.ensure('strategy and number of bins passed on', a['bin_strategy'] == strat and a['n_bins'] is nb)
        w.ensure('no problem nor mixtures of an earlier fit', w.attr(q, 'problem_') is None and w.attr(q, 'mixtures_') is None)


def dfx(w, K):
    nb = w.int('n_bins', 2, typ=8)
    strat = 'any strategy' if w.symbolic else w.choose('strategy', ['equal_width', 'equal_count', 'normal'] + (['binormal'] if K == 2 else []))
    n = w.int('n', K, typ=12)
    cl = w.classes(K, strings=True)
    y = w.labels('y', n, cl)
    cumulative = w.choose('distribution_function', ['PDF', 'CDF'])
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    which = w.choose('class', ['DFX', 'HDX'])
    kw = {}
    if which == 'DFX':
        kw = dict(distribution_function=cumulative, distance=dist)
    else:
        cumulative, dist = 'PDF', 'HD'
    if not w.symbolic:
        w.assume(strat != 'equal_count' or nb <= n)
    return nb, strat, n, cl, None, y, cumulative == 'CDF', dist, which, kw


@contract('P05', 'DFX/HDX.predict', trials=40)
def dfx_predict(w):
    K = w.int('K', 2, typ=3)
    m = w.int('m', 1, typ=12)
    d = w.int('d', 1, typ=3)
    nb, strat, n, cl, _, y, cumulative, dist, which, kw = dfx(w, K)
    spies = {s: spy_solve(w, s) for s in ('solve_hd', 'solve_l1', 'solve_l2')}
    q = w.new(DF + which, n_bins=nb, bin_strategy=strat, **kw)
    Xt = w.mat('Xt', m, d)
    opq = {}
    if w.symbolic:
        from pydv import npmodel
        npmodel.PROPER_EDGES.add('edges!')
        train = w.mat('train', nb * d, K, 0, 1)
        edges = w.arr('edges!', (d, nb + 1), track=False)
        opq = {'G_': w.opaque('G!', (K, K)), 'C_': w.opaque('C!', (K, K + 1)), 'b_': w.opaque('b!', (K + 1,))}
        for a, v in dict(opq, classes_=cl, train_distrib_=train, bincuts_=edges, problem_=None, mixtures_=None).items():
            w.setattr(q, a, v)
        f = lambda a, b: w.sum(m, lambda t: w.ind(bin_of(w, edges, a, Xt[t, a], b))) / m
    else:
        w.call(q, 'fit', w.mat('Xf', n, d), y)
        train = w.np.array(w.attr(q, 'train_distrib_'))
        edges = w.np.array(w.attr(q, 'bincuts_'))
        H = [np_hist(w, Xt[:, a], edges[a]) for a in range(d)]
        f = lambda a, b: H[a][b]
    r = w.call(q, 'predict', Xt)
    test = cum(w, cumulative, nb, f, False)
    tv = w.flat(w.attr(q, 'test_distrib_'))
    w.ensure_eq('rows of the test distribution', w.axlen(tv, 0), nb * d)
    w.forall_eq('proportion of test examples per bin', (d, nb), lambda a, b: (tv[a * nb + b], test(a, b)))
    minimiser(w, spies, dist, K, q, train, test, r, opq)
    if not w.symbolic:
        w.ensure('class distributions not modified', w.np.array_equal(train, w.attr(q, 'train_distrib_')))
