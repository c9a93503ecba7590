"""P10: quantiles and sample ordinal distance"""
from pydv.worlds import contract
from contracts.common import *

SE = B + 'search.'
EMD = B + 'binary.emd.SORDy'
QUA = B + 'binary.quantiles.QUANTy'


# ---------------------------------------------------------------- SORD
@contract('P10', 'sord: area between the cumulative distributions', trials=80)
def sord_area(w):
    n = w.int('n', 1, typ=12)
    u, v = w.vec('scores', n), w.vec('weights', n)
    if w.symbolic:      # ascending scores
        w.fact('scores', lambda i: w.implies(w.And(w.lt(0, i), w.lt(i, n)), w.le(u[i - 1], u[i])))
        W = w.build((n, 1), lambda i, z: v[i])
    else:
        u.sort()
        W = v.reshape(-1, 1)
        w.inputs = [(a, b, b.copy()) for a, b, _ in w.inputs]
    r = w.fn(SE + 'sord')(W, u)
    r = w.flat(r)
    w.ensure_eq('one number', w.axlen(r, 0), 1)
    w.ensure_eq('sum over consecutive scores of gap * |cumulative weight|', r[0],
                w.sum(n - 1, lambda i: w.abs((u[i + 1] - u[i]) * w.sum(i + 1, lambda j: v[j]))))
    w.forall('gaps are not negative', (n - 1,), lambda i: w.le(0, u[i + 1] - u[i]))


@contract('P10', 'sord weights', trials=60)
def sord_weights(w):
    n = w.int('n', 3, typ=12)
    if w.symbolic:
        lab = lambda i: w.tm.app('lab', (w.tm.lift(i),), True)
        y = w.build((n,), lab)
        y.kind = 'int'
        c0, c1 = w.int('c0'), w.int('c1')
        top = w.maxof(n, lab)
        w.assume(w.lt(c0, c1))
        w.assume(w.lt(c1, top))
        cl = w.it.np.arr([c0, c1])
    else:
        c0, c1 = sorted(w.rng.choice(w.np.arange(-3, 5), 2, replace=False))
        top = c1 + 1
        y = w.rec('labels', w.rng.permutation(w.np.concatenate([[c0, c1, top], w.rng.choice([c0, c1, top], n - 3)])))
        cl = w.np.array([c0, c1])
        lab = lambda i: y[i]
    cnt = lambda c: w.sum(n, lambda i: w.ind(w.eq(lab(i), c)))
    if w.symbolic:
        w.assume(w.lt(0, cnt(c0)))
        w.assume(w.lt(0, cnt(c1)))
        w.assume(w.lt(0, cnt(top)))
    p = w.real('p', 0, 1)
    r = w.fn(SE + 'compute_sord_weights')(prevalence=p, union_labels=y, classes=cl)
    r = w.flat(r)
    w.ensure_eq('one weight per example', w.axlen(r, 0), n)
    w.forall_eq('weights', (n,), lambda i: (r[i], w.ite(w.eq(lab(i), top), -1 / cnt(top),
                                                      w.ite(w.eq(lab(i), c0), (1 - p) / cnt(c0), w.ite(w.eq(lab(i), c1), p / cnt(c1), 0)))))


def binary(w, n):
    cl = w.classes(2)
    return cl, w.mat('X', n, 2), w.labels('y', n, cl)


def posteriors(w, name, n):
    P = w.stoch(name, n, 2)
    if w.choose('ties ' + name, [False, True]):
        P[:] = w.np.round(P, 1)
        P[:, 0] = 1 - P[:, 1]
        w.inputs = [(a, b, b.copy() if b is P else c) for a, b, c in w.inputs]
    return P


def sord_loss(w, tr, y, te):
    np = w.np

    def L(p):
        s = np.concatenate([tr, te])
        n1 = (y == 1).sum()
        v = np.concatenate([np.where(y == 1, p / n1, (1 - p) / (len(y) - n1)), -np.ones(len(te)) / len(te)])
        o = np.argsort(s, kind='stable')
        s, v = s[o], v[o]
        return float(np.sum(np.diff(s) * np.abs(np.cumsum(v)[:-1])))
    return L


def sym_sordy(w):
    """the search (P09) receives the distance between the weights of the sorted union ('sord', 'sord weights') and its answer is the estimate"""
    tm, np = w.tm, w.it.np
    from pydv.npmodel import lam
    n, m, rep = w.int('n', 2), w.int('m', 1), w.choose('repeats', [1, 2])
    N = n * rep
    cl = w.it.np.arr([w.int('c0'), w.int('c1')])
    w.assume(w.lt(cl[0], cl[1]))
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', N, 2)
    p = w.real('any prevalence', 0, 1)
    weights = w.spy(SE + 'compute_sord_weights', lambda w_, a: w.arr('weights!', (w.axlen(a['union_labels'], 0), 1), track=False))
    area = w.spy(SE + 'sord', lambda w_, a: w.vec('area!', 1))
    calls, preds = [], []

    def search(w_, a):
        calls.append(a)
        preds.append(simplex_result(w, 'pred%d!' % len(calls), 2))
        return (w.tm.fresh('loss'), preds[-1])
    w.spy(SE + 'golden_section_search', search)
    tol = w.real('tol', 0)
    q = w.new(EMD, tol=tol)
    w.call(q, 'fit', X, y, P)
    perm = lambda v: lambda i: tm.app('argsort', (lam(v), tm.lift(i)), True)
    train = perm(w.it.np.getitem(P, (slice(None), 1)))
    label = (lambda j: y[j]) if rep == 1 else (lambda j: cl[w.li(y, w.mod(j, n))])
    for b in range(2):
        T = w.stoch('T%d' % b, m, 2)
        r = w.call(q, 'predict', X, T)
        w.ensure('one search per bag', len(calls) == b + 1)
        a = calls[b]
        w.ensure_eq('the whole interval', a['a'], 0)
        w.ensure_eq('the whole interval (end)', a['b'], 1)
        w.ensure_eq('tolerance of the quantifier', a['tol'], tol)
        del weights[:], area[:]
        mix = w.it.call(a['mixture_func'], [], dict(a['kwargs'], prevalence=p))
        w.it.call(a['distance_func'], [mix, a['test_distrib']], {})
        if len(weights) != 1 or len(area) != 1:
            from pydv.interp import Unsupported
            raise Unsupported('loss of the search')
        g = weights[0]
        w.ensure_eq('weights of the prevalence tried', g['prevalence'], p)
        w.ensure_same('classes', g['classes'], w.attr(q, 'classes_'))
        w.ensure_same('distance of those weights', area[0]['weights'], mix)
        U, L = area[0]['union_distrib'], g['union_labels']
        union = np.flatten_axis(np.m_hstack((w.build((N,), lambda i: P[train(i), 1]), w.it.np.getitem(T, (slice(None), 1)))))
        order = perm(union)
        score = lambda j: w.ite(w.lt(j, N), P[train(j), 1], T[j - N, 1])
        lab = lambda j: w.ite(w.lt(j, N), label(train(j)), cl[1] + 1)
        w.ensure_eq('training and test examples together', w.axlen(U, 0), N + m)
        w.ensure_eq('labels of all of them', w.axlen(L, 0), N + m)
        w.forall_eq('scores in increasing order', (N + m,), lambda i: (U[i], score(order(i))))
        w.forall_eq('labels of the same examples', (N + m,), lambda i: (L[i], lab(order(i))))
        w.ensure_arr('the estimate is the answer of the search', r, (2,), lambda k: preds[b][k])


@contract('P10', 'SORDy', trials=60, seconds=20)
def sordy(w):
    if w.symbolic:
        return sym_sordy(w)
    n, m = w.int('n', 2, typ=12), w.int('m', 1, typ=8)
    cl, X, y = binary(w, n)
    rep = w.choose('repeats', [1, 1, 2])
    P, T = posteriors(w, 'P', n * rep), posteriors(w, 'T', m)
    np = w.np
    q = w.new(EMD, tol=1e-5)
    w.call(q, 'fit', X, y, P)
    if w.choose('history', [False, True]):
        w.call(q, 'predict', X, P[:n])
    r = w.call(q, 'predict', X, T)
    is_prevalence(w, 'result', r, 2, tol=1e-9)
    ci = np.array([w.li(y, i % n) for i in range(n * rep)])
    L = sord_loss(w, P[:, 1], ci, T[:, 1])
    best = min(L(g) for g in np.linspace(0, 1, 201))
    w.ensure('minimises the distance', L(r[1]) <= best + 3e-5)


# ---------------------------------------------------------------- quantiles
def quantiles_spec(w, x, v, nq):
    """mean score of each of nq equal shares of the total mass, x ascending with masses v"""
    np = w.np
    F = np.concatenate([[0.0], np.cumsum(v)])
    tot = F[-1]
    out = np.zeros(nq)
    for j in range(nq):
        lo, hi = tot * j / nq, tot * (j + 1) / nq
        out[j] = sum(xi * max(0.0, min(hi, F[i + 1]) - max(lo, F[i])) for i, xi in enumerate(x)) / (tot / nq)
    return out


def mass(w, ci, p):
    np = w.np
    if p is None:
        return np.ones(len(ci))
    n1 = (ci == 1).sum()
    return np.where(ci == 1, p * len(ci) / n1, (1 - p) * len(ci) / (len(ci) - n1))


def sym_quantiles(w):
    """few examples; scores, prevalence and order of the labels are arbitrary"""
    tm = w.tm
    n, nq = w.choose('n', [2, 3]), w.choose('n_quantiles', [1, 2, 3, 4])
    w.it.unroll_while = 2 * nq      # every path ends: an unrolling left over is no proof
    cl = w.classes(2, strings=True)
    pos = w.choose('positives', [(0,), (1,)] if n == 2 else [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2)])
    x = w.vec('scores', n, 0, 1)
    for i in range(n - 1):
        w.assume(w.le(x[i], x[i + 1]))
    y = w.it.np.arr([cl[1 if i in pos else 0] for i in range(n)])
    p = w.real('p', 0, 1) if w.choose('prevalence', ['given', 'none']) == 'given' else None
    n1 = len(pos)
    if p is None:
        v = [tm.ONE] * n
        r = w.fn(SE + 'compute_quantiles')(prevalence=None, probabilities=x, n_quantiles=nq)
    else:
        v = [p * n / n1 if i in pos else (1 - p) * n / (n - n1) for i in range(n)]
        r = w.fn(SE + 'compute_quantiles')(prevalence=p, probabilities=x, n_quantiles=nq, y=y, classes=cl)
    w.ensure_eq('one value per share', w.axlen(r, 0), nq)
    F = [tm.ZERO]
    for t in v:
        F.append(F[-1] + t)
    tol = w.real_const(4e-4) * nq / n * 2
    for j in range(nq):
        lo, hi = tm.lift(n * j) / nq, tm.lift(n * (j + 1)) / nq
        want = sum(x[i] * w.max(0, w.min(hi, F[i + 1]) - w.max(lo, F[i])) for i in range(n)) * nq / n
        w.ensure('mean score of share %d' % j, w.And(w.le(r[j] - want, tol), w.le(want - r[j], tol)))


@contract('P10', 'quantiles', trials=300, scope='2 and 3 examples, 1 to 4 quantiles (any scores and prevalences)', seconds=15)
def quantiles(w):
    if w.symbolic:
        return sym_quantiles(w)
    n = w.int('n', 2, typ=15)
    nq = w.int('n_quantiles', 1, typ=10)
    cl, X, y = binary(w, n)
    np = w.np
    x = np.sort(w.vec('scores', n, 0, 1))
    ci = np.array([w.li(y, i) for i in range(n)])
    p = w.choose('prevalence', [None, 0.0, 1.0, .5, .01, .3, .99, w.real('p', 0, 1)])
    old = x.copy()
    f = w.fn(SE + 'compute_quantiles')
    r = f(prevalence=p, probabilities=x, n_quantiles=nq, y=y, classes=cl) if p is not None else f(prevalence=None, probabilities=x, n_quantiles=nq)
    w.ensure('inputs unchanged', np.array_equal(old, x))
    v = mass(w, ci, p)
    tol = 2e-4 * nq / n * 2 + 1e-9      # the code leaves at most 1e-4 of mass unassigned per share
    w.ensure('one value per share', np.shape(r) == (nq,))
    w.ensure('average of the quantiles is the weighted mean', abs(np.mean(r) - np.sum(x * v) / n) <= tol)
    w.ensure('mean score of every share', bool(np.all(np.abs(r - quantiles_spec(w, x, v, nq)) <= tol * 2)))


def sym_quanty(w):
    """the search (P09) receives the quantiles ('quantiles') of the sorted training scores and those of the sorted bag"""
    tm = w.tm
    from pydv.npmodel import lam
    n, m, nq = w.int('n', 2), w.int('m', 1), w.int('n_quantiles', 2)
    cl = w.classes(2, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', n, 2)
    p = w.real('any prevalence', 0, 1)
    calls, preds, asked = [], [], []

    def search(w_, a):
        calls.append(a)
        preds.append(simplex_result(w, 'pred%d!' % len(calls), 2))
        return ('mixtures %d' % len(calls), preds[-1])
    w.spy(SE + 'global_search', search)

    def quantiles_of(w_, a):
        asked.append(a)
        asked[-1]['result'] = w.arr('quantiles%d!' % len(asked), (nq,), track=False)
        return asked[-1]['result']
    w.spy(SE + 'compute_quantiles', quantiles_of)
    loss = lambda a, b: None
    q = w.new(QUA, n_quantiles=nq, distance=loss)
    w.call(q, 'fit', X, y, P)
    perm = lambda v: lambda i: tm.app('argsort', (lam(v), tm.lift(i)), True)
    train = perm(w.it.np.getitem(P, (slice(None), 1)))
    for b in range(2):
        T = w.stoch('T%d' % b, m, 2)
        del asked[:]
        r = w.call(q, 'predict', X, T)
        w.ensure('one search per bag', len(calls) == b + 1)
        a = calls[b]
        w.ensure("the quantifier's distance", a['distance_func'] is loss)
        w.ensure('tolerance of the quantifier', a['tol'] is w.attr(q, 'tol'))
        w.ensure('mixtures: none, or those of this training set', a['mixtures'] is None or b > 0 and a['mixtures'] == 'mixtures 1' and a['return_mixtures'] is True)
        own = [t for t in asked if t['result'] is a['test_distrib']]
        if len(own) != 1:
            from pydv.interp import Unsupported
            raise Unsupported('quantiles of the bag')
        t = own[0]
        w.ensure('quantiles of the bag: unit weights', t['prevalence'] is None)
        w.ensure_eq('quantiles of the bag: how many', t['n_quantiles'], nq)
        srt = w.it.np.m_sort(w.it.np.getitem(T, (slice(None), 1)))
        w.ensure_arr('quantiles of the bag: its sorted scores', t['probabilities'], (m,), lambda i: srt[i])
        del asked[:]
        w.it.call(a['mixture_func'], [], dict(a['kwargs'], prevalence=p))
        if len(asked) != 1:
            from pydv.interp import Unsupported
            raise Unsupported('mixtures of the search')
        t = asked[0]
        w.ensure_eq('mixtures of the prevalence tried', t['prevalence'], p)
        w.ensure_eq('mixtures: how many quantiles', t['n_quantiles'], nq)
        w.ensure_arr('mixtures: sorted training scores', t['probabilities'], (n,), lambda i: P[train(i), 1])
        w.ensure_arr('mixtures: labels of the same examples', t['y'], (n,), lambda i: y[train(i)])
        w.ensure_arr('mixtures: classes', t['classes'], (2,), lambda k: cl[k])
        w.ensure_arr('the estimate is the answer of the search', r, (2,), lambda k: preds[b][k])


@contract('P10', 'QUANTy', trials=60, seconds=30)
def quanty(w):
    if w.symbolic:
        return sym_quanty(w)
    n, m = w.int('n', 4, typ=15), w.int('m', 1, typ=10)
    nq = w.int('n_quantiles', 2, typ=8)
    cl, X, y = binary(w, n)
    P, T = posteriors(w, 'P', n), posteriors(w, 'T', m)
    np = w.np
    q = w.new(QUA, n_quantiles=nq)
    w.call(q, 'fit', X, y, P)
    ci = np.array([w.li(y, i) for i in range(n)])
    if w.choose('history', [False, True]):
        try:
            w.call(q, 'predict', X, P)
        except ValueError:
            pass
    o = np.argsort(P[:, 1], kind='stable')
    t = quantiles_spec(w, np.sort(T[:, 1]), np.ones(m), nq)
    L = lambda p: float(np.sum((quantiles_spec(w, P[o, 1], mass(w, ci[o], p), nq) - t) ** 2))
    g = np.array([L(p) for p in np.linspace(0, 1, 101)])
    d = np.diff(g)
    k = int(np.argmin(g))
    ties = len(set(P[:, 1])) < n
    w.assume(bool(np.all(d[:k] < -1e-6) and np.all(d[k:] > 1e-6)) and not ties)      # unimodal
    r = w.call(q, 'predict', X, T)
    is_prevalence(w, 'result', r, 2, tol=1e-9)
    w.ensure('close to the minimiser', L(r[1]) <= g.min() + 1e-3)
    w.ensure('next to the best grid point', abs(r[1] - k / 100) <= .03)


@contract('P10', 'binary only', trials=20)
def binary_only(w):
    K = w.int('K', 3, typ=2)
    n = w.int('n', K, typ=8)
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', n, K)
    for c in (EMD, QUA):
        w.ensure('more than two classes rejected by ' + c, w.raises(lambda: w.call(w.new(c), 'fit', X, y, P), 'TypeError'))


@contract('P10', 'sorted training sample with its own labels', trials=40)
def sorted_train(w):
    n = w.int('n', 2, typ=12)
    cl = w.classes(2)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', n, 2)
    for c in (EMD, QUA):
        q = w.new(c)
        w.call(q, 'fit', X, y, P)
        s, l = w.attr(q, 'train_distrib_'), w.attr(q, 'train_labels_')
        w.forall('ascending scores', (n - 1,), lambda i: w.le(s[i], s[i + 1]))
        if w.symbolic:
            w.forall_eq('score and label of the same example', (n,), lambda i: pair(w, P, y, s, l, i))
        else:
            a = sorted((float(P[i, 1]), str(y[i])) for i in range(n))
            b = sorted((float(s[i]), str(l[i])) for i in range(n))
            w.ensure('score and label of the same example', a == b)


def pair(w, P, y, s, l, i):
    tm = w.tm
    from pydv.npmodel import lam
    col = w.it.np.getitem(P, (slice(None), 1))
    j = tm.app('argsort', (lam(col), tm.lift(i)), True)
    return s[i] - P[j, 1] + tm.lift(l[i]), tm.lift(y[j])
