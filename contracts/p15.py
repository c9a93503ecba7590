"""P15: ordinal classifiers combine their binary models into valid class probabilities"""
from pydv.worlds import contract
from contracts.common import *

FH = B + 'estimators.frank_and_hall.'
PLAIN, MONO, TREE, QT = FH + 'FrankAndHallClassifier', FH + 'FrankAndHallMonotoneClassifier', FH + 'FrankAndHallTreeClassifier', FH + 'QTree'
DDAG = B + 'estimators.ordinal_ddag.DDAGClassifier'
GEN = 'generated training sets and binary models only'
SCOPE = '3 to 5 classes (any number of examples, any binary outputs)'


def setup(w, cls, hi=5, lo=3, **kw):
    """a fitted classifier with opaque binary models; left[i](j): probability that example j is in the left group of model i"""
    K = w.choose('K', list(range(lo, hi + 1)) if w.symbolic else list(range(lo, 8)))
    n = w.int('n', 1, typ=4)
    X = w.mat('X', n, 2)
    cl = w.classes(K)
    m = K - 1 if cls != DDAG else K * (K - 1) // 2
    ests = [w.estimator('e%d' % i, w.build((2,), lambda k: k)) for i in range(m)]
    c = w.new(cls, estimator=ests[0], **kw)
    w.setattr(c, 'classes_', cl)
    w.setattr(c, 'estimators_', ests)
    return K, n, X, cl, c, ests


def check(w, c, X, n, K, cl, spec, valid):
    p = w.call(c, 'predict_proba', X)
    w.ensure_arr('probabilities', p, (n, K), lambda i, k: pick(w, k, [spec(i, q) for q in range(K)]))
    if valid:
        w.forall('non-negative', (n, K), lambda i, k: w.le(0, p[i, k]))
        w.forall_eq('each example sums to one', (n,), lambda i: (sum(p[i, q] for q in range(K)), 1))
    if w.symbolic:
        return                  # prediction of labels: contract 'labels' below, for any probabilities
    l = w.call(c, 'predict', X)
    w.forall('predicts the class of highest probability', (n,), lambda i: w.eq(l[i], cl[w.argmaxof(K, lambda k: pick(w, k, [spec(i, q) for q in range(K)]))]))


def pick(w, k, vals):
    """vals[k] for an index of either world"""
    if not w.symbolic:
        return vals[int(k)]
    r = vals[-1]
    for q in range(len(vals) - 2, -1, -1):
        r = w.ite(w.eq(k, q), vals[q], r)
    return r


@contract('P15', 'plain', trials=80, scope=SCOPE, seconds=4)
def plain(w):
    K, n, X, cl, c, ests = setup(w, PLAIN)
    L = lambda i, q: ests[q].p(X, i, 1)

    def spec(i, k):
        if k == 0:
            return L(i, 0)
        return (1 - L(i, k - 1)) * (L(i, k) if k < K - 1 else 1)
    check(w, c, X, n, K, cl, spec, False)


@contract('P15', 'labels', trials=60)
def labels(w):
    """every classifier, whatever its probabilities: the (first) class of highest probability"""
    cls = w.choose('class', [PLAIN, MONO, TREE, DDAG])
    K = w.int('K', 2, typ=4)
    n = w.int('n', 1, typ=5)
    X, cl, P = w.mat('X', n, 2), w.classes(K), w.stoch('P', n, K)
    c = w.new(cls, estimator=w.estimator('e', cl))
    w.ensure('refuses to predict before being fitted', w.raises(lambda: w.call(c, 'predict', X), 'NotFittedError'))
    w.ensure('no probabilities before being fitted', w.raises(lambda: w.call(c, 'predict_proba', X), 'NotFittedError'))
    w.setattr(c, 'classes_', cl)
    seen = []
    w.setattr(c, 'predict_proba', lambda X: (seen.append(X), P)[1])
    l = w.call(c, 'predict', X)
    w.ensure_arr('labels of highest probability', l, (n,), lambda i: cl[w.argmaxof(K, lambda k: P[i, k])])
    w.ensure_same('probabilities of the given examples', seen[0], X)


def corrected(w, v):
    """the mean of the smallest ordered values above and the largest ordered values below (v itself if ordered)"""
    up, lo = list(v), list(v)
    for i in range(1, len(v)):
        up[i] = w.max(up[i - 1], v[i])
    for i in range(len(v) - 2, -1, -1):
        lo[i] = w.min(lo[i + 1], v[i])
    return [(a + b) / 2 for a, b in zip(up, lo)]


@contract('P15', 'monotone', trials=150, scope='3 and 4 classes (any number of examples, any binary outputs)', seconds=4)
def mono(w):
    K, n, X, cl, c, ests = setup(w, MONO, hi=4)

    def unordered(i):
        e = [ests[q].p(X, i, 1) for q in range(K - 1)]
        return w.ind(w.Not(w.And(*[w.le(a, b) for a, b in zip(e, e[1:])])))

    def spec(i, k):
        if w.symbolic:
            w.member(n, unordered, i)
        v = corrected(w, [ests[q].p(X, i, 1) for q in range(K - 1)])
        if k == 0:
            return v[0]
        return (v[k] if k < K - 1 else 1) - v[k - 1]
    check(w, c, X, n, K, cl, spec, True)


def shapes(first, last):
    """all binary trees over the models first..last"""
    if first > last:
        return [None]
    return [(r, a, b) for r in range(first, last + 1) for a in shapes(first, r - 1) for b in shapes(r + 1, last)]


def node(w, c, t):
    return w.new(QT) if t is None else w.new(QT, c, t[0], node(w, c, t[1]), node(w, c, t[2]))


@contract('P15', 'tree', trials=120, scope='3 to 5 classes, every tree (any number of examples, any binary outputs)', seconds=5)
def tree(w):
    K, n, X, cl, c, ests = setup(w, TREE, hi=5)
    all_shapes = shapes(0, K - 2)
    t = all_shapes[w.choose('tree', list(range(len(all_shapes))))]
    w.setattr(c, 'tree_', node(w, c, t))

    def spec(i, k):
        r, s = 1, t
        while s is not None:
            left = ests[s[0]].p(X, i, 1)
            r, s = (r * left, s[1]) if k <= s[0] else (r * (1 - left), s[2])
        return r
    check(w, c, X, n, K, cl, spec, True)


@contract('P15', 'directed acyclic graph', trials=120, scope='2 to 5 classes (any number of examples, any binary outputs)', seconds=5)
def ddag(w):
    method = w.choose('predict_method', ['full_probabilistic', 'winner_node'])
    K, n, X, cl, c, ests = setup(w, DDAG, hi=5, lo=2, predict_method=method)
    pos = {}
    for a in range(K):
        for b in range(a + 1, K):
            pos[a, b] = len(pos)

    def spec(i, k):
        def below(a, b):            # probability of reaching leaf k from node (a, b)
            if not a <= k <= b:
                return 0
            if a == b:
                return 1
            left = ests[pos[a, b]].p(X, i, 0)
            if method == 'winner_node' and b - a != 1:
                left = w.ind(w.le(w.real_const(0.5), left))
            return left * below(a, b - 1) + (1 - left) * below(a + 1, b)
        return below(0, K - 1)
    check(w, c, X, n, K, cl, spec, True)


# ------------------------------------------------------------------------------------------ training (concrete)
def trained(w, cls, hi=None, **kw):
    from contracts.stubs import Clf
    K = w.int('K', 3, typ=5) if hi is None else int(w.rng.randint(3, hi + 1))
    n = w.int('n', K, typ=15)
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    base = Clf(tag=int(w.rng.randint(99)))
    c = w.new(cls, estimator=base, **kw)
    w.ensure('refuses to predict before being fitted', w.raises(lambda: w.call(c, 'predict', X), 'NotFittedError')
             and w.raises(lambda: w.call(c, 'predict_proba', X), 'NotFittedError'))
    r = w.call(c, 'fit', X, y)
    w.ensure('fit returns the classifier', r is c)
    w.ensure("the user's model is not fitted", not hasattr(base, 'X_'))
    w.ensure_arr('classes', c.classes_, (K,), lambda k: cl[k])
    return K, n, cl, X, y, base, c


def models(w):
    """training, any number of examples: one model per threshold, copies of the user's, each trained once on its sub-problem"""
    cls = w.choose('class', [PLAIN, MONO, TREE])
    params = w.choose('parameters', ['none', 'per threshold'])
    K = w.choose('K', [3, 4, 5])
    n = w.int('n', K)
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    base = w.estimator('base', w.build((2,), lambda k: k), fitted=False)
    own = [{'tag': 100 + q} for q in range(K - 1)]
    w.spy(TREE + '.__generate_tree', lambda w_, e: e['self'])           # the tree: trials of this contract
    c = w.new(cls, estimator=base, params_fit=own if params != 'none' else None)
    w.ensure('refuses to predict before being fitted', w.raises(lambda: w.call(c, 'predict', X), 'NotFittedError')
             and w.raises(lambda: w.call(c, 'predict_proba', X), 'NotFittedError'))
    w.ensure('fit returns the classifier', w.call(c, 'fit', X, y) is c)
    w.ensure("the user's model is not fitted", not base.calls)
    w.ensure_arr('classes', w.attr(c, 'classes_'), (K,), lambda k: cl[k])
    ests = w.attr(c, 'estimators_')
    w.ensure('one model per threshold', len(ests) == K - 1 and len({id(e) for e in ests}) == K - 1 and all(e in base.copies for e in ests))
    for q, e in enumerate(ests):
        fits = [t for t in e.calls if t[0] == 'fit']
        w.ensure('model %d trained once' % q, len(fits) == 1)
        w.ensure_same('examples of model %d' % q, fits[0][1], X)
        w.ensure_arr('model %d: at most class %d against above' % (q, q), fits[0][2], (n,), lambda i: w.ind(w.Or(*[w.eq(y[i], cl[j]) for j in range(q + 1)])))
        w.ensure('parameters of model %d' % q, e.params == (own[q] if params != 'none' else {}))


@contract('P15', 'threshold models', trials=60, scope='3 to 5 classes (any number of examples, any labels); the tree of the tree classifier: generated training sets only')
def thresholds(w):
    if w.symbolic:
        return models(w)
    np = w.np
    cls = w.choose('class', [PLAIN, MONO, TREE])
    kw = w.choose('parameters', [{}, {'n_jobs': 1}])
    K, n, cl, X, y, base, c = trained(w, cls, **kw)
    w.ensure_eq('one model per threshold', len(c.estimators_), K - 1)
    w.ensure('independent models', len({id(e) for e in c.estimators_}) == K - 1 and not any(hasattr(e, 'refitted_') for e in c.estimators_))
    for q in range(K - 1):
        e = c.estimators_[q]
        w.ensure('model %d: at most class %d against above' % (q, q), np.array_equal(e.y_, (y <= cl[q]) * 1) and np.array_equal(e.X_, X))
    if cls == TREE:
        left = np.array([e.predict_proba(X)[:, 1].mean() for e in c.estimators_])
        true = np.array([np.mean(y <= cl[q]) for q in range(K - 1)])
        from quantificationlib.metrics.binary import binary_kld
        score = np.array([binary_kld(t, p) for t, p in zip(true, left)])

        def expect(nd, a, b):
            if a > b:
                return nd.is_leaf()
            r = a + int(np.argmin(score[a:b + 1]))
            return not nd.is_leaf() and nd.pos_estimator == r and expect(nd.left, a, r - 1) and expect(nd.right, r + 1, b)
        w.ensure('each node: the model that best estimates the prevalence of its left group', expect(c.tree_, 0, K - 2))
    p = c.predict_proba(X)
    w.ensure('labels are those of highest probability', np.array_equal(c.predict(X), cl[np.argmax(p, axis=1)]))


@contract('P15', 'tree of thresholds', trials=40, scope='3 and 4 classes (any number of examples, any labels, any binary outputs, any measure)')
def threshold_tree(w):
    """each node of the tree: the model of its range with the least error of the prevalence of its left group"""
    K = w.choose('K', [3, 4] if w.symbolic else [3, 4, 5, 6])
    n = w.int('n', K, typ=12)
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    base = w.estimator('base', w.build((2,), lambda k: k), fitted=False)
    measure = (lambda a, b: w.tm.app('measure', (w.tm.lift(a), w.tm.lift(b)))) if w.symbolic else (lambda a, b: abs(float(a) - float(b)) ** 1.5)
    c = w.new(TREE, estimator=base, performance_measure=measure)
    if w.symbolic:
        w.it.split_positions = True
    w.call(c, 'fit', X, y)
    ests = w.attr(c, 'estimators_')
    left = [w.sum(n, lambda i: e.p(X, i, 1)) / n for e in ests]
    true = [sum(w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), j))) for j in range(q + 1)) / n for q in range(K - 1)]
    score = [measure(t, p) for t, p in zip(true, left)]

    def expect(nd, a, b):
        if a > b:
            w.ensure('leaf', w.call(nd, 'is_leaf'))
            return
        w.ensure('inner node', w.Not(w.call(nd, 'is_leaf')))
        r = w.attr(nd, 'pos_estimator')
        w.ensure('first of the best models of its range (%d to %d)' % (a, b), w.Or(*[w.And(w.eq(r, q), *[w.lt(score[q], score[j]) for j in range(a, q)], *[w.le(score[q], score[j]) for j in range(q + 1, b + 1)])
                                                                                     for q in range(a, b + 1)]))
        for q in range(a, b + 1):
            if w.holds(w.eq(r, q)):
                expect(w.attr(nd, 'left'), a, q - 1)
                expect(w.attr(nd, 'right'), q + 1, b)
                return
    expect(w.attr(c, 'tree_'), 0, K - 2)


@contract('P15', 'parameters per threshold', trials=30, scope='3 to 5 classes (any number of examples, any labels)')
def params(w):
    if w.symbolic:
        K = w.choose('K', [3, 4, 5])
        n = w.int('n', K)
        cl = w.classes(K)
        X, y = w.mat('X', n, 2), w.labels('y', n, cl)
        w.ensure('an estimator is needed', w.raises(lambda: w.call(w.new(w.choose('class', [PLAIN, MONO, TREE])), 'fit', X, y)))
        base = w.estimator('base', w.build((2,), lambda k: k), fitted=False)
        own = [{'tag': 100 + q} for q in range(K - 1)]
        c = w.new(PLAIN, estimator=base, params_fit=own)
        w.call(c, 'fit', X, y)
        ests = w.attr(c, 'estimators_')
        w.ensure('each model has its own parameters', w.length(ests) == K - 1 and all(e.params == own[q] for q, e in enumerate(ests)))
        return
    from contracts.stubs import Clf
    K = w.int('K', 3, typ=5)
    n = w.int('n', K, typ=15)
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    c = w.new(PLAIN, estimator=Clf(), params_fit=[{'tag': 100 + q} for q in range(K - 1)])
    w.call(c, 'fit', X, y)
    w.ensure('each model has its own parameters', [e.tag for e in c.estimators_] == [100 + q for q in range(K - 1)])
    w.ensure('an estimator is needed', w.raises(lambda: w.call(w.new(w.choose('class', [PLAIN, MONO, TREE])), 'fit', X, y)))


@contract('P15', 'graph training', trials=40, bounded=GEN)
def graph(w):
    np = w.np
    K, n, cl, X, y, base, c = trained(w, DDAG, 6, predict_method=w.choose('predict_method', ['full_probabilistic', 'winner_node']))
    q = 0
    for a in range(K):
        for b in range(a + 1, K):
            rows = (y == cl[a]) | (y == cl[b])
            e = c.estimators_[q]
            w.ensure('model of classes %d and %d' % (a, b), np.array_equal(e.y_, (y[rows] == cl[b]) * 1) and np.array_equal(e.X_, X[rows]))
            q += 1
    p = c.predict_proba(X)
    w.ensure('valid', p.shape == (n, K) and (p >= 0).all() and np.allclose(p.sum(axis=1), 1))
    w.ensure('labels', np.array_equal(c.predict(X), cl[np.argmax(p, axis=1)]))
