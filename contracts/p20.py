"""P20: de-bias and threshold methods"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p05 import minimiser, user_loss, user_try, user_sym

DB = B + 'binary.debias.DeBias'
FME = B + 'multiclass.friedman.FriedmanME'


@contract('P20', 'DeBias.fit', trials=80)
def db_fit(w):
    n = w.int('n', 2, typ=12)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    cl = w.classes(2, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', n * r, 2)
    q = w.new(DB)
    w.call(q, 'fit', X, y, P)
    t = w.attr(q, 'train_prevs_')
    p = lambda k: class_count(w, y, n, k) / n
    w.ensure_arr('training prevalences', t, (2,), p)
    w.ensure_eq('variance correction', w.attr(q, 'Vt_'), w.sum(n * r, lambda i: (P[i, 1] - p(1)) ** 2) / (n * r) / (p(1) * p(0)))


@contract('P20', 'DeBias.predict', trials=80)
def db_predict(w):
    m = w.int('m', 1, typ=12)
    cl = w.classes(2, strings=True)
    src = w.choose('source', ['given', 'estimator'])
    est = w.estimator('est', cl)
    q = w.new(DB)
    pos, V = w.real('q', 0, 1), w.real('V', 0)
    w.assume(w.lt(0, V))
    if not w.symbolic:
        w.assume(V > 1e-3)
        V = V / 10
    for a, v in (('classes_', cl), ('train_prevs_', w.build((2,), lambda i: w.ite(w.eq(i, 0), 1 - pos, pos))), ('Vt_', V)):
        w.setattr(q, a, v)
    if src == 'given':
        Pt = w.stoch('Pt', m, 2)
        pr = lambda t: Pt[t, 1]
        r = w.call(q, 'predict', None, Pt)
    else:
        Xt = w.mat('Xt', m, 2)
        w.setattr(q, 'estimator_test', est)
        pr = lambda t: est.p(Xt, t, 1)
        r = w.call(q, 'predict', Xt)
    want = w.clip(pos + (w.sum(m, pr) / m - pos) / V, 0, 1)
    w.ensure_eq('length', w.axlen(r, 0), 2)
    w.ensure_eq('positive class', r[1], want)
    w.ensure_eq('negative class', r[0], 1 - want)


@contract('P20', 'DeBias end to end', trials=60)
def db_all(w):
    n, m = w.int('n', 2, typ=12), w.int('m', 1, typ=12)
    cl = w.classes(2, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P, Pt = w.stoch('P', n, 2), w.stoch('Pt', m, 2)
    q = w.new(DB)
    w.call(q, 'fit', X, y, P)
    V = w.attr(q, 'Vt_')
    w.assume(w.lt(0, V))
    if not w.symbolic:
        w.assume(V > 1e-6)
    r = w.call(q, 'predict', None, Pt)
    pos = class_count(w, y, n, 1) / n
    w.ensure_eq('positive class', r[1], w.clip(pos + (w.sum(m, lambda t: Pt[t, 1]) / m - pos) / V, 0, 1))
    is_prevalence(w, 'result', r, 2)


@contract('P20', 'DeBias: binary only', trials=40)
def db_binary(w):
    K = w.int('K', 3, typ=3)
    n = w.int('n', K, typ=12)
    cl = w.classes(K)
    X, y, P = w.mat('X', n, 2), w.labels('y', n, cl), w.stoch('P', n, K)
    w.ensure('more than two classes rejected', w.raises(lambda: w.call(w.new(DB), 'fit', X, y, P), 'AttributeError'))


# ---------------------------------------------------------------- threshold method
@contract('P20', 'FriedmanME.fit', trials=60)
def fme_fit(w):
    K = w.int('K', 2, typ=4)
    n = w.int('n', K, typ=12)
    r = 1 if w.choose('repeats', [False, True]) is False else w.int('r', 2, typ=2)
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', n * r, K)
    at_threshold(w, P, [class_count(w, y, n, k) / n for k in range(K)] if not w.symbolic else None)
    spy2 = spy_l2(w)
    q = w.new(FME, distance=dist)
    w.call(q, 'fit', X, y, P)
    M = w.attr(q, 'train_distrib_')
    yi = lambda t: w.li(y, w.mod(t, n)) if not isinstance(r, int) or r != 1 else w.li(y, t)
    c = lambda k: class_count(w, y, n, k)
    w.ensure_arr('training prevalences', w.attr(q, 'train_prevs_'), (K,), lambda k: c(k) / n)
    w.ensure_arr('fraction of class k with posterior of class j at least its prevalence', M, (K, K),
                 lambda j, k: w.sum(n * r, lambda t: w.ind(w.eq(yi(t), k)) * w.ind(atleast(w, P[t, j], c(j) / n))) / (c(k) * r))
    w.ensure('no problem nor mixtures of an earlier fit', w.attr(q, 'problem_') is None and w.attr(q, 'mixtures_') is None)
    if w.symbolic:
        w.ensure('L2 parameters exactly when the distance is L2', len(spy2) == (1 if dist == 'L2' else 0))
        if len(spy2):
            w.ensure_same('L2 parameters of these class distributions', spy2[0]['train_distrib'], M)


def atleast(w, x, t):
    return w.le(t, x) if w.symbolic else bool(x >= t)


def at_threshold(w, P, prevs):
    """some posteriors exactly at the training prevalences"""
    if w.symbolic:
        return
    for i in range(len(P)):
        if w.rng.rand() < .3:
            P[i] = prevs
    w.inputs = [(a, b, b.copy() if b is P else c) for a, b, c in w.inputs]


@contract('P20', 'FriedmanME.predict', trials=60)
def fme_predict(w):
    K = w.int('K', 2, typ=4)
    m = w.int('m', 1, typ=12)
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    cl = w.classes(K, strings=True)
    src = w.choose('source', ['given', 'estimator'])
    est = w.estimator('est', cl)
    sp = {s: spy_solve(w, s) for s in ('solve_hd', 'solve_l1', 'solve_l2')}
    q = w.new(FME, distance=dist)
    opq = {}
    if w.symbolic:
        train, prevs = w.mat('train', K, K, 0, 1), w.simplex('prevs', K)
        opq = {'G_': w.opaque('G!', (K, K)), 'C_': w.opaque('C!', (K, K + 1)), 'b_': w.opaque('b!', (K + 1,))}
        for a, v in dict(opq, classes_=cl, train_distrib_=train, train_prevs_=prevs, problem_=None, mixtures_=None).items():
            w.setattr(q, a, v)
    else:
        n = w.int('n', K, typ=12)
        y = w.labels('y', n, cl)
        P = w.stoch('P', n, K)
        w.call(q, 'fit', w.mat('X', n, 2), y, P)
        train, prevs = w.np.array(w.attr(q, 'train_distrib_')), w.np.array(w.attr(q, 'train_prevs_'))
    if src == 'given':
        Pt = w.stoch('Pt', m, K)
        at_threshold(w, Pt, prevs)
        pr = lambda t, k: Pt[t, k]
        r = w.call(q, 'predict', None, Pt)
    else:
        Xt = w.mat('Xt', m, 2)
        w.setattr(q, 'estimator_test', est)
        pr = lambda t, k: est.p(Xt, t, k)
        r = w.call(q, 'predict', Xt)
    tv = w.flat(w.attr(q, 'test_distrib_'))
    w.ensure_arr('fraction with posterior at least the training prevalence', tv, (K,), lambda k: w.sum(m, lambda t: w.ind(atleast(w, pr(t, k), prevs[k]))) / m)
    minimiser(w, sp, dist, K, q, train, w.attr(q, 'test_distrib_'), r, opq)
    if not w.symbolic:
        w.ensure('class distributions not modified', w.np.array_equal(train, w.attr(q, 'train_distrib_')))


@contract('P20', 'FriedmanME with a user distance', trials=40)
def fme_user(w):
    n, m = w.int('n', 4, typ=15), w.int('m', 1, typ=12)
    cl = w.classes(2, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    loss = (lambda a, b: None) if w.symbolic else user_loss(w)
    q = w.new(FME, distance=loss)
    if w.symbolic:
        return user_sym(w, q, (X, y, w.stoch('P', n, 2)), [(None, w.stoch('Pt%d' % i, m, 2)) for i in range(2)])
    w.call(q, 'fit', X, y, w.stoch('P', n, 2))
    tr = w.np.asarray(w.attr(q, 'train_distrib_'))
    w.assume(w.np.abs(tr[:, 0] - tr[:, 1]).max() > 1e-9)
    for i in range(2):
        bag = w.stoch('Pt%d' % i, m, 2)
        user_try(w, q, lambda: w.call(q, 'predict', None, bag), loss)
