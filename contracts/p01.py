"""P01: CC / PCC return the exact class frequencies / mean posteriors, on the simplex"""
from pydv.worlds import contract

CC = 'quantificationlib.baselines.cc.CC'
PCC = 'quantificationlib.baselines.cc.PCC'


def is_prevalence(w, name, p, K):
    w.forall(name + ': in [0,1]', (K,), lambda k: w.And(w.le(0, p[k]), w.le(p[k], 1)))
    w.ensure_eq(name + ': sums to one', w.sum(K, lambda k: p[k]), 1)


@contract('P01', 'CC with an estimator')
def cc_est(w):
    K = w.int('K', 2, typ=4)
    m = w.int('m', 1, typ=12)
    n = w.int('n', K, typ=8)
    d = w.int('d', 1, typ=3)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, d), w.labels('y', n, cl)
    Xt = w.mat('Xt', m, d)
    est = w.estimator('est', cl)
    q = w.new(CC, estimator_test=est)
    w.call(q, 'fit', X, y)
    p = w.call(q, 'predict', Xt)
    w.ensure_arr('CC: class frequencies', p, (K,), lambda k: w.sum(m, lambda i: w.ind(w.eq(est.ci(Xt, i), k))) / m)
    is_prevalence(w, 'CC', p, K)


@contract('P01', 'CC with given crisp posteriors')
def cc_probs(w):
    K = w.int('K', 2, typ=4)
    m = w.int('m', 1, typ=12)
    n = w.int('n', K, typ=8)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    P = w.stoch('P', m, K)
    q = w.new(CC)
    w.call(q, 'fit', X, y)
    p = w.call(q, 'predict', None, predictions_test=P)
    w.ensure_arr('CC: arg-max frequencies', p, (K,), lambda k: w.sum(m, lambda i: w.ind(w.eq(w.argmaxof(K, lambda j: P[i, j]), k))) / m)
    is_prevalence(w, 'CC', p, K)


@contract('P01', 'PCC')
def pcc(w):
    K = w.int('K', 2, typ=4)
    m = w.int('m', 1, typ=12)
    n = w.int('n', K, typ=8)
    d = w.int('d', 1, typ=3)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, d), w.labels('y', n, cl)
    if w.choose('source', ['given', 'estimator']) == 'given':
        P = w.stoch('P', m, K)
        q = w.new(PCC)
        w.call(q, 'fit', X, y)
        p = w.call(q, 'predict', None, predictions_test=P)
        w.ensure_arr('PCC: mean posterior', p, (K,), lambda k: w.sum(m, lambda i: P[i, k]) / m)
    else:
        est = w.estimator('est', cl)
        Xt = w.mat('Xt', m, d)
        q = w.new(PCC, estimator_test=est)
        w.call(q, 'fit', X, y)
        p = w.call(q, 'predict', Xt)
        w.ensure_arr('PCC: mean posterior', p, (K,), lambda k: w.sum(m, lambda i: est.p(Xt, i, k)) / m)
    is_prevalence(w, 'PCC', p, K)


@contract('P01', 'CC with given labels')
def cc_labels(w):
    K = w.nclasses('K', typ=4)
    m = w.int('m', 1, typ=12)
    n = w.int('n', K, typ=8)
    if not w.symbolic:
        m = w.choose('bag size', [m] * 11 + [70000])
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    yt = w.labels('yt', m, cl, cover=False)
    q = w.new(CC)
    w.call(q, 'fit', X, y)
    p = w.call(q, 'predict', None, predictions_test=yt)
    w.ensure_arr('CC: label frequencies', p, (K,), lambda k: w.sum(m, lambda i: w.ind(w.eq(w.li(yt, i), k))) / m)
    is_prevalence(w, 'CC', p, K)


@contract('P01', 'CC with given positive-class probabilities')
def cc_onecol(w):
    m = w.int('m', 1, typ=12)
    n = w.int('n', 2, typ=8)
    cl = w.classes(2, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    if w.choose('shape', ['flat', 'column']) == 'flat':
        P = w.vec('P', m, 0, 1)
        pr = lambda i: P[i]
    else:
        P = w.mat('P', m, 1, 0, 1)
        pr = lambda i: P[i, 0]
    q = w.new(CC)
    w.call(q, 'fit', X, y)
    p = w.call(q, 'predict', None, predictions_test=P)
    w.ensure_arr('CC: share of probabilities of at least one half', p, (2,),
                 lambda k: w.sum(m, lambda i: w.ite(w.le(0.5, pr(i)), w.ind(w.eq(k, 1)), w.ind(w.eq(k, 0)))) / m)
    is_prevalence(w, 'CC', p, 2)
