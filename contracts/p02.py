"""P02: the training rate matrix of the adjusted counts"""
from pydv.worlds import contract
from contracts.common import *


def rates(w, name, cm, K, entry, unit=True):
    w.ensure_arr(name, cm, (K, K), entry)
    w.forall_eq(name + ': rows sum to one', (K,), lambda i: (w.sum(K, lambda j: cm[i, j]), 1))
    if unit:
        w.forall(name + ': entries in [0,1]', (K, K), lambda i, j: w.And(w.le(0, cm[i, j]), w.le(cm[i, j], 1)))


def l2_call(w, spy, q, K, dist, cm, cl):
    if dist == 'L2':
        # K > 2: the quadratic program is built from the transposed matrix
        w.ensure('L2 parameters computed only for more than two classes', w.eq(len(spy) == 1, K > 2))
        if len(spy):
            M = spy[0]['train_distrib']
            w.forall_eq('L2 parameters computed from the transposed rate matrix', (K, K), lambda i, j: (M[i, j], cm[j, i]))
    else:
        w.ensure('no L2 parameters', len(spy) == 0)


@contract('P02', 'AC.fit, posteriors given')
def ac_given(w):
    K, n, cl, X, y = train(w)
    spy = spy_l2(w)
    P = w.stoch('P', n, K)
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    q = w.new(AC, distance=dist)
    w.call(q, 'fit', X, y, P)
    cm = w.attr(q, 'cm_')
    rates(w, 'AC: rate of class i predicted as j', cm, K, lambda i, j: w.sum(n, lambda t: w.ind(w.And(w.eq(w.li(y, t), i), w.eq(w.argmaxof(K, lambda c: P[t, c]), j)))) / class_count(w, y, n, i))
    l2_call(w, spy, q, K, dist, cm, cl)


@contract('P02', 'AC.fit, estimator')
def ac_est(w):
    K, n, cl, X, y = train(w)
    spy = spy_l2(w)
    est = w.estimator('est', cl)
    q = w.new(AC, estimator_train=est, distance='HD')
    w.call(q, 'fit', X, y)
    rates(w, 'AC: rate of class i predicted as j', w.attr(q, 'cm_'), K, lambda i, j: w.sum(n, lambda t: w.ind(w.And(w.eq(w.li(y, t), i), w.eq(est.ci(X, t), j)))) / class_count(w, y, n, i))


@contract('P02', 'PAC.fit')
def pac(w):
    K, n, cl, X, y = train(w)
    spy = spy_l2(w)
    dist = w.choose('distance', ['HD', 'L1', 'L2'])
    if w.choose('source', ['given', 'estimator']) == 'given':
        P = w.stoch('P', n, K)
        q = w.new(PAC, distance=dist)
        w.call(q, 'fit', X, y, P)
        pr = lambda t, j: P[t, j]
    else:
        est = w.estimator('est', cl)
        q = w.new(PAC, estimator_train=est, distance=dist)
        w.call(q, 'fit', X, y)
        pr = lambda t, j: est.p(X, t, j)
    cm = w.attr(q, 'cm_')
    rates(w, 'PAC: mean posterior of class i', cm, K, lambda i, j: w.sum(n, lambda t: w.ind(w.eq(w.li(y, t), i)) * pr(t, j)) / class_count(w, y, n, i))
    l2_call(w, spy, q, K, dist, cm, cl)


@contract('P02', 'AC/PAC.fit, several predictions per example')
def repeated(w):
    K, n, cl, X, y = train(w)
    r = w.choose('r', [1, 2]) if not w.symbolic else w.choose('r', [1, w.int('rr', 2)])
    P = w.stoch('P', r * n, K)
    which = w.choose('method', [AC, PAC])
    q = w.new(which, distance='HD')
    w.call(q, 'fit', X, y, P)
    cm = w.attr(q, 'cm_')
    yx = w.attr(q, 'y_ext_')
    w.ensure_arr('labels repeated once per block of predictions', yx, (r * n,), lambda t: y[w.mod(t, n)])
    if which == PAC:
        val = lambda t, j: P[t, j]
    else:
        val = lambda t, j: w.ind(w.eq(w.argmaxof(K, lambda c: P[t, c]), j))
    cls_of = lambda t: w.li(y, w.mod(t, n))
    rates(w, 'rates over all predictions', cm, K, lambda i, j: w.sum(r * n, lambda t: w.ind(w.eq(cls_of(t), i)) * val(t, j)) / w.sum(r * n, lambda t: w.ind(w.eq(cls_of(t), i))), unit=False)
