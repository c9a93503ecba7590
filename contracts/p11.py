"""P11: predictions come from the right source and are converted faithfully"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p05 import edges_spec

UC = B + 'base.UsingClassifiers'
# method, works on posteriors, uses predictions of the training data, only two classes, constructor arguments
METHODS = [(CC, False, False, False, {}), (PCC, True, False, False, {}), (AC, False, True, False, {}), (PAC, True, True, False, {}),
           (B + 'multiclass.em.EM', True, True, False, {}), (B + 'multiclass.df.DFy', True, True, False, {}), (B + 'multiclass.df.HDy', True, True, False, {}),
           (B + 'multiclass.energy.EDy', True, True, False, {}), (B + 'multiclass.energy.CvMy', True, True, False, {}),
           (B + 'binary.emd.SORDy', True, True, True, {}), (B + 'binary.quantiles.QUANTy', True, True, True, {}), (B + 'binary.debias.DeBias', True, True, True, {}),
           (B + 'multiclass.friedman.FriedmanME', True, True, False, {}), (B + 'ordinal.ac_ordinal.ACOrdinal', False, True, False, {}),
           (B + 'ordinal.pdf.PDFOrdinaly', True, True, False, {})]


def fitted_on(w, name, est, before, X, y):
    """an estimator that came fitted is left alone, the other one is fitted once, on the data given"""
    w.ensure_eq(name + ': number of fits', est.nfits, 0 if before else 1)
    if not before and est.nfits == 1:
        tX, ty = est.train[est.state]
        same(w, name + ': fitted on the examples given', tX, X)
        same(w, name + ': fitted on the labels given', ty, y)


def same(w, name, a, b):
    if w.symbolic:
        w.ensure_same(name, a, b)
    else:
        w.ensure(name, w.np.array_equal(a, b))


def crisp_of(w, given, P, K, yt, est, X):
    """class index of prediction i"""
    if given == 'posteriors':
        return lambda i: w.argmaxof(K, lambda j: P[i, j])
    if given == 'labels':
        return lambda i: w.li(yt, i)
    return lambda i: est.ci(X, i)


@contract('P11', 'predictions of the training data', trials=120)
def fit_source(w):
    K = w.nclasses('K', typ=4)
    n = w.int('n', K, typ=10)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    prob, needs = w.choose('posteriors wanted', [True, False]), w.choose('training predictions needed', [True, False])
    given = w.choose('given', ['nothing', 'posteriors', 'repeated posteriors'] + ([] if prob else ['labels']))
    r = w.int('r', 2, typ=2) if given == 'repeated posteriors' else 1
    tr = w.choose('training estimator', ['none', 'fitted', 'unfitted'])
    te = w.choose('test estimator', ['none', 'fitted', 'unfitted'])
    etr = w.estimator('etr', cl, fitted=tr == 'fitted') if tr != 'none' else None
    ete = w.estimator('ete', cl, fitted=te == 'fitted') if te != 'none' else None
    P = yt = None
    if given == 'labels':
        yt = w.labels('yt', n, cl, cover=False)
    elif given != 'nothing':
        P = w.stoch('P', n * r, K)
    arg = yt if given == 'labels' else P
    q = w.new(UC, estimator_train=etr, estimator_test=ete, needs_predictions_train=needs, probabilistic_predictions=prob)
    if needs and etr is None and arg is None:
        w.ensure('no source: ValueError', w.raises(lambda: w.call(q, 'fit', X, y, arg), 'ValueError'))
        return
    w.call(q, 'fit', X, y, arg)
    w.ensure_arr('classes in sorted order', w.attr(q, 'classes_'), (K,), lambda k: cl[k])
    if etr is not None:
        fitted_on(w, 'training estimator', etr, tr == 'fitted', X, y)
    if ete is not None:
        fitted_on(w, 'test estimator', ete, te == 'fitted', X, y)
    p = w.attr(q, 'predictions_train_')
    if not needs:
        w.ensure('no training predictions computed', p is None)
        return
    if arg is None and prob:
        w.ensure_arr('posteriors of the training estimator', p, (n, K), lambda i, k: etr.p(X, i, k))
    elif prob:
        same(w, 'the posteriors given', p, P)
    else:
        ci = crisp_of(w, 'posteriors' if P is not None else given, P, K, yt, etr, X)
        w.ensure_arr('labels', p, (n * r,), lambda i: cl[ci(i)])
    ye = w.attr(q, 'y_ext_')
    w.ensure_arr('labels of the examples, once per prediction', ye, (n * r,), lambda t: y[w.mod(t, n)] if given == 'repeated posteriors' else y[t])


@contract('P11', 'predictions of the test data', trials=120)
def predict_source(w):
    K = w.nclasses('K', typ=4)
    n, m = w.int('n', K, typ=8), w.int('m', 1, typ=10)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    prob = w.choose('posteriors wanted', [True, False])
    given = w.choose('given', ['nothing', 'posteriors'] + ([] if prob else ['labels']))
    te = w.choose('test estimator', ['none', 'fitted', 'unfitted'])
    ete = w.estimator('ete', cl, fitted=te == 'fitted') if te != 'none' else None
    etr = w.estimator('etr', cl)
    q = w.new(UC, estimator_train=etr, estimator_test=ete, needs_predictions_train=w.choose('training predictions needed', [True, False]), probabilistic_predictions=prob)
    w.call(q, 'fit', X, y)
    P = yt = None
    if given == 'labels':
        yt = w.labels('yt', m, cl, cover=False)
    elif given == 'posteriors':
        P = w.stoch('P', m, K)
    arg = yt if given == 'labels' else P
    Xt = w.mat('Xt', m, 2)
    if ete is None and arg is None:
        w.ensure('no source: ValueError', w.raises(lambda: w.call(q, 'predict', Xt, arg), 'ValueError'))
        return
    fits = 0 if ete is None else ete.nfits
    if arg is not None and w.choose('examples', ['also given', 'omitted']) == 'omitted':
        w.call(q, 'predict', None, arg)
    else:
        w.call(q, 'predict', Xt, arg)
    if ete is not None:
        w.ensure_eq('predicting fits nothing', ete.nfits, fits)
    w.ensure_eq('predicting fits nothing (training estimator)', etr.nfits, 0)
    p = w.attr(q, 'predictions_test_')
    if arg is None and prob:
        w.ensure_arr('posteriors of the test estimator', p, (m, K), lambda i, k: ete.p(Xt, i, k))
    elif prob:
        same(w, 'the posteriors given', p, P)
    else:
        ci = crisp_of(w, given, P, K, yt, ete, Xt)
        w.ensure_arr('labels', p, (m,), lambda i: cl[ci(i)])


def isolate(w, qual):
    """what happens to the predictions afterwards is left open (P02 to P10, P20, P21 specify it)"""
    if not w.symbolic:
        return
    w.it.check_defined = False
    for s in ('solve_hd', 'solve_l1', 'solve_l2'):
        spy_solve(w, s)
    spy_l2(w)
    edges_spec(w)
    K = lambda a: w.length(a['classes'])
    simplex = lambda w, a: simplex_result(w, 'pred!', 2)
    for m in ('multiclass.energy.', 'optimization.'):
        w.spy(B + m + 'compute_ed_param_train', lambda w, a: tuple(w.arr(x, (2,), track=False) for x in ('K!', 'G!', 'C!', 'b!')))
        w.spy(B + m + 'compute_ed_param_test', lambda w, a: w.arr('a!', (2,), track=False))
        w.spy(B + m + 'solve_ed', simplex)
    w.spy(B + 'search.compute_quantiles', lambda w, a: w.arr('quantiles!', (8,), track=False))
    w.spy(B + 'search.global_search', lambda w, a: ('mixtures!', simplex_result(w, 'pred!', 2)))
    w.spy(B + 'search.golden_section_search', lambda w, a: (0, simplex_result(w, 'pred!', 2)))


def method(w, qual, prob, needs, binary, kw):
    K = 2 if binary else w.int('K', 3 if 'PDFOrd' in qual else 2, typ=4)
    n, m = w.int('n', K, typ=10), w.int('m', 1, typ=8)
    cl = w.classes(K)
    X, y, Xt = w.mat('X', n, 2), w.labels('y', n, cl), w.mat('Xt', m, 2)
    isolate(w, qual)
    how = w.choose('predictions', ['own estimators, fitted', 'own estimators, unfitted', 'given'])
    was = how != 'own estimators, unfitted'
    ete, etr = w.estimator('ete', cl, fitted=was), w.estimator('etr', cl, fitted=was)
    q = w.new(qual, estimator_test=ete, **dict(kw, **({'estimator_train': etr} if needs else {})))
    P = Pt = None
    if how == 'given':
        P = w.stoch('P', n, K) if prob else w.labels('P', n, cl)
        Pt = w.stoch('Pt', m, K) if prob else w.labels('Pt', m, cl, cover=False)
        w.call(q, 'fit', X, y, P) if needs else w.call(q, 'fit', X, y)
    else:
        w.call(q, 'fit', X, y)
    if w.symbolic and qual.endswith('.EM'):      # the sources of EM.predict: P04
        pass
    elif w.symbolic:
        w.call(q, 'predict', Xt, Pt)
    else:
        try:
            q.predict(Xt, Pt)
        except ValueError as e:     # a flat user distance, specified in P09
            w.assume('infinite minima' in str(e))
    if needs:
        fitted_on(w, 'training estimator', etr, was, X, y)
    fitted_on(w, 'test estimator', ete, was, X, y)
    p, pt = w.attr(q, 'predictions_train_'), w.attr(q, 'predictions_test_')
    if how == 'given':
        if needs and prob:
            same(w, 'the posteriors given for the training data', p, P)
        elif needs:
            w.ensure_arr('the labels given for the training data', p, (n,), lambda i: P[i])
        if pt is None and w.symbolic and qual.endswith('.EM'):
            pass
        elif prob:
            same(w, 'the posteriors given for the test data', pt, Pt)
        else:
            w.ensure_arr('the labels given for the test data', pt, (m,), lambda i: Pt[i])
        return
    if needs and prob:
        w.ensure_arr('posteriors of the training estimator', p, (n, K), lambda i, k: etr.p(X, i, k))
    elif needs:
        w.ensure_arr('labels of the training estimator', p, (n,), lambda i: cl[etr.ci(X, i)])
    if pt is None and w.symbolic and qual.endswith('.EM'):
        pass
    elif prob:
        w.ensure_arr('posteriors of the test estimator', pt, (m, K), lambda i, k: ete.p(Xt, i, k))
    else:
        w.ensure_arr('labels of the test estimator', pt, (m,), lambda i: cl[ete.ci(Xt, i)])


for _q, _p, _n, _b, _k in METHODS:
    contract('P11', _q.rsplit('.', 1)[1] + ': sources', trials=40)(lambda w, a=(_q, _p, _n, _b, _k): method(w, *a))
