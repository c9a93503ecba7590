"""P04: EM"""
from pydv.worlds import contract
from contracts.common import *

EM = B + 'multiclass.em.EM'


@contract('P04', 'EM.fit: training prevalences')
def em_fit(w):
    K, n, cl, X, y = train(w)
    src = w.choose('source', ['given', 'repeated', 'estimator'])
    q = w.new(EM) if src != 'estimator' else w.new(EM, estimator_train=w.estimator('est', cl))
    if src == 'estimator':
        w.call(q, 'fit', X, y)
    else:
        r = 1 if src == 'given' else w.int('r', 2, typ=2)
        w.call(q, 'fit', X, y, w.stoch('P', n * r, K))
    w.ensure_arr('class proportions of the labels', w.attr(q, 'prevalences_train_'), (K,), lambda k: class_count(w, y, n, k) / n)


@contract('P04', 'EM.predict: fixed point iteration')
def em_predict(w):
    K = w.int('K', 2, typ=3)
    m = w.int('m', 1, typ=6)
    cl = w.classes(K, strings=True)
    pi = w.simplex('pi', K)
    P = w.stoch('P', m, K)
    maxit = w.int('max_iter', 0, typ=25)
    eps = w.real('epsilon', 0) if w.symbolic else w.choose('epsilon', [1e-4, 1e-2, 0.0, 1e-6, .05])
    est = w.estimator('est', cl)
    src = w.choose('source', ['given', 'estimator'])
    if not w.symbolic:
        w.np.copyto(pi, (pi + .05) / (1 + .05 * K))
        w.np.copyto(P, (P + .01) / (1 + .01 * K))
        w.inputs = [(n, a, a.copy()) for n, a, _ in w.inputs]
    else:
        w.fact('pi', lambda j: w.lt(0, pi[j]))
        w.fact('P', lambda t, j: w.lt(0, P[t, j]))
    q = w.new(EM, epsilon=eps, max_iter=maxit)
    w.setattr(q, 'classes_', cl)
    w.setattr(q, 'prevalences_train_', pi)
    X = w.mat('Xt', m, 2)
    if src == 'estimator':
        w.setattr(q, 'estimator_test', est)
        post = lambda t, j: est.p(X, t, j)
    else:
        post = lambda t, j: P[t, j]

    def step(S):
        f = lambda j: w.sum(m, lambda t: post(t, j) * S(j) / pi[j] / w.sum(K, lambda c: post(t, c) * S(c) / pi[c])) / m
        return f

    def cont(k, S, Sp):
        if Sp is None:
            return w.lt(k, maxit)
        mae = w.sum(K, lambda j: w.abs(S(j) - Sp(j))) / K
        return w.And(w.lt(k, maxit), w.Or(w.lt(eps, mae), w.lt(k, 10)))
    if w.symbolic:
        tm = w.tm

        def setup():
            nm = 'em_S!'
            tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, tm.ONE)
            tm.STOCH[nm] = [(1, tm.lift(K), None)]
            w.fact(nm, lambda k, j: w.lt(0, tm.app(nm, (k, j))))
            if src == 'estimator':
                w.fact(est.nm('pp'), lambda r, j: w.lt(0, tm.app(est.nm('pp'), (r, j))))
        rec = w.recurrence('em', {'S': ((K,), lambda j: pi[j])}, lambda s: {'S': step(s['S'])}, lambda k, s, sp: cont(k, s['S'], sp and sp['S']), setup)
        r = w.call(q, 'predict', X) if src == 'estimator' else w.call(q, 'predict', None, P)
        if rec.exit is None:
            w.ensure('the iteration is performed', False)
            return
        if rec.exit[0] == 'entry':
            w.ensure_arr('no iteration allowed: training prevalences', r, (K,), lambda j: pi[j])
            return
        k = rec.exit[1]
        S = rec.at('S', k)
        w.ensure_arr('result is the state at the first stop', r, (K,), lambda j: S(j))
        # the invariant assumed of the state is itself preserved
        F = step(S)
        w.ensure_eq('invariant: sums to one', w.sum(K, F), 1)
        w.forall('invariant: positive', (K,), lambda j: w.lt(0, F(j)))
        w.forall('invariant: at most one', (K,), lambda j: (w.member(K, F, j), w.le(F(j), 1))[1])
        F0 = step(lambda j: pi[j])
        w.ensure_eq('invariant initially: sums to one', w.sum(K, F0), 1)
        w.forall('invariant initially: positive', (K,), lambda j: w.lt(0, F0(j)))
        return
    r = w.call(q, 'predict', X) if src == 'estimator' else w.call(q, 'predict', None, P)
    np = w.np
    PP = np.array([[post(t, j) for j in range(K)] for t in range(m)])
    S, Sp, k = pi.copy(), None, 0
    margin = True
    while cont(k, lambda j: S[j], Sp if Sp is None else (lambda j: Sp[j])):
        if k >= 10 and k < maxit:
            margin = margin and abs(np.abs(S - Sp).mean() - eps) > 1e-9
        U = PP * (S / pi)
        S, Sp, k = (U / U.sum(1, keepdims=True)).mean(0), S, k + 1
    if k >= 10 and k < maxit:
        margin = margin and abs(np.abs(S - Sp).mean() - eps) > 1e-9
    w.assume(margin)
    w.ensure_arr('result of the fixed point iteration', r, (K,), lambda j: S[j])
    is_prevalence(w, 'result', r, K)
    w.ensure_arr('training prevalences untouched', w.attr(q, 'prevalences_train_'), (K,), lambda j: pi[j])
    w.ensure('another array than the training prevalences', r is not w.attr(q, 'prevalences_train_') or maxit == 0)
