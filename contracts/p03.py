"""P03: adjusted count predictions"""
from pydv.worlds import contract
from contracts.common import *

PWKQ = B + 'multiclass.knn.PWKQuantifier'


def fitted(w, qual, K, cl, cm, **k):
    """an object in the state established by fit (P02): classes, row-stochastic rate matrix, no cached problem"""
    q = w.new(qual, **k)
    w.setattr(q, 'classes_', cl)
    w.setattr(q, 'cm_', cm)
    w.setattr(q, 'problem_', None)
    return q


def rate_matrix(w, K):
    if w.symbolic:
        return w.stoch('cm', K, K)
    cm = w.stoch('cm', K, K)
    np = w.np
    m = w.rng.randint(4)
    if m == 0:      # exactly singular
        cm[1] = cm[0]
        if w.rng.rand() < .5:
            cm[:] = np.eye(K)
            cm[1] = cm[0]
    elif m == 1:
        cm[:] = 0.7 * np.eye(K) + 0.3 / K
    elif m == 2 and K == 2:
        cm[1] = np.clip(cm[0] + np.array([-1, 1]) * w.rng.choice([.0005, .002, .001]), 0, 1)
        cm[1, 0] = 1 - cm[1, 1]
    elif m == 3:
        cm[:] = 0.6 * np.eye(K) + 0.4 * cm
    w.inputs[-1] = ('cm', cm, cm.copy())
    return cm


def unadjusted(w, K, m, how, prob, cl, q):
    """test predictions and the unadjusted estimate"""
    if how == 'given':
        P = w.stoch('P', m, K)
        if prob:
            return None, P, lambda j: w.sum(m, lambda t: P[t, j]) / m
        return None, P, lambda j: w.sum(m, lambda t: w.ind(w.eq(w.argmaxof(K, lambda c: P[t, c]), j))) / m
    X = w.mat('Xt', m, 2)
    est = w.estimator('est', cl)
    w.setattr(q, 'estimator_test' if how == 'estimator' else 'knn_estimator_', est)
    if prob:
        return X, None, lambda j: w.sum(m, lambda t: est.p(X, t, j)) / m
    return X, None, lambda j: w.sum(m, lambda t: w.ind(w.eq(est.ci(X, t), j))) / m


def check_binary(w, name, r, p0, cm):
    tpr, fpr = cm[1, 1], cm[0, 1]
    a, b = p0(0), p0(1)
    q = w.let('unadjusted', b, 0, 1)
    w.let_as('unadjusted prevalences sum to one', a, 1 - q)
    p0 = lambda k: q
    far = w.lt(w.real_const(0.001), w.abs(tpr - fpr))
    want = w.clip((p0(1) - fpr) / (tpr - fpr), 0, 1) if w.holds(far) else p0(1)
    w.ensure_arr(name, r, (2,), lambda k: want if int_(k) == 1 else 1 - want)
    is_prevalence(w, name, r, 2)


def int_(k):
    return int(k.const()) if hasattr(k, 'const') else int(k)


def adjust(w, qual, prob, how, dists):
    K = w.nclasses('K', typ=3)
    m = w.int('m', 1, typ=6)
    cl = w.classes(K, strings=True)
    cm = rate_matrix(w, K)
    dist = w.choose('distance', dists)
    k = {} if dist is None else {'distance': dist}
    q = fitted(w, qual, K, cl, cm, **k)
    G, C, b = w.opaque('G!', (K, K)), w.opaque('C!', (K, K + 1)), w.opaque('b!', (K + 1,))
    if not w.symbolic and K > 2 and dist == 'L2':
        G, C, b = w.fn(OPT + 'compute_l2_param_train')(cm.T, cl)
    if dist is not None:
        for nm, v in (('G_', G), ('C_', C), ('b_', b)):
            w.setattr(q, nm, v)
    spies = {s: spy_solve(w, s) for s in ('solve_hd', 'solve_l1', 'solve_l2')}
    X, P, p0 = unadjusted(w, K, m, how, prob, cl, q)
    inverse = v = None
    if not w.symbolic:
        sing = w.np.linalg.matrix_rank(cm) < K
        cond = w.np.linalg.cond(cm)
        w.assume(K == 2 or sing or cond < 1e5 or dist is None)
        try:
            from scipy import linalg
            inverse = linalg.inv(cm.T)
            w.assume(not sing or K == 2 or dist is None)     # rounding hides the singularity from LAPACK
        except w.np.linalg.LinAlgError:
            pass
    if w.symbolic and not two(K) and dist is not None:
        inverse = w.inverse_of(w.attr(cm, 'T'))
        # v: the solution of the linear system
        v = w.let_family('v', K, lambda k: w.sum(K, lambda j: inverse[k, j] * p0(j)), stoch=True,
                         using=[lambda v: w.sum(K, lambda k: w.ind(w.lt(v(k), 0)) * v(k))])
    if P is None:
        r = w.call(q, 'predict', X)
    else:
        r = w.call(q, 'predict', None, P)
    calls = {s: v for s, v in spies.items() if len(v)}
    if two(K):
        check_binary(w, 'binary adjustment', r, p0, cm)
        return
    w.ensure_eq('result: length', w.axlen(r, 0), K)
    pos = (lambda k: w.max(v(k), 0)) if w.symbolic and v is not None else None
    w.forall('result: in [0,1]', (K,), lambda k: (pos and w.member(K, pos, k), w.And(w.le(0, r[k]), w.le(r[k], 1)))[1])
    w.ensure_eq('result: sums to one', w.sum(K, lambda k: r[k]), 1)
    cmT = w.attr(cm, 'T')
    if w.symbolic:
        singular = w.is_singular(cmT)
    else:
        singular = inverse is None
    if dist is not None and not w.holds(singular):
        v = v if w.symbolic else (lambda k: w.sum(K, lambda j: inverse[k, j] * p0(j)))
        z = w.sum(K, lambda k: w.max(v(k), 0))
        w.ensure_arr('solution of the linear system, negatives removed, normalised', r, (K,), lambda k: w.max(v(k), 0) / z)
        return
    want = {'HD': 'solve_hd', 'L1': 'solve_l1', 'L2': 'solve_l2', None: 'solve_l1'}[dist]
    if w.symbolic:
        w.ensure('the configured distance is minimised, once', set(calls) == {want} and len(calls[want]) == 1)
        a = calls[want][0]
        M, t = a['train_distrib'], a['test_distrib']
        w.forall_eq('mixture of transposed rates', (K, K), lambda i, j: (M[i, j], cm[j, i]))
        t = w.flat(t)
        w.ensure_arr('target is the unadjusted estimate', t, (K,), p0)
        if want == 'solve_l2':
            w.ensure('quadratic programme of the fit', a['G'] is G and a['C'] is C and a['b'] is b)
        else:
            w.ensure('no problem of an earlier fit', a['problem'] is None)
            w.ensure_eq('number of classes', a['n_classes'], K)
            w.ensure('problem kept for the next bag', w.attr(q, 'problem_') == 'problem!')
        w.forall_eq('result is the minimiser', (K,), lambda k: (r[k], w.tm.app(want + '!', (k,))))
    else:
        optimal(w, cm.T, [p0(j) for j in range(K)], r, dist or 'L1')


@contract('P03', 'AC.predict')
def ac(w):
    adjust(w, AC, False, w.choose('source', ['given', 'estimator']), ['HD', 'L1', 'L2'])


@contract('P03', 'PAC.predict')
def pac(w):
    adjust(w, PAC, True, w.choose('source', ['given', 'estimator']), ['HD', 'L1', 'L2'])


@contract('P03', 'PWKQuantifier.predict')
def pwk(w):
    adjust(w, PWKQ, False, 'knn', [None])


@contract('P03', 'unsupported distance')
def unsupported(w):
    K = w.int('K', 3, typ=2)
    m = w.int('m', 1, typ=6)
    cl = w.classes(K, strings=True)
    cm = rate_matrix(w, K)
    which = w.choose('method', [AC, PAC])
    q = fitted(w, which, K, cl, cm, distance='EMD')
    P = w.stoch('P', m, K)
    if w.symbolic:
        w.assume(w.is_singular(w.attr(cm, 'T')))
    else:
        cm[:] = 0
        cm[:, 0] = 1
        w.inputs = []
    w.ensure('rejected with ValueError', w.raises(lambda: w.call(q, 'predict', None, P)))


@contract('P03', 'exact recovery')
def recovery(w):
    """an unadjusted estimate produced by the rates from some prevalences q gives back q (formula of the two contracts above)"""
    K = w.nclasses('K', typ=3)
    cl = w.classes(K, strings=True)
    cm = rate_matrix(w, K)
    pi = w.simplex('q', K)
    if w.symbolic:
        P = w.build((1, K), lambda t, j: w.sum(K, lambda i: cm[i, j] * pi[i]))
    else:
        P = (pi @ cm).reshape(1, K)
        w.assume(w.np.linalg.cond(cm) < 1e4)
    q = fitted(w, PAC, K, cl, cm, distance='HD')
    spy_solve(w, 'solve_hd')
    r = w.call(q, 'predict', None, P)
    if w.symbolic:
        if two(K):
            w.assume(w.lt(w.real_const(0.001), w.abs(cm[1, 1] - cm[0, 1])))
        else:
            w.assume(w.Not(w.is_singular(w.attr(cm, 'T'))))
    elif K == 2:
        w.assume(abs(cm[1, 1] - cm[0, 1]) > 0.0011)
    w.ensure_arr('returns q', r, (K,), lambda k: pi[k])
