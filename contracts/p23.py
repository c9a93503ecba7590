"""P23: regression quantifiers train and predict with consistently built histograms"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p15 import pick
from contracts.p05 import edges_spec, in_bin, column

RX, RY = B + 'multiclass.regression.REGX', B + 'multiclass.regression.REGy'
GEN = 'generated training sets, bag generators, regressors and test bags only'


def setup(w):
    from contracts.stubs import Clf, Reg, bags, GENERATORS
    K = w.int('K', 2, typ=4)
    n, m = w.int('n', max(K, 4), typ=16), w.int('m', 1, typ=8)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)
    which = w.choose('class', [RX, RY])
    gen = w.choose('bags', GENERATORS)
    kw = dict(n_bags=int(w.rng.randint(1, 7)), bag_size=None if w.rng.rand() < .2 else int(w.rng.choice([3, 7, 20])), seed=int(w.rng.randint(99)))
    mk = lambda: bags(gen, **kw)
    nb = int(w.rng.randint(2, 6))
    strategy = w.choose('bins', ['equal_width', 'equal_count', 'normal', 'binormal'] if K == 2 else ['equal_width', 'equal_count', 'normal'])
    w.assume(not (strategy == 'binormal' and which == RX and n < 8))
    w.rec('parameters', (gen, kw, nb, strategy))
    return K, n, m, cl, X, y, T, which, mk, kw, nb, strategy


def concrete(w):
    from contracts.stubs import Clf, Reg, histogram
    np = w.np
    K, n, m, cl, X, y, T, which, mk, kw, nb, strategy = setup(w)
    reg = Reg(tag=int(w.rng.randint(99)), scale=float(w.rng.choice([1, 2])))
    how = w.choose('predictions', ['given', 'classifier', 'given twice']) if which == RY else None
    fk, pk, ck = {}, {}, {}
    yy = y
    if which == RY and how == 'classifier':
        est = Clf().fit(X, y)
        ck = dict(estimator_train=est, estimator_test=est)
        D, DT = est.predict_proba(X), est.predict_proba(T)
    elif which == RY:
        reps = 2 if how == 'given twice' else 1
        D, DT = w.rng.dirichlet(np.ones(K), n * reps), w.rng.dirichlet(np.ones(K), m)
        yy = np.tile(y, reps)
        fk, pk = dict(predictions_train=D), dict(predictions_test=DT)
    else:
        D, DT = X, T
    if which == RY and K == 2:
        D, DT = D[:, :1], DT[:, :1]
    gen = mk()
    o = w.new(which, bag_generator=gen, n_bins=nb, bin_strategy=strategy, regression_estimator=reg, **ck)
    res = w.call(o, 'fit', X, y, **fk)
    w.ensure('fit returns the quantifier', res is o)
    w.ensure("the user's regressor is not trained", not hasattr(reg, 'X_'))
    prev, idx = mk().generate_bags(D, yy)
    cuts = np.asarray(o.bincuts_)
    w.ensure('bins of every descriptor', cuts.shape == (D.shape[1], nb + 1))
    from quantificationlib.multiclass.df import compute_bincuts
    for a in range(D.shape[1]):
        ref = compute_bincuts(x=D[:, a], y=yy, classes=cl, n_bins=nb, bin_strategy=strategy, att_range=[0, 1] if which == RY else None)
        w.ensure('bins of descriptor %d are those of the training values' % a, np.allclose(cuts[a], ref))
    rows = np.array([np.concatenate([histogram(D[idx[:, b], a], cuts[a]) for a in range(D.shape[1])]) for b in range(kw['n_bags'])])
    regs = [o.estimators_] if K == 2 else list(o.estimators_)
    w.ensure_eq('number of regressors', len(regs), 1 if K == 2 else K)
    w.ensure('independent regressors', len({id(r) for r in regs}) == len(regs) and all(r is not reg for r in regs) and not any(hasattr(r, 'refitted_') for r in regs))
    for k, r in enumerate(regs):
        w.ensure_arr('regressor %d: one row per bag' % k, r.X_, rows.shape, lambda i, j: rows[i, j])
        w.ensure_arr('regressor %d: prevalences' % k, r.y_, (kw['n_bags'],), lambda i: prev[1 if K == 2 else k][i])
    bag = np.concatenate([histogram(DT[:, a], cuts[a]) for a in range(D.shape[1])])
    out = np.array([r.predict(bag.reshape(1, -1))[0] for r in regs])
    pos = np.clip(np.array([1 - out[0], out[0]]) if K == 2 else out, 0, 1)
    if pos.sum() == 0:
        w.ensure('all-zero predictions rejected', w.raises(lambda: w.call(o, 'predict', T, **pk), 'ValueError'))
        return
    p = w.call(o, 'predict', T, **pk)
    for k, r in enumerate(regs):
        w.ensure('regressor %d sees the test histogram' % k, r.seen_.shape == (1, len(bag)) and np.allclose(r.seen_[0], bag))
    w.ensure_arr('clipped and normalised', p, (K,), lambda k: pos[k] / pos.sum())
    is_prevalence(w, 'result', p, K)


def default_concrete(w):
    from contracts.stubs import histogram
    import statsmodels.api as sm
    np = w.np
    K, n, m, cl, X, y, T, which, mk, kw, nb, strategy = setup(w)
    kw['n_bags'] = 30
    fk, pk = {}, {}
    D, DT = X, T
    if which == RY:
        D, DT = w.rng.dirichlet(np.ones(K), n), w.rng.dirichlet(np.ones(K), m)
        fk, pk = dict(predictions_train=D), dict(predictions_test=DT)
        if K == 2:
            D, DT = D[:, :1], DT[:, :1]
    o = w.new(which, bag_generator=mk(), n_bins=nb, bin_strategy=strategy)
    w.call(o, 'fit', X, y, **fk)
    prev, idx = mk().generate_bags(D, y)
    cuts = o.bincuts_
    rows = np.array([np.concatenate([histogram(D[idx[:, b], a], cuts[a]) for a in range(D.shape[1])]) for b in range(kw['n_bags'])])
    bag = np.concatenate([histogram(DT[:, a], cuts[a]) for a in range(D.shape[1])])
    out = []
    for k in ([1] if K == 2 else range(K)):
        g = sm.GLM(endog=prev[k], exog=rows, family=sm.families.Binomial())
        out.append(float(np.squeeze(g.predict(params=g.fit().params, exog=bag))))
    out = np.array([1 - out[0], out[0]] if K == 2 else out)
    w.assume(np.isfinite(out).all() and out.sum() > 1e-6)
    p = w.call(o, 'predict', T, **pk)
    w.ensure('prevalences of a binomial regression', np.allclose(p, np.clip(out, 0, 1) / np.clip(out, 0, 1).sum(), atol=1e-5))
    is_prevalence(w, 'result', p, K)


# ------------------------------------------------------------------------------------------ any data, any generator, any regressor
def problem(w, K):
    """training set, generator and the representation (descriptor values) of the training examples"""
    from pydv.opaque import SymBags
    which = w.choose('class', [RX, RY])
    n, d, m, nb, B_, size = w.int('n', K), w.int('d', 1), w.int('m', 1), w.int('n_bins', 1), w.int('n_bags', 1), w.int('size', 1)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, d), w.labels('y', n, cl), w.mat('T', m, d)
    how = 'attributes'
    fk, pk, ck = {}, {}, {}
    D, val, tval, N, li = d, lambda i, a: X[i, a], lambda i, a: T[i, a], n, lambda i: w.li(y, i)
    if which == RY:
        how = w.choose('predictions', ['given', 'given r times', 'classifier'])
        D = 1 if two(K) else K
        if how == 'classifier':
            est = w.estimator('clf', cl)
            ck = dict(estimator_train=est, estimator_test=est)
            val, tval = (lambda i, a: est.p(X, i, a)), (lambda i, a: est.p(T, i, a))
        else:
            r = 1 if how == 'given' else w.int('r', 2)
            N = n * r
            P, PT = w.stoch('P', N, K), w.stoch('PT', m, K)
            val, tval = (lambda i, a: P[i, a]), (lambda i, a: PT[i, a])
            li = (lambda i: w.li(y, w.mod(i, n))) if how != 'given' else li
            fk, pk = dict(predictions_train=P), dict(predictions_test=PT)
    gen = SymBags(w, B_, size, K, N)
    return which, n, m, nb, size, cl, X, y, T, fk, pk, ck, D, val, tval, N, li, gen


@contract('P23', 'training set of bags', trials=60, functions=[RX + '.fit', RY + '.fit'])
def bags_set(w):
    if not w.symbolic:
        return concrete(w)
    K = w.nclasses('K', typ=3)
    which, n, m, nb, size, cl, X, y, T, fk, pk, ck, D, val, tval, N, li, gen = problem(w, K)
    cuts = edges_spec(w)
    w.spy(B + 'multiclass.regression.REG.fit_regressor')
    o = w.new(which, bag_generator=gen, n_bins=nb, bin_strategy='any strategy', regression_estimator=object(), **ck)
    w.call(o, 'fit', X, y, **fk)
    rows_spec(w, o, which, K, nb, size, D, val, N, li, gen, cuts, cl)


def rows_spec(w, o, which, K, nb, size, D, val, N, li, gen, cuts, cl):
    w.ensure('bags are drawn once', len(gen.asked) == 1)
    GX, Gy = gen.asked[0]
    w.ensure_arr('bags of the training representation', GX, (N, D), val)
    w.ensure_eq('one label per row', w.axlen(Gy, 0), N)
    w.forall('bags: label of every row', (N,), lambda i: w.eq(Gy[i], cl[li(i)]))
    for a in cuts:
        w.ensure('strategy and number of bins passed on', a['bin_strategy'] == 'any strategy' and a['n_bins'] is nb)
        w.ensure('range of the descriptors', a['att_range'] == ([0, 1] if which == RY else None))
        w.ensure_eq('edges of all the examples', w.axlen(a['x'], 0), N)
        w.forall('edges with their labels', (N,), lambda i: w.eq(a['y'][i], cl[li(i)]))
    DX, DY = w.attr(o, 'dataX_'), w.attr(o, 'dataY_')
    V = w.build((N, D), val)
    h = lambda b, a, t: w.sum(size, lambda s: in_bin(w, nb, column(w, V, a), V[gen.idx[s, b], a], t)) / size
    w.ensure_eq('one row per bag', w.axlen(DX, 0), gen.n_bags)
    w.ensure_eq('all bins of all descriptors', w.axlen(DX, 1), D * nb)
    w.forall_eq('proportion of the examples of the bag in each bin', (gen.n_bags, D, nb), lambda b, a, t: (DX[b, a * nb + t], h(b, a, t)))
    w.ensure_arr('target: prevalences of the bag', DY, (gen.n_bags, K), lambda b, k: gen.prev[k, b])


@contract('P23', 'regressors and predictions', trials=60, seconds=60)
def regressors(w):
    predictions(w, True)


@contract('P23', 'default regressor', trials=25, seconds=60)
def default(w):
    predictions(w, False)


def predictions(w, user):
    if not w.symbolic:
        return concrete(w) if user else default_concrete(w)
    from pydv.opaque import SymReg, reg_value, glm_value
    from pydv.npmodel import lam
    from pydv.arrays import Arr
    K = w.nclasses('K', typ=3)
    which, n, m, nb, size, cl, X, y, T, fk, pk, ck, D, val, tval, N, li, gen = problem(w, K)
    cuts = edges_spec(w)
    reg = SymReg() if user else None
    o = w.new(which, bag_generator=gen, n_bins=nb, bin_strategy='any strategy', regression_estimator=reg, **ck)
    res = w.call(o, 'fit', X, y, **fk)
    w.ensure_same('fit returns the quantifier', res, o)
    rows = w.attr(o, 'dataX_')          # the rows specified by the contract above
    if user:
        w.ensure("the user's regressor is not trained", reg.train is None and all(r[0] is not reg for r in reg.fits))
        for _, A, b in reg.fits:
            w.ensure_arr('one row per bag', A, (gen.n_bags, D * nb), lambda i, j: rows[i, j])
            w.ensure_eq('one prevalence per bag', w.axlen(b, 0), gen.n_bags)
    rej = w.raises(lambda: w.call(o, 'predict', T, **pk), 'ValueError')
    V = w.build((m, D), tval)
    W = w.build((N, D), val)
    h = lambda a, t: w.sum(m, lambda i: in_bin(w, nb, column(w, W, a), V[i, a], t)) / m
    if user:
        A = reg.seen[-1]
        w.ensure_eq('one test row', w.axlen(A, 0), 1)
        w.ensure_eq('all bins of all descriptors', w.axlen(A, 1), D * nb)
        w.forall_eq('histogram of the test examples', (D, nb), lambda a, t: (A[0, a * nb + t], h(a, t)))
    else:
        A = w.build((1, D * nb), lambda _, j: h(w.div(j, nb), w.mod(j, nb)))
    pf, af = gen.prev.snap(), A.snap()
    target = lambda k: lam(Arr([gen.prev.axes[1]], lambda i: pf(((0, w.tm.lift(k)), i[0])), 'num'))
    out = lambda k: (reg_value if user else glm_value)((lam(rows), target(k)), lam(Arr([A.axes[1]], lambda i: af(((0, w.tm.ZERO), i[0])), 'num')))
    clip = lambda v: w.clip(v, 0, 1)
    if two(K):
        pos = lambda k: w.ite(w.eq(k, 0), clip(1 - out(1)), clip(out(1)))
    else:
        pos = lambda k: clip(out(k))
    S = w.sum(K, pos)
    w.nonneg_sum(K, pos)
    w.ensure('all-zero predictions are rejected, no others', w.eq(S, 0) if rej else w.lt(0, S))
    if rej:
        return
    p = w.call(o, 'predict', T, **pk)
    w.ensure_arr('clipped and normalised predictions of the regressor of each class', p, (K,), lambda k: pos(k) / S)
    w.forall('result: in [0,1]', (K,), lambda k: (w.member(K, pos, k), w.And(w.le(0, p[k]), w.le(p[k], 1)))[1])
    w.ensure_eq('result: sums to one', w.sum(K, lambda k: p[k]), 1)
