"""P12: results depend on the data given, not on the history of the object; inputs stay intact"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p05 import edges_spec
from contracts.p08 import distance
from contracts.p11 import METHODS

SOLVERS = {'solve_hd': True, 'solve_l1': True, 'solve_l2': False, 'solve_ed': False}


def same_value(w, name, a, b):
    if a is None or b is None:
        w.ensure(name, a is b)
    elif w.symbolic:
        from pydv.arrays import Arr
        if isinstance(a, Arr) and isinstance(b, Arr):
            ls = [w.axlen(b, d) for d in range(b.ndim)]
            w.ensure_arr(name, a, tuple(ls), (lambda *i: b[i if len(i) > 1 else i[0]]))
        elif isinstance(a, (str, list)) or isinstance(b, (str, list)):
            w.ensure(name, a == b)
        else:
            w.ensure_eq(name, a, b)


def spies(w):
    """every solver call is recorded; its result is left open (P03, P05, P07 to P10 specify it)"""
    recs = []
    if not w.symbolic:
        return recs

    def solver(which, stateful):
        def res(w, a):
            K = a.get('n_classes')
            if K is None:
                K = w.axlen(a['G'], 0) + (1 if which == 'solve_ed' else 0)
            tag = 'problem%d' % len(recs)
            p = simplex_result(w, 'pred%d!' % len(recs), K)
            recs.append((which, a, tag))
            return (tag, p) if stateful else p
        return res
    for s, st in SOLVERS.items():
        w.spy(OPT + s, solver(s, st))
    w.spy(OPT + 'compute_l2_param_train', opaque_of)
    w.spy(OPT + 'is_pd', lambda w, a: False)
    w.spy(OPT + 'nearest_pd', repaired)
    edges_spec(w)
    w.spy(B + 'search.compute_quantiles', quantiles_of)

    def search(name):
        def res(w, a):
            tag = 'mixtures%d' % len(recs)
            recs.append((name, a, tag))
            return (tag, simplex_result(w, 'pred%d!' % len(recs), 2)) if name == 'global_search' else (0, simplex_result(w, 'pred%d!' % len(recs), 2))
        return res
    w.spy(B + 'search.global_search', search('global_search'))
    w.spy(B + 'search.golden_section_search', search('golden_section_search'))
    return recs


def lam_of(a):
    from pydv.npmodel import lam
    return lam(a)


def repaired(w, a):
    """test and repair together: a function of the matrix (P24), the matrix itself when it passes"""
    from pydv.arrays import Arr
    l = lam_of(a['A'])
    return Arr(a['A'].axes, lambda i: w.tm.app('repaired!', (l,) + tuple(x[1] for x in i)), 'num')


def opaque_of(w, a):
    """the quadratic programme is a function of the class distributions (P07)"""
    from pydv.arrays import Arr, axis
    from pydv.npmodel import lam
    l = lam(a['train_distrib'])
    K = w.tm.lift(w.length(a['classes']))
    mk = lambda nm, sh: Arr([axis(w.tm.lift(n)) for n in sh], lambda i: w.tm.app(nm, (l,) + tuple(x[1] for x in i)), 'num')
    return (mk('G!', (K, K)), mk('C!', (K, K + 1)), mk('b!', (K + 1,)))


def quantiles_of(w, a):
    from pydv.arrays import Arr, axis
    from pydv.npmodel import lam
    l = lam(a['probabilities'])
    return Arr([axis(w.tm.lift(a['n_quantiles']))], lambda i: w.tm.app('quantiles!', (l, i[0][1])), 'num')


def training(w, s, K, cl, prob):
    n = w.int('n' + s, K, typ=10)
    X, y = w.mat('X' + s, n, 2), w.labels('y' + s, n, cl)
    return X, y, (w.stoch('P' + s, n, K) if prob else w.labels('P' + s, n, cl))


def history(w, qual, prob, needs, binary, kw, features=False):
    """an object with a past (an earlier fit, predictions of other bags) and a new object, fitted on the same data,
    predict the same bag; another object of the class is used in between"""
    K = 2 if binary else w.nclasses('K', typ=4) if '.energy.' in qual else w.int('K', 3 if 'PDFOrd' in qual else 2, typ=4)
    cl = w.classes(K)
    if w.symbolic:
        w.it.check_defined = False
    other, KA = cl, K
    if not w.symbolic and not binary and w.rng.rand() < .5:      # the earlier fit had other classes
        KA = int(w.rng.randint(3 if 'PDFOrd' in qual else 2, 5))
        other = w.classes(KA)
    kw = kw(w) if callable(kw) else kw
    recs = spies(w)
    if features:
        def training_(s, k, c):
            n = w.int('n' + s, k, typ=10)
            return w.mat('X' + s, n, 2), w.labels('y' + s, n, c)
        bag = lambda s, k, c: (w.mat(s, w.int('m' + s, 1, typ=8), 2),)
        fit = lambda q, t: w.call(q, 'fit', t[0], t[1])
    else:
        training_ = lambda s, k, c: training(w, s, k, c, prob)
        bag = lambda s, k, c: (lambda m: (None, w.stoch(s, m, k) if prob else w.labels(s, m, c, cover=False)))(w.int('m' + s, 1, typ=8))
        fit = lambda q, t: w.call(q, 'fit', t[0], t[1], t[2]) if needs else w.call(q, 'fit', t[0], t[1])
    A, Bt = training_('A', KA, other), training_('B', K, cl)
    S, T, U = bag('S', K, cl), bag('T', K, cl), bag('U', KA, other)
    used, fresh, third = w.new(qual, **kw), w.new(qual, **kw), w.new(qual, **kw)

    def run(q, t, bags):
        fit(q, t)
        at = len(recs)
        out = []
        for b in bags:
            try:
                out.append(w.call(q, 'predict', *b))
            except ValueError as e:
                w.assume(w.symbolic or 'infinite minima' in str(e))
                out.append(None)
        return out[-1], at
    if w.symbolic and qual.endswith('.EM'):     # predict is a function of these and of its arguments: P04
        fit(used, A), fit(used, Bt), fit(fresh, Bt)
        for a in ('prevalences_train_', 'classes_'):
            same_value(w, a, w.attr(used, a), w.attr(fresh, a))
        return
    run(used, A, [U])
    r1, at1 = run(used, Bt, [S, T])
    calls1 = recs[at1:]
    if not (w.symbolic and '.energy.' in qual):
        run(third, A, [U])
    r2, at2 = run(fresh, Bt, [T])
    calls2 = recs[at2:]
    if not w.symbolic:
        w.ensure('same result as a new object', (r1 is None) == (r2 is None))
        if r1 is not None:
            unique_problem(w, fresh, K)
            w.ensure('same result as a new object', w.np.allclose(w.np.asarray(r1, float), w.np.asarray(r2, float), atol=2e-3, rtol=0))
        return
    if not calls2:
        w.ensure('no solver called', len(calls1) == 0)
        w.ensure_arr('same result as a new object', r1, (K,), lambda k: r2[k])
        return
    w.ensure('one solver call per prediction', len(calls1) == 2 and len(calls2) == 1)
    (s0, a0, tag0), (s1, a1, _), (s2, a2, _) = calls1[0], calls1[1], calls2[0]
    w.ensure('the same solver', s1 == s2)
    for k in a2:
        if k in ('problem', 'mixtures'):
            w.ensure('nothing reused from before the last fit (%s)' % k, a0[k] is None and a2[k] is None and a1[k] in (None, tag0))
        elif k == 'kwargs':
            for j in a2[k]:
                if hasattr(a2[k][j], 'axes'):
                    same_value(w, 'same solver argument ' + j, a1[k][j], a2[k][j])
        elif hasattr(a2[k], 'axes'):
            same_value(w, 'same solver argument ' + k, a1[k], a2[k])


def unique_problem(w, q, K):
    """skip the problems whose minimiser is not unique: the solvers may return any of them"""
    if isinstance(getattr(q, 'train_distrib_', None), dict):
        G = w.np.asarray(q.G_, float)
        w.assume(w.np.linalg.eigvalsh((G + G.T) / 2)[0] > 1e-3)
        return
    for a in ('train_distrib_', 'cm_'):
        M = getattr(q, a, None)
        if M is not None and not isinstance(M, dict) and getattr(M, 'ndim', 0) == 2:
            D = M if a == 'train_distrib_' else M.T
            D = (D - D[:, :1])[:, 1:]
            w.assume(w.np.linalg.matrix_rank(D, tol=.05) == K - 1)


DF_ = B + 'multiclass.df.'
NBINS = lambda w: {'n_bins': w.int('n_bins', 2, typ=5)}
BINS = lambda w: dict({'n_bins': w.int('n_bins', 2, typ=5)}, **({} if w.symbolic else {'bin_strategy': w.choose('bins', ['equal_width', 'equal_count', 'normal'])}))
DIST = lambda w: dict(BINS(w), distance=w.choose('distance', ['HD', 'L1', 'L2']), distribution_function=w.choose('distribution', ['PDF', 'CDF']))
ENERGY = lambda w: {'distance': distance(w)[0]} if w.symbolic else {}
SPECIAL = {'EDy': ENERGY, 'CvMy': ENERGY, 'PDFOrdinaly': lambda w: dict(NBINS(w), distance=w.choose('distance', ['HD', 'L2', 'EMD'])), 'DFy': DIST, 'HDy': BINS,
           'FriedmanME': lambda w: {'distance': w.choose('distance', ['HD', 'L1', 'L2'])}}
for _q, _p, _n, _b, _k in METHODS:
    _s = _q.rsplit('.', 1)[1]
    contract('P12', _s + ': history', trials=25)(lambda w, a=(_q, _p, _n, _b, SPECIAL.get(_s, _k)): history(w, *a))
for _q, _k in ((DF_ + 'DFX', DIST), (DF_ + 'HDX', BINS), (B + 'multiclass.energy.EDX', ENERGY), (B + 'multiclass.knn.PWKQuantifier', {'n_neighbors': 2})):
    contract('P12', _q.rsplit('.', 1)[1] + ': history', trials=25)(lambda w, a=(_q, None, None, False, _k, True): history(w, *a))


# ------------------------------------------------------------------------------------------ composite quantifiers
COMPOSITE = ['OneVsRestQuantifier', 'FrankAndHallQuantifier', 'EoQ', 'REGX', 'REGy']


def value_of(w, f):
    out = []
    return None if w.raises(lambda: out.append(f()), 'ValueError') else out[0]


def sym_composite(w, which):
    """any data, any base quantifier, regressor and generator (known by their contracts), any number of members, bags and bins"""
    from pydv.opaque import SymGen, SymQuant, SymReg
    w.it.check_defined = False
    ordinal = which == 'FrankAndHallQuantifier'
    K = w.int('K', 3) if which in COMPOSITE[:2] else w.nclasses('K', typ=3)
    cl = w.classes(K)
    features = which == 'REGX' or which != 'REGy' and w.choose('base', ['without classifiers', 'with classifiers']) == 'without classifiers'
    nb, d, Q = w.int('n_bins', 1), w.int('d', 1), w.int('members', 1)
    nq = K - 1 if ordinal else K
    gen = SymGen(Q, w.int('size', 1), K)
    edges_spec(w)
    if ordinal:
        from contracts.p14 import differences
        inv, _ = differences(w, K)
    comb = w.choose('combination', ['mean', 'median']) if which == 'EoQ' else None
    base = SymQuant('WithoutClassifiers' if features else 'UsingClassifiers', 2 if which in COMPOSITE[:2] else K)
    reg = SymReg()

    def mk():
        if which in COMPOSITE[:2]:
            return w.new(B + 'decomposition.%s.%s' % ('ordinal' if ordinal else 'multiclass', which), base)
        if which == 'EoQ':
            return w.new(B + 'ensembles.eoq.EoQ', base_quantifier=base, n_quantifiers=Q, bag_generator=gen, n_bins=nb, bin_strategy='any strategy', combination_strategy=comb)
        return w.new(B + 'multiclass.regression.' + which, bag_generator=gen, n_bins=nb, bin_strategy='any strategy', regression_estimator=reg)
    P = (lambda s, n: w.arr(s, (n, nq))) if which in COMPOSITE[:2] else (lambda s, n: w.stoch(s, n, K))

    def training_(s):
        n = w.int('n' + s, K)
        return w.mat('X' + s, n, d), w.labels('y' + s, n, cl), None if features else P('P' + s, n)

    def bag(s):
        m = w.int('m' + s, 1)
        return w.mat(s, m, d), None if features else P('R' + s, m)
    A, Bt, S, T = training_('A'), training_('B'), bag('S'), bag('T')

    def run(q, t, bs):
        w.call(q, 'fit', t[0], t[1], **({} if features else {'predictions_train': t[2]}))
        return [value_of(w, lambda: w.call(q, 'predict', b[0], **({} if features else {'predictions_test': b[1]}))) for b in bs][-1]
    used, fresh = mk(), mk()
    run(used, A, [S])
    r1 = run(used, Bt, [S, T])
    r2 = run(fresh, Bt, [T])
    if ordinal:
        w.need(inv)
    w.ensure('same outcome as a new object', (r1 is None) == (r2 is None))
    if r2 is not None:
        w.ensure_arr('same result as a new object', r1, (K,), lambda k: r2[k])


def composite(w, which):
    """as `history`, for the quantifiers built from other quantifiers, from bags or from regressors"""
    if w.symbolic:
        return sym_composite(w, which)
    from contracts.stubs import Clf, Reg, bags, GENERATORS
    np = w.np
    seed = int(w.rng.randint(99))
    shapes = [w.int('K', 3 if which == 'FrankAndHallQuantifier' else 2, typ=4), w.int('KA', 3 if which == 'FrankAndHallQuantifier' else 2, typ=4)]
    if w.rng.rand() < .5:
        shapes[1] = shapes[0]
    base = w.choose('base', ['AC', 'PAC', 'HDy', 'DFX', 'HDX'])
    features = base in ('DFX', 'HDX') if which in COMPOSITE[:3] else which == 'REGX'
    gen, members, nb = w.choose('bags', GENERATORS), int(w.rng.randint(1, 5)), int(w.rng.randint(2, 5))
    strategy = w.choose('bins', ['equal_width', 'equal_count', 'normal'])
    comb = w.choose('combination', ['mean', 'median', 'prevalence_similarity', 'distribution_similarity'])
    source = w.choose('predictions', ['given', 'classifiers']) if which == 'EoQ' else 'given'

    def mk():
        where = {'AC': 'baselines.ac', 'PAC': 'baselines.ac', 'HDy': 'multiclass.df', 'DFX': 'multiclass.df', 'HDX': 'multiclass.df'}
        b = w.new(B + where[base] + '.' + base)
        if which == 'OneVsRestQuantifier':
            return w.new(B + 'decomposition.multiclass.OneVsRestQuantifier', b)
        if which == 'FrankAndHallQuantifier':
            return w.new(B + 'decomposition.ordinal.FrankAndHallQuantifier', b)
        if which == 'EoQ':
            kw = {}
            if source == 'classifiers' and not features:        # trained by the first fit only (P11): the classifier is left as it is
                kw = dict(ensemble_estimator_train=est, ensemble_estimator_test=est)
            return w.new(B + 'ensembles.eoq.EoQ', base_quantifier=b, n_quantifiers=members, bag_generator=bags('PriorShift_BagGenerator', 3, 12, seed),
                         combination_strategy=comb, n_bins=nb, bin_strategy=strategy, **kw)
        return w.new(B + 'multiclass.regression.' + which, bag_generator=bags(gen, members + 2, 9, seed), n_bins=nb, bin_strategy=strategy, regression_estimator=Reg(tag=seed))

    def training_(s, K):
        cl = w.classes(K)
        n = w.int('n' + s, 3 * K, typ=18)
        X, y = w.mat('X' + s, n, 2), w.labels('y' + s, n, cl)
        P = None if features else w.arr('P' + s, (n, K)) if which in COMPOSITE[:2] else w.stoch('P' + s, n, K)
        return X, y, P

    def bag(s, K):
        m = w.int('m' + s, 1, typ=8)
        return w.mat(s, m, 2), None if features else w.arr('R' + s, (m, K)) if which in COMPOSITE[:2] else w.stoch('R' + s, m, K)
    K, KA = shapes
    A, Bt = training_('A', KA), training_('B', K)
    S, T, U = bag('S', K), bag('T', K), bag('U', KA)
    given = source == 'given' or features
    if not given:
        K = KA
        est = Clf(tag=seed).fit(Bt[0], Bt[1])
        A = (A[0], Bt[1][w.rng.permutation(len(Bt[1]))][:len(A[0])], A[2])
        A = (A[0][:len(A[1])], A[1], None)
        w.assume(set(A[1]) == set(Bt[1]))
    used, fresh, third = mk(), mk(), mk()

    def run(q, t, bs):
        w.call(q, 'fit', t[0], t[1], **({} if features or not given else {'predictions_train': t[2]}))
        return [w.call(q, 'predict', b[0], **({} if features or not given else {'predictions_test': b[1]})) for b in bs][-1]
    try:
        run(used, A, [U])
        r1 = run(used, Bt, [S, T])
        run(third, A, [U])
    except Exception as e:                    # data a base method cannot take (few examples in a bag...): a new object cannot either
        try:
            run(mk(), A, [U]), run(mk(), Bt, [S])
            run(fresh, Bt, [T])
        except Exception:
            w.assume(False)
        w.ensure('the object still works: %r' % e, False)
    r2 = run(fresh, Bt, [T])
    w.ensure('same result as a new object', np.allclose(r1, r2, atol=2e-3, rtol=0, equal_nan=True))


for _c in COMPOSITE:
    contract('P12', _c + ': history', trials=40, seconds=60)(lambda w, a=_c: composite(w, a))
