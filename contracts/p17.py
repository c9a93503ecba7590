"""P17: ensembles train one model per bag and aggregate exactly the selected estimates"""
from pydv.worlds import contract
from contracts.common import *

EOQ, EOC = B + 'ensembles.eoq.EoQ', B + 'estimators.ensembles.EnsembleOfClassifiers'
GEN = 'generated training sets, bags, base quantifiers, classifiers and test bags only'
STRATEGIES = ['mean', 'median', 'prevalence_similarity', 'distribution_similarity', 'all']


def data(w):
    K = w.int('K', 2, typ=4)
    n, m = w.int('n', 3 * K, typ=16), w.int('m', 1, typ=8)
    cl = w.classes(K, strings=True)
    return K, n, m, cl, w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)


def bag_indexes(w, y, n, K, members):
    """columns of indexes; each bag has examples of all the classes, in any order"""
    np = w.np
    size = int(w.rng.choice([K, 7, n]))
    first = [np.flatnonzero(np.asarray(y) == c) for c in np.unique(y)]
    cols = []
    for b in range(members):
        col = np.concatenate([[w.rng.choice(f) for f in first], w.rng.randint(0, n, max(size - K, 0))])
        cols.append(w.rng.permutation(col))
    idx = np.array(cols).astype(int).T
    return np.array([[np.mean(np.asarray(y)[c] == k) for c in idx.T] for k in np.unique(y)]), idx


def sym_eoc(w):
    from pydv.opaque import SymClf, clf_knows, clf_label, clf_p, row
    from pydv.npmodel import lam
    K = w.nclasses('K', typ=3)
    n, m, d, Q, size = w.int('n', K), w.int('m', 1), w.int('d', 1), w.int('members', 1), w.int('size', 1)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, d), w.labels('y', n, cl), w.mat('T', m, d)
    idx = w.arr('bag examples', (size, Q), 0, n - 1, isint=True)
    base = SymClf(cl)
    e = w.new(EOC, base_estimator=base)
    res = w.call(e, 'fit', X, y, idx)
    w.ensure_same('fit returns the ensemble', res, e)
    w.ensure('the base classifier is not trained', base.train is None)
    train = lambda b: (lam(w.build((size, d), lambda j, a: X[idx[j, b], a])), lam(w.build((size,), lambda j: y[idx[j, b]])))

    def members():
        Es = w.attr(e, 'estimators_')
        w.ensure_eq('one classifier per bag', w.length(Es), Q)
        b = w.tm.fresh('b', True, 0, Q - 1)
        f = w.it.getitem(Es, b)
        w.ensure('independent copies of the base classifier', isinstance(f, SymClf) and f is not base and f.root is base)
        for got, want, what in zip(f.train, train(b), ('examples', 'labels')):
            w.ensure_eq('each classifier: %s of its bag' % what, got, want)
    members()
    w.ensure_arr('classes', w.attr(e, 'classes_'), (K,), lambda k: cl[k])
    Tr = lambda i: row(T, (0, w.tm.lift(i)))
    P, L = w.call(e, 'predict_proba', T), w.call(e, 'predict', T)
    w.ensure_arr('posteriors of every bag', P, (m, Q, K), lambda i, b, k: w.ite(clf_knows(train(b)[1], k), clf_p(train(b), Tr(i), k), 0))
    w.ensure_arr('labels of every bag', L, (m, Q), lambda i, b: cl[clf_label(train(b), Tr(i), w.tm.lift(K))])
    before = len(base.trainings)
    w.call(e, 'fit', X, y, idx)
    w.ensure('already trained classifiers are kept', len(base.trainings) == before)
    members()


@contract('P17', 'an ensemble of classifiers has one classifier per bag', trials=150, seconds=30)
def eoc(w):
    if w.symbolic:
        return sym_eoc(w)
    from contracts.stubs import Clf
    np = w.np
    K, n, m, cl, X, y, T = data(w)
    members = int(w.rng.randint(1, 5))
    _, idx = bag_indexes(w, y, n, K, members)
    if w.choose('bags', ['with all the classes', 'arbitrary']) == 'arbitrary':
        idx = w.rng.randint(0, n, idx.shape)
    w.rec('indexes', idx.tolist())
    base = Clf(tag=int(w.rng.randint(99)))
    e = w.new(EOC, base_estimator=base)
    X0, y0, i0 = X.copy(), np.array(y), idx.copy()
    res = w.call(e, 'fit', X, y, idx)
    w.ensure('fit returns the ensemble', res is e)
    w.ensure('the base classifier is not trained', not hasattr(base, 'X_'))
    w.ensure('arguments are not altered', np.array_equal(X, X0) and np.array_equal(y, y0) and np.array_equal(idx, i0))
    w.ensure('one classifier per bag', len(e.estimators_) == members and len(set(map(id, e.estimators_))) == members)
    for b in range(members):
        f = e.estimators_[b]
        w.ensure('classifier %d trained once, with its bag' % b, not hasattr(f, 'refitted_') and np.array_equal(f.X_, X[idx[:, b]]) and np.array_equal(f.y_, np.asarray(y)[idx[:, b]]))
    w.ensure('classes', list(e.classes_) == list(np.unique(y)))
    P, L = w.call(e, 'predict_proba', T), w.call(e, 'predict', T)
    w.ensure('shapes', P.shape == (m, members, K) and L.shape == (m, members))
    for b in range(members):
        ref = Clf(tag=base.tag).fit(X[idx[:, b]], np.asarray(y)[idx[:, b]])
        want = np.zeros((m, K))
        for j, c in enumerate(ref.classes_):
            want[:, list(e.classes_).index(c)] = ref.predict_proba(T)[:, j]
        w.ensure('posteriors of bag %d' % b, np.allclose(P[:, b, :], want))
        w.ensure('labels of bag %d' % b, list(L[:, b]) == list(ref.predict(T)))
    w.call(e, 'fit', X, y, idx)
    w.ensure('already trained classifiers are kept', not any(hasattr(f, 'refitted_') for f in e.estimators_))


def scenario(w):
    """an ensemble of quantifiers, what each member has to see and the quantifier's own answers"""
    from contracts.stubs import Clf, QWith, QWithout, bags, GENERATORS
    np = w.np
    K, n, m, cl, X, y, T = data(w)
    members = int(w.rng.randint(1, 7))
    kind = w.choose('base', ['without classifiers', 'given', 'given twice', 'classifier', 'classifier per bag', 'crisp', 'crisp per bag', 'given crisp'])
    strategy = w.choose('combination', STRATEGIES)
    crisp = 'crisp' in kind
    w.assume(not (crisp and strategy in ('all', 'distribution_similarity')))
    pct = float(w.rng.choice([.25, .5, .75, 1.0, 1 / 3]))
    w.assume(round(members * pct) >= 1)
    nb = int(w.rng.choice([2, 3, 5, 8]))
    fun = w.choose('distribution', ['PDF', 'CDF'])
    bins = w.choose('bins', ['equal_width', 'equal_count', 'normal'])
    metric = w.choose('metric', ['euclidean', 'cityblock', 'chebyshev'])
    seed = int(w.rng.randint(99))
    how = w.choose('training bags', ['indexes'] + GENERATORS)
    if how == 'indexes':
        prev, idx = bag_indexes(w, y, n, K, members)
        gen, fk = None, dict(prevalences=prev, indexes=idx)
        kw = dict()
    else:
        size = 6 * K
        own_n = int(w.rng.randint(1, 9))
        gen, fk = bags(how, own_n, size, seed), {}
        g2 = bags(how, members, size, seed)
        prev, idx = g2.generate_bags(X, y)
        w.assume(all(set(np.asarray(y)[idx[:, b]]) == set(y) for b in range(members)))
        kw = dict(bag_generator=gen)
    w.rec('indexes', idx.tolist())
    w.rec('members, pct, bins', (members, pct, nb, seed))
    base = QWithout(tag=seed) if kind == 'without classifiers' else QWith(tag=seed)
    yy, ii, D, DT, pk, ests = y, idx, None, None, {}, {}
    if kind.startswith('given'):
        reps = 2 if kind == 'given twice' else 1
        yy, ii = np.tile(y, reps), np.concatenate([idx + r * n for r in range(reps)])
        if crisp:
            base.probabilistic_predictions = False
            D, DT = w.rng.choice(cl, n), w.rng.choice(cl, m)
        else:
            D, DT = w.rng.dirichlet(np.ones(K), n * reps), w.rng.dirichlet(np.ones(K), m)
        fk['predictions_train'], pk['predictions_test'] = D, DT
    elif kind != 'without classifiers':
        fit_tr = w.choose('trained in advance', [False, True]) and 'per bag' not in kind
        if 'per bag' in kind:
            mk = lambda t: w.new(EOC, base_estimator=Clf(tag=t))
            ref = [Clf(tag=1).fit(X[idx[:, b]], np.asarray(y)[idx[:, b]]) for b in range(members)]
        else:
            mk = lambda t: Clf(tag=t)
            ref = [Clf(tag=1).fit(X, y)]
        tr = mk(1)
        if fit_tr:
            tr.fit(X, y)
        te = tr if w.choose('test classifier', ['same', 'another']) == 'same' else mk(1)
        base.probabilistic_predictions = not crisp
        kw.update(ensemble_estimator_train=tr, ensemble_estimator_test=te)
        out = (lambda f, Z: f.predict(Z)) if crisp else (lambda f, Z: f.predict_proba(Z))
        D, DT = [np.stack([out(f, Z) for f in ref], axis=1) for Z in (X, T)]
        if 'per bag' not in kind:
            D, DT = D[:, 0], DT[:, 0]
    q = w.new(EOQ, base_quantifier=base, n_quantifiers=members, combination_strategy=strategy, distribution_function=fun, n_bins=nb,
              bin_strategy=bins, distance_bags=metric, percentage_of_selected_models=pct, **kw)
    member = 'per bag' in kind
    seen = lambda Z, rows, b: None if Z is None else Z[rows, b] if member else Z[rows]
    return dict(K=K, n=n, m=m, X=X, y=y, T=T, members=members, strategy=strategy, kind=kind, crisp=crisp, pct=pct, nb=nb, fun=fun, bins=bins, metric=metric,
                base=base, yy=np.asarray(yy), ii=ii, idx=idx, prev=prev, D=D, DT=DT, q=q, fk=fk, pk=pk, seen=seen, gen=gen, member=member)


def descriptors(np, s, test):
    """the values a bag is described by, an (examples, descriptors) matrix"""
    if s['kind'] == 'without classifiers':
        return np.asarray(s['T'] if test else s['X'])
    Z = s['DT'] if test else s['D']
    Z = Z.mean(axis=1) if s['member'] else Z
    return Z[:, :1] if s['K'] == 2 else Z


def described(np, s, Z, cuts):
    from contracts.stubs import histogram
    parts = [histogram(Z[:, a], cuts[a]) for a in range(Z.shape[1])]
    return np.concatenate([np.cumsum(p) if s['fun'] == 'CDF' else p for p in parts])


@contract('P17', 'one copy of the base quantifier per bag', trials=300, seconds=60)
def fit(w):
    if w.symbolic:
        return sym_fit(w)
    np = w.np
    s = scenario(w)
    q, base = s['q'], s['base']
    n_before = None if s['gen'] is None else s['gen'].n_bags
    X0, y0, D0 = s['X'].copy(), np.array(s['y']), None if s['D'] is None else np.array(s['D'])
    res = w.call(q, 'fit', s['X'], s['y'], **s['fk'])
    w.ensure('fit returns the ensemble', res is q)
    w.ensure('arguments are not altered', np.array_equal(s['X'], X0) and np.array_equal(s['y'], y0) and (D0 is None or np.array_equal(s['D'], D0)))
    w.ensure('the base quantifier is not trained', getattr(base, 'X_', None) is None and getattr(base, 'y_', None) is None)
    w.ensure('the bag generator is not altered', n_before is None or s['gen'].n_bags == n_before)
    w.ensure('bags', np.array_equal(q.indexes_, s['idx']) and np.allclose(q.prevalences_, s['prev']))
    w.ensure('classes', list(q.classes_) == list(np.unique(s['y'])))
    Q = q.quantifiers_
    w.ensure('one quantifier per bag', len(Q) == s['members'] and len({id(f) for f in Q}) == s['members'] and all(f is not base for f in Q))
    for b, f in enumerate(Q):
        rows = s['ii'][:, b]
        w.ensure('member %d: trained once with the labels of its bag' % b, not hasattr(f, 'refitted_') and f.tag == base.tag and list(f.y_) == list(s['yy'][rows]))
        if s['D'] is None:
            w.ensure('member %d: examples of its bag' % b, np.array_equal(f.X_, s['X'][rows]))
        else:
            p = np.asarray(f.preds_)
            want = s['seen'](s['D'], rows, b)
            w.ensure('member %d: predictions of its bag' % b, p.shape == want.shape and (list(p) == list(want) if s['crisp'] else np.allclose(p, want)))
    if not s['crisp']:
        from quantificationlib.multiclass.df import compute_bincuts
        Z = descriptors(np, s, False)
        want = np.array([compute_bincuts(x=Z[:, a], y=s['yy'], classes=q.classes_, n_bins=s['nb'], bin_strategy=s['bins']) for a in range(Z.shape[1])])
        w.ensure('bins', np.shape(q.bincuts_) == want.shape and np.allclose(q.bincuts_, want))
        for b in range(s['members']):
            w.ensure('bag %d described by its own examples' % b, np.allclose(q.distributions_[b], described(np, s, Z[s['ii'][:, b]], want)))


@contract('P17', 'aggregation of the selected estimates', trials=400, seconds=60)
def predict(w):
    if w.symbolic:
        return sym_predict(w)
    np = w.np
    s = scenario(w)
    q, members, K = s['q'], s['members'], s['K']
    q.fit(s['X'], s['y'], **s['fk'])
    T0, p0 = s['T'].copy(), None if s['DT'] is None else np.array(s['DT'])
    Q = list(q.quantifiers_)
    # estimates on purpose: ties, equal members and zero classes are frequent
    style = w.choose('estimates', ['any', 'steps', 'one hot'])
    if style != 'any':
        def script(f, X, preds):
            v = np.zeros(K)
            if style == 'one hot':
                v[int(np.argmax([f is g for g in Q])) % K] = 1
                return v
            v[w.rng.randint(0, K)] += .5
            v[w.rng.randint(0, K)] += .5
            return v
        for f in Q:
            f.script = script
    # the same instance of the test bag for everybody
    out = w.call(q, 'predict', s['T'], **s['pk'])
    said = np.array([f.said_ for f in Q])
    w.ensure('the members are kept', all(a is b for a, b in zip(Q, q.quantifiers_)) and len(q.quantifiers_) == members)
    w.ensure('arguments are not altered', np.array_equal(s['T'], T0) and (p0 is None or np.array_equal(s['DT'], p0)))
    for b, f in enumerate(Q):
        X, preds = f.asked_
        w.ensure('member %d is not trained again' % b, not hasattr(f, 'refitted_'))
        if s['DT'] is None:
            w.ensure('member %d sees the test bag' % b, np.array_equal(X, s['T']))
        else:
            want = s['seen'](s['DT'], slice(None), b)
            preds = np.asarray(preds)
            w.ensure('member %d sees the predictions of its classifier' % b, preds.shape == want.shape and (list(preds) == list(want) if s['crisp'] else np.allclose(preds, want)))
    want = {}
    norm = lambda v: v / v.sum() if v.sum() > 0 else None
    want['mean'] = norm(said.mean(axis=0))
    med = np.median(said, axis=0)
    k = round(members * s['pct'])
    from itertools import combinations
    diff = np.abs(said - said.mean(axis=0)).mean(axis=1)

    def nearest(d, tol=1e-9):
        """every set of k members none of which is farther than a member left out"""
        return [norm(said[list(c)].mean(axis=0)) for c in combinations(range(members), k)
                if all(d[i] <= d[j] + tol for i in c for j in range(members) if j not in c)]
    got = out if isinstance(out, dict) else {s['strategy']: out}
    w.ensure('the estimates asked for', isinstance(out, dict) == (s['strategy'] == 'all') and set(got) == (set(STRATEGIES) if s['strategy'] == 'all' else {s['strategy']}))
    w.assume(med.sum() > 0 or not {'median', 'all'} & set(got))
    for name, p in got.items():
        p = np.asarray(p)
        w.ensure('%s: a prevalence' % name, p.shape == (K,) and (p >= -1e-12).all() and abs(p.sum() - 1) < 1e-9)
        if name == 'mean':
            ok = np.allclose(p, want['mean'])
        elif name == 'median':
            ok = np.allclose(p, norm(med))
        elif name == 'prevalence_similarity':
            ok = any(np.allclose(p, v) for v in nearest(diff))
        elif name == 'distribution_similarity':
            from scipy.spatial.distance import cdist
            Z, Zt = descriptors(np, s, False), descriptors(np, s, True)
            cuts = q.bincuts_
            train = np.array([described(np, s, Z[s['ii'][:, b]], cuts) for b in range(members)])
            d = {'euclidean': lambda v: np.sqrt((v ** 2).sum(axis=1)), 'cityblock': lambda v: np.abs(v).sum(axis=1),
                 'chebyshev': lambda v: np.abs(v).max(axis=1)}[s['metric']](train - described(np, s, Zt, cuts))
            ok = any(np.allclose(p, v) for v in nearest(d))
        else:
            ok = np.allclose(p, np.mean([got[k2] for k2 in STRATEGIES[:4]], axis=0))
        w.ensure('%s of the selected members' % name, bool(ok))


@contract('P17', 'configurations that cannot be used are rejected', trials=60)
def rejected(w):
    if w.symbolic:
        return sym_rejected(w)
    from contracts.stubs import Clf, QWith, QWithout
    np = w.np
    K, n, m, cl, X, y, T = data(w)
    prev, idx = bag_indexes(w, y, n, K, 2)
    case = w.choose('case', ['no quantifier', 'no classifier', 'no test predictions', 'crisp similarity', 'no base classifier', 'not trained'])
    D, DT = w.rng.dirichlet(np.ones(K), n), w.rng.dirichlet(np.ones(K), m)
    fk = dict(prevalences=prev, indexes=idx)
    from sklearn.exceptions import NotFittedError
    if case == 'no quantifier':
        w.ensure(case, w.raises(lambda: w.new(EOQ, base_quantifier=Clf(), n_quantifiers=2).fit(X, y, **fk)))
    elif case == 'no classifier':
        w.ensure(case, w.raises(lambda: w.new(EOQ, base_quantifier=QWith(), n_quantifiers=2).fit(X, y, **fk)))
    elif case == 'no test predictions':
        q = w.new(EOQ, base_quantifier=QWith(), n_quantifiers=2).fit(X, y, predictions_train=D, **fk)
        w.ensure(case, w.raises(lambda: q.predict(T)))
    elif case == 'crisp similarity':
        b = QWith()
        b.probabilistic_predictions = False
        e = Clf() if w.rng.rand() < .5 else w.new(EOC, base_estimator=Clf())
        q = w.new(EOQ, base_quantifier=b, n_quantifiers=2, combination_strategy='distribution_similarity', ensemble_estimator_train=e, ensemble_estimator_test=e)
        w.ensure(case, w.raises(lambda: q.fit(X, y, **fk).predict(T)))
    elif case == 'no base classifier':
        w.ensure(case, w.raises(lambda: w.new(EOC).fit(X, y, idx)))
    else:
        e = w.new(EOC, base_estimator=Clf())
        w.ensure(case, w.raises(lambda: e.predict(T), 'NotFittedError') and w.raises(lambda: e.predict_proba(T), 'NotFittedError'))


def sym_rejected(w):
    from pydv.opaque import SymQuant, SymEnsemble, SymClf, SymBags
    from contracts.p05 import edges_spec
    edges_spec(w)
    K = w.nclasses('K', typ=3)
    case = w.choose('case', ['no quantifier', 'no classifier', 'no test predictions', 'crisp similarity', 'no base classifier', 'not trained'])
    n, m, d, Q, size = w.int('n', K), w.int('m', 1), w.int('d', 1), w.int('members', 1), w.int('size', 1)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, d), w.labels('y', n, cl), w.mat('T', m, d)
    bags = SymBags(w, Q, size, K, n)
    fk = dict(prevalences=bags.prev, indexes=bags.idx)
    fit = lambda base, given={}, **kw: w.call(w.new(EOQ, base_quantifier=base, n_quantifiers=Q, **dict(dict(n_bins=w.int('n_bins', 1)), **kw)), 'fit', X, y, **dict(fk, **given))
    if case == 'no quantifier':
        w.ensure(case, w.raises(lambda: fit(w.estimator('clf', cl))))
    elif case == 'no classifier':
        w.ensure(case, w.raises(lambda: fit(SymQuant('UsingClassifiers', K, w.choose('crisp', [False, True])))))
    elif case == 'no test predictions':
        crisp = w.choose('crisp', [False, True])
        q = fit(SymQuant('UsingClassifiers', K, crisp), dict(predictions_train=w.labels('P', n, cl, cover=False) if crisp else w.stoch('P', n, K)))
        w.ensure(case, w.raises(lambda: w.call(q, 'predict', T)))
    elif case == 'crisp similarity':
        e = SymEnsemble('eoc', cl, Q, False) if w.choose('classifiers', ['one', 'per bag']) == 'per bag' else w.estimator('clf', cl)
        w.ensure(case, w.raises(lambda: w.call(fit(SymQuant('UsingClassifiers', K, True), combination_strategy='distribution_similarity',
                                                  ensemble_estimator_train=e, ensemble_estimator_test=e), 'predict', T)))
    elif case == 'no base classifier':
        w.ensure(case, w.raises(lambda: w.call(w.new(EOC), 'fit', X, y, bags.idx)))
    else:
        e = w.new(EOC, base_estimator=SymClf(cl))
        w.ensure(case, w.raises(lambda: w.call(e, 'predict', T), 'NotFittedError'))
        w.ensure(case, w.raises(lambda: w.call(e, 'predict_proba', T), 'NotFittedError'))


# ------------------------------------------------------------------------------------------ any data, any bags, any quantifier, any number of members
KINDS = ['without classifiers', 'given', 'given r times', 'given crisp', 'classifier', 'crisp classifier', 'classifier per bag', 'crisp classifier per bag']


def problem(w, K, kinds=KINDS, fixed=False):
    """everything an ensemble is given; D(i, q, a): descriptor a of training example i for member q, DT: of test example i"""
    from pydv.opaque import SymQuant, SymBags, SymEnsemble
    s = {}
    kind = s['kind'] = w.choose('base', kinds)
    s['crisp'] = 'crisp' in kind
    n, d, m, nb, Q, size = w.int('n', K), w.int('d', 1), w.int('m', 1), w.int('n_bins', 1), w.int('members', 1), w.int('size', 1)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, d), w.labels('y', n, cl), w.mat('T', m, d)
    fk, pk, kw, N, r = {}, {}, {}, n, 1
    member = s['member'] = 'per bag' in kind
    s['D'] = s['DT'] = None
    if kind == 'without classifiers':
        base = SymQuant('WithoutClassifiers', K)
        nd, D, DT = d, (lambda i, q, a: X[i, a]), (lambda i, q, a: T[i, a])
    else:
        base = SymQuant('UsingClassifiers', K, s['crisp'])
        nd = K
        if kind.startswith('given'):
            r = w.int('r', 2) if kind == 'given r times' else 1
            N = n * r
            if s['crisp']:
                P, PT = w.labels('P', n, cl, cover=False), w.labels('PT', m, cl, cover=False)
                D, DT, nd = (lambda i, q, a: P[i]), (lambda i, q, a: PT[i]), None
            else:
                P, PT = w.stoch('P', N, K), w.stoch('PT', m, K)
                D, DT = (lambda i, q, a: P[i, a]), (lambda i, q, a: PT[i, a])
            fk, pk = dict(predictions_train=P), dict(predictions_test=PT)
        else:
            early = s['early'] = not fixed and w.choose('trained in advance', [False, True])
            tr = s['tr'] = SymEnsemble('eoc', cl, Q, early) if member else w.estimator('clf', cl, fitted=early)
            te = s['te'] = SymEnsemble('eoc2', cl, Q, early) if member else w.estimator('clf2', cl, fitted=early)
            kw = dict(ensemble_estimator_train=tr, ensemble_estimator_test=te)
            if member:
                f = lambda e, Z: (lambda i, q, a: e.p(Z, (0, w.tm.lift(i)), q, a)) if not s['crisp'] else (lambda i, q, a: cl[e.ci(Z, (0, w.tm.lift(i)), q)])
            else:
                f = lambda e, Z: (lambda i, q, a: e.p(Z, i, a)) if not s['crisp'] else (lambda i, q, a: cl[e.ci(Z, i)])
            D, DT = f(tr, X), f(te, T)
            if s['crisp']:
                nd = None
    s['own'] = w.int('own number of bags', 1)
    gen = SymBags(w, Q, size, K, n, own=s['own'])
    if fixed or w.choose('bags', ['given', 'generated']) == 'given':
        fk.update(prevalences=gen.prev, indexes=gen.idx)
        s['gen'] = None
    else:
        kw['bag_generator'] = s['gen'] = gen
    s.update(K=K, n=n, d=d, m=m, nb=nb, Q=Q, size=size, cl=cl, X=X, y=y, T=T, N=N, r=r, D=D, DT=DT, nd=nd, base=base, fk=fk, pk=pk, bags=gen)
    # rows of the (repeated) training set that make the bag of member q
    s['rows'] = size * r
    s['at'] = lambda j, q: gen.idx[w.mod(j, size), q] + n * w.div(j, size) if r != 1 else gen.idx[j, q]
    s['li'] = (lambda i: w.li(y, i)) if r == 1 else (lambda i: w.li(y, w.mod(i, n)))
    s['kw'] = dict(kw, base_quantifier=base, n_quantifiers=Q, n_bins=nb, bin_strategy='any strategy')
    return s


def build(w, dims, fn, kind='num'):
    r = w.build(dims, fn)
    r.kind = kind
    return r


def trained_with(w, s, q):
    """contents a member has to be trained with"""
    from pydv.opaque import content
    if s['kind'] == 'without classifiers':
        A = content(w.build((s['size'], s['d']), lambda j, a: s['X'][s['bags'].idx[j, q], a]))
        return (A, content(w.build((s['size'],), lambda j: s['y'][s['bags'].idx[j, q]])), content(None))
    yy = content(w.build((s['rows'],), lambda j: s['cl'][s['li'](s['at'](j, q))]))
    if s['crisp']:
        p = w.build((s['rows'],), lambda j: s['D'](s['at'](j, q), q, None))
    else:
        p = w.build((s['rows'], s['K']), lambda j, a: s['D'](s['at'](j, q), q, a))
    return (content(None), yy, content(p))


def asked(w, s, q):
    from pydv.opaque import content
    if s['kind'] == 'without classifiers':
        return (content(s['T']), content(None))
    if s['crisp']:
        return (content(None), content(w.build((s['m'],), lambda i: s['DT'](i, q, None))))
    return (content(None), content(w.build((s['m'], s['K']), lambda i, a: s['DT'](i, q, a))))


def descr(w, s, test):
    """descriptors of the bags: means over the members"""
    f = s['DT'] if test else s['D']
    if s['member']:
        return lambda i, a: w.sum(s['Q'], lambda q: f(i, q, a)) / s['Q']
    return lambda i, a: f(i, 0, a)


def fitted(w, s, **kw):
    q = w.new(EOQ, **dict(s['kw'], **kw))
    res = w.call(q, 'fit', s['X'], s['y'], **s['fk'])
    w.ensure_same('fit returns the ensemble', res, q)
    return q


def sym_fit(w):
    from contracts.p05 import edges_spec, in_bin, column
    K = w.nclasses('K', typ=3)
    s = problem(w, K)
    cuts = edges_spec(w)
    fun = w.choose('distribution', ['PDF', 'CDF'])
    q = fitted(w, s, distribution_function=fun)
    base, bags = s['base'], s['bags']
    w.ensure('the base quantifier is not trained', base.train is None)
    if s['gen'] is not None:
        w.ensure('bags are drawn once', len(bags.asked) == 1)
        w.ensure_same('bags of the training examples', bags.asked[0][0], s['X'])
        w.ensure_same('bags with their labels', bags.asked[0][1], s['y'])
        w.ensure_eq('the given generator keeps its number of bags', bags.n_bags, s['own'])
    w.ensure_same('bags', w.attr(q, 'indexes_'), bags.idx)
    w.ensure_same('prevalences of the bags', w.attr(q, 'prevalences_'), bags.prev)
    w.ensure_arr('classes', w.attr(q, 'classes_'), (K,), lambda k: s['cl'][k])
    Qs = w.attr(q, 'quantifiers_')
    w.ensure_eq('one quantifier per bag', w.length(Qs), s['Q'])
    b = w.tm.fresh('b', True, 0, s['Q'] - 1)
    f = w.it.getitem(Qs, b)
    from pydv.opaque import SymQuant
    w.ensure('independent copies of the base quantifier', isinstance(f, SymQuant) and f is not base and f.root is base)
    for got, want, what in zip(f.train, trained_with(w, s, b), ('examples', 'labels', 'predictions')):
        w.ensure_eq('each member: %s of its bag' % what, got, want)
    if 'early' in s:
        for e in ('tr', 'te'):
            calls = [c for c in s[e].calls if c[0] == 'fit'] if not s['member'] else s[e].calls
            w.ensure('classifiers are trained once, unless trained in advance', len(calls) == (0 if s['early'] else 1))
            for c in calls:
                c = c[1:] if not s['member'] else c
                w.ensure_same('classifier: training examples', c[0], s['X'])
                w.ensure_same('classifier: labels', c[1], s['y'])
                if s['member']:
                    w.ensure_same('classifier: bags', c[2], bags.idx)
    if s['crisp']:
        return
    nd = 1 if K == 2 and s['kind'] != 'without classifiers' else s['nd']
    nb, N = s['nb'], s['N']
    V = w.build((N, nd), descr(w, s, False))
    for a in cuts:
        w.ensure('strategy and number of bins passed on', a['bin_strategy'] == 'any strategy' and a['n_bins'] is nb)
        w.ensure_eq('edges of all the examples', w.axlen(a['x'], 0), N)
        w.forall('edges with their labels', (N,), lambda i: w.eq(a['y'][i], s['cl'][s['li'](i)]))
    C, R = w.attr(q, 'bincuts_'), s['rows']
    w.ensure_eq('bins of every descriptor', w.axlen(C, 0), nd)
    from pydv.npmodel import lam
    w.forall_eq('bins: those of the training values', (nd, nb + 1), lambda a, t: (C[a, t], w.tm.app('cut!', (lam(column(w, V, a)), w.tm.lift(t)))))
    Ds = w.attr(q, 'distributions_')
    h = lambda b, a, t: w.sum(R, lambda j: in_bin(w, nb, column(w, V, a), V[s['at'](j, b), a], t)) / R
    g = h if fun == 'PDF' else lambda b, a, t: w.sum(t + 1, lambda u: h(b, a, u))
    w.ensure_eq('one description per bag', w.axlen(Ds, 0), s['Q'])
    w.ensure_eq('all bins of all descriptors', w.axlen(Ds, 1), nd * nb)
    w.forall_eq('bags described by their own examples', (s['Q'], nd, nb), lambda b, a, t: (Ds[b, a * nb + t], g(b, a, t)))


def cdist_spec(w, metric, a, b):
    d = w.tm.app('metric_' + metric, ())
    return w.tm.app('cdist', (d, a, b)) + w.tm.app('cdist', (d, b, a))


def sym_predict(w):
    from contracts.p05 import edges_spec, in_bin, column
    from pydv.opaque import quant_value
    from pydv.npmodel import lam
    tm = w.tm
    K = w.nclasses('K', typ=3)
    s = problem(w, K, ['without classifiers', 'given', 'given crisp', 'classifier per bag', 'crisp classifier per bag', 'classifier'], True)
    strategy = w.choose('combination', STRATEGIES if not s['crisp'] else ['mean', 'median', 'prevalence_similarity'])
    fun = w.choose('distribution', ['PDF', 'CDF']) if strategy in ('distribution_similarity', 'all') else 'PDF'
    edges_spec(w)
    Q, nb = s['Q'], s['nb']
    pct = w.real('pct', 0, 1)
    kk = w.it.np.rnd(Q * pct)
    w.assume(w.le(1, kk))
    q = fitted(w, s, distribution_function=fun, combination_strategy=strategy, percentage_of_selected_models=pct, distance_bags='euclidean')
    # estimates of the members
    E = lambda b, k: quant_value(trained_with(w, s, b), asked(w, s, b), K, k)
    P = w.build((Q, K), E)
    col = lambda A, k: lam(w.build((Q,), lambda b: A(b, k)))
    med = lambda k: tm.app('median', (col(E, k),))
    if strategy in ('median', 'all'):
        w.assume(w.lt(0, w.sum(K, med)))
    out = w.call(q, 'predict', s['T'], **s['pk'])
    norm = lambda f: (lambda k: f(k) / w.sum(K, f))
    mean = lambda k: w.sum(Q, lambda b: E(b, k)) / Q
    sel = lambda dist: (lambda j: tm.app('argsort', (lam(w.build((Q,), dist)), tm.lift(j)), True))
    near = lambda dist: (lambda k: w.sum(kk, lambda j: E(sel(dist)(j), k)) / kk)
    diff = lambda b: w.sum(K, lambda k: w.abs(E(b, k) - mean(k))) / K
    want = {'mean': norm(mean), 'median': norm(med), 'prevalence_similarity': norm(near(diff))}
    if strategy in ('distribution_similarity', 'all'):
        nd = 1 if K == 2 and s['kind'] != 'without classifiers' else s['nd']
        V, VT = w.build((s['N'], nd), descr(w, s, False)), w.build((s['m'], nd), descr(w, s, True))
        R = s['rows']
        cum = lambda f: f if fun == 'PDF' else (lambda a, t: w.sum(t + 1, lambda u: f(a, u)))
        flat = lambda f: lam(w.build((nd * nb,), lambda i: f(w.div(i, nb), w.mod(i, nb))))
        tr = lambda b: flat(cum(lambda a, t: w.sum(R, lambda j: in_bin(w, nb, column(w, V, a), V[s['at'](j, b), a], t)) / R))
        te = flat(cum(lambda a, t: w.sum(s['m'], lambda i: in_bin(w, nb, column(w, V, a), VT[i, a], t)) / s['m']))
        want['distribution_similarity'] = norm(near(lambda b: cdist_spec(w, 'euclidean', tr(b), te)))
    got = out if isinstance(out, dict) else {strategy: out}
    w.ensure('the estimates asked for', isinstance(out, dict) == (strategy == 'all') and set(got) == (set(STRATEGIES) if strategy == 'all' else {strategy}))
    if strategy == 'all':
        want['all'] = lambda k: sum(want[c](k) for c in STRATEGIES[:4]) / 4
    for name, p in got.items():
        w.ensure_arr('%s of the selected members' % name, p, (K,), want[name])
        w.ensure_eq('%s: sums to one' % name, w.sum(K, lambda k: p[k]), 1)
