"""P16: cross-validated training predictions are strictly out of fold"""
from pydv.worlds import contract
from contracts.common import *

CV = B + 'estimators.cross_validation.CV_estimator'
GEN = 'generated training sets, splitters and classifiers only'
SPLITTERS = ['folds', 'KFold', 'shuffled KFold', 'StratifiedKFold', 'shuffled StratifiedKFold', 'RepeatedKFold', 'RepeatedStratifiedKFold', 'GroupKFold', 'splits', 'splits',
             'shuffled, seeded']


def setup(w):
    """an estimator, the classifier it clones and whether the splitter gives a partition per repetition"""
    from contracts.stubs import Clf
    from sklearn import model_selection as ms
    np = w.np
    K = w.int('K', 2, typ=4)
    n, m = w.int('n', 3 * K, typ=20), w.int('m', 1, typ=8)
    cl = w.classes(K, strings=True)
    X, y, T = w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)
    k = int(w.rng.randint(2, min(5, n) + 1))
    how = w.choose('splitter', SPLITTERS)
    counts = min((np.asarray(y) == c).sum() for c in np.unique(y))
    if 'Stratified' in how or how == 'folds':
        w.assume(counts >= 2)
        k = min(k, int(counts))
    reps = int(w.rng.randint(1, 4)) if 'Repeated' in how or how == 'splits' else 1
    seed = None if w.rng.rand() < .5 else int(w.rng.randint(99))
    groups = None
    if how == 'folds':
        cv = k
    elif how == 'splits':
        cv = []
        for _ in range(reps):
            f = w.rng.permutation(np.arange(n) % k)
            if w.rng.rand() < .5:       # folds of very different sizes
                f = w.rng.permutation(np.r_[np.arange(k), w.rng.choice(k, n - k, p=w.rng.dirichlet(np.full(k, .3)))])
            cv += [(np.flatnonzero(f != i), np.flatnonzero(f == i)) for i in range(k)]
        if w.rng.rand() < .5:
            cv = [(list(a), list(b)) for a, b in cv]
    elif how == 'GroupKFold':
        groups = w.rng.permutation(np.arange(n) % (k + 1))
        cv = ms.GroupKFold(k)
    elif 'Repeated' in how:
        cv = getattr(ms, how)(n_splits=k, n_repeats=reps, random_state=seed)
    elif how == 'shuffled, seeded':
        cv = ms.KFold(k, shuffle=True, random_state=3)
    else:
        cv = getattr(ms, how.split()[-1])(k, **(dict(shuffle=True, random_state=seed) if 'shuffled' in how else {}))
    averaged = w.choose('averaged', [True, False])
    voting = w.choose('voting', ['hard', 'soft'])
    base = Clf(tag=int(w.rng.randint(99)), style=w.choose('posteriors', ['smooth', 'steps']))
    w.rec('folds, repetitions, seed', (k, reps, seed))
    e = w.new(CV, estimator=base, groups=groups, cv=cv, averaged_predictions=averaged, voting=voting)
    return np, K, n, m, X, np.asarray(y), T, k, reps, e, base, averaged, voting


def expected_labels(np, raw, classes):
    """majority of the labels of each model; None where posteriors or votes tie"""
    lab = raw.argmax(axis=2)
    s = np.sort(raw, axis=2)
    tie = (s[:, :, -1] - s[:, :, -2] < 1e-9).any(axis=0)
    votes = np.array([(lab == c).sum(axis=0) for c in range(len(classes))])
    v = np.sort(votes, axis=0)
    tie |= v[-1] == v[-2]
    return [None if t else classes[i] for t, i in zip(tie, votes.argmax(axis=0))]


def check(w, np, e, raw, averaged, voting, P, L, classes, what):
    """raw: posteriors of every repetition or model"""
    R, n, K = raw.shape
    if averaged:
        w.ensure(what + ': mean posterior', P.shape == (n, K) and np.allclose(P, raw.mean(axis=0)))
        if voting == 'soft':
            s = raw.mean(axis=0)
            ok = all(s[i, list(classes).index(L[i])] >= s[i].max() - 1e-9 for i in range(n)) if len(L) == n else False
            w.ensure(what + ': label of the highest mean posterior', ok)
        else:
            want = expected_labels(np, raw, classes)
            w.ensure(what + ': label of the majority', len(L) == n and all(a is None or a == b for a, b in zip(want, L)))
    else:
        flat = raw.reshape(-1, K)
        w.ensure(what + ': blocks in order', P.shape == (R * n, K) and np.allclose(P, flat))
        w.ensure(what + ': label of each row', len(L) == R * n and all(flat[i, list(classes).index(L[i])] >= flat[i].max() - 1e-9 for i in range(R * n)))
    w.ensure(what + ': class labels', set(L) <= set(classes))


# ------------------------------------------------------------------------------------------ any training set
def flags(w, n, fn):
    a = w.build((n,), fn)
    a.kind = 'bool'
    return a


def sym_setup(w, ks=(2, 3), Rs=(1, 2)):
    """splits given as positions in increasing order: 2 or 3 folds, 1 or 2 repetitions; the fold of each example is arbitrary"""
    parts = w.choose('classes of the models', ['all', 'the second model lacks one'])
    K = w.nclasses('K') if parts == 'all' else 3
    k = w.choose('folds', list(ks))
    R = w.choose('repetitions', list(Rs)) if parts == 'all' or k == 2 else 1
    n, m = w.int('n', 2), w.int('m', 1)
    cl = w.classes(K)
    X, y, T = w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)
    fold = [w.labels('fold%d' % r, n, w.build((k,), lambda i: i)) for r in range(R)]
    np = w.it.np
    inside = lambda r, f: lambda j: w.ind(w.eq(fold[r].at(j), f)) if f < k - 1 else 1 - sum(w.ind(w.eq(fold[r].at(j), g)) for g in range(k - 1))
    mask = [[flags(w, n, inside(r, f)) for f in range(k)] for r in range(R)]
    out = [[flags(w, n, lambda j, g=inside(r, f): 1 - g(j)) for f in range(k)] for r in range(R)]
    for r in range(R):
        for f in range(k):      # no fold is empty, no fold has all the examples
            held_out = w.sum(n, lambda j: mask[r][f].at(j))
            w.assume(w.le(1, held_out))
            w.assume(w.lt(held_out, n))
    cv = [(np.m_flatnonzero(out[r][f]), np.m_flatnonzero(mask[r][f])) for r in range(R) for f in range(k)]
    base = w.estimator('base', cl, fitted=False)
    held = [list(range(K)) if parts == 'all' else [0, 2] if b == 1 else [0, 1, 2] for b in range(k * R)] if parts != 'all' else None
    if held:
        base.classes_of = lambda b: cl if len(held[b % (k * R)]) == 3 else w.part(cl, held[b % (k * R)])
    averaged = w.choose('averaged', [True, False])
    voting = w.choose('voting', ['hard', 'soft']) if averaged else 'hard'
    e = w.new(CV, estimator=base, cv=cv, averaged_predictions=averaged, voting=voting)
    return K, k, R, n, m, cl, X, y, T, fold, out, base, held, averaged, voting, e


def posterior(w, models, held, b, X, j, c):
    """probability given by model b; none to the classes it does not know"""
    f = models[b]
    if held is None or len(held[b]) == 3:
        return f.p(X, j, c)
    return pick(w, c, [f.p(X, j, held[b].index(q)) if q in held[b] else 0 for q in range(3)])


def pick(w, k, vals):
    r = vals[-1]
    for q in range(len(vals) - 2, -1, -1):
        r = w.ite(w.eq(k, q), vals[q], r)
    return r


def sym_check(w, what, raw, R, n, K, cl, averaged, voting, P, L):
    if averaged:
        mean = lambda j, c: sum(raw(r, j, c) for r in range(R)) / R
        w.ensure_arr(what + ': mean posterior', P, (n, K), mean)
        if voting == 'soft':
            w.ensure_arr(what + ': label of the highest mean posterior', L, (n,), lambda j: cl[w.argmaxof(K, lambda c: mean(j, c))])
        else:
            lab = lambda r, j: w.argmaxof(K, lambda c: raw(r, j, c))
            w.ensure_arr(what + ': label of the majority', L, (n,), lambda j: cl[w.argmaxof(K, lambda c: sum(w.ind(w.eq(lab(r, j), c)) for r in range(R)))])
        return
    which = lambda i, c: sum(w.ind(w.eq(w.div(i, n), r)) * raw(r, w.mod(i, n), c) for r in range(R))
    w.ensure_arr(what + ': blocks in order', P, (R * n, K), which)
    w.ensure_arr(what + ': label of each row', L, (R * n,), lambda i: cl[w.argmaxof(K, lambda c: which(i, c))])


def sym_training(w):
    K, k, R, n, m, cl, X, y, T, fold, out, base, held, averaged, voting, e = sym_setup(w)
    w.ensure('predictions before training are rejected', w.raises(lambda: w.call(e, 'predict', T), 'NotFittedError') and w.raises(lambda: w.call(e, 'predict_proba', T), 'NotFittedError'))
    w.ensure('fit returns the estimator', w.call(e, 'fit', X, y) is e)
    w.ensure('the base classifier is not trained', not base.calls)
    w.ensure_arr('classes', w.attr(e, 'classes_'), (K,), lambda c: cl[c])
    models = base.copies
    w.ensure('one model per fold and repetition', len(models) == k * R and all(a is b for a, b in zip(models, w.attr(e, 'estimators_'))))
    for r in range(R):
        for f in range(k):
            fits = [t for t in models[r * k + f].calls if t[0] == 'fit']
            w.ensure('model %d of repetition %d trained once' % (f, r), len(fits) == 1)
            outside = lambda j: w.eq(out[r][f].at(j), 1)
            w.ensure_selected('model %d of repetition %d: examples out of its fold' % (f, r), fits[0][1], n, outside, lambda j, i: X.at(j, i))
            w.ensure_selected('model %d of repetition %d: their labels' % (f, r), fits[0][2], n, outside, lambda j: y.at(j))
    raw = lambda r, j, c: sum((1 - out[r][f].at(j)) * posterior(w, models, held, r * k + f, X, j, c) for f in range(k))
    P, L = w.call(e, 'predict_proba', X), w.call(e, 'predict', X)
    sym_check(w, 'training set', raw, R, n, K, cl, averaged, voting, P, L)
    w.assume(w.Not(w.it.np.m_array_equal(T, X)))
    w.call(e, 'predict_proba', T)
    P2 = w.call(e, 'predict_proba', X)
    w.ensure_arr('the same predictions later', P2, (n, K) if averaged else (R * n, K), lambda j, c: P.at(j, c))


def sym_other(w):
    K, k, R, n, m, cl, X, y, T, fold, out, base, held, averaged, voting, e = sym_setup(w)
    w.call(e, 'fit', X, y)
    w.assume(w.Not(w.it.np.m_array_equal(T, X)))
    models = base.copies
    raw = lambda b, j, c: posterior(w, models, held, b, T, j, c)
    P, L = w.call(e, 'predict_proba', T), w.call(e, 'predict', T)
    sym_check(w, 'other data', raw, R * k, m, K, cl, averaged, voting, P, L)


def sym_again(w):
    K, k, R, n, m, cl, X, y, T, fold, out, base, held, averaged, voting, e = sym_setup(w, (2,), (1,))
    w.call(e, 'fit', X, y)
    if w.choose('in between', ['nothing', 'predictions']) == 'predictions':
        w.call(e, 'predict_proba', X)
    first = list(base.copies)
    X2, y2 = w.mat('X2', n, 2), w.labels('y2', n, cl)
    w.call(e, 'fit', X2, y2)
    models = [f for f in base.copies if f not in first]
    w.ensure('the models are new', len(models) == k and all(a is b for a, b in zip(models, w.attr(e, 'estimators_'))) and w.length(w.attr(e, 'estimators_')) == k)
    for f in range(k):
        fits = [t for t in models[f].calls if t[0] == 'fit']
        w.ensure('model %d trained once' % f, len(fits) == 1)
        outside = lambda j: w.eq(out[0][f].at(j), 1)
        w.ensure_selected('model %d: examples out of its fold' % f, fits[0][1], n, outside, lambda j, i: X2.at(j, i))
        w.ensure_selected('model %d: their labels' % f, fits[0][2], n, outside, lambda j: y2.at(j))
    raw = lambda r, j, c: sum((1 - out[r][f].at(j)) * posterior(w, models, held, r * k + f, X2, j, c) for f in range(k))
    sym_check(w, 'the new set', raw, R, n, K, cl, averaged, voting, w.call(e, 'predict_proba', X2), w.call(e, 'predict', X2))
    w.assume(w.Not(w.it.np.m_array_equal(X, X2)))
    raw = lambda b, j, c: posterior(w, models, held, b, X, j, c)
    sym_check(w, 'the old set is other data', raw, k, n, K, cl, averaged, voting, w.call(e, 'predict_proba', X), w.call(e, 'predict', X))


SCOPE = 'splits given in increasing order, 2 or 3 folds, 1 or 2 repetitions (any number of examples and classes, any splits, labels and posteriors)'


@contract('P16', 'training predictions come from models trained without the example', trials=500, scope=SCOPE)
def training(w):
    if w.symbolic:
        return sym_training(w)
    from contracts.stubs import Clf
    np, K, n, m, X, y, T, k, reps, e, base, averaged, voting = setup(w)
    X0, y0 = X.copy(), y.copy()
    res = w.call(e, 'fit', X, y)
    w.ensure('fit returns the estimator', res is e)
    w.ensure('the base classifier is not trained', not hasattr(base, 'X_'))
    w.ensure('classes', list(e.classes_) == list(np.unique(y)))
    models = list(e.estimators_)
    w.ensure('one model per fold and repetition', len(models) == k * reps and len(set(map(id, models))) == k * reps and not any(hasattr(f, 'refitted_') for f in models))
    # rows are distinct with certainty unless generated as copies; positions of the training rows of each model
    w.assume(len({tuple(r) for r in X.tolist()}) == n)
    pos = {tuple(r): i for i, r in enumerate(X.tolist())}
    inside = [{pos[tuple(r)] for r in f.X_.tolist()} for f in models]
    for f, i in zip(models, inside):
        w.ensure('a model is trained with the labels of its examples', len(f.X_) == len(i) and all(y[pos[tuple(r)]] == c for r, c in zip(f.X_.tolist(), f.y_)))
    raw = np.zeros((reps, n, K))
    for r in range(reps):
        for j in range(n):
            out = [b for b in range(r * k, (r + 1) * k) if j not in inside[b]]
            w.ensure('example %d is out of one fold of repetition %d' % (j, r), len(out) == 1)
            f = models[out[0]]
            raw[r, j, [list(e.classes_).index(c) for c in f.classes_]] = f.predict_proba(X[j:j + 1])[0]
    P, L = w.call(e, 'predict_proba', X), w.call(e, 'predict', X.copy())
    check(w, np, e, raw, averaged, voting, P, L, e.classes_, 'training set')
    w.ensure('models are kept', all(a is b for a, b in zip(models, e.estimators_)) and not any(hasattr(f, 'refitted_') for f in models))
    w.ensure('arguments are not altered', np.array_equal(X, X0) and np.array_equal(y, y0))
    # the training set again after other data
    w.call(e, 'predict_proba', T)
    w.ensure('the same predictions later', np.array_equal(w.call(e, 'predict_proba', X), P))


@contract('P16', 'other data are predicted by all the models', trials=150, scope=SCOPE)
def other(w):
    if w.symbolic:
        return sym_other(w)
    np, K, n, m, X, y, T, k, reps, e, base, averaged, voting = setup(w)
    w.call(e, 'fit', X, y)
    w.assume(not np.array_equal(X, T))
    raw = np.zeros((k * reps, m, K))
    for b, f in enumerate(e.estimators_):
        raw[b][:, [list(e.classes_).index(c) for c in f.classes_]] = f.predict_proba(T)
    T0 = T.copy()
    P, L = w.call(e, 'predict_proba', T), w.call(e, 'predict', T)
    check(w, np, e, raw, averaged, voting, P, L, e.classes_, 'other data')
    w.ensure('arguments are not altered', np.array_equal(T, T0))
    # part of the training set, or the training set in another order, are other data
    Z = X[::-1] if w.rng.rand() < .5 else X[:max(n // 2, 1)]
    w.assume(not np.array_equal(X, Z))
    P = w.call(e, 'predict_proba', Z)
    w.ensure('part of the training set', len(P) == (len(Z) if averaged else len(Z) * k * reps))


@contract('P16', 'a second training forgets the first', trials=60, scope='splits given in increasing order, 2 folds (any number of examples and classes, any splits, labels and posteriors); the default splitter: generated training sets only')
def again(w):
    if w.symbolic:
        return sym_again(w)
    from contracts.stubs import Clf
    np, K, n, m, X, y, T, k, reps, e, base, averaged, voting = setup(w)
    from sklearn.exceptions import NotFittedError
    w.ensure('predictions before training are rejected', w.raises(lambda: e.predict(T), 'NotFittedError') and w.raises(lambda: e.predict_proba(T), 'NotFittedError'))
    w.call(e, 'fit', X, y)
    first = w.call(e, 'predict_proba', X)
    X2 = X + 1 if w.rng.rand() < .5 else X[::-1].copy()
    y2 = y if X2[0, 0] == X[0, 0] + 1 else y[::-1].copy()
    w.assume(not np.array_equal(X, X2))
    w.call(e, 'fit', X2, y2)
    w.ensure('the models are new', all(any(np.array_equal(r, s) for s in X2) for f in e.estimators_ for r in f.X_))
    P = w.call(e, 'predict_proba', X2)
    w.ensure('training predictions of the new set', len(P) == (n if averaged else n * reps))
    P = w.call(e, 'predict_proba', X)
    w.ensure('the old set is other data', len(P) == (n if averaged else n * k * reps))
    d = w.new(CV, estimator=Clf())
    w.assume(n >= 10 and min((y == c).sum() for c in np.unique(y)) >= 5)
    w.ensure('default splitter', len(d.fit(X, y).predict_proba(X)) == n)
