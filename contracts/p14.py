"""P14: decomposed quantifiers train and combine the right binary sub-problems"""
from pydv.worlds import contract
from contracts.common import *

OVR = B + 'decomposition.multiclass.OneVsRestQuantifier'
FHQ = B + 'decomposition.ordinal.FrankAndHallQuantifier'
GEN = 'generated training sets, binary estimates and stand-in base quantifiers only'


def base(w, kind, **k):
    from contracts.stubs import QWith, QWithout
    return QWith(tag=int(w.rng.randint(99)), **k) if kind != 'without' else QWithout(tag=int(w.rng.randint(99)), **{a: b for a, b in k.items() if a == 'script'})


def data(w):
    K = w.int('K', 3, typ=5)
    n, m = w.int('n', K, typ=14), w.int('m', 1, typ=6)
    cl = w.classes(K, strings=True)
    return K, n, m, cl, w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)


def subproblem(w, which, y, cl, q):
    return ((y == cl[q]) if which == OVR else np_index(w, y, cl) <= q) * 1


def np_index(w, y, cl):
    return w.np.array([list(cl).index(v) for v in y])


def combine(w, which, v, K):
    np = w.np
    v = np.asarray(v, dtype=float)
    if which == OVR:
        return v / v.sum() if v.sum() > 0 else v
    up = np.maximum.accumulate(v)
    lo = np.minimum.accumulate(v[::-1])[::-1]
    return np.diff(np.concatenate([[0.], (up + lo) / 2, [1.]]))


def pick(w, k, vals):
    r = vals[-1]
    for q in range(len(vals) - 2, -1, -1):
        r = w.ite(w.eq(k, q), vals[q], r)
    return r


def proof(w):
    """any number of examples and any labels, predictions and estimates; the base quantifier replaced by its contract"""
    which = FHQ
    kind = w.choose('base', ['without', 'predictions', 'classifiers', 'fitted classifiers'])
    K = w.choose('K', [3, 4])
    n, m = w.int('n', K), w.int('m', 1)
    cl = w.classes(K)
    X, y, T = w.mat('X', n, 2), w.labels('y', n, cl), w.mat('T', m, 2)
    nq = K if which == OVR else K - 1
    Q = B + ('multiclass.df.DFX' if kind == 'without' else 'baselines.cc.CC')
    v = [w.real('v%d' % q, 0, 1) for q in range(nq)]
    fits, asked = [], []

    def fit(w_, e):
        fits.append(e)
        return e['self']

    def predict(w_, e):
        q = [f['self'] for f in fits].index(e['self'])
        asked.append((q, e))
        return w.vector([1 - v[q], v[q]])
    w.spy(Q + '.fit', fit)
    w.spy(Q + '.predict', predict)
    b = w.new(Q)
    kw, fk, pk = {}, {}, {}
    if kind == 'predictions':
        P, R = w.arr('P', (n, nq)), w.arr('R', (m, nq))
        fk, pk = {'predictions_train': P}, {'predictions_test': R}
    elif kind != 'without':
        made = multi_sym(w, which, nq, cl, ('train', 'test'), kind == 'fitted classifiers')
        kw = dict(estimator_train=made[0][0], estimator_test=made[1][0])
    o = w.new(which, b, **kw)
    w.ensure('fit returns the quantifier', w.call(o, 'fit', X, y, **fk) is o)
    w.ensure('one training per class', len(fits) == nq)
    qs = [f['self'] for f in fits]
    w.ensure('independent copies', len({id(q) for q in qs}) == nq and all(q is not b for q in qs))
    w.ensure_arr('classes', w.attr(o, 'classes_'), (K,), lambda k: cl[k])
    for q, f in enumerate(fits):
        w.ensure('training examples %d' % q, f['X'] is X)
        w.ensure_arr('sub-problem %d' % q, f['y'], (n,), lambda i: w.ind(w.eq(y[i], cl[q]) if which == OVR else w.Or(*[w.eq(y[i], cl[j]) for j in range(q + 1)])))
        if kind == 'predictions':
            w.ensure_arr('predictions %d' % q, f['predictions_train'], (n, 2), lambda i, j: w.ite(w.eq(j, 0), 1 - P[i, q], P[i, q]))
        if kind != 'without':
            for x in ('estimator_train', 'estimator_test'):
                e = w.attr(f['self'], x)
                w.ensure('%s %d' % (x, q), e is (w.attr(kw[x], 'estimators_')[q] if kw else None))
    if kw:
        for c, est, parts in made:
            fitted = [t for t in est.calls if t[0] == 'fit']
            if kind == 'classifiers':
                w.ensure('classifier trained once on the training set', len(fitted) == 1 and fitted[0][1] is X and fitted[0][2] is y)
            else:
                w.ensure('a trained classifier is kept', not fitted)
    for time in (0, 1):
        del asked[:]
        p = w.call(o, 'predict', T, **pk)
        w.ensure('every sub-problem asked once', sorted(q for q, _ in asked) == list(range(nq)))
        for q, e in asked:
            w.ensure('test bag %d' % q, e['X'] is T)
            if kind == 'predictions':
                w.ensure_arr('test predictions %d' % q, e['predictions_test'], (m, 2), lambda i, j: w.ite(w.eq(j, 0), 1 - R[i, q], R[i, q]))
        if which == OVR:
            s = sum(v)
            w.ensure_arr('combined', p, (K,), lambda k: w.ite(w.lt(0, s), pick(w, k, v) / s, pick(w, k, v)))
        else:
            c = ordered(w, v)
            w.ensure_arr('combined', p, (K,), lambda k: pick(w, k, [c[0]] + [c[q] - c[q - 1] for q in range(1, nq)] + [1 - c[-1]]))


def any_classes(w):
    """any number of classes; the base quantifier is any binary quantifier"""
    from pydv.opaque import SymQuant, SymPart, content, quant_value
    from pydv.interp import SMap
    from pydv.arrays import axis
    which = w.choose('quantifier', [OVR, FHQ])
    kind = w.choose('base', ['without', 'predictions', 'classifiers', 'fitted classifiers'])
    K, d = w.int('K', 3), w.int('d', 1)
    n, m = w.int('n', K), w.int('m', 1)
    cl = w.classes(K)
    X, y, T = w.mat('X', n, d), w.labels('y', n, cl), w.mat('T', m, d)
    nq = K if which == OVR else K - 1
    b = SymQuant('WithoutClassifiers' if kind == 'without' else 'UsingClassifiers', 2)
    kw, fk, pk = {}, {}, {}
    if kind == 'predictions':
        P, R = w.arr('P', (n, nq)), w.arr('R', (m, nq))
        fk, pk = {'predictions_train': P}, {'predictions_test': R}
    elif kind != 'without':
        made = multi_sym(w, which, nq, cl, ('train', 'test'), kind == 'fitted classifiers', lambda x: SMap(axis(w.tm.lift(nq)), None, lambda t: SymPart(x, t)))
        kw = dict(estimator_train=made[0][0], estimator_test=made[1][0])
    o = w.new(which, b, **kw)
    w.ensure('fit returns the quantifier', w.call(o, 'fit', X, y, **fk) is o)
    w.ensure('the base quantifier is not trained', b.train is None)
    w.ensure_arr('classes', w.attr(o, 'classes_'), (K,), lambda k: cl[k])

    def trained_with(q):
        sub = w.build((n,), lambda i: w.ind(w.eq(y[i], cl[q]) if which == OVR else w.le(w.li(y, i), q)))
        preds = w.build((n, 2), lambda i, j: w.ite(w.eq(j, 0), 1 - P[i, q], P[i, q])) if kind == 'predictions' else None
        return (content(X), content(sub), content(preds)) + ((SymPart('train', q).t,) if kw else ())

    def asked(q):
        preds = w.build((m, 2), lambda i, j: w.ite(w.eq(j, 0), 1 - R[i, q], R[i, q])) if kind == 'predictions' else None
        return (content(T), content(preds)) + ((SymPart('test', q).t,) if kw else ())
    q = w.tm.fresh('q', True, 0, nq - 1)
    f = w.it.getitem(w.attr(o, 'quantifiers_'), q)
    w.ensure('independent copies', isinstance(f, SymQuant) and f is not b and f.root is b)
    for got, want, what in zip(f.train, trained_with(q), ('examples', 'labels', 'predictions', 'classifier')):
        w.ensure_eq('each sub-problem: its %s' % what, got, want)
    w.ensure_eq('each sub-problem: number of arguments', len(f.train), 4 if kw else 3)
    if kw:
        for c, est, parts in made:
            calls = [t for t in est.calls if t[0] == 'fit']
            w.ensure('a classifier is trained once, on the training set, unless it was trained in advance', len(calls) == (kind == 'classifiers') and all(t[1] is X and t[2] is y for t in calls))
    v = lambda q: quant_value(trained_with(q), asked(q), 2, 1)
    if which == FHQ:
        return combination(w, o, T, pk, K, nq, v)
    for time in (0, 1):
        p = w.call(o, 'predict', T, **pk)
        s = w.sum(K, v)
        w.ensure_arr('estimates of the sub-problems, normalised', p, (K,), lambda k: w.ite(w.lt(0, s), v(k) / s, v(k)))


def ordered(w, v):
    up, lo = list(v), list(v)
    for i in range(1, len(v)):
        up[i] = w.max(up[i - 1], v[i])
    for i in range(len(v) - 2, -1, -1):
        lo[i] = w.min(lo[i + 1], v[i])
    return [(a + b) / 2 for a, b in zip(up, lo)]


def multi_sym(w, which, nq, cl, names, fitted, parts=None):
    """classifiers under the contract of the decomposition: once trained, one binary estimator per sub-problem"""
    Q = 'sklearn.multiclass.OneVsRestClassifier' if which == OVR else B + 'estimators.frank_and_hall.FrankAndHallClassifier'
    made = [(w.new(Q, None), w.estimator(x, cl, fitted=fitted), parts(x) if parts else [w.estimator('%s%d' % (x, q), w.build((2,), lambda k: k)) for q in range(nq)]) for x in names]

    def find(e):
        return next(t for t in made if t[0] is e['self'])

    def fit(w_, e):
        c, est, parts = find(e)
        est.fit(w.it, e['X'], e['y'])
        w.setattr(c, 'estimators_', parts)
        return c
    w.spy(Q + '.fit', fit)
    for meth in ('predict', 'predict_proba'):
        w.spy(Q + '.' + meth, lambda w_, e, meth=meth: getattr(find(e)[1], meth)(w.it, e['X']))
    if fitted:
        for c, _, parts in made:
            w.setattr(c, 'estimators_', parts)
    return made


@contract('P14', 'sub-problems', trials=120)
def train(w):
    return any_classes(w) if w.symbolic else concrete(w, w.choose('quantifier', [OVR, FHQ]))


@contract('P14', 'ordinal sub-problems and their combination', trials=60, scope='3 and 4 classes (any number of examples, any labels, predictions and estimates)')
def ordinal(w):
    return proof(w) if w.symbolic else concrete(w, FHQ)


def concrete(w, which):
    np = w.np
    kind = w.choose('base', ['without', 'predictions', 'classifiers', 'fitted classifiers'])
    K, n, m, cl, X, y, T = data(w)
    nq = K if which == OVR else K - 1
    vals = w.choose('estimates', ['any', 'steps', 'ordered', 'extreme'])
    r = np.random.RandomState(int(w.rng.randint(1 << 30)))
    table = np.round(r.rand(nq) * 4) / 4 if vals == 'steps' else (r.rand(nq) < .5) * 1. if vals == 'extreme' else np.sort(r.rand(nq)) if vals == 'ordered' else r.rand(nq)
    w.assume(which == FHQ or table.sum() > 0)
    w.rec('positive prevalences', table)
    subs = [subproblem(w, which, y, cl, q) for q in range(nq)]

    def script(q, X, preds):
        for j in range(nq):
            if np.array_equal(q.y_[:n], subs[j]):
                return np.array([1 - table[j], table[j]])
        return np.array([.5, .5])
    same = any(np.array_equal(subs[a], subs[b]) for a in range(nq) for b in range(a))
    w.assume(not same)
    b = base(w, kind, script=script)
    kw, fk, pk = {}, {}, {}
    ptrain = ptest = None
    if kind in ('classifiers', 'fitted classifiers'):
        est, est2 = multi(w, which), multi(w, which)
        if kind == 'fitted classifiers':
            est.fit(X, y)
            est2.fit(X, y)
        kw = dict(estimator_train=est, estimator_test=est2)
    elif kind == 'predictions':
        reps = w.choose('predictions per example', [1, 1, 2])
        ptrain, ptest = r.rand(n * reps, nq), r.rand(m, nq)
        fk, pk = {'predictions_train': ptrain}, {'predictions_test': ptest}
    o = w.new(which, b, **kw)
    X0, y0 = X.copy(), y.copy()
    res = w.call(o, 'fit', X, y, **fk)
    w.ensure('fit returns the quantifier', res is o)
    w.ensure("the user's quantifier is not trained", getattr(b, 'X_', None) is None and not hasattr(b, 'y_'))
    qs = list(o.quantifiers_)[:nq]
    w.ensure('independent copies', len({id(q) for q in qs}) == nq and all(q is not b for q in qs) and not any(hasattr(q, 'refitted_') for q in qs))
    w.ensure('classes', np.array_equal(o.classes_, cl))
    for q in range(nq):
        s = qs[q]
        w.ensure('sub-problem %d' % q, np.array_equal(s.y_, subs[q]) and np.array_equal(s.X_, X0))
        if kind == 'predictions':
            w.ensure('predictions %d' % q, np.allclose(s.preds_, np.column_stack([1 - ptrain[:, q], ptrain[:, q]])))
        if kind != 'without':
            w.ensure('classifier %d' % q, s.estimator_train is (kw['estimator_train'].estimators_[q] if kw else None) and s.estimator_test is (kw['estimator_test'].estimators_[q] if kw else None))
    for time in (0, 1):
        p = w.call(o, 'predict', T, **pk)
        for q in range(nq):
            w.ensure('test bag %d' % q, np.array_equal(qs[q].asked_[0], T))
            if kind == 'predictions':
                w.ensure('test predictions %d' % q, np.allclose(qs[q].asked_[1], np.column_stack([1 - ptest[:, q], ptest[:, q]])))
        w.ensure_arr('combined', p, (K,), lambda k: combine(w, which, table, K)[k])
        is_prevalence(w, 'result', p, K)


def multi(w, which):
    from contracts.stubs import Clf
    if which == OVR:
        from sklearn.multiclass import OneVsRestClassifier
        return OneVsRestClassifier(Clf(tag=int(w.rng.randint(99))))
    from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier
    return FrankAndHallClassifier(Clf(tag=int(w.rng.randint(99))))


@contract('P14', 'rejections', trials=40)
def reject(w):
    which = w.choose('quantifier', [OVR, FHQ])
    bad = w.choose('defect', ['no quantifier', 'a classifier', 'train', 'test', 'nothing to train with'])
    if w.symbolic:
        K = w.int('K', 3)
        n = w.int('n', K)
        cl = w.classes(K)
        X, y = w.mat('X', n, 2), w.labels('y', n, cl)
        plain = w.estimator('plain', cl)
        good = multi_sym(w, which, 3 if which == OVR else 2, cl, ('good',), True)[0][0]
        other = w.new(B + 'estimators.frank_and_hall.FrankAndHallClassifier' if which == OVR else 'sklearn.multiclass.OneVsRestClassifier', None)
        q = w.new(B + 'baselines.ac.AC')
    else:
        from contracts.stubs import Clf
        K, n, m, cl, X, y, T = data(w)
        plain, good, other, q = Clf(), multi(w, which), multi(w, FHQ if which == OVR else OVR), base(w, 'classifiers')
    if bad in ('no quantifier', 'a classifier'):
        o = w.new(which, None if bad == 'no quantifier' else plain)
    elif bad in ('train', 'test'):
        wrong = w.choose('classifier', [other, plain])
        o = w.new(which, q, estimator_train=wrong if bad == 'train' else good, estimator_test=wrong if bad == 'test' else good)
    else:
        o = w.new(which, q)
    w.ensure('ValueError', w.raises(lambda: w.call(o, 'fit', X, y), 'ValueError'))


def differences(w, K, check=None):
    """the correction replaced by its contract ('monotone correction') and the invariant of the loop taking differences;
    returns the estimate of a class in terms of the corrected estimates (a function of the estimates)"""
    from pydv.npmodel import lam
    nq, cur = K - 1, {}
    c = lambda j: w.tm.app('corrected', (cur['of'], w.tm.lift(j)))
    D = lambda l: w.ite(w.eq(l, 0), c(0), c(l) - c(l - 1))
    known = lambda j: [w.implies(w.And(w.le(0, j), w.lt(j, nq)), w.And(w.le(0, c(j)), w.le(c(j), 1), w.implies(w.lt(0, j), w.le(c(j - 1), c(j)))))]
    split = lambda k: [w.eq(w.sum(k + 1, D), w.sum(k, D) + D(k))]
    a = w.int('any class', 0)
    w.assume(w.lt(a, K))

    def corrected(w_, e):
        v = e['prevalences']
        if check:
            check(v)
        cur['of'] = lam(v)
        cur['telescope'] = w.induction('differences add up', nq, lambda k: w.eq(w.sum(k + 1, D), c(k)), split)
        for x in known(nq - 1):
            w.assume(x)
        cur['telescope'](nq - 1)
        return w.build((nq,), c)
    w.spy(FHQ + '.check_and_correct_prevalences_asc', corrected)
    at = lambda k: {'p': w.build((K,), lambda j: w.ite(w.le(j, k), D(j), 0))}

    def facts(S, k):
        cur['telescope'](k), cur['telescope'](a - 1)
        return known(k) + known(k + 1) + known(a)
    inv = w.loopinv('differences', {'p': ((K,), lambda j: w.ite(w.eq(j, 0), c(0), 0))}, lambda S, k: [('so far', w.eq(S.p[a], at(k)['p'][a]))], facts, lambda S, k: at(k),
                    lambda *x: 'of' in cur)
    return inv, lambda k: w.ite(w.lt(k, nq), D(k), 1 - c(nq - 1))


def combination(w, o, T, pk, K, nq, v):
    inv, out = differences(w, K, lambda a: w.ensure_arr('estimates of the sub-problems, corrected', a, (nq,), v))
    p = w.call(o, 'predict', T, **pk)
    w.need(inv)
    w.ensure_arr('differences of the corrected estimates', p, (K,), out)


def bounds_of(w, m, v):
    """the largest estimate up to j (U) and the smallest from j on (L), by their defining equations; instances of the lemmas about them"""
    tm = w.tm
    U, L = (lambda j: tm.app('largest so far', (tm.lift(j),))), (lambda j: tm.app('smallest from here', (tm.lift(j),)))

    def defs(j):
        return [w.eq(U(0), v[0]), w.implies(w.And(w.lt(0, j), w.lt(j, m)), w.eq(U(j), w.max(U(j - 1), v[j]))),
                w.eq(L(m - 1), v[m - 1]), w.implies(w.And(w.le(0, j), w.lt(j, m - 1)), w.eq(L(j), w.min(L(j + 1), v[j])))]
    asc = w.all(m - 1, lambda i: w.le(v[i], v[i + 1]))
    back = lambda j: m - 1 - j
    lem = [w.induction('the largest is an estimate', m, lambda j: w.And(w.le(0, U(j)), w.le(U(j), 1)), defs),
           w.induction('the smallest is an estimate', m, lambda j: w.And(w.le(0, L(back(j))), w.le(L(back(j)), 1)), lambda j: defs(back(j))),
           w.induction('ordered estimates: the largest is the last', m, lambda j: w.implies(asc, w.eq(U(j), v[j])), defs),
           w.induction('ordered estimates: the smallest is the first', m, lambda j: w.implies(asc, w.eq(L(back(j)), v[back(j)])), lambda j: defs(back(j)))]

    def about(j):
        for x in defs(j):
            w.assume(x)
        for n, l in enumerate(lem):
            l(j if n % 2 == 0 else back(j))
    return U, L, asc, defs, about


def correct_any(w):
    m = w.int('m', 1)
    v = w.vec('v', m, 0, 1)
    U, L, asc, defs, about = bounds_of(w, m, v)
    first, second = loops(w, m, v, U, L, defs)
    r = w.fn(FHQ + '.check_and_correct_prevalences_asc')(v)
    w.ensure_eq('one value per estimate', w.axlen(r, 0), m)
    i = w.tm.fresh('i', True, 0, m - 1)
    about(i)
    w.ensure_eq('mean of the two ordered bounds', r[i], (U(i) + L(i)) / 2)
    w.ensure('in [0,1]', w.And(w.le(0, r[i]), w.le(r[i], 1)))
    w.ensure('ordered estimates are left unchanged', w.implies(asc, w.eq(r[i], v[i])))
    j = w.tm.fresh('i', True, 0, m - 2)
    w.assume(w.lt(j, m - 1))
    about(j), about(j + 1)
    w.ensure('ordered', w.le(r[j], r[j + 1]))


def loops(w, m, v, U, L, defs):
    """invariants of the two passes of the correction"""
    a = w.int('any entry', 0)
    w.assume(w.lt(a, m))
    entry = {'u': ((m,), lambda i: v[i])}
    up = lambda k: {'u': w.build((m,), lambda i: w.ite(w.le(i, k), U(i), v[i]))}
    down = lambda k: {'u': w.build((m,), lambda i: w.ite(w.le(m - 1 - k, i), L(i), v[i]))}
    first = w.loopinv('upwards', entry, lambda S, k: [('prefix corrected', w.eq(S.u[a], up(k)['u'][a]))], lambda S, k: defs(k) + defs(a) + defs(w.tm.ZERO), lambda S, k: up(k), lambda *x: not first.used)
    second = w.loopinv('downwards', entry, lambda S, k: [('suffix corrected', w.eq(S.u[a], down(k)['u'][a]))], lambda S, k: defs(m - 1 - k) + defs(a), lambda S, k: down(k), lambda *x: first.used)
    return first, second


@contract('P14', 'monotone correction', trials=100)
def correct(w):
    if w.symbolic:
        return correct_any(w)
    m = w.choose('m', list(range(1, 9)))
    v = w.vec('v', m, 0, 1)
    r = w.fn(FHQ + '.check_and_correct_prevalences_asc')(v)
    up, lo = [v[i] for i in range(m)], [v[i] for i in range(m)]
    for i in range(1, m):
        up[i] = w.max(up[i - 1], up[i])
    for i in range(m - 2, -1, -1):
        lo[i] = w.min(lo[i + 1], lo[i])
    for i in range(m):
        w.ensure_eq('entry %d: mean of the two ordered bounds' % i, r[i], (up[i] + lo[i]) / 2)
    for i in range(m - 1):
        w.ensure('ordered %d' % i, w.le(r[i], r[i + 1]))
        w.ensure('in [0,1] %d' % i, w.And(w.le(0, r[i]), w.le(r[i], 1)))
    asc = w.And(*[w.le(v[i], v[i + 1]) for i in range(m - 1)])
    w.ensure('ordered estimates are left unchanged', w.implies(asc, w.And(*[w.eq(r[i], v[i]) for i in range(m)])))
