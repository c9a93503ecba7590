"""P18: error measures"""
from pydv.worlds import contract
from contracts.common import *

MC = B + 'metrics.multiclass.'
BI = B + 'metrics.binary.'


def shaped(w, p, K, how):
    """the same prevalences as a flat, column or row vector"""
    if how == 'flat':
        return p
    a = (lambda i, j: p[i]) if how == 'column' else (lambda i, j: p[j])
    return w.build((K, 1) if how == 'column' else (1, K), a)


def pair(w):
    K = w.int('K', 2, typ=4)
    p, q = w.simplex('p', K), w.simplex('q', K)
    if not w.symbolic:      # zero entries
        for a in (p, q):
            if w.rng.rand() < .4:
                a[w.rng.randint(K)] = 0
                if a.sum() == 0:
                    a[0] = 1
                a /= a.sum()
        if w.rng.rand() < .15:
            q[:] = p
        w.inputs = [(n, o, o.copy()) for n, o, c in w.inputs]
    how = w.choose('shape', ['flat', 'column', 'row'])
    return K, p, q, shaped(w, p, K, how), shaped(w, q, K, how)


def plog(w, lg, c, x):
    """c * log(x), zero when c is zero"""
    if w.symbolic:
        return c * lg(x)
    return c * lg(x) if c > 0 else 0.0


def log2(w, x):
    if w.symbolic:
        return w.tm.app('log2', (w.tm.lift(x),))
    import math
    return math.log2(x)


E20 = 1e-20


def D(name, spec, sym=True, zero=True):
    @contract('P18', name, trials=60)
    def c(w):
        K, p, q, P, Q = pair(w)
        f = w.fn(MC + name)
        r = f(P, Q)
        w.ensure_eq('formula', r, spec(w, K, p, q))
        if sym:
            w.ensure_eq('symmetric', r, f(Q, P))
        if zero is None:
            return
        w.ensure('not negative', w.le(0, r))
        w.ensure_eq('zero for equal arguments', f(P, P), 0)
    return c


D('mean_absolute_error', lambda w, K, p, q: w.sum(K, lambda k: w.abs(p[k] - q[k])) / K)
D('mean_squared_error', lambda w, K, p, q: w.sum(K, lambda k: (p[k] - q[k]) ** 2) / K)
D('l1', lambda w, K, p, q: w.sum(K, lambda k: w.abs(p[k] - q[k])))
D('l2', lambda w, K, p, q: w.sqrt(w.sum(K, lambda k: (p[k] - q[k]) ** 2)))
D('hd', lambda w, K, p, q: w.sqrt(w.sum(K, lambda k: (w.sqrt(p[k]) - w.sqrt(q[k])) ** 2)))
D('bray_curtis', lambda w, K, p, q: w.sum(K, lambda k: w.abs(p[k] - q[k])) / 2)
D('probsymmetric', lambda w, K, p, q: 2 * w.sum(K, lambda k: (p[k] - q[k]) ** 2 / (p[k] + q[k] + w.real_const(E20))))


def eps(w): return w.real_const(E20)


@contract('P18', 'topsoe', trials=60)
def topsoe(w):
    K, p, q, P, Q = pair(w)
    f = w.fn(MC + 'topsoe')
    r = f(P, Q)
    e = eps(w)
    s = lambda k: p[k] + q[k] + e
    w.ensure_eq('formula', r, w.sum(K, lambda k: plog(w, w.log, p[k], (2 * p[k] + e) / s(k)) + plog(w, w.log, q[k], (2 * q[k] + e) / s(k))))
    w.ensure_eq('symmetric', r, f(Q, P))
    w.ensure_eq('zero for equal arguments', f(P, P), 0)
    if not w.symbolic:
        w.ensure('not negative', r >= -1e-9)


@contract('P18', 'jensenshannon', trials=60)
def jensenshannon(w):
    K, p, q, P, Q = pair(w)
    f = w.fn(MC + 'jensenshannon')
    r = f(P, Q)
    e = eps(w)
    w.ensure_eq('formula', r, w.sum(K, lambda k: p[k] * w.log(p[k] + e) + q[k] * w.log(q[k] + e) - (p[k] + q[k]) * w.log((p[k] + q[k] + e) / 2)) / 2)
    w.ensure_eq('symmetric', r, f(Q, P))
    if not w.symbolic:
        w.ensure('not negative', r >= -1e-9)
        w.ensure('zero for equal arguments', abs(f(P, P)) <= 1e-9)


@contract('P18', 'kld', trials=100)
def kld(w):
    K, p, q, P, Q = pair(w)
    r = w.fn(MC + 'kld')(P, Q)
    e = w.real_const(1e-12)
    pos = lambda k: w.ite(w.lt(0, p[k]), p[k], 1)
    w.ensure_eq('formula', r, w.sum(K, lambda k: p[k] * log2(w, pos(k) / (q[k] + e))))
    if not w.symbolic:
        w.ensure('not negative', r >= -1e-9)


@contract('P18', 'histograms and other non-negative vectors', trials=150)
def histograms(w):
    """the measures are also used as distances between histograms that do not add up to one"""
    K = w.int('K', 1, typ=6)
    p, q = w.vec('p', K, 0), w.vec('q', K, 0)
    e = eps(w)
    t = w.sum(K, lambda k: p[k] + q[k])
    w.assume(w.lt(0, t))
    f = lambda n: w.fn(MC + n)(p, q)
    d = lambda k: w.abs(p[k] - q[k])
    w.ensure_eq('mean absolute error', f('mean_absolute_error'), w.sum(K, d) / K)
    w.ensure_eq('mean squared error', f('mean_squared_error'), w.sum(K, lambda k: (p[k] - q[k]) ** 2) / K)
    w.ensure_eq('l1', f('l1'), w.sum(K, d))
    w.ensure_eq('l2', f('l2'), w.sqrt(w.sum(K, lambda k: (p[k] - q[k]) ** 2)))
    w.ensure_eq('hd', f('hd'), w.sqrt(w.sum(K, lambda k: (w.sqrt(p[k]) - w.sqrt(q[k])) ** 2)))
    w.ensure_eq('bray_curtis', f('bray_curtis'), w.sum(K, d) / t)
    w.ensure_eq('probsymmetric', f('probsymmetric'), 2 * w.sum(K, lambda k: (p[k] - q[k]) ** 2 / (p[k] + q[k] + e)))
    s = lambda k: p[k] + q[k] + e
    w.ensure_eq('topsoe', f('topsoe'), w.sum(K, lambda k: plog(w, w.log, p[k], (2 * p[k] + e) / s(k)) + plog(w, w.log, q[k], (2 * q[k] + e) / s(k))))
    w.ensure_eq('jensenshannon', f('jensenshannon'),
                w.sum(K, lambda k: p[k] * w.log(p[k] + e) + q[k] * w.log(q[k] + e) - (p[k] + q[k]) * w.log((p[k] + q[k] + e) / 2)) / 2)


@contract('P18', 'different lengths', trials=40)
def lengths(w):
    K = w.int('K', 1, typ=4)
    m = w.int('m', 1, typ=4)
    w.assume(w.ne(K, m))
    p, q = w.vec('p', K, 0, 1), w.vec('q', m, 0, 1)
    for how in ('flat', 'column', 'row'):
        P, Q = shaped(w, p, K, how), shaped(w, q, m, how)
        for name in ('kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe', 'jensenshannon', 'probsymmetric'):
            w.ensure('%s rejects %s vectors of different length' % (name, how), w.raises(lambda: w.fn(MC + name)(P, Q)))


@contract('P18', 'brier', trials=40)
def brier(w):
    n, K = w.int('n', 1, typ=8), w.int('K', 2, typ=3)
    P, Q = w.stoch('P', n, K), w.stoch('Q', n, K)
    f = w.fn(MC + 'brier_multi')
    w.ensure_eq('formula', f(P, Q), w.sum(n, lambda i: w.sum(K, lambda k: (P[i, k] - Q[i, k]) ** 2)) / n)
    w.ensure_eq('zero for equal arguments', f(P, P), 0)


# ---------------------------------------------------------------- binary
def prevalences(w):
    if w.symbolic:
        return w.real('p', 0, 1), w.real('q', 0, 1)
    f = lambda: float(w.rng.choice([0, 1, .5, w.rng.rand(), w.rng.rand(), w.rng.rand()]))
    p = w.rec('p', f())
    q = w.rec('q', p if w.rng.rand() < .15 else f())
    return p, q


def two_faced(w, p):
    return w.max(p, 1 - p)


@contract('P18', 'binary measures', trials=200)
def binary(w):
    p, q = prevalences(w)
    f = lambda n: w.fn(BI + n)
    ab = w.abs(q - p)
    w.ensure_eq('bias', f('bias')(p, q), q - p)
    w.ensure_eq('absolute error', f('absolute_error')(p, q), ab)
    w.ensure_eq('squared error', f('squared_error')(p, q), (q - p) ** 2)
    e = w.real_const(1e-12)
    w.ensure_eq('relative absolute error', f('relative_absolute_error')(p, q), ab / w.ite(w.eq(p, 0), e, p))
    w.ensure_eq('symmetric absolute percentage error', f('symmetric_absolute_percentage_error')(p, q),
                w.ite(w.eq(p + q, 0), 0, ab / w.ite(w.eq(p + q, 0), 1, p + q)))
    big = two_faced(w, p)
    a, s = f('normalized_absolute_score')(p, q), f('normalized_squared_score')(p, q)
    w.ensure_eq('normalised absolute score', a, 1 - ab / big)
    w.ensure_eq('normalised squared score', s, 1 - (ab / big) ** 2)
    w.ensure_eq('absolute error symmetric', f('absolute_error')(q, p), ab)
    w.ensure_eq('squared error symmetric', f('squared_error')(q, p), (q - p) ** 2)
    for n in ('absolute_error', 'squared_error', 'relative_absolute_error', 'symmetric_absolute_percentage_error', 'bias'):
        w.ensure_eq(n + ' of a perfect estimate', f(n)(p, p), 0)
        if n != 'bias':
            w.ensure(n + ' not negative', w.le(0, f(n)(p, q)))
    for n in ('normalized_absolute_score', 'normalized_squared_score'):
        w.ensure_eq(n + ' of a perfect estimate', f(n)(p, p), 1)
        w.ensure(n + ' not negative', w.le(0, f(n)(p, q)))


@contract('P18', 'binary kld', trials=200)
def binary_kld(w):
    p, q = prevalences(w)
    r = w.fn(BI + 'binary_kld')(p, q)
    e = w.real_const(1e-12)

    def part(a, b):
        a1 = w.ite(w.lt(0, a), a, 1)
        return w.ite(w.lt(0, a), a * log2(w, a1 / w.ite(w.lt(0, b), b, e)), 0)
    w.ensure_eq('formula', r, part(p, q) + part(1 - p, 1 - q))
    w.ensure_eq('zero for a perfect estimate', w.fn(BI + 'binary_kld')(p, p), 0)


# ---------------------------------------------------------------- geometric mean of the recalls
@contract('P18', 'geometric mean', trials=200)
def gmean(w):
    n = w.int('n', 1, typ=12)
    corr = w.real('correction', 0, 1)
    if w.symbolic:      # classes: those observed in the two vectors, each in at least one of them
        K = w.int('K', 1)
        cl = w.classes(K, strings=True)
        y, z = w.labels('y_true', n, cl, cover=False), w.labels('y_pred', n, cl, cover=False)
        y.meta['together'] = z
        T, P = (lambda i: w.li(y, i)), (lambda i: w.li(z, i))
    else:
        np = w.np
        c0 = w.classes(w.int('K', 1, typ=4), strings=True)
        t, h = w.rng.randint(0, len(c0), n), w.rng.randint(0, len(c0), n)
        if w.rng.rand() < .5:
            h = np.where(w.rng.rand(n) < .7, t, h)
        y, z = w.rec('y_true', np.asarray(c0)[t]), w.rec('y_pred', np.asarray(c0)[h])
        ks = sorted(set(t) | set(h))
        K, T, P = len(ks), (lambda i: ks.index(t[i])), (lambda i: ks.index(h[i]))
        corr = 0.0 if w.rng.rand() < .5 else corr
    r = w.fn(MC + 'geometric_mean')(y, z, correction=corr)
    have = lambda k: w.sum(n, lambda i: w.ind(w.eq(T(i), k)))
    good = lambda k: w.sum(n, lambda i: w.ind(w.And(w.eq(T(i), k), w.eq(P(i), k))))
    rec = lambda k: w.ite(w.le(good(k), 0), corr, good(k) / w.max(have(k), 1))
    if w.symbolic:
        from pydv.npmodel import lam
        A = w.it.gmeans[-1]
        w.ensure_eq('geometric mean', r, w.tm.app('gmean', (lam(A),)))
        w.ensure_eq('of the recalls: one per class', w.axlen(A, 0), K)
        k = w.tm.fresh('k', True, 0, K - 1)
        for f in (lambda i: w.ind(w.And(w.eq(T(i), k), w.eq(P(i), k))), lambda i: w.ind(w.eq(T(i), k)) - w.ind(w.And(w.eq(T(i), k), w.eq(P(i), k))),
                  lambda i: w.ind(w.eq(T(i), P(i))) - w.ind(w.And(w.eq(T(i), k), w.eq(P(i), k)))):
            w.nonneg_sum(n, f)
        w.it.branch(w.le(have(k), 0)), w.it.branch(w.le(good(k), 0))
        w.ensure_eq('of the recalls', A[k], rec(k))
    else:
        w.ensure_eq('geometric mean of the recalls', r, float(w.np.prod([rec(k) for k in range(K)])) ** (1 / K))
