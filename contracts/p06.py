"""P06: bin edges"""
from pydv.worlds import contract
from contracts.common import *

CUTS = B + 'multiclass.df.compute_bincuts'


def order(w, x, k):
    """k-th smallest value of x"""
    if w.symbolic:
        from pydv.npmodel import lam
        return w.tm.app('sorted', (lam(x), w.tm.lift(k)))
    return float(w.np.sort(x)[k])


def ppf(w, q):
    if w.symbolic:
        return w.tm.app('ppf', (w.tm.lift(q),))
    import statistics
    return -float('inf') if q <= 0 else float('inf') if q >= 1 else statistics.NormalDist().inv_cdf(q)


def inf_edges(w, e, nb):
    w.ensure_eq('one edge more than bins', w.axlen(e, 0), nb + 1)
    if w.symbolic:
        from pydv import npmodel
        w.ensure_eq('first edge', e[0], npmodel.NINF)
        w.ensure_eq('last edge', e[nb], npmodel.PINF)
        w.forall('inner edges ordered', (nb - 2,), lambda b: w.le(e[b + 1], e[b + 2]))
    else:
        cover_all(w, e, nb)


def cover_all(w, e, nb):
    np = w.np
    e = np.asarray(e)
    w.ensure('edges from minus to plus infinity', e[0] == -np.inf and e[-1] == np.inf and not np.isnan(e).any())
    w.ensure('edges ordered', bool(np.all(e[1:] >= e[:-1])))
    z = np.concatenate([w.rng.randn(20) * 3, e[1:-1], [-1e30, 1e30, 0.0]])
    w.ensure_eq('every value falls in exactly one bin', int(np.histogram(z, bins=e)[0].sum()), len(z))


@contract('P06', 'equal width', trials=80)
def equal_width(w):
    nb = w.int('n_bins', 1, typ=8)
    n = w.int('n', 1, typ=15)
    x = w.vec('x', n)
    given = w.choose('range', ['given', 'observed'])
    if given == 'given':
        lo = w.real('lo')
        hi = w.real('hi')
        w.assume(w.lt(lo, hi))
        e = w.fn(CUTS)(x, n_bins=nb, bin_strategy='equal_width', att_range=[lo, hi])
    else:
        lo, hi = w.minof(n, lambda i: x[i]), w.maxof(n, lambda i: x[i])
        e = w.fn(CUTS)(x, n_bins=nb, bin_strategy='equal_width')
    e = w.flat(e)
    # a constant sample without a given range: the width of numpy's degenerate range
    same = w.eq(lo, hi)
    l2, h2 = w.ite(same, lo - 0.5, lo), w.ite(same, hi + 0.5, hi)
    w.forall_eq('inner edges uniformly over the range', (nb - 1,), lambda b: (e[b + 1], l2 + (h2 - l2) * (b + 1) / nb))
    inf_edges(w, e, nb)


@contract('P06', 'equal count', trials=80)
def equal_count(w):
    nb = w.int('n_bins', 1, typ=8)
    n = 1 if w.choose('single value', [False, False, True] if not w.symbolic else [False, True]) else w.int('n', 2, typ=15)
    x = w.vec('x', n)
    e = w.flat(w.fn(CUTS)(x, n_bins=nb, bin_strategy='equal_count'))

    def cut(i):
        if w.symbolic:
            from pydv.worlds import SymWorld
            r = w.it.np.rnd(w.tm.lift(n) * i / w.tm.lift(nb))
            return w.tm.minv(w.tm.maxv(r, 1), w.tm.lift(n) - 1)
        return min(max(round(n * i / nb), 1), n - 1)
    w.forall_eq('midpoints between consecutive order statistics', (nb - 1,),
                lambda b: (e[b + 1], (order(w, x, 0) if isinstance(n, int) and n == 1 else (order(w, x, cut(b + 1) - 1) + order(w, x, cut(b + 1))) / 2)))
    inf_edges(w, e, nb)


@contract('P06', 'binormal', trials=60)
def binormal(w):
    nb = w.int('n_bins', 1, typ=8)
    n = w.int('n', 2, typ=15)
    cl = w.classes(2, strings=True)
    x, y = w.vec('x', n), w.labels('y', n, cl)
    e = w.flat(w.fn(CUTS)(x, y, cl, n_bins=nb, bin_strategy='binormal'))
    c = lambda k: w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)))
    m = lambda k: w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)) * x[i]) / c(k)
    s = lambda k: w.sqrt(w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)) * (x[i] - m(k)) ** 2) / c(k))
    normal_edges(w, e, nb, (m(0) + m(1)) / 2, (s(0) + s(1)) / 2)


@contract('P06', 'normal', trials=60)
def normal(w):
    nb = w.int('n_bins', 1, typ=8)
    K = w.int('K', 2, typ=3)
    n = w.int('n', K, typ=15)
    cl = w.classes(K, strings=True)
    x, y = w.vec('x', n), w.labels('y', n, cl)
    c = lambda k: w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)))
    # class-balanced pooled moments: every class has the same total weight
    S = w.sum(n, lambda i: 1 / c(w.li(y, i)))
    m = w.sum(n, lambda i: x[i] / c(w.li(y, i))) / S
    sq = lambda i: (x[i] - m) ** 2 / c(w.li(y, i)) / S
    w.nonneg_sum(n, sq)
    v = w.sum(n, sq)
    e = w.flat(w.fn(CUTS)(x, y, cl, n_bins=nb, bin_strategy='normal'))
    normal_edges(w, e, nb, m, w.sqrt(v))


def normal_edges(w, e, nb, mu, sd):
    w.ensure_eq('one edge more than bins', w.axlen(e, 0), nb + 1)
    if not w.symbolic:
        cover_all(w, e, nb)
        if sd > 1e-9:
            w.forall_eq('quantiles of the fitted normal', (nb - 1,), lambda b: (e[b + 1], sd * ppf(w, (b + 1) / nb) + mu))
        return
    pos = w.lt(0, sd)
    w.forall_eq('quantiles of the fitted normal', (nb - 1,), lambda b: (e[b + 1], w.ite(pos, sd * ppf(w, (b + 1) / w.tm.lift(nb)) + mu, mu)))
    w.forall('inner edges ordered', (nb - 2,), lambda b: w.le(e[b + 1], e[b + 2]))
    from pydv import npmodel
    w.ensure_eq('first edge', e[0], w.ite(pos, sd * ppf(w, 0) + mu, npmodel.NINF))      # ppf(0) = -inf
    w.ensure_eq('last edge', e[nb], w.ite(pos, sd * ppf(w, 1) + mu, npmodel.PINF))


@contract('P06', 'rejections', trials=30)
def rejections(w):
    n = w.int('n', 3, typ=10)
    cl = w.classes(3)
    x, y = w.vec('x', n), w.labels('y', n, cl)
    f = w.fn(CUTS)
    w.ensure('unknown strategy rejected', w.raises(lambda: f(x, y, cl, n_bins=4, bin_strategy='other')))
    w.ensure('binormal needs two classes', w.raises(lambda: f(x, y, cl, n_bins=4, bin_strategy='binormal')))
