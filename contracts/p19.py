"""P19: ordinal earth mover measures"""
from pydv.worlds import contract
from contracts.common import *
from contracts.p18 import shaped

OR = B + 'metrics.ordinal.'


def pairs(w):
    K = w.int('K', 2, typ=5)
    p, q = w.simplex('p', K), w.simplex('q', K)
    if not w.symbolic:
        for a in (p, q):
            if w.rng.rand() < .4:
                a[w.rng.randint(K)] = 0
                if a.sum() == 0:
                    a[0] = 1
                a /= a.sum()
        if w.rng.rand() < .15:
            q[:] = p
        if w.rng.rand() < .15:
            p[:], q[:] = 0, 0
            p[0] = q[-1] = 1
        w.inputs = [(n, o, o.copy()) for n, o, c in w.inputs]
    how = w.choose('shape', ['flat', 'column'])
    return K, p, q, shaped(w, p, K, how), shaped(w, q, K, how)


def C(w, p, q, k): return w.sum(k + 1, lambda j: p[j] - q[j])


def area(w, p, q, K):
    """the last cumulative difference is zero"""
    return w.sum(K - 1, lambda k: w.abs(C(w, p, q, k)))


@contract('P19', 'earth mover distance', trials=150)
def emd(w):
    K, p, q, P, Q = pairs(w)
    f = w.fn(OR + 'emd')
    r = f(P, Q)
    w.ensure_eq('sum of absolute cumulative differences', r, area(w, p, q, K))
    w.ensure_eq('symmetric', r, f(Q, P))
    w.ensure('not negative', w.le(0, r))
    w.ensure_eq('zero for equal vectors', f(P, P), 0)
    c = lambda k: w.abs(C(w, p, q, k))

    def parts(k):
        w.member(K, c, k)
        w.member(K, c, k - 1)
        return w.le(w.abs(p[k] - q[k]), 2 * r)
    w.forall('zero only for equal vectors', (K,), parts)
    w.nonneg_sum(K - 1, lambda k: 1 - c(k))
    w.ensure('at most the number of classes minus one', w.le(r, K - 1))


@contract('P19', 'score', trials=150)
def score(w):
    K, p, q, P, Q = pairs(w)
    f = w.fn(OR + 'emd_score')
    left = w.build((K,), lambda i: w.ind(w.eq(i, 0)))
    right = w.build((K,), lambda i: w.ind(w.eq(i, K - 1)))
    D = lambda a: w.sum(K, lambda k: w.abs(C(w, p, a, k)))
    w.nonneg_sum(K, lambda k: w.abs(C(w, p, left, k)) + w.abs(C(w, p, right, k)) - 1 + w.ind(w.eq(k, K - 1)))
    L, R = D(left), D(right)
    worst = w.max(L, R)
    w.ensure_eq('share of the worst distance', f(P, Q) * worst, worst - D(q))
    w.ensure_eq('one for a perfect estimate', f(P, P), 1)
    w.ensure_eq('zero for the worst estimate', w.min(f(p, left), f(p, right)), 0)
    if not w.symbolic:
        w.ensure('not negative', w.le(0, f(P, Q)))


@contract('P19', 'pairwise distances', trials=100)
def pairwise(w):
    K = w.int('K', 2, typ=5)
    n, m = w.int('n', 1, typ=5), w.int('m', 1, typ=5)
    A, Bm = w.stoch('A', n, K), w.stoch('B', m, K)
    r = w.fn(OR + 'emd_distances')(A, Bm)
    w.ensure_arr('same number for every pair of rows', r, (n, m), lambda i, j: area(w, Row(A, i), Row(Bm, j), K))
    if not w.symbolic:
        w.ensure('agrees with the single version', all(abs(r[i, j] - w.fn(OR + 'emd')(A[i], Bm[j])) < 1e-9 for i in range(n) for j in range(m)))


class Row:
    def __init__(self, a, i): self.a, self.i = a, i

    def __getitem__(self, k): return self.a[self.i, k]
