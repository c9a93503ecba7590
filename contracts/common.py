B = 'quantificationlib.'
AC = B + 'baselines.ac.AC'
PAC = B + 'baselines.ac.PAC'
CC = B + 'baselines.cc.CC'
PCC = B + 'baselines.cc.PCC'
OPT = B + 'optimization.'


def is_prevalence(w, name, p, K, tol=None):
    if tol is not None and not w.symbolic:      # result of a numerical solver
        w.ensure_eq(name + ': length', w.axlen(p, 0), K)
        w.ensure(name + ': in [0,1]', all(-tol <= v <= 1 + tol for v in p))
        w.ensure(name + ': sums to one', abs(sum(p) - 1) <= tol)
        return
    w.ensure_eq(name + ': length', w.axlen(p, 0), K)
    w.forall(name + ': in [0,1]', (K,), lambda k: w.And(w.le(0, p[k]), w.le(p[k], 1)))
    w.ensure_eq(name + ': sums to one', w.sum(K, lambda k: p[k]), 1)


def train(w, K=None, d=2, strings=True, ntyp=8, repeat=True, ints=None):
    """classes, training set and the posteriors of the training examples (each example r times)"""
    K = K if K is not None else w.int('K', 2, typ=3)
    n = w.int('n', K, typ=ntyp)
    cl = w.classes(K, strings=strings, ints=ints)
    X, y = w.mat('X', n, d), w.labels('y', n, cl)
    return K, n, cl, X, y


def class_count(w, y, n, k):
    return w.sum(n, lambda i: w.ind(w.eq(w.li(y, i), k)))


def spy_l2(w):
    """modular contract of compute_l2_param_train (verified in P07)"""
    def res(w, a):
        K = w.length(a['classes'])
        return (w.arr('G!', (K, K), track=False), w.arr('C!', (K, K + 1), track=False), w.arr('b!', (K + 1,), track=False))
    return w.spy(OPT + 'compute_l2_param_train', res)


def simplex_result(w, name, K):
    a = w.arr(name, (K,), 0, 1, track=False)
    w.tm.STOCH[name] = [(0, w.tm.lift(K), None)]
    return a


def spy_solve(w, which):
    """modular contract of solve_l1 / solve_hd / solve_l2: the result lies on the simplex (verified in P07)"""
    def res(w, a):
        K = a.get('n_classes')
        if K is None:
            K = w.axlen(a['G'], 0)
        p = simplex_result(w, which + '!', K)
        return p if which == 'solve_l2' else ('problem!', p)
    return w.spy(OPT + which, res)


def two(K): return isinstance(K, int) and K == 2


def optimal(w, M, t, r, dist, tol=None):
    """r minimises the distance between M p and t over the simplex (checked against projected descent from many points)"""
    np = w.np
    tol = tol or (5e-3 if dist == 'HD' else 2e-4)
    r, t = np.asarray(r, dtype=float).ravel(), np.asarray(t, dtype=float).ravel()

    def f(p):
        x = M @ p
        if dist == 'L1':
            return np.abs(x - t).sum()
        if dist == 'L2':
            return ((x - t) ** 2).sum()
        return 1 - np.sqrt(np.maximum(x, 0) * np.maximum(t, 0)).sum()
    w.ensure('objective not improvable', f(r) <= best_value(np, f, len(r), [r], w.rng) + tol)


def best_value(np, f, K, starts, rng):
    """pairwise-exchange descent over the simplex for a convex objective, several starting points and directions"""
    cand = [np.ones(K) / K] + list(np.eye(K)) + [np.asarray(s, dtype=float) for s in starts] + list(rng.dirichlet(np.ones(K), size=8))
    cand = [np.maximum(c, 0) / np.maximum(c, 0).sum() for c in cand if np.all(np.isfinite(c)) and np.maximum(c, 0).sum() > 0]
    best = min(f(c) for c in cand)
    top = sorted(cand, key=f)[:3]
    for p in top:
        p = p.copy()
        cur = f(p)
        step = 0.25
        while step > 2e-5:
            moved = False
            for _ in range(4 * K):
                d = rng.randn(K)
                d -= d.mean()
                if rng.rand() < .6:
                    d = np.zeros(K)
                    i, j = rng.choice(K, 2, replace=False)
                    d[i], d[j] = 1, -1
                x = np.maximum(p + step * d / np.abs(d).max(), 0)
                x /= x.sum()
                v = f(x)
                if v < cur - 1e-12:
                    p, cur, moved = x, v, True
            if not moved:
                step /= 2
        best = min(best, cur)
    return best
