"""P07: simplex programmes (cvxpy / quadprog): the programme handed over is the stated one, its solution is returned"""
from pydv.worlds import contract
from contracts.common import *


def given(w):
    D = w.int('D', 2, typ=8)
    K = w.int('K', 2, typ=3)
    if w.symbolic:
        M = w.arr('M', (D, K), 0, 1)
    else:   # columns are distributions
        M = w.np.ascontiguousarray(w.stoch('M0', K, D).T) * w.rng.choice([1, 2, 3])
        w.inputs.append(('M', M, M.copy()))
    return D, K, M, dist(w, 't', D), dist(w, 't2', D)


def dist(w, name, D):
    shape = w.choose('shape ' + name, ['flat', 'column']) if not w.symbolic else 'flat'
    if w.symbolic:
        t = w.arr(name, (D,), 0, 1)
    else:       # of any mass: several descriptors, histograms, ...
        t = w.simplex(name, D) * w.rng.choice([1, 1, 2, 3])
    return t if shape == 'flat' else t.reshape(-1, 1)


def l1(w, M, t, D, K): return lambda p: w.sum(D, lambda d: w.abs(t[d] - w.sum(K, lambda k: M[d, k] * p(k))))


def hd(w, M, t, D, K): return lambda p: 1 - w.sum(D, lambda d: w.sqrt(t[d] * w.sum(K, lambda k: M[d, k] * p(k))))


def l2(w, M, t, D, K): return lambda p: w.sum(D, lambda d: (t[d] - w.sum(K, lambda k: M[d, k] * p(k))) ** 2)


def programme(w, name, P, spec, r, D, K):
    """P minimises spec over the simplex (up to an additive constant) and r is its solution"""
    tm = w.tm
    from pydv.models import subst_apps
    v = P['var']
    w.ensure_eq(name + ': one variable per class', P['dim'], K)
    w.ensure(name + ': feasible set is the simplex', P['simplex'])
    f = lambda k: tm.app(v, (tm.lift(k),))
    # up to an additive constant and a positive factor
    for c in (1, 2, tm.lift(1) / 2):
        diff = P['obj'] - c * spec(f)
        const = subst_apps(diff, {v: lambda k: tm.ZERO}) if not diff.const() is not None else diff
        if not (diff - const).p:
            break
    else:
        c = 1
        diff = P['obj'] - spec(f)
        const = subst_apps(diff, {v: lambda k: tm.ZERO}) if not diff.const() is not None else diff
    w.ensure_eq(name + ': objective', P['obj'], c * spec(f) + const)
    w.ensure_arr(name + ': the solution is returned', r, (K,), lambda k: tm.app(P['sol'], (tm.lift(k),)))


def check(w, which, name, spec, M, t, r, D, K):
    if w.symbolic:
        from pydv.models import programs
        ps = programs(w.it)
        w.ensure(name + ': a programme is solved', len(ps) > 0)
        programme(w, name, ps[-1], spec(w, M, t, D, K), r, D, K)
    else:
        is_prevalence(w, name, r, K, tol=2e-3)
        optimal(w, M, t, r, {'solve_l1': 'L1', 'solve_hd': 'HD', 'solve_l2': 'L2'}[which])


def cvx(which, spec):
    def c(w):
        D, K, M, t, t2 = given(w)
        f = w.fn(OPT + which)
        pr, r = w.tuple(f(M, t, K), 2)
        check(w, which, 'first call', spec, M, t, r, D, K)
        pr, r2 = w.tuple(f(M, t2, K, pr), 2)
        check(w, which, 'problem used again', spec, M, t2, r2, D, K)
        pr, r3 = w.tuple(f(M, t, K, pr), 2)
        check(w, which, 'problem used a third time', spec, M, t, r3, D, K)
        # a problem built for something else is not involved
        pr2, r4 = w.tuple(f(M, t2, K), 2)
        check(w, which, 'another problem', spec, M, t2, r4, D, K)
    return c


contract('P07', 'solve_l1', trials=15, functions=[OPT + 'solve_l1'])(cvx('solve_l1', l1))
contract('P07', 'solve_hd', trials=15, functions=[OPT + 'solve_hd'])(cvx('solve_hd', hd))


@contract('P07', 'solve_l2 with compute_l2_param_train', trials=60)
def squared(w):
    D, K, M, t, t2 = given(w)
    cl = w.classes(K, strings=True)
    if w.symbolic:
        w.spy(OPT + 'is_pd', lambda w, a: w.tm.bapp('is_pd', ()))
        w.spy(OPT + 'nearest_pd', lambda w, a: w.arr('Gpd', (K, K), track=False))
    G, C, b = w.tuple(w.fn(OPT + 'compute_l2_param_train')(M, cl), 3)
    if not w.symbolic:
        w.ensure_arr('G is twice the Gram matrix (or close to it)', w.np.round(G - 2 * M.T @ M, 5), (K, K), lambda i, j: 0)
    for name, tt in (('first bag', t), ('second bag', t2)):
        r = w.fn(OPT + 'solve_l2')(M, tt, G, C, b)
        if w.symbolic and not w.holds(w.tm.bapp('is_pd', ())):
            # not positive definite: the repaired matrix is used; linear term and constraints as before
            from pydv.models import programs
            P = programs(w.it)[-1]
            w.forall_eq(name + ': repaired matrix used', (K, K), lambda i, j: (P['G'][i, j], w.tm.app('Gpd', (w.tm.lift(i), w.tm.lift(j)))))
            w.forall_eq(name + ': linear term', (K,), lambda k: (P['a'][k], 2 * w.sum(D, lambda d: M[d, k] * tt[d])))
            w.ensure(name + ': feasible set is the simplex', P['simplex'])
            w.ensure_arr(name + ': the solution is returned', r, (K,), lambda k: w.tm.app(P['sol'], (w.tm.lift(k),)))
        else:
            check(w, 'solve_l2', name, l2, M, tt, r, D, K)
