"""Contracts of the remaining external functions (scipy.linalg, cvxpy, quadprog, sklearn helpers, random sources)."""
from . import terms as tm
from . import smt
from fractions import Fraction
from .terms import *
from .arrays import *
from .interp import *
from . import npmodel
from .npmodel import NP, lam, apply_lam, lam_len


class Models(NP):
    # ---------------------------------------------------------------- scipy / numpy linear algebra
    def linalg_inv(self, M):
        """assumed: raises LinAlgError iff singular, else V with V.M = M.V = 1.  Lemma used: 1'M = 1' => 1'V = 1'."""
        M = self.arr(M)
        self.same_axis(M.axes[0], M.axes[1])
        key, swap = self.inv_key(M)
        if self.it.branch(bapp('singular', (key,))):
            raise PyRaise(SExc('LinAlgError', ('singular matrix',)))
        return self.inverse_spec(M)

    def inv_key(self, M):
        l, lt_ = lam(M), lam(self.it.getattr(M, 'T'))
        swap = lt_.key != l.key and tm.show(lt_) < tm.show(l)
        return (lt_ if swap else l), swap

    def singular_spec(self, M): return bapp('singular', (self.inv_key(M)[0],))

    def inverse_spec(self, M):
        n = axis_len(M.axes[0])
        key, swap = self.inv_key(M)
        name = inv_name(key)
        self.it.assumed.add('scipy.linalg.inv (raises LinAlgError iff singular, otherwise the two-sided inverse)')
        f = M.snap()
        if name not in tm.STOCH:
            tm.STOCH[name] = []
            g = (lambda i, j: lift(f(((0, j), (0, i))))) if swap else (lambda i, j: lift(f(((0, i), (0, j)))))
            # column sums / row sums of the matrix with key `key`
            u = fresh('u', True, 0, n - 1)
            if smt.prove_eq(Sum(n, lambda i: g(i, u)), ONE, self.it.pc, self.it.facts)[0]:
                tm.STOCH[name].append((0, n, None))
            if smt.prove_eq(Sum(n, lambda j: g(u, j)), ONE, self.it.pc, self.it.facts)[0]:
                tm.STOCH[name].append((1, n, None))
            i, j = fresh('u', True, 0, n - 1), fresh('u', True, 0, n - 1)
            A = tm.single_atom(g(i, j))
            if A is not None and A.kind == 'app' and len(A.data[1]) == 2:
                a = A.data[1]
                if a[0] is i and a[1] is j:
                    tm.PAIRS[name] = (A.data[0], 0, n)
                elif a[0] is j and a[1] is i:
                    tm.PAIRS[name] = (A.data[0], 1, n)
        if swap:
            return Arr(M.axes, lambda i: app(name, (i[1][1], i[0][1])), 'num')
        return Arr(M.axes, lambda i: app(name, (i[0][1], i[1][1])), 'num')

    def linalg_solve(self, A, b):
        V = self.linalg_inv(A)
        return self.m_dot(V, self.arr(b))

    def x_scipy__linalg__solve(self, A, b): return self.linalg_solve(A, b)

    def m_linalg__solve(self, A, b): return self.linalg_solve(A, b)


_INVN = {}


def inv_name(key):
    r = _INVN.get(key.key)
    if r is None:
        r = _INVN[key.key] = 'inv%d' % len(_INVN)
    return r


def install(it):
    return Models(it)


class SymKNN:
    """sklearn.neighbors.KNeighborsClassifier: kneighbors(X) gives, per row, n_neighbors training positions (uninterpreted)"""
    n = 0

    def __init__(self, it, n_neighbors=5, **params):
        self.it = it
        self.k = n_neighbors
        self.params = params
        self.train = None
        self.fits = 0
        SymKNN.n += 1
        self.tag = 'knn%d' % (sum(1 for x in it.ghost if str(x).startswith('knn')))
        it.ghost['knn' + self.tag] = self

    def sym_getattr(self, it, name):
        if name == 'fit':
            return self.fit
        if name == 'kneighbors':
            return self.kneighbors
        raise Unsupported('KNeighborsClassifier.' + name)

    def fit(self, X, y):
        self.train = (X, y)
        self.fits += 1
        return self

    def kneighbors(self, X):
        if self.train is None:
            raise PyRaise(SExc('NotFittedError'))
        # the search is a function of its parameters, the training examples (as they are now) and the query
        nm = 'knn_' + '_'.join('%s=%s' % (k, v) for k, v in sorted(self.params.items()) if k not in ('n_jobs', 'weights'))
        tr = lam(self.train[0])
        tm.APP_BOUNDS[nm] = lambda l, *a: (ZERO, lam_len(l) - 1)
        f = X.snap()

        def row(i):
            return lam(Arr(X.axes[1:], lambda idx: f((i,) + idx), X.kind))
        k = lift(self.k)
        self.it.assumed.add('sklearn KNeighborsClassifier.kneighbors (n_neighbors training positions per query row)')
        ind = Arr([X.axes[0], axis(k)], lambda idx: app(nm, (tr, lift(self.k), row(idx[0]), idx[1][1]), True), 'int')
        return (Arr([X.axes[0], axis(k)], lambda idx: app(nm + '_d', (tr, lift(self.k), row(idx[0]), idx[1][1])), 'num'), ind)


def _knn(self, *a, **k):
    return SymKNN(self.it, *a, **k)


Models.x_sklearn__neighbors__KNeighborsClassifier = _knn


# ---------------------------------------------------------------- cvxpy and quadprog: the programme handed over is recorded, the result is its solution
TOLS = ('feastol', 'abstol', 'reltol', 'eps', 'eps_abs', 'eps_rel', 'feastol_inacc', 'abstol_inacc', 'reltol_inacc')


def subst_apps(t, table):
    """replace applications name(args) by table[name](*args)"""
    def fn(A):
        if A.kind == 'app' and A.data[0] in table:
            return table[A.data[0]](*A.data[1])
        return None
    return tm.rewrite(t, fn)


def mentions(t, names):
    return any(a.data[0] in names for m in lift(t).p for x, _ in m for a in tm.apps_in(tm.ATOMS[x]))


class CvxObjective:
    def __init__(self, t, sign): self.t, self.sign = t, sign


class CvxProblem:
    def __init__(self, it, objective, cons):
        self.it, self.objective, self.cons = it, objective, list(cons)
        self.box = {'sol': None}

    def all_terms(self):
        out = [lift(self.objective.t)]
        for c in self.cons:
            out.append(c.t if isinstance(c, F) else (lift(c.at(*[0] * c.ndim)) if isinstance(c, Arr) else lift(c)))
        return out

    def used(self, kind):
        cv = self.it.ghost['cvx']
        names = [n for n in cv[kind]]
        return [n for n in names if any(mentions(t, {n}) for t in self.all_terms())]

    def sym_getattr(self, it, name):
        if name == 'solve':
            return self.solve
        if name == 'parameters':
            return lambda: [it.ghost['cvx']['par'][n] for n in self.used('par')]
        if name == 'variables':
            return lambda: [it.ghost['cvx']['var'][n][0] for n in self.used('var')]
        if name in ('param_dict',):
            raise Unsupported('cvxpy problem.' + name)
        if name == 'solution':
            return self
        if name == 'primal_vars':
            return {n: self.value_of(n) for n in self.used('var')}
        if name == 'status':
            return 'optimal'
        if name == 'value':
            raise Unsupported('optimal value of a cvxpy problem')
        raise Unsupported('cvxpy problem.' + name)

    def value_of(self, n):
        v = self.it.ghost['cvx']['val'].get(n)
        if v is None:
            raise PyRaise(SExc('AttributeError', ('no value',)))
        return v

    def solve(self, *a, **kw):
        it = self.it
        cv = it.ghost['cvx']
        for k, v in kw.items():
            if k in TOLS:
                it.defined('solver tolerance of at most 1e-4', fnot(lt(const(Fraction(1, 10000)), lift(v))))
            elif k in ('max_iters', 'max_iter'):
                it.defined('solver iteration limit of at least 100', fnot(lt(lift(v), const(100))))
            elif k not in ('solver', 'warm_start', 'verbose'):
                raise Unsupported('cvxpy solve option ' + k)
        vs = self.used('var')
        if len(vs) != 1:
            raise Unsupported('cvxpy problem with %d variables' % len(vs))
        n = vs[0]
        V, nonneg = cv['var'][n]
        table = {}
        for p in self.used('par'):
            val = cv['parval'].get(p)
            if val is None:
                raise PyRaise(SExc('ParameterError', ('parameter without value',)))
            f = val.snap()
            table[p] = (lambda f: lambda *i: lift(f(tuple((0, x) for x in i))))(f)
        obj = subst_apps(lift(self.objective.t), table) * const(self.objective.sign)
        cons = []
        for c in self.cons:
            if isinstance(c, F):
                cons.append(F(subst_apps(c.t, table)))
            elif isinstance(c, Arr):
                cons.append(c)
            else:
                raise Unsupported('cvxpy constraint')
        nm = 'cvxsol!%d' % len(cv['programs'])
        dim = axis_len(V.axes[0])
        if nonneg:
            tm.APP_BOUNDS[nm] = lambda *a: (ZERO, None)
        elem = lambda *i: app(nm, i)
        simplex = nonneg
        one = 0
        for c in cons:
            if isinstance(c, Arr):
                k = fresh('k', True, 0, axis_len(c.axes[0]) - 1)
                simplex = simplex or (liftF(c.at(k)).t is fnot(lt(app(n, (k,)), ZERO)).t)
                continue
            if c.t is eq(Sum(dim, lambda k: app(n, (k,))), ONE).t:
                one += 1
            else:
                raise Unsupported('cvxpy constraint')
        if simplex and one:
            tm.APP_BOUNDS[nm] = lambda *a: (ZERO, ONE)
            tm.STOCH[nm] = [(0, dim, None)]
        it.assumed.add('cvxpy.Problem.solve (the variable takes a value minimising the objective subject to the constraints)')
        cv['programs'].append(dict(kind='cvx', obj=obj, var=n, dim=dim, simplex=bool(simplex and one), sol=nm, options=dict(kw)))
        it.setloc('dict', cv['val'], n, Arr(V.axes, lambda i: app(nm, [x[1] for x in i]), 'num'))
        return None


def _cvx(self):
    g = self.it.ghost
    if 'cvx' not in g:
        g['cvx'] = {'var': {}, 'par': {}, 'parval': {}, 'val': {}, 'programs': []}
    return g['cvx']


def programs(it):
    return it.ghost.get('cvx', {}).get('programs', [])


class OptModels:
    cvx = property(_cvx)

    def cvxshape(self, shape):
        return [axis(lift(s)) for s in (shape if isinstance(shape, tuple) else (shape,))]

    def x_cvxpy__Variable(self, shape=(), nonneg=False, **k):
        cv = self.cvx
        nm = 'cvxvar!%d' % len(cv['var'])
        tm.APP_BOUNDS.pop(nm, None)
        a = Arr(self.cvxshape(shape), lambda i: app(nm, [x[1] for x in i]), 'num')
        cv['var'][nm] = (a, bool(nonneg))
        return a

    def x_cvxpy__Parameter(self, shape=(), nonneg=False, value=None, **k):
        cv = self.cvx
        nm = 'cvxpar!%d' % len(cv['par'])
        a = Arr(self.cvxshape(shape), lambda i: app(nm, [x[1] for x in i]), 'num')
        a.meta['cvxpar'] = (nm, bool(nonneg))
        cv['par'][nm] = a
        if value is not None:
            self.set_value(a, value)
        return a

    def set_value(self, a, v):
        nm, nonneg = a.meta['cvxpar']
        v = self.arr(v)
        if v.ndim != a.ndim:
            raise PyRaise(SExc('ValueError', ('Invalid dimensions for Parameter value.',)))
        for x, y in zip(v.axes, a.axes):
            if not axis_same(x, y):
                self.it.defined('value has the shape of the parameter', eq(axis_len(x), axis_len(y)))
        f = v.snap()
        if nonneg:
            for i, h in self.it.skolem(v.axes)[0]:
                npc = len(self.it.pc)
                self.it.assume(h)
                self.it.defined('parameter value is non-negative', fnot(lt(lift(f(i)), ZERO)))
                del self.it.pc[npc:]
        self.it.setloc('dict', self.cvx['parval'], nm, Arr(v.axes, f, 'num'))

    def cvx_value(self, a):
        cv = self.cvx
        if 'cvxpar' in a.meta:
            return cv['parval'].get(a.meta['cvxpar'][0])
        table = {}
        for n, v in cv['val'].items():
            table[n] = (lambda f: lambda *i: lift(f(tuple((0, x) for x in i))))(v.snap())
        f = a.snap()
        return Arr(a.axes, lambda i: subst_apps(lift(f(i)), table), 'num')

    def x_cvxpy__Minimize(self, t): return CvxObjective(t, 1)

    def x_cvxpy__Maximize(self, t): return CvxObjective(t, -1)

    def x_cvxpy__Problem(self, objective, constraints=()):
        self.cvx
        return CvxProblem(self.it, objective, self.it.as_list(constraints) if hasattr(self.it, 'as_list') else constraints)

    def x_cvxpy__sum(self, a, axis=None, **k): return self.m_sum(a, axis=axis)

    def x_cvxpy__multiply(self, a, b): return self.m_multiply(a, b)

    def x_cvxpy__sqrt(self, a): return self.ew(lambda x: tm.sqrt(lift(x)), [a])

    def x_cvxpy__abs(self, a): return self.m_abs(a)

    def x_cvxpy__square(self, a): return self.m_square(a)

    def x_cvxpy__sum_squares(self, a): return self.m_sum(self.m_square(a))

    def x_cvxpy__matmul(self, a, b): return self.m_dot(a, b)

    def x_cvxpy__norm1(self, a): return self.m_sum(self.m_abs(a))

    def x_cvxpy__norm(self, a, p=2, axis=None):
        p = lift(p).const()
        if axis is not None or p not in (1, 2):
            raise Unsupported('cvxpy.norm')
        return self.m_sum(self.m_abs(a)) if p == 1 else tm.sqrt(lift(self.m_sum(self.m_square(a))))

    # quadprog
    def x_quadprog__solve_qp(self, G, a, C=None, b=None, meq=0, factorized=False):
        it = self.it
        if C is None or factorized is not False:
            raise Unsupported('solve_qp options')
        cv = self.cvx
        G, a, C, b = self.arr(G), self.arr(a), self.arr(C), self.arr(b)
        for u, v, what in ((G.axes[0], G.axes[1], 'G is square'), (G.axes[0], a.axes[0], 'G and a'), (C.axes[0], G.axes[0], 'C and G'), (C.axes[1], b.axes[0], 'C and b')):
            if not axis_same(u, v):
                it.defined('sizes of the quadratic programme agree (%s)' % what, eq(axis_len(u), axis_len(v)))
        dim = axis_len(G.axes[0])
        nm = 'qpsol!%d' % len(cv['programs'])
        g, av = G.snap(), a.snap()
        x = lambda k: app('qpvar', (lift(k),))
        gi = lambda i, j: lift(g(((0, lift(i)), (0, lift(j)))))
        obj = Sum(dim, lambda i: Sum(dim, lambda j: x(i) * gi(i, j) * x(j))) * const(Fraction(1, 2)) - Sum(dim, lambda i: lift(av(((0, i),))) * x(i))
        kind = self.qp_set(C, b, meq, dim)
        tm.STOCH.pop(nm, None)
        tm.APP_BOUNDS[nm] = lambda *k: (ZERO, ONE)
        if kind == 'simplex':
            tm.STOCH[nm] = [(0, dim, None)]
        elif kind == 'subsimplex':
            it.assume(fnot(lt(ONE, Sum(dim, lambda k: app(nm, (k,))))))
        else:
            tm.APP_BOUNDS.pop(nm)
        it.assumed.add('quadprog.solve_qp (the minimiser of 1/2 x\'Gx - a\'x subject to C\'x >= b, the first meq constraints being equalities)')
        cv['programs'].append(dict(kind='qp', obj=obj, var='qpvar', dim=dim, set=kind, simplex=kind == 'simplex', sol=nm, G=G, a=a, C=C, b=b, meq=meq))
        sol = Arr([axis(dim)], lambda i: app(nm, (i[0][1],)), 'num')
        return (sol, Poison('optimal value'), Poison('unconstrained'), Poison('iterations'), Poison('lagrangian'), Poison('iact'))

    def qp_set(self, C, b, meq, dim):
        """'simplex' {x>=0, sum x = 1}, 'subsimplex' {x>=0, sum x <= 1} or None; decided by the prover"""
        it = self.it
        if len(C.axes[1]) == 2 and len(C.axes[0]) == 1:
            s0, s1 = C.axes[1]
        elif len(C.axes[1]) == 1:
            s0 = s1 = None
        else:
            return None
        P = lambda u, v: smt.prove_eq(lift(u), lift(v), it.pc, it.facts)[0]
        meq = lift(meq).const()

        def col(j):     # logical column number -> axis index
            if s0 is None:
                return (0, lift(j))
            return (0, ZERO) if j == 0 else (1, lift(j) - s0.n)
        if s0 is not None and s0.n.const() != 1:
            return None
        n = axis_len(C.axes[1])
        if not P(n, dim + 1):
            return None
        c, bb = C.snap(), b.snap()
        cat = lambda k, q: lift(c(((0, lift(k)), q)))
        if len(b.axes[0]) == 2:
            bat = lambda j: lift(bb(((0, ZERO),))) if j == 0 else lift(bb(((1, lift(j) - b.axes[0][0].n),)))
        else:
            bat = lambda j: lift(bb(((0, lift(j)),)))
        k, j = fresh('k', True, 0, dim - 1), fresh('j', True, 0, dim - 1)
        if not (P(cat(k, col(j + 1)), eq(k, j).t) and P(bat(j + 1), ZERO)):
            return None
        first, b0 = cat(k, col(0)), bat(0)
        if meq == 1 and ((P(first, ONE) and P(b0, ONE)) or (P(first, const(-1)) and P(b0, const(-1)))):
            return 'simplex'
        if meq == 0 and P(first, const(-1)) and P(b0, const(-1)):
            return 'subsimplex'
        return None


for _n in dir(OptModels):
    if not _n.startswith('__'):
        setattr(Models, _n, OptModels.__dict__[_n])


# ---------------------------------------------------------------- ranks
def _rankdata(self, a, method='average', axis=None, **k):
    if method != 'average':
        raise Unsupported('rankdata method')
    a = self.arr(a)
    if axis is not None and not (axis == 0 and a.ndim == 2):
        if not (a.ndim == 1 and axis in (0, -1)):
            raise Unsupported('rankdata axis')
    if a.ndim == 2 and axis is None:
        raise Unsupported('rankdata of a matrix without axis')
    f = a.snap()

    self.it.assumed.add('scipy.stats.rankdata (average rank within the column)')

    def fn(idx):
        col = lam(Arr([a.axes[0]], lambda i: f((i[0],) + idx[1:]), 'num'))
        return app('rank', (col, lift(f(idx))))
    return Arr(a.axes, fn, 'num')


Models.x_scipy__stats__rankdata = _rankdata


# ---------------------------------------------------------------- scikit-learn's weighted_mode of class labels
def _weighted_mode(self, a, wgt, axis=0):
    a, wgt = self.arr(a), self.arr(wgt)
    if a.ndim != 2 or axis != 1 or not is_plain(a.axes[0]) or not is_plain(a.axes[1]):
        raise Unsupported('weighted_mode axis')
    cl = self.it.ghost['classes']
    if not (a.kind == cl.kind):
        raise Unsupported('weighted_mode of values which are not class labels')
    f, g, c = a.snap(), wgt.snap(), cl.snap()
    ka = a.axes[1][0]

    def tot(idx):
        v = fresh('s', True, 0, ka.n - 1)
        return mksum(v, ka.n, eq(lift(f((idx[0], (0, v)))), lift(c((idx[1],)))).t * lift(g((idx[0], (0, v)))))
    totals = Arr([a.axes[0], cl.axes[0]], tot, 'num')
    # the function starts from weight 0 and value 0: its result is a label only when some weight is positive and none is negative
    for ix, h in self.it.skolem(a.axes)[0]:
        npc = len(self.it.pc)
        self.it.assume(h)
        self.it.defined('weighted_mode: weights are positive', lt(ZERO, lift(g(ix))))
        del self.it.pc[npc:]
    self.it.defined('weighted_mode: no empty row', lt(ZERO, ka.n))
    best = self.m_argmax(totals, axis=1).snap()
    self.it.assumed.add('sklearn weighted_mode (value of largest total weight, the smallest of those tied)')
    val = Arr([a.axes[0], globals()['axis'](1)], lambda idx: c(((0, lift(best((idx[0],)))),)), a.kind)
    return (val, self.m_max(totals, axis=1, keepdims=True))


Models.x_sklearn__utils__extmath__weighted_mode = _weighted_mode
