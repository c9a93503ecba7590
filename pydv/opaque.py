"""opaque collaborators used by the symbolic contracts: a regressor and a bag generator known only by their interfaces"""
from . import terms as tm
from . import arrays
from .arrays import Arr
from .npmodel import lam
from .interp import PyRaise, SExc, Unsupported


def row(X, i):
    f = X.snap()
    return lam(Arr(X.axes[1:], lambda k: f((i,) + k), X.kind))


class SymReg:
    """any regressor: the prediction of a row is a function of the training set and of the row alone"""

    def __init__(self, root=None, train=None):
        arrays._cellno[0] += 1
        self.no = arrays._cellno[0]
        self.root, self.train, self.seen, self.fits = root or self, train, [], []

    def sym_copy(self, it):
        return SymReg(self.root, self.train)

    def sym_subst(self, sub):
        if self.train is None or not any(v in t.fv for t in self.train for v in sub):
            return self
        return SymReg(self.root, tuple(tm.subst(t, sub) for t in self.train))

    def sym_getattr(self, it, name):
        if name == 'fit':
            return lambda X, y: self.fit(it, X, y)
        if name == 'predict':
            return lambda X: self.predict(it, X)
        if name == 'get_params':
            return lambda *a, **k: {}
        raise PyRaise(SExc('AttributeError', (name,)))

    def sym_setattr(self, it, name, v):
        raise Unsupported('attribute %s set on a regressor' % name)

    def fit(self, it, X, y):
        if X.ndim != 2 or y.ndim != 1:
            raise PyRaise(SExc('ValueError'))
        f, g = X.snap(), y.snap()       # contents at the time of training
        self.root.fits.append((self, Arr(X.axes, f, X.kind), Arr(y.axes, g, y.kind)))
        it.setloc('attr', self, 'train', (lam(X), lam(y)))
        return self

    def value(self, X, i):
        return reg_value(self.train, row(X, i))

    def predict(self, it, X):
        if self.train is None:
            raise PyRaise(SExc('NotFittedError'))
        if X.ndim != 2:
            raise PyRaise(SExc('ValueError'))
        f = X.snap()
        X = Arr(X.axes, f, X.kind)
        self.root.seen.append(X)
        return Arr([X.axes[0]], lambda i: self.value(X, i[0]), 'num')


def reg_value(train, r):
    return tm.app('reg', train + (r,))


class SymBags:
    """any generator: the prevalences and the example numbers of n_bags bags (bags: axis 1)"""

    def __init__(self, w, n_bags, size, K, n, own=None):
        self.n_bags, self.asked = n_bags if own is None else own, []
        self.prev = w.mat('bag prevalences', K, n_bags, 0, 1)
        self.idx = w.arr('bag examples', (size, n_bags), 0, n - 1, isint=True)

    def sym_copy(self, it):
        c = type(self).__new__(type(self))
        c.__dict__.update(self.__dict__)
        return c

    def sym_isinstance(self, c): return getattr(c, 'qual', None) == 'quantificationlib.bag_generator.BagGenerator'

    def sym_getattr(self, it, name):
        if name == 'generate_bags':
            return lambda X, y: self.generate(it, X, y)
        if name == 'n_bags':
            return self.n_bags
        raise PyRaise(SExc('AttributeError', (name,)))

    def generate(self, it, X, y):
        if it.decide(tm.eq(tm.lift(self.n_bags), tm.lift(self.prev.axes[1][0].n))) is not True:
            raise Unsupported('another number of bags')
        self.asked.append((X, y))
        return self.prev, self.idx

    def sym_setattr(self, it, name, v):
        if name != 'n_bags':
            raise Unsupported('attribute %s set on a bag generator' % name)
        self.n_bags = v


class SymGen(SymBags):
    """any generator: prevalences and example numbers of the bags are functions of the data they are drawn from"""

    def __init__(self, n_bags, size, K): self.n_bags, self.size, self.K, self.asked = n_bags, size, K, []

    def generate(self, it, X, y):
        self.asked.append((X, y))
        by, n = (lam(X), lam(y)), arrays.axis_len(y.axes[0])
        tm.APP_BOUNDS['bagprev'] = lambda *a: (tm.ZERO, tm.ONE)
        tm.APP_BOUNDS['bagidx'] = lambda X, y, n, *a: (tm.ZERO, n - 1)
        ax = lambda k: arrays.axis(tm.lift(k))
        return (Arr([ax(self.K), ax(self.n_bags)], lambda i: tm.app('bagprev', by + (i[0][1], i[1][1])), 'num'),
                Arr([ax(self.size), ax(self.n_bags)], lambda i: tm.app('bagidx', by + (n, i[0][1], i[1][1]), True), 'num'))


class SymGLM:
    """assumed contract of statsmodels' GLM with a binomial family: after fit, the predicted mean of a row is a function
    of the parameters (a function of the training set) and of the row, strictly between 0 and 1"""

    def __init__(self, train):
        self.train = train

    def sym_subst(self, sub): return SymGLM(tuple(tm.subst(t, sub) for t in self.train))

    def sym_isinstance(self, c): return c.name in ('statsmodels.api.GLM', 'statsmodels.genmod.generalized_linear_model.GLM')

    def sym_setattr(self, it, name, v): raise Unsupported('attribute of a GLM')

    def sym_getattr(self, it, name):
        if name == 'fit':
            return lambda: SymFit(self.train)
        if name == 'predict':
            return self.predict
        raise Unsupported('GLM.' + name)

    def predict(self, params, exog=None):
        if not isinstance(params, SymParams) or exog is None:
            raise Unsupported('GLM.predict')
        if exog.ndim == 1:
            return glm_value(params.train, lam(exog))
        f = exog.snap()
        X = Arr(exog.axes, f, exog.kind)
        return Arr([X.axes[0]], lambda i: glm_value(params.train, row(X, i[0])), 'num')


class SymFit:
    def __init__(self, train): self.train = train

    def sym_subst(self, sub): return SymFit(tuple(tm.subst(t, sub) for t in self.train))

    def sym_setattr(self, it, name, v): raise Unsupported('attribute of a fitted GLM')

    def sym_getattr(self, it, name):
        if name == 'params':
            return SymParams(self.train)
        if name == 'predict':
            return lambda exog: SymGLM(self.train).predict(SymParams(self.train), exog)
        raise Unsupported('fitted GLM.' + name)


class SymParams:
    def __init__(self, train): self.train = train

    def sym_subst(self, sub): return SymParams(tuple(tm.subst(t, sub) for t in self.train))


tm.APP_BOUNDS['glm'] = lambda *a: (tm.ZERO, tm.ONE)


def glm_value(train, r):
    return tm.app('glm', train + (r,))


def glm(it, endog, exog, family=None):
    if family != 'binomial family':
        raise Unsupported('GLM family')
    if exog.ndim != 2 or endog.ndim != 1:
        raise Unsupported('GLM shapes')
    return SymGLM((lam(exog), lam(endog)))


# ------------------------------------------------------------------------------------------ quantifiers and ensembles of classifiers
def content(v):
    return tm.app('nothing', ()) if v is None else lam(v)


def quant_value(train, asked, K, k):
    if tm.lift(K).const() == 2:
        tm.STOCH.pop('quant', None)
        v = tm.app('quant', train + asked)
        k = tm.lift(k)
        if k.const() is not None:
            return v if k.const() == 1 else tm.ONE - v
        return tm.ite(tm.eq(k, tm.ONE), v, tm.ONE - v)
    tm.STOCH['quant'] = [(len(train + asked), tm.lift(K), None)]
    return tm.app('quant', train + asked + (tm.lift(k),))


tm.APP_BOUNDS['quant'] = lambda *a: (tm.ZERO, tm.ONE)


class SymQuant:
    """any quantifier: its estimate is a prevalence vector depending on what it was trained with and on what it is asked only"""

    def __init__(self, base, K, crisp=False, root=None, train=None, ests=(None, None)):
        arrays._cellno[0] += 1
        self.no = arrays._cellno[0]
        self.base, self.K, self.crisp, self.root, self.train = base, K, crisp, root or self, train
        self.trainings, self.questions, self.classes = [], [], set()
        self.estimator_train, self.estimator_test = ests

    def same(self, train, ests): return SymQuant(self.base, self.K, self.crisp, self.root, train, ests)

    def sym_copy(self, it): return self.same(self.train, (self.estimator_train, self.estimator_test))

    def sym_isinstance(self, c): return getattr(c, 'qual', None) in ('quantificationlib.base.' + self.base, 'quantificationlib.base.BaseQuantifier')

    def sym_subst(self, sub):
        e = tuple(x if x is None else x.sym_subst(sub) for x in (self.estimator_train, self.estimator_test))
        if e == (self.estimator_train, self.estimator_test) and (self.train is None or not any(v in t.fv for t in self.train for v in sub)):
            return self
        return self.same(self.train and tuple(tm.subst(t, sub) for t in self.train), e)

    def sym_setattr(self, it, name, v):
        if name not in ('estimator_train', 'estimator_test') or self.base != 'UsingClassifiers' or not (v is None or isinstance(v, SymPart)):
            raise Unsupported('attribute %s set on a quantifier' % name)
        it.setloc('attr', self, name, v)

    def sym_getattr(self, it, name):
        if name in ('estimator_train', 'estimator_test', 'needs_predictions_train') and self.base == 'UsingClassifiers':
            return getattr(self, name, True)
        if name == 'fit':
            return lambda X=None, y=None, predictions_train=None: self.fit(it, X, y, predictions_train)
        if name == 'predict':
            return lambda X=None, predictions_test=None: self.predict(it, X, predictions_test)
        if name == 'probabilistic_predictions':
            return not self.crisp
        if name == 'get_params':
            return lambda *a, **k: {}
        raise PyRaise(SExc('AttributeError', (name,)))

    def fit(self, it, X, y, preds):
        self.root.trainings.append(self)
        it.setloc('attr', self, 'train', (content(X), content(y), content(preds)) + self.part('estimator_train'))
        return self

    def part(self, name): return () if getattr(self, name) is None else (getattr(self, name).t,)

    def predict(self, it, X, preds):
        if self.train is None:
            raise PyRaise(SExc('NotFittedError'))
        asked, train = (content(X), content(preds)) + self.part('estimator_test'), self.train
        return Arr([arrays.axis(tm.lift(self.K))], lambda i: quant_value(train, asked, self.K, i[0][1]), 'num')


class SymPart:
    """one of the binary classifiers of a decomposition (known by its number)"""

    def __init__(self, name, i): self.name, self.i, self.t = name, tm.lift(i), tm.app('part ' + name, (tm.lift(i),))

    def sym_copy(self, it): raise Unsupported('copy of a classifier')

    def sym_subst(self, sub): return SymPart(self.name, tm.subst(self.i, sub)) if any(v in self.t.fv for v in sub) else self

    def sym_setattr(self, it, name, v): raise Unsupported('attribute %s set on a classifier' % name)

    def sym_getattr(self, it, name): raise Unsupported('%s of a classifier' % name)


class SymEnsemble:
    """any ensemble of classifiers with one classifier per bag (contract of EnsembleOfClassifiers)"""

    def __init__(self, name, classes, members, fitted):
        self.name, self.classes, self.members, self.fitted, self.calls = name, classes, members, fitted, []
        self.K = classes.axes[0][0].n
        self.nm = name + ('_given' if fitted else '_here')

    def sym_isinstance(self, c): return getattr(c, 'qual', None) == 'quantificationlib.estimators.ensembles.EnsembleOfClassifiers'

    def sym_setattr(self, it, name, v): raise Unsupported('attribute %s set on an ensemble' % name)

    def sym_getattr(self, it, name):
        if name == 'fit':
            return self.fit
        if name in ('predict', 'predict_proba'):
            return lambda X: self.answer(name, X)
        if name == 'get_params':
            return lambda *a, **k: {}
        raise PyRaise(SExc('AttributeError', (name,)))

    def fit(self, X, y, indexes):
        self.calls.append((X, y, indexes))
        self.fitted = True
        return self

    def answer(self, what, X):
        if not self.fitted:
            raise PyRaise(SExc('NotFittedError'))
        f = X.snap()
        X = Arr(X.axes, f, X.kind)
        Q = arrays.axis(tm.lift(self.members))
        if what == 'predict':
            g = self.classes.snap()
            return Arr([X.axes[0], Q], lambda i: g(((0, self.ci(X, i[0], i[1][1])),)), self.classes.kind)
        return Arr([X.axes[0], Q, arrays.axis(self.K)], lambda i: self.p(X, i[0], i[1][1], i[2][1]), 'num')

    def ci(self, X, i, q):
        nm, K = self.nm + '_ci', self.K
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, K - 1)
        if K.const() == 2:
            return tm.bapp(nm, (row(X, i), tm.lift(q))).t
        return tm.app(nm, (row(X, i), tm.lift(q)), True)

    def p(self, X, i, q, k):
        nm, K, k = self.nm + '_pp', self.K, tm.lift(k)
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, tm.ONE)
        if K.const() == 2:
            tm.STOCH.pop(nm, None)
            v = tm.app(nm, (row(X, i), tm.lift(q)))
            if k.const() is not None:
                return v if k.const() == 1 else tm.ONE - v
            return tm.ite(tm.eq(k, tm.ONE), v, tm.ONE - v)
        tm.STOCH[nm] = [(2, K, None)]
        return tm.app(nm, (row(X, i), tm.lift(q), k))


class SymClf:
    """any classifier: it knows the classes it was trained with, and posteriors and labels depend on the training set and on the example only"""

    def __init__(self, classes, root=None, train=None):
        arrays._cellno[0] += 1
        self.no = arrays._cellno[0]
        self.all, self.root, self.train = classes, root or self, train
        self.trainings = []

    def sym_copy(self, it): return SymClf(self.all, self.root, self.train)

    def sym_subst(self, sub):
        if self.train is None or not any(v in t.fv for t in self.train for v in sub):
            return self
        return SymClf(self.all, self.root, tuple(tm.subst(t, sub) for t in self.train))

    def sym_setattr(self, it, name, v): raise Unsupported('attribute %s set on a classifier' % name)

    def sym_getattr(self, it, name):
        if name == 'fit':
            return lambda X, y: self.fit(it, X, y)
        if name in ('predict', 'predict_proba', 'classes_'):
            if self.train is None:
                raise PyRaise(SExc('NotFittedError' if name != 'classes_' else 'AttributeError'))
            return getattr(self, name)() if name == 'classes_' else getattr(self, name)
        if name == 'get_params':
            return lambda *a, **k: {}
        raise PyRaise(SExc('AttributeError', (name,)))

    def fit(self, it, X, y):
        if X.ndim != 2 or y.ndim != 1:
            raise PyRaise(SExc('ValueError'))
        self.root.trainings.append(self)
        it.setloc('attr', self, 'train', (lam(X), lam(y)))
        return self

    def axis(self):
        y = self.train[1]
        return arrays.filt(self.all.axes[0], lambda i: clf_knows(y, i[1]))

    def classes_(self):
        r = Arr([self.axis()], self.all.snap(), self.all.kind)
        r.meta['subset_of'] = self.all
        return r

    def predict(self, X):
        g, K, train = self.all.snap(), self.all.axes[0][0].n, self.train
        f = X.snap()
        X = Arr(X.axes, f, X.kind)
        return Arr([X.axes[0]], lambda i: g(((0, clf_label(train, row(X, i[0]), K)),)), self.all.kind)

    def predict_proba(self, X):
        train = self.train
        f = X.snap()
        X = Arr(X.axes, f, X.kind)
        return Arr([X.axes[0], self.axis()], lambda i: clf_p(train, row(X, i[0]), i[1][1]), 'num')


tm.APP_BOUNDS['clf!'] = lambda *a: (tm.ZERO, tm.ONE)


def clf_knows(y, k): return tm.bapp('occurs!', (y, tm.lift(k)))


def clf_p(train, r, k): return tm.app('clf!', train + (r, tm.lift(k)))


def clf_label(train, r, K):
    tm.APP_BOUNDS['clflab!'] = lambda *a: (tm.ZERO, K - 1)
    if K.const() == 2:
        return tm.bapp('clflab2!', train + (r,)).t
    return tm.app('clflab!', train + (r,), True)
