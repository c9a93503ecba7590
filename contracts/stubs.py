"""Concrete stand-ins for the components a user supplies (classifiers, quantifiers), which record how they are used.
They derive from the real base classes of the library, or of scikit-learn, where the library asks for that."""
import zlib
import numpy as np
from sklearn.utils.validation import check_is_fitted
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from quantificationlib.base import UsingClassifiers, WithoutClassifiers


def key(*arrays):
    """a number depending on the contents only"""
    h = 0
    for a in arrays:
        h = zlib.crc32(repr(a.tolist() if hasattr(a, 'tolist') else a).encode(), h)
    return h


def noise(k, shape, style='any'):
    """values in [0, 1] fixed by k"""
    r = np.random.RandomState(k % 2**32)
    v = r.rand(*shape)
    if style == 'steps' or style == 'any' and k % 4 == 0:
        v = np.round(v * 4) / 4
    return v


class Clf(ClassifierMixin, BaseEstimator):
    """posteriors depend on the training set and on each example only; `log` (shared) receives each training set"""
    def __init__(self, tag=0, style='any'):
        self.tag, self.style = tag, style

    def fit(self, X, y):
        if hasattr(self, 'X_'):
            self.refitted_ = True
        self.X_, self.y_ = np.array(X), np.array(y)
        self.classes_ = np.unique(self.y_)
        self.key_ = key(self.X_, self.y_, self.tag)
        return self

    def predict_proba(self, X):
        check_is_fitted(self)
        X = np.asarray(X)
        K = len(self.classes_)
        p = np.array([noise(key(x) ^ self.key_, (K,), self.style) for x in X]).reshape(len(X), K)
        if K == 2:
            p[:, 0] = 1 - p[:, 1]
            return p
        p += 1e-9
        return p / p.sum(axis=1, keepdims=True)

    def predict(self, X):
        p = self.predict_proba(X)
        return self.classes_[np.argmax(p, axis=1)]


class Reg(RegressorMixin, BaseEstimator):
    def __init__(self, tag=0, scale=1.0):
        self.tag, self.scale = tag, scale

    def fit(self, X, y):
        if hasattr(self, 'X_'):
            self.refitted_ = True
        self.X_, self.y_ = np.array(X), np.array(y)
        self.key_ = key(self.X_, self.y_, self.tag)
        return self

    def predict(self, X):
        self.seen_ = np.array(X)
        return np.array([(noise(key(x) ^ self.key_, (), 'steps') * 2 - .5) * self.scale for x in np.asarray(X)])


class _Q:
    def _note(self, X, y, preds):
        if getattr(self, 'X_', None) is not None:
            self.refitted_ = True
        self.X_, self.y_, self.preds_ = X, np.array(y), preds
        self.classes_ = np.unique(y)

    def _answer(self, X, preds):
        self.asked_ = (X, preds)
        K = len(self.classes_)
        if self.script is not None:
            v = self.script(self, X, preds)
        else:
            v = noise(key(np.asarray(X), self.y_, [] if preds is None else np.asarray(preds), self.tag), (K,))
        if K == 2:
            v = np.array([1 - v[1], v[1]])
        else:
            v = (v + 1e-9) / (v + 1e-9).sum()
        self.said_ = v
        return v


class QWith(_Q, UsingClassifiers):
    def __init__(self, estimator_train=None, estimator_test=None, tag=0, script=None, verbose=0, needs=True):
        super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, verbose=verbose, needs_predictions_train=needs)
        self.tag, self.script = tag, script

    def fit(self, X, y, predictions_train=None):
        self._note(X, y, predictions_train)
        return self

    def predict(self, X, predictions_test=None):
        return self._answer(X, predictions_test)


class QWithout(_Q, WithoutClassifiers):
    def __init__(self, tag=0, script=None, verbose=0):
        super().__init__(verbose=verbose)
        self.tag, self.script = tag, script

    def fit(self, X, y):
        self._note(X, y, None)
        return self

    def predict(self, X):
        return self._answer(X, None)


def bags(which, n_bags, bag_size, seed):
    """a bag generator: the real ones, or one with arbitrary bags"""
    from quantificationlib import bag_generator as bg
    if which != 'arbitrary':
        return getattr(bg, which)(n_bags=n_bags, bag_size=bag_size, random_state=seed)

    class Arbitrary(bg.BagGenerator):
        def __init__(self):
            self.n_bags, self.bag_size = n_bags, bag_size

        def generate_bags(self, X, y):
            r = np.random.RandomState(seed)
            size = len(y) if bag_size is None else bag_size
            i = r.randint(0, len(y), (size, self.n_bags))
            p = np.array([[np.mean(np.asarray(y)[i[:, b]] == c) for b in range(self.n_bags)] for c in np.unique(y)])
            return p, i
    return Arbitrary()


GENERATORS = ['PriorShift_BagGenerator', 'CovariateShift_BagGenerator', 'PriorAndCovariateShift_BagGenerator', 'arbitrary']


def histogram(x, cuts):
    """proportions of the values in [c0, c1), [c1, c2), ..., [c(m-1), cm]"""
    x = np.asarray(x)
    m = len(cuts) - 1
    out = np.zeros(m)
    for v in x:
        for j in range(m):
            if cuts[j] <= v < cuts[j + 1] or (j == m - 1 and v == cuts[m]):
                out[j] += 1
                break
    return out / len(x)
