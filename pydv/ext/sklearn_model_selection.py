"""Assumed contracts of sklearn.model_selection, for splits given as a list of (training, test) positions"""
from sklearn.base import clone


class GivenSplits:
    def __init__(self, splits):
        self.splits = list(splits)

    def split(self, X=None, y=None, groups=None):
        return [(train, test) for train, test in self.splits]


def check_cv(cv=5, y=None, classifier=False):
    if isinstance(cv, GivenSplits):
        return cv
    if not isinstance(cv, list):
        raise NotImplementedError
    return GivenSplits(cv)


def cross_validate(estimator, X, y=None, groups=None, cv=None, n_jobs=None, verbose=0, fit_params=None, pre_dispatch=None, return_estimator=False):
    estimators = []
    for train, test in cv:
        e = clone(estimator)
        e.fit(X[train], y[train])
        estimators.append(e)
    return {'estimator': estimators}
