"""Assumed contracts of sklearn.multiclass (training and predictions are given by the contract that uses it)"""


class OneVsRestClassifier:
    def __init__(self, estimator):
        self.estimator = estimator

    def fit(self, X, y):
        raise NotImplementedError

    def predict(self, X):
        raise NotImplementedError

    def predict_proba(self, X):
        raise NotImplementedError
