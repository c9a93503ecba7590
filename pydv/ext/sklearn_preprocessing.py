"""Assumed contracts of sklearn.preprocessing, as reference code for the symbolic side"""
import numpy as np


class LabelBinarizer:
    def __init__(self, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label = neg_label
        self.pos_label = pos_label
        self.sparse_output = sparse_output

    def fit(self, y):
        self.classes_ = np.unique(y)
        return self

    def transform(self, y):
        K = len(self.classes_)
        if K == 2:
            return ((y == self.classes_[1]) * (self.pos_label - self.neg_label) + self.neg_label).reshape((-1, 1)).astype(int)
        r = np.zeros((len(y), K), dtype=int)
        for k in range(K):
            r[:, k] = (y == self.classes_[k]) * (self.pos_label - self.neg_label) + self.neg_label
        return r

    def fit_transform(self, y):
        return self.fit(y).transform(y)


class LabelEncoder:
    def fit(self, y):
        self.classes_ = np.unique(y)
        return self

    def transform(self, y):
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        return self.classes_[y]
